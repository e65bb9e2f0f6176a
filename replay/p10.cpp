// Values of a shape per object against a model in memory
#include "inject.hpp"
#include "dump.hpp"
#include "lue/array/different_shape/constant_shape/value.hpp"
#include "lue/array/different_shape/value.hpp"
#include <algorithm>
#include <cstring>
#include <map>
#include <numeric>

using namespace lue::data_model;
namespace h5 = lue::hdf5;

template<typename T> h5::Datatype native() { return h5::Datatype{h5::NativeDatatypeTraits<T>::type_id()}; }

h5::Shape shape_of(int rank)
{
    h5::Shape s(rank);
    for (auto& x : s) x = vf::rnd(1, 4);
    return s;
}

std::size_t cells_of(h5::Shape const& s) { return std::accumulate(s.begin(), s.end(), std::size_t{1}, std::multiplies<>{}); }

template<typename T> std::vector<T> values(std::size_t n)
{
    std::vector<T> v(n);
    for (auto& x : v) x = static_cast<T>(vf::rnd(1, 120));
    return v;
}

template<typename T> std::string stored(h5::Shape s, bool grows)
{
    std::string w = "dataset " + vf::type_text(h5::file_datatype(native<T>()).id()) + " (", m;
    for (auto x : s) w += " " + std::to_string(x);
    for (std::size_t i = 0; i < s.size(); ++i) m += i == 0 && grows ? " *" : " " + std::to_string(s[i]);
    return w + " )/(" + m + " )";
}

std::size_t index()
{
    switch (vf::rnd(0, 5))
    {
        case 0: return vf::rnd(1L << 40, 1L << 50);
        case 1: return 18446744073709551615UL - vf::rnd(0, 9);
        case 2: return vf::rnd(10, 12000);
        default: return vf::rnd(0, 15);
    }
}


template<typename T> struct Object { h5::Shape shape; std::vector<T> data; };

// Distinct ids which are no objects yet
template<typename M> std::vector<ID> fresh(M const& model, int n)
{
    std::set<ID> used;
    while (static_cast<int>(used.size()) < n)
    {
        ID d = index();
        if (!model.count(d)) used.insert(d);
    }
    std::vector<ID> r(used.begin(), used.end());
    std::shuffle(r.begin(), r.end(), vf::rng);
    return r;
}

template<typename T> void per_location(h5::Group& top, std::string const& name, int rank)
{
    using V = different_shape::Value;
    std::string w = vf::cat("value ", name, " of rank ", rank);
    auto before = vf::dump(top.id());
    auto v = different_shape::create_value(top, name, native<T>(), rank);
    auto g = "/g/" + name;
    vf::same_changes(before, vf::dump(top.id()), {"+" + g, "+" + g + "@lue_rank", "+" + g + "@lue_datatype", "+" + g + "@lue_nr_objects"}, w + ": creation");
    std::map<ID, Object<T>> model;
    for (int step = 0; step < 8; ++step)
    {
        before = vf::dump(top.id());
        int how = vf::rnd(0, 3);
        std::vector<ID> ids = fresh(model, how < 2 ? vf::rnd(0, 5) : 1);
        std::vector<h5::Shape> shapes;
        std::vector<hsize_t> extents;
        for (auto x : ids)
        {
            shapes.push_back(shape_of(rank));
            extents.insert(extents.end(), shapes.back().begin(), shapes.back().end());
        }
        T nodata = static_cast<T>(vf::rnd(1, 100));
        if (how == 0) v.expand(ids.size(), ids.data(), shapes.data());
        else if (how == 1) v.expand(ids.size(), ids.data(), extents.data());
        else if (how == 2) v.expand(ids[0], shapes[0]);
        else v.expand(ids[0], shapes[0], &nodata);
        auto after = vf::dump(top.id());
        std::set<std::string> want;
        if (!ids.empty()) want.insert("~" + g + "@lue_nr_objects");
        for (std::size_t k = 0; k < ids.size(); ++k)
        {
            auto q = g + "/" + std::to_string(ids[k]);
            want.insert("+" + q);
            want.insert("+" + q + "#");
            auto t = stored<T>(shapes[k], false);
            if (how == 3)
            {
                std::vector<unsigned char> b(sizeof(T));
                std::memcpy(b.data(), &nodata, sizeof(T));
                t += " filled " + vf::hex(b);
            }
            vf::check(after[q] == t, vf::cat(w, ": object ", ids[k], " stored as ", after[q], " instead of ", t));
        }
        vf::same_changes(before, after, want, vf::cat(w, ": ", ids.size(), " objects"));
        for (std::size_t k = 0; k < ids.size(); ++k)
        {
            auto b = values<T>(cells_of(shapes[k]));
            if (how == 3)
            {
                std::vector<T> c(b.size());
                v[ids[k]].read(c.data());
                vf::check(c == std::vector<T>(b.size(), nodata), w + ": a new object holds others than the no-data value");
            }
            v[ids[k]].write(b.data());
            model[ids[k]] = {shapes[k], b};
        }
        if (!model.empty() && step == 4)
        {
            vf::check(!v.contains(fresh(model, 1)[0]), w + ": an object that was not added is found");
        }
        if (vf::rnd(0, 2) == 0) v = vf::rnd(0, 1) ? V{top, name} : V{top, name, native<T>()};
        vf::check(v.nr_objects() == model.size(), vf::cat(w, ": ", v.nr_objects(), " objects instead of ", model.size()));
        vf::check(V{top, name}.nr_objects() == model.size(), vf::cat(w, ": ", V{top, name}.nr_objects(), " objects stored instead of ", model.size()));
        for (auto& [d, o] : model)
        {
            auto a = v[d];
            vf::check(v.contains(d) && a.shape() == o.shape, vf::cat(w, ": object ", d, " has shape ", vf::list(a.shape()), " instead of ", vf::list(o.shape)));
            std::vector<T> b(o.data.size());
            if (a.shape() == o.shape) a.read(b.data());
            vf::check(b == o.data, vf::cat(w, ": object ", d, " reads as ", vf::list(b), " instead of ", vf::list(o.data)));
        }
    }
}

template<typename T> void constant(h5::Group& top, std::string const& name, int rank)
{
    using V = different_shape::constant_shape::Value;
    std::string w = vf::cat("value ", name, " of rank ", rank);
    auto v = different_shape::constant_shape::create_value(top, name, native<T>(), rank);
    auto g = "/g/" + name;
    std::map<ID, Object<T>> model;
    std::map<ID, std::size_t> times;
    for (int step = 0; step < 8; ++step)
    {
        auto before = vf::dump(top.id());
        bool one = vf::rnd(0, 1);
        std::vector<ID> ids = fresh(model, one ? 1 : vf::rnd(0, 5));
        std::vector<h5::Shape> shapes;
        std::vector<Count> n;
        for (auto x : ids)
        {
            shapes.push_back(shape_of(rank));
            n.push_back(vf::rnd(0, 3));
        }
        if (one) v.expand(ids[0], shapes[0], n[0]);
        else v.expand(ids.size(), ids.data(), shapes.data(), n.data());
        auto after = vf::dump(top.id());
        std::set<std::string> want;
        if (!ids.empty()) want.insert("~" + g + "@lue_nr_objects");
        for (std::size_t k = 0; k < ids.size(); ++k)
        {
            auto q = g + "/" + std::to_string(ids[k]);
            want.insert("+" + q);
            if (n[k]) want.insert("+" + q + "#");
            auto all = shapes[k];
            all.insert(all.begin(), n[k]);
            auto t = stored<T>(all, true);
            vf::check(after[q] == t, vf::cat(w, ": object ", ids[k], " stored as ", after[q], " instead of ", t));
            auto b = values<T>(cells_of(all));
            if (n[k]) v[ids[k]].write(IndexRange(0, n[k]), b.data());
            model[ids[k]] = {shapes[k], b};
            times[ids[k]] = n[k];
        }
        vf::same_changes(before, after, want, vf::cat(w, ": ", ids.size(), " objects"));
        if (vf::rnd(0, 2) == 0) v = vf::rnd(0, 1) ? V{top, name} : V{top, name, native<T>()};
        vf::check(!v.exists(fresh(model, 1)[0]), w + ": an object that was not added is found");
        vf::check(v.nr_objects() == model.size() && V(top, name).nr_objects() == model.size(), vf::cat(w, ": ", v.nr_objects(), " objects instead of ", model.size()));
        for (auto& [d, o] : model)
        {
            auto a = v[d];
            vf::check(v.exists(d) && a.array_shape() == o.shape && a.nr_arrays() == times[d], vf::cat(w, ": object ", d, " has another shape"));
            std::vector<T> b(o.data.size());
            if (times[d]) a.read(IndexRange(0, times[d]), b.data());
            vf::check(b == o.data, vf::cat(w, ": object ", d, " reads as ", vf::list(b), " instead of ", vf::list(o.data)));
        }
    }
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    h5::File f{h5::create_file("p10.h5")};
    h5::Group top{h5::create_group(f, "g")};
    for (int i = 0; i < (vf::thorough ? 60 : 8); ++i)
    {
        vf::scenario("per location", [&] { per_location<std::int32_t>(top, vf::cat("l", i), 1 + i % 4); });
        vf::scenario("per location", [&] { per_location<double>(top, vf::cat("ld", i), 1 + i % 3); });
        vf::scenario("constant", [&] { constant<std::int32_t>(top, vf::cat("c", i), i % 4); });
        vf::scenario("constant", [&] { constant<std::uint8_t>(top, vf::cat("cu", i), i % 5); });
    }
    vf::scenario("memory types", [&] {
        different_shape::create_value(top, "mixed", native<std::int16_t>(), 1);
        different_shape::Value v{top, "mixed", native<double>()};
        v.expand(4, h5::Shape{2});
        double b[2] = {7, 8}, c[2] = {};
        v[4].write(b);
        different_shape::Value{top, "mixed", native<double>()}[4].read(c);
        vf::check(c[0] == 7 && c[1] == 8, "an object read back with the memory type of its value");
        std::int16_t q[2];
        different_shape::Value{top, "mixed"}[4].read(q);
        vf::check(q[0] == 7 && q[1] == 8, "an object read back with the type stored");
    });
    auto d = different_shape::create_value(top, "failing", native<int>(), 1);
    auto c = different_shape::constant_shape::create_value(top, "failing_c", native<int>(), 1);
    ID at = 0;
    h5::Shape s[2] = {{2}, {3}};
    Count t[2] = {1, 2};
    d.expand(1000, s[0]);
    c.expand(1000, s[0], 2);
    vf::each_failure("expand", [&] { d.expand(at++, s[0]); }, "H5Lexists");
    vf::each_failure("expand by several", [&] { ID i[2] = {at, at + 1}; at += 2; d.expand(2, i, s); }, "H5Lexists");
    vf::each_failure("expand, constant shape", [&] { c.expand(at++, s[0], 2); }, "H5Lexists");
    vf::each_failure("expand by several, constant shape", [&] { ID i[2] = {at, at + 1}; at += 2; c.expand(2, i, s, t); }, "H5Lexists");
    vf::each_failure("open an object", [&] { d[1000]; });
    vf::each_failure("open an object, constant shape", [&] { c[1000]; });
    vf::sample("values of rank 0 to 4 (1 to 4 where shapes differ), eight additions each, checked against a model and the whole file");
    return vf::done();
}
