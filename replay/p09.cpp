// Values per location in time against a model in memory
#include "inject.hpp"
#include "dump.hpp"
#include "lue/array/different_shape/variable_shape/value.hpp"
#include "lue/array/same_shape/variable_shape/value.hpp"
#include <map>
#include <numeric>

using namespace lue::data_model;
namespace h5 = lue::hdf5;

template<typename T> h5::Datatype native() { return h5::Datatype{h5::NativeDatatypeTraits<T>::type_id()}; }

h5::Shape shape_of(int rank)
{
    h5::Shape s(rank);
    for (auto& x : s) x = vf::rnd(1, 4);
    return s;
}

std::size_t cells_of(h5::Shape const& s) { return std::accumulate(s.begin(), s.end(), std::size_t{1}, std::multiplies<>{}); }

template<typename T> std::vector<T> values(std::size_t n)
{
    std::vector<T> v(n);
    for (auto& x : v) x = static_cast<T>(vf::rnd(1, 120));
    return v;
}

template<typename T> std::string stored(h5::Shape s, bool grows)
{
    std::string w = "dataset " + vf::type_text(h5::file_datatype(native<T>()).id()) + " (", m;
    for (auto x : s) w += " " + std::to_string(x);
    for (std::size_t i = 0; i < s.size(); ++i) m += i == 0 && grows ? " *" : " " + std::to_string(s[i]);
    return w + " )/(" + m + " )";
}

std::size_t index()
{
    switch (vf::rnd(0, 5))
    {
        case 0: return vf::rnd(1L << 40, 1L << 50);
        case 1: return 18446744073709551615UL - vf::rnd(0, 9);
        case 2: return vf::rnd(10, 12000);
        default: return vf::rnd(0, 15);
    }
}

template<typename T> void same(h5::Group& top, std::string const& name, int rank)
{
    using V = same_shape::variable_shape::Value;
    std::string w = vf::cat("value ", name, " of rank ", rank);
    auto before = vf::dump(top.id());
    auto v = same_shape::variable_shape::create_value(top, name, native<T>(), rank);
    auto after = vf::dump(top.id());
    vf::same_changes(before, after, {"+/g/" + name, "+/g/" + name + "@lue_rank", "+/g/" + name + "@lue_datatype", "+/g/" + name + "@lue_nr_locations_in_time"}, w + ": creation");
    struct Location { h5::Shape shape; std::vector<T> data; std::size_t n; };
    std::map<std::size_t, Location> model;
    for (int step = 0; step < 10; ++step)
    {
        before = vf::dump(top.id());
        auto i = step == 7 && !model.empty() ? model.begin()->first : index();
        auto s = shape_of(rank);
        std::size_t n = vf::rnd(0, 4);
        if (model.count(i))
        {
            vf::check(vf::throws([&] { v.expand(i, n, s); }), vf::cat(w, ": location ", i, " is added twice"));
            vf::same_changes(before, vf::dump(top.id()), {}, w + ": refused location");
        }
        else
        {
            auto a = v.expand(i, n, s);
            auto all = s;
            all.insert(all.begin(), n);
            auto p = "/g/" + name + "/" + std::to_string(i);
            after = vf::dump(top.id());
            vf::same_changes(before, after, n ? std::set<std::string>{"+" + p, "+" + p + "#", "~/g/" + name + "@lue_nr_locations_in_time"} : std::set<std::string>{"+" + p, "~/g/" + name + "@lue_nr_locations_in_time"}, vf::cat(w, ": location ", i));
            vf::check(after[p] == stored<T>(all, true), vf::cat(w, ": location ", i, " stored as ", after[p], " instead of ", stored<T>(all, true)));
            auto b = values<T>(cells_of(all));
            if (n) a.write(IndexRange(0, n), b.data());
            if (n) vf::same_changes(after, vf::dump(top.id()), {"~" + p + "#"}, vf::cat(w, ": writing location ", i));
            model[i] = {s, b, n};
        }
        if (vf::rnd(0, 2) == 0) v = vf::rnd(0, 1) ? V{top, name} : V{top, name, native<T>()};
        vf::check(v.nr_locations_in_time() == model.size(), vf::cat(w, ": ", v.nr_locations_in_time(), " locations instead of ", model.size()));
        for (auto& [j, l] : model)
        {
            auto a = v[j];
            vf::check(a.nr_arrays() == l.n && a.array_shape() == l.shape, vf::cat(w, ": location ", j, " holds others than created"));
            std::vector<T> b(l.data.size());
            if (l.n) a.read(IndexRange(0, l.n), b.data());
            vf::check(b == l.data, vf::cat(w, ": location ", j, " reads as ", vf::list(b), " instead of ", vf::list(l.data)));
        }
        auto absent = index();
        if (!model.count(absent)) vf::check(vf::throws([&] { v[absent]; }), vf::cat(w, ": location ", absent, " opens without having been added"));
    }
}

template<typename T> void different(h5::Group& top, std::string const& name, int rank)
{
    using V = different_shape::variable_shape::Value;
    std::string w = vf::cat("value ", name, " of rank ", rank);
    auto v = different_shape::variable_shape::create_value(top, name, native<T>(), rank);
    struct Object { h5::Shape shape; std::vector<T> data; };
    std::map<std::size_t, std::map<ID, Object>> model;
    for (int step = 0; step < 8; ++step)
    {
        auto before = vf::dump(top.id());
        auto i = step == 5 && !model.empty() ? model.begin()->first : index();
        int n = vf::rnd(0, 4);
        std::vector<ID> ids;
        std::vector<h5::Shape> shapes;
        std::set<ID> used;
        while (static_cast<int>(ids.size()) < n)
        {
            ID d = index();
            if (!used.insert(d).second) continue;
            ids.push_back(d);
            shapes.push_back(shape_of(rank));
        }
        if (model.count(i))
        {
            vf::check(vf::throws([&] { v.expand(i, n, ids.data(), shapes.data()); }), vf::cat(w, ": location ", i, " is added twice"));
            vf::same_changes(before, vf::dump(top.id()), {}, w + ": refused location");
        }
        else
        {
            auto g = v.expand(i, n, ids.data(), shapes.data());
            auto p = "/g/" + name + "/" + std::to_string(i);
            std::set<std::string> want{"+" + p, "+" + p + "@lue_rank", "+" + p + "@lue_datatype", "+" + p + "@lue_nr_objects", "~/g/" + name + "@lue_nr_locations_in_time"};
            auto after = vf::dump(top.id());
            model[i];
            for (int k = 0; k < n; ++k)
            {
                auto q = p + "/" + std::to_string(ids[k]);
                want.insert("+" + q);
                want.insert("+" + q + "#");
                vf::check(after[q] == stored<T>(shapes[k], false), vf::cat(w, ": object ", ids[k], " stored as ", after[q], " instead of ", stored<T>(shapes[k], false)));
            }
            vf::same_changes(before, after, want, vf::cat(w, ": location ", i));
            for (int k = 0; k < n; ++k)
            {
                auto b = values<T>(cells_of(shapes[k]));
                g[ids[k]].write(b.data());
                model[i][ids[k]] = {shapes[k], b};
            }
            vf::check(g.nr_objects() == static_cast<Count>(n), w + ": number of objects of a new location");
        }
        if (vf::rnd(0, 2) == 0) v = vf::rnd(0, 1) ? V{top, name} : V{top, name, native<T>()};
        vf::check(v.nr_locations_in_time() == model.size(), vf::cat(w, ": ", v.nr_locations_in_time(), " locations instead of ", model.size()));
        for (auto& [j, l] : model)
        {
            auto g = v[j];
            vf::check(g.nr_objects() == l.size(), vf::cat(w, ": objects at location ", j));
            for (auto& [d, o] : l)
            {
                auto a = g[d];
                vf::check(g.contains(d) && a.shape() == o.shape, vf::cat(w, ": object ", d, " at ", j, " has another shape"));
                std::vector<T> b(o.data.size());
                a.read(b.data());
                vf::check(b == o.data, vf::cat(w, ": object ", d, " at ", j, " reads as ", vf::list(b), " instead of ", vf::list(o.data)));
            }
        }
    }
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    h5::File f{h5::create_file("p09.h5")};
    h5::Group top{h5::create_group(f, "g")};
    for (int i = 0; i < (vf::thorough ? 60 : 8); ++i)
    {
        vf::scenario("same shape", [&] { same<std::int32_t>(top, vf::cat("s", i), i % 5); });
        vf::scenario("same shape", [&] { same<double>(top, vf::cat("sd", i), i % 5); });
        vf::scenario("different shape", [&] { different<std::int32_t>(top, vf::cat("d", i), 1 + i % 4); });
        vf::scenario("different shape", [&] { different<std::uint8_t>(top, vf::cat("du", i), 1 + i % 3); });
    }
    vf::scenario("memory types", [&] {
        same_shape::variable_shape::create_value(top, "mixed", h5::file_datatype(native<std::int16_t>()), native<std::int16_t>(), 1);
        same_shape::variable_shape::Value v{top, "mixed", native<double>()};
        auto a = v.expand(0, 1, h5::Shape{2});
        double b[2] = {7, 8};
        a.write(0, b);
        double c[2] = {};
        v[0].read(0, c);
        vf::check(c[0] == 7 && c[1] == 8, "a location read back with the memory type of its value");
        same_shape::variable_shape::Value w{top, "mixed"};
        std::int16_t q[2];
        w[0].read(0, q);
        vf::check(q[0] == 7 && q[1] == 8, "a location read back with the type stored");
        different_shape::variable_shape::create_value(top, "mixed_d", native<std::int16_t>(), 1);
        different_shape::variable_shape::Value x{top, "mixed_d", native<double>()};
        ID id = 4;
        h5::Shape s{2};
        x.expand(3, 1, &id, &s)[4].write(b);
        c[0] = c[1] = 0;
        x[3][4].read(c);
        vf::check(c[0] == 7 && c[1] == 8, "an object read back with the memory type of its value");
    });
    auto sv = same_shape::variable_shape::create_value(top, "failing", native<int>(), 1);
    auto dv = different_shape::variable_shape::create_value(top, "failing_d", native<int>(), 1);
    std::size_t at = 0;
    ID ids[2] = {1, 2};
    h5::Shape two[2] = {{2}, {3}};
    sv.expand(1000, 2, h5::Shape{2});
    vf::each_failure("expand", [&] { sv.expand(at++, 2, h5::Shape{2}); }, "H5Lexists");
    vf::each_failure("expand with objects", [&] { dv.expand(at++, 2, ids, two); }, "H5Lexists");
    vf::each_failure("open a location", [&] { sv[1000]; });
    vf::each_failure("create", [&] { same_shape::variable_shape::create_value(top, vf::cat("new", at++), native<int>(), 1); }, "H5Lexists");
    vf::sample("values of rank 0 to 4 (1 to 4 where shapes differ) with ten and eight locations each, checked against a model and the whole file");
    return vf::done();
}
