// Arrays of equally shaped values against a model in memory
#include "inject.hpp"
#include "dump.hpp"
#include "lue/array/same_shape/constant_shape/value.hpp"
#include "lue/array/same_shape/value.hpp"
#include <cstring>
#include <numeric>

using namespace lue::data_model;
namespace h5 = lue::hdf5;

template<typename T> h5::Datatype native() { return h5::Datatype{h5::NativeDatatypeTraits<T>::type_id()}; }

struct Constant
{
    using Value = same_shape::constant_shape::Value;
    template<typename... A> static Value create(A&&... a) { return same_shape::constant_shape::create_value(a...); }
};
struct Same
{
    using Value = same_shape::Value;
    template<typename... A> static Value create(A&&... a) { return same_shape::create_value(a...); }
};

template<typename K, typename T> void round(h5::Group& top, std::string const& name, int rank, bool fill)
{
    std::string w = vf::cat("array ", name, " of rank ", rank);
    h5::Shape shape(rank);
    for (auto& x : shape) x = vf::rnd(1, 4);
    std::size_t cells = std::accumulate(shape.begin(), shape.end(), std::size_t{1}, std::multiplies<>{});
    T nodata = static_cast<T>(vf::rnd(1, 100));
    auto before = vf::dump(top.id());
    auto v = rank == 0 && vf::rnd(0, 1) ? K::create(top, name, native<T>(), static_cast<void const*>(fill ? &nodata : nullptr))
                                         : K::create(top, name, native<T>(), shape, static_cast<void const*>(fill ? &nodata : nullptr));
    auto after = vf::dump(top.id());
    vf::same_changes(before, after, {"+/g/" + name}, w + ": creation");
    std::string want = "dataset ";
    hid_t ft = h5::file_datatype(native<T>()).id();
    want += vf::type_text(ft) + " " + "( 0";
    for (auto x : shape) want += " " + std::to_string(x);
    want += " )/( *";
    for (auto x : shape) want += " " + std::to_string(x);
    want += " )";
    if (fill)
    {
        std::vector<unsigned char> b(sizeof(T));
        std::memcpy(b.data(), &nodata, sizeof(T));
        want += " filled " + vf::hex(b);
    }
    vf::check(after["/g/" + name] == want, w + ": stored as " + after["/g/" + name] + " instead of " + want);
    vf::check(vf::throws([&] { K::create(top, name, native<T>(), shape, static_cast<void const*>(nullptr)); }), w + ": creating it twice succeeds");
    std::vector<std::vector<T>> model;
    for (int step = 0; step < 12; ++step)
    {
        int op = vf::rnd(0, 5);
        before = vf::dump(top.id());
        std::set<std::string> changed;
        if (op == 0 || model.empty())
        {
            long n = vf::rnd(0, 5);
            v.expand(n);
            bool none = model.empty() && n > 0;
            model.resize(model.size() + n, std::vector<T>(cells, fill ? nodata : T{0}));
            if (n && !fill)
            {
                // cells that have no fill value hold nothing before they are written
                std::vector<T> zero(cells * n, T{0});
                v.write(IndexRange(model.size() - n, model.size()), zero.data());
            }
            if (n) changed = {"~/g/" + name, none ? "+/g/" + name + "#" : "~/g/" + name + "#"};
        }
        else if (op <= 2)
        {
            std::size_t i = vf::rnd(0, model.size() - 1);
            std::vector<T> b(cells);
            for (auto& x : b) x = static_cast<T>(vf::rnd(101, 120));
            v.write(i, b.data());
            bool same = b == model[i];
            model[i] = b;
            if (!same) changed = {"~/g/" + name + "#"};
        }
        else if (op == 3)
        {
            std::size_t i = vf::rnd(0, model.size() - 1), j = vf::rnd(i + 1, model.size());
            std::vector<T> b(cells * (j - i));
            bool same = true;
            for (auto& x : b) x = static_cast<T>(vf::rnd(101, 120));
            v.write(IndexRange(i, j), b.data());
            for (auto k = i; k < j; ++k)
            {
                std::vector<T> o(b.begin() + (k - i) * cells, b.begin() + (k - i + 1) * cells);
                same = same && o == model[k];
                model[k] = o;
            }
            if (!same) changed = {"~/g/" + name + "#"};
        }
        else if (op == 4)
            v = typename K::Value{top, name};
        else
            v = typename K::Value{top, name, native<T>()};
        vf::same_changes(before, vf::dump(top.id()), changed, vf::cat(w, ": step ", op));
        vf::check(v.nr_arrays() == model.size(), vf::cat(w, ": ", v.nr_arrays(), " objects instead of ", model.size()));
        vf::check(v.array_shape() == shape, w + ": value shape");
        for (std::size_t i = 0; i < model.size(); ++i)
        {
            std::vector<T> b(cells, T{1});
            v.read(i, b.data());
            vf::check(b == model[i], vf::cat(w, ": object ", i, " of ", model.size(), " reads as ", vf::list(b), " instead of ", vf::list(model[i])));
        }
        if (!model.empty())
        {
            std::size_t i = vf::rnd(0, model.size() - 1), j = vf::rnd(i + 1, model.size());
            std::vector<T> b(cells * (j - i));
            v.read(IndexRange(i, j), b.data());
            bool ok = true;
            for (auto k = i; k < j; ++k) ok = ok && std::equal(model[k].begin(), model[k].end(), b.begin() + (k - i) * cells);
            vf::check(ok, vf::cat(w, ": objects [", i, ", ", j, ") read as others"));
        }
    }
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    h5::File f{h5::create_file("p08.h5")};
    h5::Group top{h5::create_group(f, "g")};
    auto near = Same::create(top, "near", native<int>(), h5::Shape{2, 3}, static_cast<void const*>(nullptr));
    near.expand(2);
    for (int i = 0; i < (vf::thorough ? 60 : 10); ++i)
    {
        int r = i < 5 ? i : vf::rnd(0, 5);
        vf::scenario("constant", [&] { round<Constant, std::int32_t>(top, vf::cat("c", i), r, i % 2); });
        vf::scenario("constant", [&] { round<Constant, double>(top, vf::cat("cd", i), r, i % 3 == 0); });
        vf::scenario("constant", [&] { round<Constant, std::uint8_t>(top, vf::cat("cu", i), r, i % 3 == 0); });
        vf::scenario("same", [&] { round<Same, std::int64_t>(top, vf::cat("s", i), r, i % 2); });
        vf::scenario("same", [&] { round<Same, float>(top, vf::cat("sf", i), r, i % 3 == 0); });
    }
    vf::scenario("memory type", [&] {
        auto v = Same::create(top, "mixed", h5::file_datatype(native<std::int16_t>()), native<double>(), h5::Shape{2}, static_cast<void const*>(nullptr));
        v.expand(3);
        double z[6] = {};
        v.write(IndexRange(0, 3), z);
        double b[2] = {7, 8};
        v.write(1, b);
        Same::Value r{top, "mixed"};
        std::int16_t q[6];
        r.read(IndexRange(0, 3), q);
        vf::check(q[2] == 7 && q[3] == 8 && q[0] == 0 && q[5] == 0, "elements stored as another type than given");
    });
    auto a = Constant::create(top, "failing", native<int>(), h5::Shape{2, 2}, static_cast<void const*>(nullptr));
    a.expand(3);
    int b[12] = {};
    a.write(IndexRange(0, 3), b);
    vf::each_failure("expand", [&] { a.expand(2); });
    vf::each_failure("write", [&] { a.write(1, b); });
    vf::each_failure("read", [&] { a.read(1, b); });
    vf::each_failure("read of a range", [&] { a.read(IndexRange(0, 2), b); });
    vf::each_failure("create", [&] { Constant::create(top, "new", native<int>(), h5::Shape{2, 2}, static_cast<void const*>(nullptr)); }, "H5Lexists");
    vf::sample("arrays of rank 0 to 5 of five element types, 12 steps each, checked against a model and the whole file");
    return vf::done();
}
