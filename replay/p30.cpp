// Identities of objects against a model
#include "inject.hpp"
#include "dump.hpp"
#include "lue/info/identity/object_id.hpp"
#include "lue/object/identity/object_tracker.hpp"

using namespace lue::data_model;
namespace h5 = lue::hdf5;
using V = std::vector<std::uint64_t>;

template<typename C, typename Nr, typename Open> void round(h5::Group& g, std::string const& path, C c, V& model, Nr nr, Open open)
{
    for (int step = 0; step < 10; ++step)
    {
        auto before = vf::dump(g.id());
        std::set<std::string> changed;
        int op = vf::rnd(0, 2);
        if (op == 0 || model.empty())
        {
            long n = vf::rnd(0, 4);
            c.expand(n);
            if (n)
            {
                V v(n);
                for (auto& x : v) x = vf::rng() | 1;
                c.write(IndexRange(model.size(), model.size() + n), v.data());
                changed = {"~" + path, (model.empty() ? "+" : "~") + path + "#"};
                model.insert(model.end(), v.begin(), v.end());
            }
        }
        else if (op == 1)
        {
            std::size_t i = vf::rnd(0, model.size() - 1);
            std::uint64_t x = vf::rng();
            c.write(static_cast<Index>(i), &x);
            if (x != model[i]) changed = {"~" + path + "#"};
            model[i] = x;
        }
        else
            c = open();
        vf::same_changes(before, vf::dump(g.id()), changed, path);
        vf::check(nr(c) == model.size(), path + ": size");
        vf::check(c.file_datatype() == h5::Datatype{H5T_STD_U64LE} && c.memory_datatype() == h5::Datatype{H5T_NATIVE_UINT64}, path + ": type");
        if (!model.empty())
        {
            V v(model.size());
            c.read(IndexRange(0, v.size()), v.data());
            vf::check(v == model, path + ": contents");
        }
    }
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    h5::File f{h5::create_file("p30.h5")};
    for (int k = 0; k < (vf::thorough ? 20 : 4); ++k)
    {
        h5::Group g{h5::create_group(f, vf::cat("g", k))};
        std::string p = vf::cat("/g", k);
        vf::scenario("identities", [&] {
            auto before = vf::dump(g.id());
            auto o = create_object_id(g);
            vf::same_changes(before, vf::dump(g.id()), {"+" + p + "/lue_object_id"}, "object ids");
            before = vf::dump(g.id());
            auto t = create_object_tracker(g);
            std::string q = p + "/lue_object_tracker";
            vf::same_changes(before, vf::dump(g.id()), {"+" + q, "+" + q + "/lue_active_object_id", "+" + q + "/lue_active_object_index", "+" + q + "/lue_active_set_index"}, "tracker");
            create_active_object_id(g);
            create_active_object_index(g);
            create_active_set_index(g);
            V a, b, c, d;
            for (int i = 0; i < 3; ++i)
            {
                round(g, p + "/lue_object_id", o, a, [](auto& x) { return x.nr_objects(); }, [&] { return ObjectID{g}; });
                round(g, q + "/lue_active_object_id", t.active_object_id(), b, [](auto& x) { return x.nr_ids(); }, [&] { return ObjectTracker{g}.active_object_id(); });
                round(g, q + "/lue_active_object_index", t.active_object_index(), c, [](auto& x) { return x.nr_indices(); }, [&] { return ObjectTracker{g}.active_object_index(); });
                round(g, q + "/lue_active_set_index", t.active_set_index(), d, [](auto& x) { return x.nr_indices(); }, [&] { return ObjectTracker{g}.active_set_index(); });
                vf::check(t.active_object_id().nr_ids() == b.size() && t.active_object_index().nr_indices() == c.size() && t.active_set_index().nr_indices() == d.size(), "sizes in the tracker");
            }
        });
    }
    h5::Group g{h5::create_group(f, "failures")};
    auto o = create_object_id(g);
    std::uint64_t v[4] = {};
    o.expand(4);
    o.write(IndexRange(0, 4), v);
    vf::each_failure("expand", [&] { o.expand(2); });
    vf::each_failure("write", [&] { o.write(1, v); });
    vf::each_failure("read", [&] { o.read(IndexRange(1, 3), v); });
    vf::each_failure("tracker", [&] { create_object_tracker(g); }, "H5Lexists");
    vf::sample("histories of expand, write, reopen over the four collections, checked against a model and the whole file");
    return vf::done();
}
