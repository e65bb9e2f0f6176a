#include "check.hpp"
#include "lue/hdf5.hpp"
#include <map>
#include <optional>
#include <vector>

using namespace lue::hdf5;

static std::map<hid_t, int> closed;

static bool fail_inc = false;
extern "C" int __real_H5Iinc_ref(hid_t);
extern "C" int __wrap_H5Iinc_ref(hid_t id) { return fail_inc ? -1 : __real_H5Iinc_ref(id); }

static hssize_t members()
{
    hsize_t n = 0, s = 0;
    for (auto t : {H5I_FILE, H5I_GROUP, H5I_DATATYPE, H5I_DATASPACE, H5I_DATASET, H5I_ATTR, H5I_GENPROP_LST})
    {
        if (H5Inmembers(t, &n) >= 0) s += n;
    }
    return s;
}

static int close_group(hid_t id)
{
    ++closed[id];
    return H5Gclose(id);
}

static void sequences(hid_t file)
{
    int const n = 6;
    int const rounds = vf::thorough ? 4000 : 500;
    for (int r = 0; r < rounds; ++r)
    {
        std::vector<std::optional<Identifier>> h(n);
        std::vector<hid_t> own(n, -1);
        std::map<hid_t, int> count;
        closed.clear();
        std::string trace;
        auto give = [&](int i) { if (own[i] >= 0) --count[own[i]]; own[i] = -1; };
        auto take = [&](int i, hid_t v) { own[i] = v; if (v >= 0) ++count[v]; };
        for (int k = 0; k < 25; ++k)
        {
            int i = vf::rnd(0, n - 1), j = vf::rnd(0, n - 1), op = vf::rnd(0, 7);
            trace += vf::cat(" ", op, ":", i, ",", j);
            switch (op)
            {
                case 0:
                {
                    if (h[i]) break;
                    hid_t g = H5Gopen2(file, "/g", H5P_DEFAULT);
                    h[i].emplace(g, close_group);
                    take(i, g);
                    break;
                }
                case 1: if (!h[i]) { h[i].emplace(); } break;
                case 2: if (i != j && !h[i] && h[j]) { h[i].emplace(*h[j]); take(i, own[j]); } break;
                case 3: if (i != j && !h[i] && h[j]) { h[i].emplace(std::move(*h[j])); hid_t v = own[j]; give(j); take(i, v); } break;
                case 4: if (h[i] && h[j]) { *h[i] = *h[j]; hid_t v = own[j]; if (v >= 0) ++count[v]; give(i); own[i] = v; } break;
                case 5: if (i != j && h[i] && h[j]) { *h[i] = std::move(*h[j]); hid_t v = own[j]; own[j] = -1; give(i); own[i] = v; } break;
                case 6: if (h[i]) { h[i].reset(); give(i); } break;
                case 7: if (h[i] && own[i] >= 0) { h[i]->type(); h[i]->name(); h[i]->pathname(); } break;
            }
            for (int m = 0; m < n; ++m)
            {
                if (!h[m]) continue;
                vf::check(h[m]->is_valid() == (own[m] >= 0), vf::cat("operations", trace, ": handle ", m, " is ", own[m] >= 0 ? "not " : "", "open"));
                if (own[m] >= 0)
                {
                    hid_t id = *h[m];
                    vf::check(id == own[m], vf::cat("operations", trace, ": identifier of handle ", m));
                    vf::check(H5Iget_ref(id) == count[id], vf::cat("operations", trace, ": count ", H5Iget_ref(id), " with ", count[id], " owners"));
                }
            }
        }
        h.clear();
        for (auto& [id, c] : count)
        {
            vf::check(!(H5Iis_valid(id) > 0), vf::cat("operations", trace, ": identifier still open at the end"));
            if (H5Iis_valid(id) > 0) while (H5Idec_ref(id) > 0) {}
        }
        if (vf::fails) return;
    }
}

template<typename F>
static void balance(std::string const& what, F&& fn)
{
    vf::at(what);
    auto before = members();
    try { fn(); } catch (std::exception const& e) { vf::check(false, what + ": " + e.what()); }
    auto after = members();
    vf::check(before == after, vf::cat(what, ": ", after - before, " identifiers left open"));
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    {
        hid_t f = H5Fcreate("r.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
        H5Gclose(H5Gcreate2(f, "/g", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT));
        sequences(f);
        H5Fclose(f);
    }
    balance("files and groups", [] {
        File f = create_file("a.h5");
        Group g = create_group(f, "g");
        Group h{f, "g"};
        Group i = g;
        g = h;
        create_group(g, "sub");
        vf::check(g.parent().id().pathname() == "/", "parent of a group");
        vf::check(g.contains_group("sub"), "group contains its sub group");
    });
    balance("open a file twice", [] { File f{"a.h5"}; File g{"a.h5"}; Identifier i = f.id(); });
    balance("open an absent group", [] { File f{"a.h5"}; vf::check(vf::throws([&] { Group{f, "absent"}; }), "absent group opens"); });
    balance("open an absent file", [] { vf::check(vf::throws([&] { File{"absent.h5"}; }), "absent file opens"); });
    balance("attributes", [] {
        File f{"a.h5", H5F_ACC_RDWR};
        f.attributes().write<std::int32_t>("i", 5);
        f.attributes().write<std::string>("s", "abc");
        f.attributes().write<std::vector<double>>("v", {1, 2, 3});
        vf::check(f.attributes().read<std::int32_t>("i") == 5 && f.attributes().read<std::string>("s") == "abc", "attributes read back");
        f.attributes().read<std::vector<double>>("v");
        Attribute a = f.attributes().attribute("s");
        Attribute b = a;
        Datatype t = f.attributes().datatype("s");
        Datatype u = a.datatype();
        Dataspace s = a.dataspace();
    });
    balance("datasets", [] {
        File f{"a.h5", H5F_ACC_RDWR};
        Dataset::CreationPropertyList p;
        p.set_chunk({2, 3});
        Dataset d = create_dataset(f.id(), "d", file_datatype(native_int32), create_dataspace({4, 6}, {H5S_UNLIMITED, 6}), p);
        Dataset e = d;
        std::vector<std::int32_t> v(24, 3);
        d.write(native_int32, v.data());
        d.write(native_int32, Hyperslab{Offset{1, 1}, Count{2, 2}}, v.data());
        d.read(native_int32, Hyperslab{Offset{1, 1}, Stride{1, 2}, Count{2, 2}}, v.data());
        int fill = 8;
        d.fill(native_int32, Hyperslab{Offset{1, 1}, Count{2, 2}}, &fill);
        d.resize({5, 6});
        d.shape(); d.datatype(); d.dataspace(); d.creation_property_list();
        Dataset g = open_dataset(f.id(), "d");
        vf::check(dataset_exists(f.id(), "d"), "dataset exists");
    });
    balance("datatypes", [] {
        Datatype t = create_string_datatype();
        Datatype u = create_datatype(std::size_t{7});
        Datatype c = create_compound_datatype(12);
        c.insert("a", 0, native_int32);
        Datatype k = decode_datatype(encode_datatype(native_float64));
        Datatype n = native_int32, m = memory_datatype(std_int32_le);
        t = u;
        u = native_int8;
        vf::check(n == m, "memory datatype");
    });
    balance("a copy that cannot be counted", [] {
        File f{"a.h5"};
        Group g{f, "g"};
        Identifier a{g.id()}, b{f.id()};
        int n = a.reference_count();
        fail_inc = true;
        vf::check(vf::throws([&] { Identifier c{a}; }), "copying does not report the failure");
        vf::check(vf::throws([&] { b = a; }), "copy assignment does not report the failure");
        fail_inc = false;
        vf::check(a.reference_count() == n, "count after a failed copy");
        vf::check(!b.is_valid() || hid_t(b) == hid_t(f.id()), "target of a failed copy assignment");
    });
    balance("links", [] {
        File f{"a.h5", H5F_ACC_RDWR};
        Group g{f, "g"};
        Group h = create_group(f, "h");
        auto l = h.create_soft_link(g.id(), "soft");
        auto m = h.create_hard_link(g.id(), "hard");
        h.soft_link("soft").path();
        h.contains_soft_link("soft");
        h.contains_hard_link("hard");
        h.group_names();
        h.object_names();
    });
    vf::sample("500 random sequences of 25 operations on 6 handles; every class of handle opened and closed");
    return vf::done();
}
