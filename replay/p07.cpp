#include "inject.hpp"
#include "lue/hdf5.hpp"
#include <algorithm>
#include <filesystem>
#include <map>
#include <set>
using namespace lue::hdf5;

struct Entry
{
    std::string kind;  // group, dataset
    bool soft = false;
    std::string path;  // path linked to
    std::size_t object = 0;
};

template<typename F>
std::optional<std::string> error(F&& f)
{
    try { f(); } catch (std::exception const& e) { return std::string(e.what()); }
    return {};
}

static void histories(int rounds)
{
    File f = create_file("p07.h5");
    vf::check(f.pathname() == "p07.h5" && f.intent() == 1 && f.hdf5_version() == vf::cat(H5_VERS_MAJOR, ".", H5_VERS_MINOR, ".", H5_VERS_RELEASE), "new file");
    std::vector<std::string> locations{"/", "/a", "/a/b"};
    create_group(f, "a");
    Group a{f, "a"};
    create_group(a, "b");
    std::map<std::string, std::map<std::string, Entry>> model;
    model["/"]["a"] = {"group", false, "", 1};
    model["/a"]["b"] = {"group", false, "", 2};
    std::size_t objects = 2;
    std::vector<std::string> names{"x", "y", "a", "b", "lue_n", "x y", "\xc3\xa9", "X", std::string(200, 'q')};
    auto group = [&](std::string const& l) { return Group{f, l}; };
    auto join = [](std::string const& l, std::string const& n) { return l == "/" ? "/" + n : l + "/" + n; };
    for (int r = 0; r < rounds; ++r)
    {
        std::string l = locations[vf::rnd(0, 2)], n = names[vf::rnd(0, names.size() - 1)];
        auto& m = model[l];
        bool there = m.count(n);
        Group g = group(l);
        std::string w = vf::cat("in ", l, " name ", n.substr(0, 9), there ? " (taken)" : " (free)", ": ");
        vf::at(w);
        switch (vf::rnd(0, 9))
        {
            case 0:
            {
                auto e = error([&] {
                    Group x = create_group(g, n);
                    vf::check(x.id().pathname() == join(l, n) && x.id().name() == n && x.parent_pathname() == l && x.has_parent() && x.parent() == g, w + "group created");
                    vf::check(x.group_names().empty() && x.object_names().empty(), w + "group created is empty");
                    if (l != "/") locations[2] = locations[2];
                });
                vf::check(bool(e) == there, w + "create group: " + e.value_or("done"));
                if (!there && !e) m[n] = {"group", false, "", ++objects};
                break;
            }
            case 1:
            {
                Shape d(vf::rnd(1, 3));
                for (auto& x : d) x = vf::rnd(1, 5);
                Dataset::CreationPropertyList p;
                bool chunk = vf::rnd(0, 1);
                if (chunk) p.set_chunk(d);
                Shape mx = d;
                if (chunk) mx[0] = H5S_UNLIMITED;
                auto e = error([&] {
                    Dataset x = create_dataset(g.id(), n, std_int16_le, create_dataspace(d, mx), p);
                    vf::check(x.id().pathname() == join(l, n) && x.shape() == d && x.datatype() == std_int16_le, w + "dataset created");
                    hsize_t q[3], mq[3];
                    H5Sget_simple_extent_dims(x.dataspace().id(), q, mq);
                    vf::check(std::equal(mx.begin(), mx.end(), mq), w + "largest extents");
                    hsize_t c[3];
                    vf::check(chunk ? H5Pget_chunk(x.creation_property_list().id(), 3, c) == static_cast<int>(d.size()) && std::equal(d.begin(), d.end(), c)
                                    : H5Pget_layout(x.creation_property_list().id()) != H5D_CHUNKED, w + "chunk shape");
                });
                vf::check(bool(e) == there, w + "create dataset: " + e.value_or("done"));
                if (!there && !e) m[n] = {"dataset", false, "", ++objects};
                break;
            }
            case 2:
            case 3:
            {
                bool soft = vf::rnd(0, 1);
                std::vector<std::pair<std::string, Entry>> all;
                for (auto& [p, q] : model) for (auto& [k, v] : q) all.push_back({join(p, k), v});
                auto [tp, te] = all[vf::rnd(0, all.size() - 1)];
                auto e = error([&] {
                    Identifier t{H5Oopen(f.id(), tp.c_str(), H5P_DEFAULT), H5Oclose};
                    if (soft)
                    {
                        SoftLink x = g.create_soft_link(t, n);
                        vf::check(x.path() == t.pathname() && x.name() == n && g.soft_link(n).path() == t.pathname(), w + "path of soft link " + x.path());
                    }
                    else
                    {
                        HardLink x = g.create_hard_link(t, n);
                        vf::check(x.name() == n && g.hard_link(n).name() == n, w + "hard link");
                    }
                    vf::check(PrimaryDataObject{g.id(), n} == PrimaryDataObject{f.id(), tp}, w + "link to " + tp);
                });
                vf::check(bool(e) == there, w + "create link: " + e.value_or("done"));
                if (!there && !e) m[n] = {te.kind, soft, "", te.object};
                break;
            }
            case 4:
            {
                auto e = error([&] { Group x{g, n}; vf::check(x.id().pathname() == join(l, n), w + "path of group opened"); });
                vf::check(!e == (there && m[n].kind == "group"), w + "open group: " + e.value_or("done"));
                if (!there) m.erase(n);
                break;
            }
            case 5:
            {
                auto e = error([&] { Dataset x{g, n}; vf::check(x.id().pathname() == join(l, n), w + "path of dataset opened"); });
                vf::check(!e == (there && m[n].kind == "dataset"), w + "open dataset: " + e.value_or("done"));
                if (!there) m.erase(n);
                break;
            }
            default: break;
        }
        for (auto& k : names)
        {
            bool h = m.count(k);
            Entry e = h ? m[k] : Entry{};
            vf::check(g.contains_group(k) == (h && e.kind == "group") && group_exists(g, k) == (h && e.kind == "group"), w + "contains_group " + k.substr(0, 9));
            vf::check(g.contains_dataset(k) == (h && e.kind == "dataset"), w + "contains_dataset " + k.substr(0, 9));
            vf::check(g.contains_soft_link(k) == (h && e.soft) && g.contains_hard_link(k) == (h && !e.soft), w + "contains link " + k.substr(0, 9));
        }
        std::multiset<std::string> gs, os;
        for (auto& [k, v] : m)
        {
            os.insert(k);
            if (v.kind == "group") gs.insert(k);
        }
        auto gn = g.group_names(), on = g.object_names();
        vf::check(std::multiset<std::string>(gn.begin(), gn.end()) == gs, w + "group_names");
        vf::check(std::multiset<std::string>(on.begin(), on.end()) == os, w + "object_names");
        if (r % 10 == 0)
        {
            // equality
            std::vector<std::pair<std::string, std::size_t>> all;
            for (auto& [p, q] : model) for (auto& [k, v] : q) all.push_back({join(p, k), v.object});
            auto x = all[vf::rnd(0, all.size() - 1)], y = all[vf::rnd(0, all.size() - 1)];
            PrimaryDataObject ox{f.id(), x.first}, oy{f.id(), y.first};
            vf::check((ox == oy) == (x.second == y.second) && (ox != oy) == (x.second != y.second), w + "equality of " + x.first + " and " + y.first);
        }
    }
}

static void twins()
{
    // two files that are the same
    File f = create_file("u07.h5"), g = create_file("v07.h5");
    for (auto* x : {&f, &g})
    {
        Group a = create_group(*x, "a");
        Group b = create_group(a, "b");
        Group c = create_group(b, "c");
        x->create_soft_link(b.id(), "s");
        x->create_hard_link(b.id(), "h");
        create_dataset(c.id(), "d", std_int16_le, create_dataspace({3}), Dataset::CreationPropertyList{});
    }
    for (std::string p : {"/a", "/a/b", "/a/b/c", "/a/b/c/d"})
    {
        PrimaryDataObject x{f.id(), p}, y{g.id(), p};
        vf::check(!(x == y) && x != y && x == PrimaryDataObject{f.id(), p}, "equality of " + p + " of two files");
    }
    for (std::string p : {"a/b", "a/b/c", "s/c", "h/c"})
        for (std::string root : {"", "/"})
        {
            Group x{f, root + p};
            auto parent = p.substr(0, p.rfind('/'));
            vf::check(x.id().pathname() == "/" + p && x.id().name() == p.substr(p.rfind('/') + 1), "path of " + root + p + ": " + x.id().pathname());
            vf::check(x.has_parent() && x.parent_pathname() == "/" + parent && x.parent() == Group(f, parent), "parent of " + root + p + ": " + x.parent_pathname());
            vf::check(Group(f, parent).contains_group(p.substr(p.rfind('/') + 1)), "group " + root + p);
        }
    Group a{f, "a"};
    Group c{a, "b/c"};
    vf::check(c.parent_pathname() == "/a/b" && c.parent() == Group(a, "b") && c == Group(f, "s/c") && Dataset(a, "b/c/d") == Dataset(c, "d"), "a path relative to a group");
}

static void failures()
{
    File f = create_file("q07.h5");
    Group g = create_group(f, "g");
    Group t = create_group(f, "t");
    g.create_soft_link(t.id(), "s");
    create_dataset(g.id(), "d", std_int16_le, create_dataspace({3}), Dataset::CreationPropertyList{});
    // existence queries count a failure as absence; creation then still succeeds
    std::string skip = "H5Lexists";
    vf::each_failure("create group", [&] { create_group(g, "n"); }, skip);
    vf::each_failure("open group", [&] { Group x{f, "g"}; }, skip);
    vf::each_failure("open dataset", [&] { Dataset x{g, "d"}; }, skip);
    vf::each_failure("open dataset", [&] { open_dataset(g.id(), "d"); }, skip);
    vf::each_failure("open object", [&] { PrimaryDataObject x{g.id(), "d"}; }, skip);
    vf::each_failure("create dataset", [&] { create_dataset(g.id(), "n", std_int16_le, create_dataspace({3}), Dataset::CreationPropertyList{}); }, skip);
    vf::each_failure("create soft link", [&] { g.create_soft_link(t.id(), "n"); }, skip);
    vf::each_failure("create hard link", [&] { g.create_hard_link(t.id(), "n"); }, skip);
    vf::each_failure("group_names", [&] { g.group_names(); });
    vf::each_failure("object_names", [&] { g.object_names(); });
    vf::each_failure("parent", [&] { g.parent(); }, skip);
    vf::each_failure("equality", [&] { (void)(g == t); });
    vf::each_failure("path of soft link", [&] { g.soft_link("s").path(); }, skip);
    vf::each_failure("path of file", [&] { f.pathname(); });
    vf::each_failure("intent", [&] { f.intent(); });
    vf::each_failure("flush", [&] { f.flush(); });
    vf::each_failure("object count", [&] { f.object_count(H5F_OBJ_ALL); });
    vf::each_failure("path of object", [&] { g.id().pathname(); });
    vf::each_failure("create file", [&] { create_file("r07.h5"); });
    vf::each_failure("create in-memory file", [&] { create_in_memory_file("r07.h5"); });
    vf::each_failure("open file", [&] { File x{"s07.h5"}; (void)x.pathname(); }, skip);
}

static void files()
{
    vf::check(vf::throws([] { File x{"absent.h5"}; }), "an absent file opens");
    vf::check(!file_exists("absent.h5"), "an absent file exists");
    {
        File x = create_file("t07.h5");
        create_group(x, "g");
    }
    vf::check(file_exists("t07.h5"), "a file that was created exists");
    {
        File x{"t07.h5"};
        vf::check(x.intent() == 0 && x.contains_group("g") && x.pathname() == "t07.h5", "a file opens read-only");
        vf::check(vf::throws([&] { create_group(x, "n"); }), "a file opened read-only is changed");
    }
    {
        File x{"t07.h5", H5F_ACC_RDWR};
        vf::check(x.intent() == 1 && !x.contains_group("n"), "a file opens read-write");
        create_group(x, "m");
        x.flush();
    }
    {
        File x = create_in_memory_file("m07.h5");
        create_group(x, "g");
        vf::check(x.contains_group("g"), "in-memory file");
    }
    vf::check(!std::filesystem::exists("m07.h5"), "an in-memory file is stored");
    {
        File x = create_file("t07.h5");
        vf::check(x.group_names().empty(), "a file created over another one keeps its contents");
    }
    remove_file("t07.h5");
    vf::check(!file_exists("t07.h5"), "a removed file exists");
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    {
        File x = create_file("s07.h5");
    }
    vf::scenario("histories", [] { histories(vf::thorough ? 2000 : 400); });
    vf::scenario("twins", twins);
    vf::scenario("files", files);
    vf::scenario("failures", failures);
    vf::sample("400 random creations, links, opens and queries in three groups; every single call failing in 21 operations");
    return vf::done();
}
