// Datasets created, opened, removed: every kind of thing under a name
#include "inject.hpp"
#include "dump.hpp"
#include "lue/hdf5/file.hpp"
#include "lue/object/dataset.hpp"
#include "lue/hdf5/version.hpp"
#include "lue/version.hpp"
#include <filesystem>
#include <fstream>
#include <iterator>

using namespace lue::data_model;
namespace h5 = lue::hdf5;
namespace fs = std::filesystem;

static std::string bytes(std::string const& name)
{
    std::ifstream f(name, std::ios::binary);
    return {std::istreambuf_iterator<char>(f), {}};
}

static std::string print(std::string const& name)
{
    return fs::is_directory(name) ? "directory" : fs::exists(name) ? "file " + bytes(name) : "none";
}

static void put(std::string const& name, int before, std::string const& d)
{
    fs::remove_all(name);
    if (before == 1) create_dataset(name, d);
    if (before == 2) { h5::File f{h5::create_file(name)}; h5::create_group(f, "lue_phenomena"); }
    if (before == 3) { h5::File f{h5::create_file(name)}; h5::create_group(f, "lue_universes"); }
    if (before == 4)
    {
        h5::File f{h5::create_file(name)};
        h5::create_group(f, "lue_universes");
        h5::create_dataset(f.id(), "lue_phenomena", h5::native_uint8, h5::create_dataspace(h5::Shape{2}), h5::Dataset::CreationPropertyList{});
    }
    if (before == 5) std::ofstream(name) << "some text";
    if (before == 6) fs::create_directory(name);
    if (before == 7) std::ofstream(name) << "";
    if (before == 8) { h5::create_file(name); }
}

static void empty(Dataset& d, std::string const& name, std::string const& about, std::string const& what)
{
    vf::check(d.pathname() == name, what + ": path " + d.pathname());
    vf::check(d.description() == about, what + ": description");
    vf::check(d.lue_version() == lue::version() && !lue::version().empty() && d.hdf5_version() == lue::hdf5_version(), what + ": versions");
    vf::check(d.universes().empty() && d.phenomena().empty() && d.universes().size() == 0 && d.phenomena().size() == 0, what + ": empty collections");
    std::set<std::string> names;
    for (auto& [n, v] : vf::dump(d.id())) names.insert(n);
    std::set<std::string> want{"", "/lue_phenomena", "/lue_universes", "@hdf5_version", "@lue_version"};
    if (!about.empty()) want.insert("@lue_description");
    std::string got;
    std::set<std::string> plain;
    for (auto& n : names)
    {
        std::string m = n;
        if (m == "/") m = "";
        if (m.rfind("/@", 0) == 0) m = m.substr(1);
        plain.insert(m);
        got += " " + n;
    }
    plain.insert("");
    vf::check(plain == want, what + ": what is stored:" + got);
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    create_dataset("near.lue", "near");
    std::string const near = bytes("near.lue");
    std::vector<std::string> const NAMES{"a.lue", "b c.lue", "é", "no_extension", fs::absolute("g.lue").string()};
    for (auto& name : NAMES)
        for (int before = 0; before < 9; ++before)
            for (int d = 0; d < 2; ++d)
                vf::scenario(vf::cat(name, " over ", before, " described ", d), [&] {
                    std::string const about = d ? "what it is" : "", what = vf::cat(name, " over ", before);
                    put(name, before, about);
                    auto was = print(name);
                    vf::check(dataset_exists(name) == (before != 0 && before != 6), what + ": whether it exists");
                    vf::check(print(name) == was, what + ": asking changes nothing");
                    // open; HDF5 itself turns a file of zero bytes that is opened for writing into a file of its own
                    for (int way = 0; way < 3; ++way)
                    {
                        std::string w = vf::cat(what, ", opened in way ", way);
                        auto open = [&] { return way == 0 ? open_dataset(name) : way == 1 ? Dataset{name} : open_dataset(name, H5F_ACC_RDWR); };
                        vf::check(vf::throws([&] { auto x = open(); }) == (before != 1), w + ": opens exactly when it is a dataset");
                        if (way < 2 || (before != 1 && before != 7)) vf::check(print(name) == was, w + ": opening changes nothing");
                        if (before == 1)
                        {
                            auto x = open();
                            vf::check(x.intent() == (way == 2 ? H5F_ACC_RDWR : H5F_ACC_RDONLY), w + ": access");
                            empty(x, name, about, w);
                            if (way < 2)
                                vf::check(vf::throws([&] { x.add_universe("u"); }) && vf::throws([&] { x.add_phenomenon("p"); }), w + ": additions are refused");
                            else
                                x.add_universe("u");
                        }
                        if (way < 2) vf::check(print(name) == was, w + ": reading changes nothing");
                        else if (before == 1) vf::check(open_dataset(name).universes().contains("u"), w + ": the addition is found again");
                    }
                    // create
                    put(name, before, "old " + about);
                    {
                        was = print(name);
                        auto m = d ? create_in_memory_dataset(name, about) : create_in_memory_dataset(name);
                        empty(m, name, about, what + ", in memory");
                        m.add_phenomenon("p");
                        vf::check(m.phenomena().contains("p"), what + ": addition in memory");
                    }
                    vf::check(print(name) == was, what + ": a dataset in memory leaves files as they are");
                    bool threw = vf::throws([&] { auto x = d ? create_dataset(name, about) : create_dataset(name); empty(x, name, about, what + ", created"); x.add_phenomenon("p", "about p"); });
                    vf::check(threw == (before == 6), what + ": created exactly when no directory is in the way");
                    if (!threw)
                    {
                        Dataset x{name};
                        vf::check(x.phenomena().size() == 1 && x.phenomena().contains("p") && x.universes().empty() && x.description() == about, what + ": found again");
                    }
                    vf::check(bytes("near.lue") == near, what + ": another file");
                    if (!threw)
                    {
                        remove_dataset(name);
                        vf::check(!fs::exists(name) && !dataset_exists(name) && vf::throws([&] { open_dataset(name); }), what + ": removed");
                        vf::check(bytes("near.lue") == near, what + ": another file after removing");
                    }
                });
    {
        // an absent directory, and a file that may not be written
        vf::check(vf::throws([&] { create_dataset("absent/a.lue"); }) && !fs::exists("absent"), "a name in a directory that is absent");
        vf::check(!dataset_exists("absent/a.lue") && vf::throws([&] { open_dataset("absent/a.lue"); }), "opening in a directory that is absent");
    }
    create_dataset("f.lue", "d");
    vf::each_failure("create", [&] { auto d = create_dataset("n.lue", "d"); }, "H5Lexists H5Aexists");
    vf::each_failure("create in memory", [&] { auto d = create_in_memory_dataset("n.lue", "d"); }, "H5Lexists H5Aexists");
    vf::each_failure("open", [&] { auto d = open_dataset("f.lue", H5F_ACC_RDWR); }, "H5Lexists H5Aexists");
    vf::sample("five names over nine kinds of things that are there before");
    return vf::done();
}
