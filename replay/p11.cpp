// Collections against a model: random histories of adding, asking and reopening
#include "inject.hpp"
#include "dump.hpp"
#include "lue/hdf5/file.hpp"
#include "lue/object/phenomena.hpp"
#include "lue/object/property/properties.hpp"
#include "lue/object/property_sets.hpp"
#include "lue/object/universes.hpp"

using namespace lue::data_model;
namespace h5 = lue::hdf5;

static std::vector<std::string> const pool{"a", "b", "B", "ab", "a b", "\xc3\xa9", "a.b", "..a", "lue_x", "z", "0", std::string(300, 'q'), "aa", "_", "name"};

template<typename C> void look(C& c, std::string const& path, std::map<std::string, std::string> const& model, std::string const& what)
{
    C const& k = c;
    std::set<std::string> names;
    for (auto& [n, p] : model) names.insert(n);
    auto v = k.names();
    vf::check(k.size() == model.size() && k.empty() == model.empty() && v.size() == model.size() && std::set<std::string>(v.begin(), v.end()) == names, what + ": size and names");
    std::set<std::string> got;
    for (auto& p : c) got.insert(p.first);
    std::size_t n = 0;
    for (auto& p : k) n += names.count(p.first);
    vf::check(got == names && n == names.size(), what + ": visited");
    for (auto& s : pool)
    {
        bool const there = model.count(s);
        bool found = there;
        vf::check(k.contains(s) == there, what + ": membership of " + s);
        found = !vf::throws([&] { vf::check(c[s].id().pathname() == path + "/" + s, what + ": element of " + s); });
        vf::check(found == there, what + ": lookup of " + s);
        found = !vf::throws([&] { vf::check(k[s].id().pathname() == path + "/" + s, what + ": element of " + s); });
        vf::check(found == there, what + ": const lookup of " + s);
    }
}

template<typename C, typename Open, typename Add>
void history(std::string const& kind, h5::Group& g, std::string const& path, Open open, Add add)
{
    std::map<std::string, std::string> model;
    std::vector<C> cs;
    cs.push_back(open());
    look(cs[0], path, model, kind + " empty");
    for (int k = 0, n = vf::rnd(3, 14); k < n; ++k)
    {
        std::string s = pool[vf::rnd(0, static_cast<long>(pool.size()) - 1)], what = vf::cat(kind, " adding ", s.substr(0, 20), " at ", k);
        if (vf::rnd(0, 2) == 0)
        {
            C c = open();
            cs[0] = std::move(c);
        }
        auto before = vf::dump(g.id());
        bool threw = vf::throws([&] { vf::check(add(cs[0], s).id().pathname() == path + "/" + s, what + ": the element returned"); });
        vf::check(threw == (model.count(s) > 0), what + (threw ? ": refused" : ": a second time"));
        std::string at = path + "/" + s;
        for (auto& d : vf::differences(before, vf::dump(g.id())))
            vf::check(!threw && d[0] == '+' && d.compare(1, at.size(), at) == 0 && (d.size() == at.size() + 1 || d[at.size() + 1] == '/' || d[at.size() + 1] == '@' || d[at.size() + 1] == '#'), what + ": changes " + d);
        if (!threw) model[s] = at;
        look(cs[0], path, model, what);
        C again = open();
        look(again, path, model, what + ", opened again");
    }
}

template<typename C> void properties(std::string const& kind, h5::File& f, std::string const& tag, int round, auto add)
{
    vf::scenario(vf::cat(kind, " ", round), [&] {
        std::string n = vf::cat(tag, round);
        h5::Group g{h5::create_group(f, n)};
        h5::create_group(g, tag);
        history<C>(kind, g, "/" + n + "/" + tag, [&] { return C{g}; }, add);
    });
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    h5::File f{h5::create_file("p11.h5")};
    h5::Datatype t{H5T_NATIVE_INT};
    for (int round = 0; round < (vf::thorough ? 12 : 3); ++round)
    {
        vf::scenario(vf::cat("phenomena ", round), [&] {
            h5::Group g{h5::create_group(f, vf::cat("p", round))};
            create_phenomena(g);
            vf::check(vf::throws([&] { create_phenomena(g); }), "a second collection is refused");
            history<Phenomena>("phenomena", g, vf::cat("/p", round, "/lue_phenomena"), [&] { return Phenomena{g}; },
                               [](Phenomena& c, std::string const& s) -> Phenomenon& { return c.add(s, "d " + s); });
        });
        vf::scenario(vf::cat("universes ", round), [&] {
            h5::Group g{h5::create_group(f, vf::cat("u", round))};
            create_universes(g);
            vf::check(vf::throws([&] { create_universes(g); }), "a second collection is refused");
            history<Universes>("universes", g, vf::cat("/u", round, "/lue_universes"), [&] { return Universes{g}; },
                               [](Universes& c, std::string const& s) -> Universe& { return c.add(s); });
        });
        vf::scenario(vf::cat("property sets ", round), [&] {
            h5::Group g{h5::create_group(f, vf::cat("s", round))};
            create_property_sets(g, "sets");
            vf::check(vf::throws([&] { create_property_sets(g, "sets"); }), "a second collection is refused");
            history<PropertySets>("property sets", g, vf::cat("/s", round, "/sets"), [&] { return PropertySets{g, "sets"}; },
                                  [](PropertySets& c, std::string const& s) -> PropertySet& { return c.add(s); });
        });
        properties<same_shape::Properties>("same shape", f, "lue_same_shape", round, [&](auto& c, std::string const& s) -> auto& { return c.add(s, t, h5::Shape{2}, "d"); });
        properties<same_shape::constant_shape::Properties>("same constant", f, "lue_same_shape_constant_shape", round, [&](auto& c, std::string const& s) -> auto& { return c.add(s, t, h5::Shape{2}, "d"); });
        properties<same_shape::variable_shape::Properties>("same variable", f, "lue_same_shape_variable_shape", round, [&](auto& c, std::string const& s) -> auto& { return c.add(s, t, 2, "d"); });
        properties<different_shape::Properties>("different", f, "lue_different_shape", round, [&](auto& c, std::string const& s) -> auto& { return c.add(s, t, 2, "d"); });
        properties<different_shape::constant_shape::Properties>("different constant", f, "lue_different_shape_constant_shape", round, [&](auto& c, std::string const& s) -> auto& { return c.add(s, t, 2, "d"); });
        properties<different_shape::variable_shape::Properties>("different variable", f, "lue_different_shape_variable_shape", round, [&](auto& c, std::string const& s) -> auto& { return c.add(s, t, 2, "d"); });
    }
    h5::Group g{h5::create_group(f, "failures")};
    vf::each_failure("create", [&] { create_universes(g); }, "H5Lexists H5Aexists");
    auto u = create_universes(g);
    vf::each_failure("open", [&] { Universes{g}; });
    vf::each_failure("add", [&] { u.add("x"); }, "H5Lexists H5Aexists");
    vf::sample("random histories of adding new and taken names, asking and reopening, for nine kinds of collections");
    return vf::done();
}
