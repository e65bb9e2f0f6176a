// Discretizations between properties of all kinds, against a model
#include "inject.hpp"
#include "dump.hpp"
#include "lue/hdf5/file.hpp"
#include "lue/object/property_sets.hpp"

using namespace lue::data_model;
namespace h5 = lue::hdf5;

static bool same(hid_t a, hid_t b)
{
    H5O_info_t x, y;
    return H5Oget_info1(a, &x) >= 0 && H5Oget_info1(b, &y) >= 0 && x.addr == y.addr && x.fileno == y.fileno;
}

static char const* const KIND[6] = {"lue_same_shape", "lue_same_shape_constant_shape", "lue_same_shape_variable_shape",
                                    "lue_different_shape", "lue_different_shape_constant_shape", "lue_different_shape_variable_shape"};

static PropertyGroup add(Properties& ps, int kind, std::string const& n, std::string const& d)
{
    h5::Datatype const t{h5::native_float64};
    switch (kind)
    {
        case 0: ps.add(n, t, d); break;
        case 1: ps.add<same_shape::constant_shape::Property>(n, t, h5::Shape{2}, d); break;
        case 2: ps.add<same_shape::variable_shape::Property>(n, t, 2, d); break;
        case 3: ps.add(n, t, Rank{2}, d); break;
        case 4: ps.add<different_shape::constant_shape::Property>(n, t, 1, d); break;
        default: ps.add<different_shape::variable_shape::Property>(n, t, 3, d);
    }
    return PropertyGroup{ps.collection_group(n), n};
}

struct Node { PropertyGroup group; std::string name, description, path; int time = -1, space = -1; };

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    h5::File f{h5::create_file("p18.h5")};
    for (int round = 0; round < (vf::thorough ? 60 : 10); ++round)
    {
        vf::scenario(vf::cat("history ", round), [&] {
            std::string top = vf::cat("g", round);
            h5::Group g{h5::create_group(f, top)};
            std::vector<Node> nodes;
            std::vector<PropertySet> sets;
            std::vector<int> presence(3, -1);
            for (int s = 0; s < 3; ++s)
            {
                h5::Group parent{h5::create_group(g, vf::cat("s", s))};
                create_property_sets(parent, "sets");
                PropertySets all{parent, "sets"};
                sets.push_back(all.add("o", SpaceConfiguration{Mobility::stationary, SpaceDomainItemType::box}, h5::Datatype{h5::native_float64}, 2));
                for (int k = 0; k < 6; ++k)
                {
                    std::string n = s == 2 ? vf::cat("p", k, "_", s) : vf::cat("p", k), d = k % 2 ? "what it is" : "";
                    nodes.push_back({add(sets.back().properties(), k, n, d), n, d, vf::cat("/", top, "/s", s, "/sets/o/lue_properties/", KIND[k], "/", n)});
                }
            }
            auto look = [&](std::string const& what) {
                for (auto& x : nodes)
                    for (auto* p : {&x.group})
                    {
                        auto test = [&](PropertyGroup& p) {
                            vf::check(p.time_is_discretized() == (x.time >= 0) && p.space_is_discretized() == (x.space >= 0), what + ": whether discretized " + x.path);
                            if (x.time >= 0)
                            {
                                vf::check(p.time_discretization_type() == TimeDiscretization::regular_grid, what + ": kind in time");
                                auto q = p.time_discretization_property();
                                auto& y = nodes[x.time];
                                vf::check(same(q.id(), y.group.id()) && q.name() == y.name && q.description() == y.description, what + ": property in time of " + x.path);
                            }
                            if (x.space >= 0)
                            {
                                vf::check(p.space_discretization_type() == SpaceDiscretization::regular_grid, what + ": kind in space");
                                auto q = p.space_discretization_property();
                                auto& y = nodes[x.space];
                                vf::check(same(q.id(), y.group.id()) && q.name() == y.name && q.description() == y.description, what + ": property in space of " + x.path);
                            }
                        };
                        test(*p);
                        PropertyGroup again{h5::Group{g, x.path}};
                        test(again);
                    }
                for (int s = 0; s < 3; ++s)
                {
                    auto& d = sets[s].space_domain();
                    vf::check(d.presence_is_discretized() == (presence[s] >= 0), what + ": presence");
                    if (presence[s] >= 0) vf::check(same(d.discretized_presence_property().id(), nodes[presence[s]].group.id()), what + ": property of the presence");
                }
            };
            look("nothing set");
            for (int k = 0; k < 30; ++k)
            {
                int i = vf::rnd(0, nodes.size() - 1), j = k % 7 == 6 ? i : static_cast<int>(vf::rnd(0, nodes.size() - 1)), way = vf::rnd(0, 6) / 3;
                auto& x = nodes[i];
                std::string what = vf::cat("step ", k, ", ", way, ": ", x.path, " to ", nodes[j].path);
                auto before = vf::dump(g.id());
                if (way == 2)
                {
                    int s = i % 3;
                    std::string p = vf::cat("/", top, "/s", s, "/sets/o/lue_space_domain/lue_presence_discretization_property");
                    bool threw = vf::throws([&] { sets[s].space_domain().set_presence_discretization(nodes[j].group); });
                    vf::check(threw == (presence[s] >= 0), what + ": refused exactly when set before");
                    vf::same_changes(before, vf::dump(g.id()), threw ? std::set<std::string>{} : std::set<std::string>{"+" + p}, what);
                    if (!threw) presence[s] = j;
                }
                else
                {
                    int& at = way ? x.space : x.time;
                    std::string a = way ? "lue_space_discretization" : "lue_time_discretization";
                    bool threw = vf::throws([&] {
                        if (way) x.group.set_space_discretization(SpaceDiscretization::regular_grid, nodes[j].group);
                        else x.group.set_time_discretization(TimeDiscretization::regular_grid, nodes[j].group);
                    });
                    vf::check(threw == (at >= 0), what + ": refused exactly when set before");
                    vf::same_changes(before, vf::dump(g.id()), threw ? std::set<std::string>{} : std::set<std::string>{"+" + x.path + "@" + a, "+" + x.path + "/" + a + "_property"}, what);
                    if (!threw) at = j;
                }
                if (k % 5 == 0 || k > 26) look(what);
            }
        });
    }
    h5::Group g{h5::create_group(f, "failures")};
    Properties ps = create_properties(g);
    auto a = add(ps, 0, "a", ""), b = add(ps, 5, "b", "");
    vf::each_failure("time", [&] { a.set_time_discretization(TimeDiscretization::regular_grid, b); }, "H5Lexists H5Aexists");
    vf::each_failure("space", [&] { a.set_space_discretization(SpaceDiscretization::regular_grid, b); }, "H5Lexists H5Aexists");
    vf::sample("histories of setting discretizations between eighteen properties in three sets, themselves and set before included");
    return vf::done();
}
