// Property sets of every overload, sharing domains and trackers with others
#include "inject.hpp"
#include "dump.hpp"
#include "lue/hdf5/file.hpp"
#include "lue/info/space/mobile_space_box.hpp"
#include "lue/info/space/stationary_space_point.hpp"
#include "lue/info/time/time_point.hpp"
#include "lue/object/property_sets.hpp"

using namespace lue::data_model;
namespace h5 = lue::hdf5;

static bool same(hid_t a, hid_t b)
{
    H5O_info_t x, y;
    return H5Oget_info1(a, &x) >= 0 && H5Oget_info1(b, &y) >= 0 && x.addr == y.addr && x.fileno == y.fileno;
}

struct Model { bool time = false, space = false, owns_time = false, owns_tracker = false; TimeDomainItemType item{}; Clock clock{time::Unit::day, 1}; SpaceConfiguration config{Mobility::mobile, SpaceDomainItemType::box}; std::size_t root = 0; };

static void look(PropertySet& s, Model const& m, PropertySet* source, std::string const& what)
{
    vf::check(s.has_time_domain() == m.time && s.has_space_domain() == m.space, what + ": presence of domains");
    vf::check(s.owns_time_domain() == m.owns_time && s.owns_object_tracker() == m.owns_tracker, what + ": ownership");
    if (m.time && s.has_time_domain())
    {
        vf::check(s.time_domain().configuration().value<TimeDomainItemType>() == m.item, what + ": items in time");
        vf::check(s.time_domain().clock() == m.clock, what + ": clock");
        if (!m.owns_time && source) vf::check(same(s.time_domain().id(), source->time_domain().id()), what + ": shared time domain");
    }
    if (m.space && s.has_space_domain()) vf::check(s.space_domain().configuration() == m.config, what + ": items in space");
    if (source) vf::check(same(s.object_tracker().id(), source->object_tracker().id()) == !m.owns_tracker, what + ": tracker");
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    h5::File f{h5::create_file("p16.h5")};
    h5::Datatype t{H5T_NATIVE_DOUBLE};
    for (int round = 0; round < (vf::thorough ? 40 : 8); ++round)
    {
        vf::scenario(vf::cat("history ", round), [&] {
            std::string top = vf::cat("g", round);
            h5::Group g{h5::create_group(f, top)};
            create_property_sets(g, "sets");
            PropertySets sets{g, "sets"};
            std::map<std::string, Model> model;
            auto item = static_cast<TimeDomainItemType>(round % 3);
            Clock const clock{static_cast<time::Unit>(vf::rnd(0, 9)), static_cast<time::TickPeriodCount>(vf::rnd(1, 9))};
            TimeConfiguration const tc{item};
            SpaceConfiguration const no{Mobility::stationary, SpaceDomainItemType::point};
            sets.add("o", TimeConfiguration{TimeDomainItemType::point}, clock, no, t, 2);
            model["o"] = {true, true, true, true, TimeDomainItemType::point, clock, no, 0};
            std::map<std::string, bool> shares;
            for (int k = 0; k < 9; ++k)
            {
                std::string n = vf::cat("n", k), what = vf::cat("overload ", k, " of round ", round);
                SpaceConfiguration const sc{k % 2 ? Mobility::mobile : Mobility::stationary, round % 2 ? SpaceDomainItemType::box : SpaceDomainItemType::point};
                std::string const source = round % 2 && model.count("n3") ? "n3" : "o";
                PropertySet o{sets, source};
                auto& shared = o.time_domain();
                auto& tracker = o.object_tracker();
                bool const time = k > 1, own_time = k == 2 || k == 4 || k == 6, space = k == 1 || k > 5, own_tracker = k != 4 && k != 5 && k != 8;
                auto add = [&](std::string const& n) -> PropertySet& {
                    switch (k)
                    {
                        case 0: return sets.add(n);
                        case 1: return sets.add(n, sc, t, 2);
                        case 2: return sets.add(n, tc, clock);
                        case 3: return sets.add(n, shared);
                        case 4: return sets.add(n, tc, clock, tracker);
                        case 5: return sets.add(n, shared, tracker);
                        case 6: return sets.add(n, tc, clock, sc, t, 2);
                        case 7: return sets.add(n, shared, sc, t, 2);
                        default: return sets.add(n, shared, tracker, sc, t, 2);
                    }
                };
                auto before = vf::dump(g.id());
                vf::check(vf::throws([&] { add("o"); }), what + ": a taken name");
                vf::same_changes(before, vf::dump(g.id()), {}, what + ": a taken name");
                PropertySet* s = &add(n);
                std::string at = "/" + top + "/sets/" + n;
                for (auto& d : vf::differences(before, vf::dump(g.id())))
                    vf::check(d[0] == '+' && d.compare(1, at.size(), at) == 0, what + ": changes " + d);
                model[n] = {time, space, time && own_time, own_tracker, own_time ? item : TimeDomainItemType::point, clock, sc, 0};
                look(*s, model[n], &o, what);
                PropertySet again{sets, n};
                look(again, model[n], &o, what + ", found again");
                if (time && !own_time)
                {
                    // written through one, read through the other
                    auto v = again.time_domain().value<TimePoint>();
                    auto old = v.nr_points();
                    v.expand(2);
                    std::vector<std::uint64_t> x{static_cast<std::uint64_t>(k), static_cast<std::uint64_t>(round)}, y(2);
                    v.write(IndexRange(old, old + 2), x.data());
                    auto w = PropertySet{sets, "o"}.time_domain().value<TimePoint>();
                    vf::check(w.nr_points() == old + 2, what + ": items added through the other");
                    w.read(IndexRange(old, old + 2), y.data());
                    vf::check(x == y, what + ": items written through the other");
                }
                if (!own_tracker)
                {
                    again.object_tracker().active_object_id().expand(3);
                    vf::check(PropertySet{sets, source}.object_tracker().active_object_id().nr_ids() == o.object_tracker().active_object_id().nr_ids() && o.object_tracker().active_object_id().nr_ids() >= 3, what + ": the tracker is shared");
                }
                else
                {
                    again.object_tracker().active_object_id().expand(1);
                    vf::check(PropertySet{sets, n}.object_tracker().active_object_id().nr_ids() == 1, what + ": the tracker is its own");
                }
            }
            PropertySets found{g, "sets"};
            vf::check(found.size() == model.size(), "number of sets");
            for (auto& [n, m] : model) { look(found[n], m, nullptr, "all of round, " + n); }
        });
    }
    h5::Group g{h5::create_group(f, "failures")};
    auto sets = create_property_sets(g, "sets");
    auto& o = sets.add("o", TimeConfiguration{TimeDomainItemType::point}, Clock{time::Unit::day, 1});
    vf::each_failure("add", [&] { sets.add("n", TimeConfiguration{TimeDomainItemType::point}, Clock{time::Unit::day, 1}); }, "H5Lexists H5Aexists");
    vf::each_failure("share", [&] { sets.add("n", o.time_domain(), o.object_tracker()); }, "H5Lexists H5Aexists");
    vf::sample("histories of creating sets by every overload, sharing domains directly and through another set");
    return vf::done();
}
