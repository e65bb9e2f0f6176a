// Clocks, in memory and stored with time domains
#include "clocks.hpp"
#include "lue/core/time/duration.hpp"
#include "lue/core/time/tick_period.hpp"
#include "lue/core/time/time_point.hpp"

using namespace lue::data_model;
namespace h5 = lue::hdf5;

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    h5::File f{h5::create_file("p13.h5")};
    vf::scenario("epochs", [&] {
        using E = time::Epoch;
        E d{};
        vf::check(d.kind() == E::Kind::common_era && d.origin() && *d.origin() == "1970-01-01T00:00:00+00:00" && d.calendar() && *d.calendar() == time::Calendar::gregorian, "the default epoch");
        for (auto k : {E::Kind::common_era, E::Kind::formation_of_earth})
        {
            E a{k}, b{k, "o"}, c{k, "p", time::Calendar::gregorian};
            vf::check(a.kind() == k && !a.origin() && !a.calendar(), "epoch of a kind");
            vf::check(b.kind() == k && b.origin() && *b.origin() == "o" && !b.calendar(), "epoch with an origin");
            vf::check(c.kind() == k && c.origin() && *c.origin() == "p" && c.calendar(), "epoch with a calendar");
        }
    });
    vf::scenario("clocks", [&] {
        for (int i = 0; i < (vf::thorough ? 20000 : 2000); ++i)
        {
            auto e = vf::some_epoch();
            auto n = vf::some_units(), m = vf::rnd(0, 2) ? vf::some_units() : n;
            auto u = static_cast<time::Unit>(vf::rnd(0, 9)), v = vf::rnd(0, 1) ? u : static_cast<time::Unit>(vf::rnd(0, 9));
            Clock a{e, u, n}, b{vf::some_epoch(), v, m}, c{u, n};
            vf::check(vf::same(a.epoch(), e) && a.unit() == u && a.nr_units() == n, "parts of a clock");
            vf::check(vf::same(c.epoch(), time::Epoch{}) && c.unit() == u && c.nr_units() == n, "parts of a clock with the default epoch");
            vf::check((a == b) == (u == v && n == m) && (a != b) == !(u == v && n == m), "equality of clocks");
            Clock d{a};
            vf::check(vf::same(d, a), "copy of a clock");
            d = b;
            vf::check(vf::same(d, b), "assigned clock");
            using P = time::TickPeriod<time::Day>;
            using D = time::Duration<P>;
            using K = time::Clock<P>;
            vf::check(P{n}.nr_units() == n && P{}.nr_units() == 1, "tick period");
            vf::check(D{n}.nr_ticks() == n && (D{n} == D{m}) == (n == m), "duration");
            K k{e, P{n}};
            vf::check(vf::same(k.epoch(), e) && k.tick_period().nr_units() == n, "clock of ticks");
            time::TimePoint<K> t{D{n}};
            vf::check(t.nr_ticks() == n && t.duration() == D{n}, "point in time");
        }
    });
    for (int i = 0; i < (vf::thorough ? 400 : 60); ++i)
        vf::scenario("stored clock", [&] {
            h5::Group g{h5::create_group(f, vf::cat("g", i))};
            Clock c = vf::some_clock();
            TimeConfiguration t{static_cast<TimeDomainItemType>(vf::rnd(0, 2))};
            auto before = vf::dump(g.id());
            auto d = create_time_domain(g, t, c);
            auto p = vf::cat("/g", i, "/lue_time_domain");
            auto want = vf::clock_changes(p, c);
            want.insert("+" + p + "/lue_coordinates");
            if (t.value<TimeDomainItemType>() == TimeDomainItemType::cell) want.insert("+" + p + "/lue_time_discretization");
            auto after = vf::dump(g.id());
            vf::same_changes(before, after, want, "creating a domain with a clock");
            vf::check(vf::same(d.clock(), c), "clock of a new domain");
            TimeDomain o{g};
            vf::check(vf::same(o.clock(), c) && o.clock() == c, "clock found again");
            vf::same_changes(after, vf::dump(g.id()), {}, "opening a domain");
        });
    h5::Group g{h5::create_group(f, "failures")};
    Clock c{time::Epoch{time::Epoch::Kind::common_era, "o", time::Calendar::gregorian}, time::Unit::day, 3};
    vf::each_failure("create", [&] { create_time_domain(g, TimeConfiguration{TimeDomainItemType::point}, c); }, "H5Lexists H5Aexists");
    create_time_domain(g, TimeConfiguration{TimeDomainItemType::point}, c);
    vf::each_failure("open", [&] { TimeDomain{g}; }, "H5Aexists");
    vf::sample("clocks with random epoch, unit and 64-bit number of units, compared in pairs and stored with a domain");
    return vf::done();
}
