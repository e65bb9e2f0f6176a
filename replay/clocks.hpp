// Clocks of every kind
#pragma once
#include "inject.hpp"
#include "dump.hpp"
#include "lue/object/time_domain.hpp"

namespace vf {
    namespace dm = lue::data_model;
    inline dm::time::Epoch some_epoch()
    {
        using E = dm::time::Epoch;
        auto k = static_cast<E::Kind>(rnd(0, 1));
        static std::vector<std::string> const origins{"2000-01-01", "x", "\xc3\xa9 \xe2\x82\xac", std::string(3000, 'o'), " "};
        std::string o = origins[rnd(0, origins.size() - 1)];
        switch (rnd(0, 3))
        {
            case 0: return E{};
            case 1: return E{k};
            case 2: return E{k, o};
            default: return E{k, o, dm::time::Calendar::gregorian};
        }
    }
    inline dm::time::TickPeriodCount some_units()
    {
        static std::vector<std::uint64_t> const n{0, 1, 2, 60, 4294967296ull, 4294967295ull, 18446744073709551615ull};
        return rnd(0, 1) ? n[rnd(0, n.size() - 1)] : rng();
    }
    inline dm::Clock some_clock() { return dm::Clock{some_epoch(), static_cast<dm::time::Unit>(rnd(0, 9)), some_units()}; }
    inline bool same(dm::time::Epoch const& a, dm::time::Epoch const& b) { return a.kind() == b.kind() && a.origin() == b.origin() && a.calendar() == b.calendar(); }
    inline bool same(dm::Clock const& a, dm::Clock const& b) { return same(a.epoch(), b.epoch()) && a.unit() == b.unit() && a.nr_units() == b.nr_units(); }
    inline std::set<std::string> clock_changes(std::string const& path, dm::Clock const& c)
    {
        std::set<std::string> r{"+" + path, "+" + path + "@lue_epoch_kind", "+" + path + "@lue_time_unit", "+" + path + "@lue_nr_time_units", "+" + path + "@lue_time_domain_item_type"};
        if (c.epoch().origin()) r.insert("+" + path + "@lue_epoch_origin");
        if (c.epoch().calendar()) r.insert("+" + path + "@lue_epoch_calendar");
        return r;
    }
}
