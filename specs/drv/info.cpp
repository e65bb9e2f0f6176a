// Configurations, clocks, and domains
#include "lue/core/clock.hpp"
#include "lue/core/configuration.hpp"
#include "lue/info/space/mobile_space_box.hpp"
#include "lue/info/space/mobile_space_point.hpp"
#include "lue/info/space/stationary_space_box.hpp"
#include "lue/info/space/stationary_space_point.hpp"
#include "lue/info/time/time_box.hpp"
#include "lue/info/time/time_cell.hpp"
#include "lue/info/time/time_point.hpp"
#include "lue/object/space_domain.hpp"
#include "lue/object/time_domain.hpp"

namespace vx {
    using namespace lue::data_model;
    namespace hdf5 = lue::hdf5;
    using G = hdf5::Group;
    using S = std::string;
    using T = hdf5::Datatype;
    using A = hdf5::Attributes;

    // ---- aspects
    A& attributes(G& g) { return g.attributes(); }

#define ASPECT(n, E) \
    S to_##n(int v) { return aspect_to_string<E>(static_cast<E>(v)); } \
    int from_##n(S const& s) { return static_cast<int>(string_to_aspect<E>(s)); } \
    void save_##n(A& a, int v) { Aspect<E>{static_cast<E>(v)}.save(a); } \
    int load_##n(A const& a) { return static_cast<int>(Aspect<E>{a}.value()); } \
    bool same_##n(int v, int w) { return Aspect<E>{static_cast<E>(v)} == Aspect<E>{static_cast<E>(w)}; } \
    S tag_##n() { return Tag<E>::value(); }

    ASPECT(shape_per_object, ShapePerObject)
    ASPECT(value_variability, ValueVariability)
    ASPECT(shape_variability, ShapeVariability)
    ASPECT(time_domain_item_type, TimeDomainItemType)
    ASPECT(mobility, Mobility)
    ASPECT(space_domain_item_type, SpaceDomainItemType)
    ASPECT(space_discretization, SpaceDiscretization)
    ASPECT(time_discretization, TimeDiscretization)
    ASPECT(unit, time::Unit)
    ASPECT(calendar, time::Calendar)
    ASPECT(epoch_kind, time::Epoch::Kind)

    using PC = Configuration<ShapePerObject, ValueVariability, ShapeVariability>;
    PC property_configuration(int x, int y, int z) { return PC{static_cast<ShapePerObject>(x), static_cast<ValueVariability>(y), static_cast<ShapeVariability>(z)}; }
    void pc_save(PC const& c, A& a) { c.save(a); }
    PC pc_load(A const& a) { return PC{a}; }
    int pc_0(PC const& c) { return static_cast<int>(c.value<ShapePerObject>()); }
    int pc_1(PC const& c) { return static_cast<int>(c.value<ValueVariability>()); }
    int pc_2(PC const& c) { return static_cast<int>(c.value<ShapeVariability>()); }
    bool pc_same(PC const& c, PC const& d) { return c == d; }
    bool pc_other(PC const& c, PC const& d) { return c != d; }

    TimeConfiguration time_configuration(int t) { return TimeConfiguration{static_cast<TimeDomainItemType>(t)}; }
    void tc_save(TimeConfiguration const& c, A& a) { c.save(a); }
    TimeConfiguration tc_load(A const& a) { return TimeConfiguration{a}; }
    int tc_item(TimeConfiguration const& c) { return static_cast<int>(c.value<TimeDomainItemType>()); }
    bool tc_same(TimeConfiguration const& c, TimeConfiguration const& d) { return c == d; }
    bool tc_other(TimeConfiguration const& c, TimeConfiguration const& d) { return c != d; }
    SpaceConfiguration space_configuration(int m, int t) { return SpaceConfiguration{static_cast<Mobility>(m), static_cast<SpaceDomainItemType>(t)}; }
    void sc_save(SpaceConfiguration const& c, A& a) { c.save(a); }
    SpaceConfiguration sc_load(A const& a) { return SpaceConfiguration{a}; }
    int sc_mobility(SpaceConfiguration const& c) { return static_cast<int>(c.value<Mobility>()); }
    int sc_item(SpaceConfiguration const& c) { return static_cast<int>(c.value<SpaceDomainItemType>()); }
    bool sc_same(SpaceConfiguration const& c, SpaceConfiguration const& d) { return c == d; }
    bool sc_other(SpaceConfiguration const& c, SpaceConfiguration const& d) { return c != d; }

    // ---- clocks
    time::Epoch epoch0() { return time::Epoch{}; }
    time::Epoch epoch1(int k) { return time::Epoch{static_cast<time::Epoch::Kind>(k)}; }
    time::Epoch epoch2(int k, S const& o) { return time::Epoch{static_cast<time::Epoch::Kind>(k), o}; }
    time::Epoch epoch3(int k, S const& o, int c) { return time::Epoch{static_cast<time::Epoch::Kind>(k), o, static_cast<time::Calendar>(c)}; }
    int epoch_kind(time::Epoch const& e) { return static_cast<int>(e.kind()); }
    bool epoch_has_origin(time::Epoch const& e) { return e.origin().has_value(); }
    S epoch_origin(time::Epoch const& e) { return *e.origin(); }
    bool epoch_has_calendar(time::Epoch const& e) { return e.calendar().has_value(); }
    int epoch_calendar(time::Epoch const& e) { return static_cast<int>(*e.calendar()); }
    Clock clock2(int u, time::TickPeriodCount n) { return Clock{static_cast<time::Unit>(u), n}; }
    Clock clock3(time::Epoch const& e, int u, time::TickPeriodCount n) { return Clock{e, static_cast<time::Unit>(u), n}; }
    time::Epoch clock_epoch(Clock const& c) { return c.epoch(); }
    int clock_unit(Clock const& c) { return static_cast<int>(c.unit()); }
    time::TickPeriodCount clock_units(Clock const& c) { return c.nr_units(); }
    bool clock_same(Clock const& c, Clock const& d) { return c == d; }
    bool clock_other(Clock const& c, Clock const& d) { return c != d; }
    void clock_assign(Clock& c, Clock const& d) { c = d; }

    using P = time::TickPeriod<time::Day>;
    using D = time::Duration<P>;
    using K = time::Clock<P>;
    using TP = time::TimePoint<K>;
    P period0() { return P{}; }
    P period1(P::Count n) { return P{n}; }
    P::Count period_units(P const& p) { return p.nr_units(); }
    D duration(D::Count n) { return D{n}; }
    D::Count duration_ticks(D const& d) { return d.nr_ticks(); }
    bool duration_same(D const& a, D const& b) { return a == b; }
    K ticks(time::Epoch const& e, P const& p) { return K{e, p}; }
    P::Count ticks_units(K const& k) { return k.tick_period().nr_units(); }
    time::Epoch ticks_epoch(K const& k) { return k.epoch(); }
    TP point(D const& d) { return TP{d}; }
    D point_duration(TP const& p) { return p.duration(); }
    D::Count point_ticks(TP const& p) { return p.nr_ticks(); }

    // ---- time domains
    TimeDomain time_create(G& g, TimeConfiguration const& t, Clock const& c) { return create_time_domain(g, t, c); }
    TimeDomain time_open(G const& g) { return TimeDomain{g}; }
    bool time_exists(G const& g) { return time_domain_exists(g); }
    bool time_linked(G const& g) { return has_linked_time_domain(g); }
    void time_link(G& g, TimeDomain& d) { link_time_domain(g, d); }
    TimeConfiguration time_config(TimeDomain const& d) { return d.configuration(); }
    Clock time_clock(TimeDomain const& d) { return d.clock(); }
    hid_t time_hid(TimeDomain const& d) { return d.id(); }
    TimePoint time_points(TimeDomain& d) { return d.value<TimePoint>(); }
    TimeBox time_boxes(TimeDomain& d) { return d.value<TimeBox>(); }
    TimeCell time_cells(TimeDomain& d) { return d.value<TimeCell>(); }
    same_shape::constant_shape::Value& point_items(TimePoint& v) { return v; }
    same_shape::constant_shape::Value& box_items(TimeBox& v) { return v; }
    same_shape::constant_shape::Value& cell_items(TimeCell& v) { return v; }
    same_shape::constant_shape::Value& cell_counts(TimeCell& v) { return v.count(); }
    using V = same_shape::constant_shape::Value;
    hid_t value_hid(V const& v) { return v.id(); }
    hdf5::Shape value_shape(V const& v) { return v.array_shape(); }
    T value_memory(V const& v) { return v.memory_datatype(); }
    T value_stored(V const& v) { return v.file_datatype(); }
    void value_expand(V& v, Count n) { v.expand(n); }
    Count nr_points(TimePoint const& v) { return v.nr_points(); }
    Count nr_boxes(TimeBox const& v) { return v.nr_boxes(); }
    Count nr_cells(TimeCell const& v) { return v.nr_boxes(); }
    Count nr_counts(TimeCell const& v) { return v.nr_counts(); }

    // ---- space domains
    SpaceDomain space_create(G& g, SpaceConfiguration const& c, T const& t, std::size_t r) { return create_space_domain(g, c, t, r); }
    SpaceDomain space_open(G const& g) { return SpaceDomain{g}; }
    bool space_exists(G const& g) { return space_domain_exists(g); }
    SpaceConfiguration space_config(SpaceDomain const& d) { return d.configuration(); }
    hid_t space_hid(SpaceDomain const& d) { return d.id(); }
#define SPACE(n, C) \
    C n##1(SpaceDomain& d) { return d.value<C>(); } \
    C n##2(SpaceDomain& d, T const& t) { return d.value<C>(t); } \
    hid_t n##_hid(C const& v) { return v.id(); } \
    Count n##_arrays(C const& v) { return v.nr_arrays(); } \
    hdf5::Shape n##_shape(C const& v) { return v.array_shape(); } \
    T n##_memory(C const& v) { return v.memory_datatype(); } \
    T n##_stored(C const& v) { return v.file_datatype(); } \
    void n##_expand(C& v, Count n) { v.expand(n); }
    SPACE(still_point, StationarySpacePoint)
    SPACE(still_box, StationarySpaceBox)
    SPACE(moving_point, MobileSpacePoint)
    SPACE(moving_box, MobileSpaceBox)
    Count still_point_nr(StationarySpacePoint const& v) { return v.nr_points(); }
    Count still_box_nr(StationarySpaceBox const& v) { return v.nr_boxes(); }
    Count moving_point_nr(MobileSpacePoint const& v) { return v.nr_points(); }
    Count moving_box_nr(MobileSpaceBox const& v) { return v.nr_boxes(); }
}
