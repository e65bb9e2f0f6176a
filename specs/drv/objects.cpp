// Collections, phenomena, universes, property sets, properties, datasets
#include "lue/object/dataset.hpp"
#include "lue/object/phenomena.hpp"
#include "lue/object/property/properties.hpp"
#include "lue/object/property/property_set.hpp"
#include "lue/object/property_sets.hpp"
#include "lue/object/universes.hpp"
#include "lue/version.hpp"

namespace vx {
    using namespace lue::data_model;
    namespace hdf5 = lue::hdf5;
    using G = hdf5::Group;
    using S = std::string;
    using T = hdf5::Datatype;
    using N = std::vector<std::string>;

#define COLLECTION(n, C, E) \
    hid_t n##_hid(C const& c) { return c.id(); } \
    bool n##_empty(C const& c) { return c.empty(); } \
    std::size_t n##_size(C const& c) { return c.size(); } \
    N n##_names(C const& c) { return c.names(); } \
    bool n##_contains(C const& c, S const& s) { return c.contains(s); } \
    E const& n##_at(C const& c, S const& s) { return c[s]; } \
    E& n##_get(C& c, S const& s) { return c[s]; } \
    N n##_all(C const& c) { N r; for (auto const& p : c) { r.push_back(p.first); } return r; } \
    hid_t n##_element_hid(E const& e) { return e.id(); }

    COLLECTION(phenomena, Phenomena, Phenomenon)
    Phenomena phenomena_create(G& g) { return create_phenomena(g); }
    Phenomena phenomena_open(G const& g) { return Phenomena{g}; }
    Phenomenon& phenomena_add(Phenomena& c, S const& n, S const& d) { return c.add(n, d); }
    Phenomenon& phenomena_add1(Phenomena& c, S const& n) { return c.add(n); }
    Phenomenon phenomenon_open(G const& g, S const& n) { return Phenomenon{g, n}; }
    S phenomenon_description(Phenomenon const& p) { return p.description(); }
    hid_t phenomenon_object_id(Phenomenon& p) { return p.object_id().id(); }
    PropertySets& phenomenon_property_sets(Phenomenon& p) { return p.property_sets(); }
    PropertySets& phenomenon_collection_property_sets(Phenomenon& p) { return p.collection_property_sets(); }

    COLLECTION(universes, Universes, Universe)
    Universes universes_create(G& g) { return create_universes(g); }
    Universes universes_open(G const& g) { return Universes{g}; }
    Universe& universes_add(Universes& c, S const& n) { return c.add(n); }
    Universe universe_open(G const& g, S const& n) { return Universe{g, n}; }
    Phenomena& universe_phenomena(Universe& u) { return u.phenomena(); }
    Phenomenon& universe_add(Universe& u, S const& n, S const& d) { return u.add_phenomenon(n, d); }

    COLLECTION(sets, PropertySets, PropertySet)
    PropertySets sets_create(G& g, S const& n) { return create_property_sets(g, n); }
    PropertySets sets_open(G const& g, S const& n) { return PropertySets{g, n}; }
    PropertySet& sets_add(PropertySets& c, S const& n) { return c.add(n); }
    using TC = TimeConfiguration;
    using SC = SpaceConfiguration;
    PropertySet& sets_add_space(PropertySets& c, S const& n, SC const& s, T const& t, std::size_t r) { return c.add(n, s, t, r); }
    PropertySet& sets_add_time(PropertySets& c, S const& n, TC const& t, Clock const& k) { return c.add(n, t, k); }
    PropertySet& sets_add_shared(PropertySets& c, S const& n, TimeDomain& d) { return c.add(n, d); }
    PropertySet& sets_add_time_tracked(PropertySets& c, S const& n, TC const& t, Clock const& k, ObjectTracker& o) { return c.add(n, t, k, o); }
    PropertySet& sets_add_shared_tracked(PropertySets& c, S const& n, TimeDomain& d, ObjectTracker& o) { return c.add(n, d, o); }
    PropertySet& sets_add_time_space(PropertySets& c, S const& n, TC const& t, Clock const& k, SC const& s, T const& y, std::size_t r) { return c.add(n, t, k, s, y, r); }
    PropertySet& sets_add_shared_space(PropertySets& c, S const& n, TimeDomain& d, SC const& s, T const& y, std::size_t r) { return c.add(n, d, s, y, r); }
    PropertySet& sets_add_shared_tracked_space(PropertySets& c, S const& n, TimeDomain& d, ObjectTracker& o, SC const& s, T const& y, std::size_t r) { return c.add(n, d, o, s, y, r); }
    PropertySet set_open(G const& g, S const& n) { return PropertySet{g, n}; }
    hid_t set_hid(PropertySet const& s) { return s.id(); }
    ObjectTracker& set_tracker(PropertySet& s) { return s.object_tracker(); }
    bool set_owns_tracker(PropertySet const& s) { return s.owns_object_tracker(); }
    bool set_has_time(PropertySet const& s) { return s.has_time_domain(); }
    bool set_owns_time(PropertySet const& s) { return s.owns_time_domain(); }
    TimeDomain& set_time(PropertySet& s) { return s.time_domain(); }
    bool set_has_space(PropertySet const& s) { return s.has_space_domain(); }
    SpaceDomain& set_space(PropertySet& s) { return s.space_domain(); }
    Properties& set_properties(PropertySet& s) { return s.properties(); }
    hid_t tracker_id(ObjectTracker const& t) { return t.id(); }

    // ---- properties
    Properties properties_create(G& g) { return create_properties(g); }
    Properties properties_open(G const& g) { return Properties{g}; }
    hid_t properties_hid(Properties const& p) { return p.id(); }
    bool properties_empty(Properties const& p) { return p.empty(); }
    std::size_t properties_size(Properties const& p) { return p.size(); }
    bool properties_contains(Properties const& p, S const& n) { return p.contains(n); }
    int properties_shape_per_object(Properties const& p, S const& n) { return static_cast<int>(p.shape_per_object(n)); }
    int properties_value_variability(Properties const& p, S const& n) { return static_cast<int>(p.value_variability(n)); }
    int properties_shape_variability(Properties const& p, S const& n) { return static_cast<int>(p.shape_variability(n)); }
    hid_t properties_group(Properties& p, S const& n) { return p.collection_group(n).id(); }
    same_shape::Property& properties_add(Properties& p, S const& n, T const& t, S const& d) { return p.add(n, t, d); }
    same_shape::Property& properties_add_shape(Properties& p, S const& n, T const& t, hdf5::Shape const& s, S const& d) { return p.add(n, t, s, d); }
    different_shape::Property& properties_add_rank(Properties& p, S const& n, T const& t, Rank r, S const& d) { return p.add(n, t, r, d); }

#define KIND(n, ns) \
    COLLECTION(n, ns::Properties, ns::Property) \
    ns::Properties& n##_of(Properties& p) { return p.collection<ns::Properties>(); } \
    ns::Properties n##_open(G const& g) { return ns::Properties{g}; } \
    N n##_names_of(Properties const& p) { return p.names<ns::Properties>(); } \
    ns::Property n##_element(G const& g, S const& s) { return ns::Property{g, s}; } \
    ns::Property n##_element2(G const& g, S const& s, T const& t) { return ns::Property{g, s, t}; } \
    PropertyGroup& n##_group(ns::Property& p) { return p; } \
    hid_t n##_value_hid(ns::Property const& p) { return p.value().id(); } \
    T n##_memory(ns::Property const& p) { return p.value().memory_datatype(); } \
    T n##_stored(ns::Property const& p) { return p.value().file_datatype(); }
#define SHAPED(n, ns) \
    ns::Property& n##_put(ns::Properties& c, S const& s, T const& t, S const& d) { return c.add(s, t, d); } \
    ns::Property& n##_put_shape(ns::Properties& c, S const& s, T const& t, hdf5::Shape const& h, S const& d) { return c.add(s, t, h, d); } \
    ns::Property& n##_add(Properties& p, S const& s, T const& t, S const& d) { return p.add<ns::Property>(s, t, d); } \
    ns::Property& n##_add_shape(Properties& p, S const& s, T const& t, hdf5::Shape const& h, S const& d) { return p.add<ns::Property>(s, t, h, d); } \
    hdf5::Shape n##_shape(ns::Property const& p) { return p.value().array_shape(); }
#define RANKED(n, ns) \
    ns::Property& n##_put_rank(ns::Properties& c, S const& s, T const& t, Rank r, S const& d) { return c.add(s, t, r, d); } \
    Rank n##_rank(ns::Property const& p) { return p.value().rank(); }
#define RANKED2(n, ns) \
    ns::Property& n##_add_rank(Properties& p, S const& s, T const& t, Rank r, S const& d) { return p.add<ns::Property>(s, t, r, d); }

    KIND(k0, same_shape)
    KIND(k1, same_shape::constant_shape)
    KIND(k2, same_shape::variable_shape)
    KIND(k3, different_shape)
    KIND(k4, different_shape::constant_shape)
    KIND(k5, different_shape::variable_shape)
    SHAPED(k0, same_shape)
    SHAPED(k1, same_shape::constant_shape)
    RANKED(k2, same_shape::variable_shape)
    RANKED(k3, different_shape)
    RANKED(k4, different_shape::constant_shape)
    RANKED(k5, different_shape::variable_shape)
    RANKED2(k2, same_shape::variable_shape)
    RANKED2(k4, different_shape::constant_shape)
    RANKED2(k5, different_shape::variable_shape)

    // ---- discretizations
    using PG = PropertyGroup;
    PG group_open(G const& g, S const& n) { return PG{g, n}; }
    hid_t group_hid(PG const& g) { return g.id(); }
    S group_name(PG const& g) { return g.name(); }
    S group_description(PG const& g) { return g.description(); }
    bool group_time(PG const& g) { return g.time_is_discretized(); }
    bool group_space(PG const& g) { return g.space_is_discretized(); }
    int group_time_type(PG const& g) { return static_cast<int>(g.time_discretization_type()); }
    int group_space_type(PG const& g) { return static_cast<int>(g.space_discretization_type()); }
    void group_set_time(PG& g, int t, PG& p) { g.set_time_discretization(static_cast<TimeDiscretization>(t), p); }
    void group_set_space(PG& g, int t, PG& p) { g.set_space_discretization(static_cast<SpaceDiscretization>(t), p); }
    PG group_time_property(PG& g) { return g.time_discretization_property(); }
    PG group_space_property(PG& g) { return g.space_discretization_property(); }
    bool presence(SpaceDomain const& d) { return d.presence_is_discretized(); }
    void set_presence(SpaceDomain& d, PG& p) { d.set_presence_discretization(p); }
    PG presence_property(SpaceDomain& d) { return d.discretized_presence_property(); }

    // ---- datasets
    Dataset dataset_create(S const& n, S const& d) { return create_dataset(n, d); }
    Dataset dataset_create1(S const& n) { return create_dataset(n); }
    Dataset dataset_memory(S const& n, S const& d) { return create_in_memory_dataset(n, d); }
    Dataset dataset_open(S const& n, unsigned f) { return open_dataset(n, f); }
    Dataset dataset_memory1(S const& n) { return create_in_memory_dataset(n); }
    Dataset dataset_open2(S const& n) { return open_dataset(n); }
    Dataset dataset_open0(S const& n) { return Dataset{n}; }
    Dataset dataset_open1(S const& n, unsigned f) { return Dataset{n, f}; }
    bool dataset_there(S const& n) { return dataset_exists(n); }
    void dataset_remove(S const& n) { remove_dataset(n); }
    S dataset_path(Dataset const& d) { return d.pathname(); }
    S dataset_description(Dataset const& d) { return d.description(); }
    S dataset_version(Dataset const& d) { return d.lue_version(); }
    S library_version() { return lue::version(); }
    hid_t dataset_hid(Dataset const& d) { return d.id(); }
    unsigned dataset_intent(Dataset const& d) { return d.intent(); }
    Universes& dataset_universes(Dataset& d) { return d.universes(); }
    Phenomena& dataset_phenomena(Dataset& d) { return d.phenomena(); }
    Universe& dataset_add_universe(Dataset& d, S const& n) { return d.add_universe(n); }
    Phenomenon& dataset_add_phenomenon(Dataset& d, S const& n, S const& e) { return d.add_phenomenon(n, e); }
}
