// Object arrays
#include "lue/array/different_shape/constant_shape/value.hpp"
#include "lue/array/different_shape/value.hpp"
#include "lue/array/different_shape/variable_shape/value.hpp"
#include "lue/array/same_shape/constant_shape/value.hpp"
#include "lue/array/same_shape/value.hpp"
#include "lue/array/same_shape/variable_shape/value.hpp"
#include "lue/info/identity/active_object_id.hpp"
#include "lue/info/identity/active_object_index.hpp"
#include "lue/info/identity/active_set_index.hpp"
#include "lue/info/identity/object_id.hpp"
#include "lue/object/identity/object_tracker.hpp"

namespace vx {
    using namespace lue::data_model;
    namespace hdf5 = lue::hdf5;
    using G = hdf5::Group;
    using S = std::string;
    using T = hdf5::Datatype;

    // ---- an equally shaped array per object: c_ per object, s_ per object and location in time
#define SAME(p, NS) \
    NS::Value p##create1(G& g, S const& n, T const& m, void const* d) { return NS::create_value(g, n, m, d); } \
    NS::Value p##create2(G& g, S const& n, T const& m, hdf5::Shape const& s, void const* d) { return NS::create_value(g, n, m, s, d); } \
    NS::Value p##create3(G& g, S const& n, T const& f, T const& m, void const* d) { return NS::create_value(g, n, f, m, d); } \
    NS::Value p##create4(G& g, S const& n, T const& f, T const& m, hdf5::Shape const& s, void const* d) { return NS::create_value(g, n, f, m, s, d); } \
    NS::Value p##create5(G& g, S const& n, T const& m, hdf5::Shape const& s) { return NS::create_value(g, n, m, s); } \
    NS::Value p##create6(G& g, S const& n, T const& m) { return NS::create_value(g, n, m); } \
    NS::Value p##open2(G const& g, S const& n) { return NS::Value{g, n}; } \
    NS::Value p##open3(G const& g, S const& n, T const& m) { return NS::Value{g, n, m}; } \
    void p##expand(NS::Value& v, Count n) { v.expand(n); } \
    Count p##nr_arrays(NS::Value const& v) { return v.nr_arrays(); } \
    hdf5::Shape p##array_shape(NS::Value const& v) { return v.array_shape(); } \
    void p##read_one(NS::Value& v, Index i, void* b) { v.read(i, b); } \
    void p##read_range(NS::Value& v, IndexRange const& i, void* b) { v.read(i, b); } \
    void p##write_one(NS::Value& v, Index i, void const* b) { v.write(i, b); } \
    void p##write_range(NS::Value& v, IndexRange const& i, void const* b) { v.write(i, b); } \
    T p##memory(NS::Value const& v) { return v.memory_datatype(); } \
    T p##stored(NS::Value const& v) { return v.file_datatype(); } \
    hid_t p##hid(NS::Value const& v) { return v.id(); }

    SAME(c_, same_shape::constant_shape)
    SAME(s_, same_shape)
    int c_rank(same_shape::constant_shape::Value const& v) { return v.rank(); }
    bool c_exists(G const& g, S const& n) { return same_shape::constant_shape::value_exists(g, n); }
    IndexRange range(Index a, Index b) { return {a, b}; }

    // ---- arrays in a group
#define GROUPED(p, NS) \
    NS::Value p##create1(G& g, S const& n, T const& m, Rank r) { return NS::create_value(g, n, m, r); } \
    NS::Value p##create2(G& g, S const& n, T const& f, T const& m, Rank r) { return NS::create_value(g, n, f, m, r); } \
    NS::Value p##open2(G& g, S const& n) { return NS::Value{g, n}; } \
    NS::Value p##open3(G& g, S const& n, T const& m) { return NS::Value{g, n, m}; } \
    T p##memory(NS::Value const& v) { return v.memory_datatype(); } \
    T p##stored(NS::Value const& v) { return v.file_datatype(); } \
    int p##rank(NS::Value const& v) { return v.rank(); } \
    hid_t p##hid(NS::Value const& v) { return v.id(); }

    GROUPED(sv_, same_shape::variable_shape)
    GROUPED(d_, different_shape)
    GROUPED(dc_, different_shape::constant_shape)
    GROUPED(dv_, different_shape::variable_shape)

    same_shape::Value sv_expand(same_shape::variable_shape::Value& v, Index i, Count n, hdf5::Shape const& s) { return v.expand(i, n, s); }
    Count sv_nr(same_shape::variable_shape::Value const& v) { return v.nr_locations_in_time(); }
    same_shape::Value sv_at(same_shape::variable_shape::Value& v, Index i) { return v[i]; }

    void d_expand_shapes(different_shape::Value& v, Count n, ID const* i, hdf5::Shape const* s) { v.expand(n, i, s); }
    void d_expand_extents(different_shape::Value& v, Count n, ID const* i, hsize_t const* s) { v.expand(n, i, s); }
    void d_expand_one(different_shape::Value& v, ID i, hdf5::Shape const& s, void const* d) { v.expand(i, s, d); }
    void d_expand_default(different_shape::Value& v, ID i, hdf5::Shape const& s) { v.expand(i, s); }
    Count d_nr(different_shape::Value const& v) { return v.nr_objects(); }
    bool d_contains(different_shape::Value const& v, ID i) { return v.contains(i); }
    Array d_at(different_shape::Value& v, ID i) { return v[i]; }
    hdf5::Shape array_extents(Array const& a) { return a.shape(); }
    T array_memory(Array const& a) { return a.memory_datatype(); }
    hid_t array_hid(Array const& a) { return a.id(); }

    void dc_expand_shapes(different_shape::constant_shape::Value& v, Count n, ID const* i, hdf5::Shape const* s, Count const* t) { v.expand(n, i, s, t); }
    same_shape::constant_shape::Value dc_expand_one(different_shape::constant_shape::Value& v, ID i, hdf5::Shape const& s, Count t) { return v.expand(i, s, t); }
    Count dc_nr(different_shape::constant_shape::Value const& v) { return v.nr_objects(); }
    bool dc_exists(different_shape::constant_shape::Value const& v, ID i) { return v.exists(i); }
    same_shape::constant_shape::Value dc_at(different_shape::constant_shape::Value const& v, ID i) { return v[i]; }

    different_shape::Value dv_expand(different_shape::variable_shape::Value& v, Index i, Count n, ID const* d, hdf5::Shape const* s) { return v.expand(i, n, d, s); }
    Count dv_nr(different_shape::variable_shape::Value const& v) { return v.nr_locations_in_time(); }
    different_shape::Value dv_at(different_shape::variable_shape::Value& v, Index i) { return v[i]; }

    // ---- identities
#define IDENTITY(p, C, CREATE, NR, Base) \
    C p##create(G& g) { return CREATE(g); } \
    C p##open(G const& g) { return C{g}; } \
    Count p##nr(C const& c) { return c.NR(); } \
    void p##expand(C& c, Count n) { c.expand(n); } \
    T p##stored(C const& v) { return v.file_datatype(); } \
    T p##memory(C const& v) { return v.memory_datatype(); } \
    void p##read_one(C& c, Index i, void* b) { c.read(i, b); } \
    void p##write_range(C& c, IndexRange const& i, void const* b) { c.write(i, b); } \
    hid_t p##hid(C const& v) { return v.id(); }

    IDENTITY(oid_, ObjectID, create_object_id, nr_objects, same_shape::Value)
    IDENTITY(aid_, ActiveObjectID, create_active_object_id, nr_ids, same_shape::constant_shape::Value)
    IDENTITY(aix_, ActiveObjectIndex, create_active_object_index, nr_indices, same_shape::constant_shape::Value)
    IDENTITY(asx_, ActiveSetIndex, create_active_set_index, nr_indices, same_shape::constant_shape::Value)
    ObjectTracker tracker_create(G& g) { return create_object_tracker(g); }
    ObjectTracker tracker_open(G& g) { return ObjectTracker{g}; }
    hid_t tracker_hid(ObjectTracker const& t) { return t.id(); }
    hid_t tracker_active_id(ObjectTracker& t) { return t.active_object_id().id(); }
    hid_t tracker_active_index(ObjectTracker& t) { return t.active_object_index().id(); }
    hid_t tracker_active_set(ObjectTracker& t) { return t.active_set_index().id(); }
}
