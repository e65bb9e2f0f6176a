// Calls of the public interface, so that the compiler resolves overloads, default arguments and conversions,
// and templates are instantiated. Verified are the bodies of the functions called.
#include "lue/hdf5.hpp"
#include "lue/hdf5/vlen_memory.hpp"

namespace vp {
    using namespace lue::hdf5;
    using Dims = std::vector<hsize_t>;

    // ---- vectors
    Shape shape(Dims const& v) { return Shape(v.begin(), v.end()); }
    Offset offset(Dims const& v) { return Offset(v.begin(), v.end()); }
    Stride stride(Dims const& v) { return Stride(v.begin(), v.end()); }
    Count count(Dims const& v) { return Count(v.begin(), v.end()); }

    // ---- hyperslabs
    Hyperslab hyperslab1(Shape const& s) { return Hyperslab{s}; }
    Hyperslab hyperslab2(Offset const& o, Count const& c) { return Hyperslab{o, c}; }
    Hyperslab hyperslab3(Offset const& o, Stride const& s, Count const& c) { return Hyperslab{o, s, c}; }
    Hyperslab hyperslab0() { return Hyperslab{}; }
    Hyperslab hyperslab_around(Offset const& c, Shape const& s, Shape const& a) { return hyperslab(c, s, a); }
    Offset start_of(Hyperslab const& h) { return h.start(); }
    Stride stride_of(Hyperslab const& h) { return h.stride(); }
    Count count_of(Hyperslab const& h) { return h.count(); }
    void set_hyperslab(Hyperslab& h, Offset const& o, Stride const& s, Count const& c) { h.start() = o; h.stride() = s; h.count() = c; }
    std::size_t rank_of(Hyperslab const& h) { return h.nr_dimensions(); }
    bool empty(Hyperslab const& h) { return h.empty(); }
    std::size_t nr_elements(Hyperslab const& h) { return h.nr_elements(); }
    Hyperslab hyperslab_copy(Hyperslab const& h) { return h; }
    hsize_t size_of_shape1(Shape const& s) { return size_of_shape(s); }
    hsize_t size_of_shape2(Shape const& s, std::size_t n) { return size_of_shape(s, n); }
    Shape chunk_shape_(Shape const& s, std::size_t n) { return chunk_shape(s, n); }
    hsize_t size_of_chunk_(Shape const& s, std::size_t n) { return size_of_chunk(s, n); }
    std::size_t upper_limit() { return upper_chunk_size_limit(); }

    // ---- dataspaces
    Dataspace dataspace1(Shape const& s) { return create_dataspace(s); }
    Dataspace dataspace2(Shape const& s, Shape const& m) { return create_dataspace(s, m); }
    int ndims(Dataspace const& s) { return s.nr_dimensions(); }
    Shape extents(Dataspace const& s) { return s.dimension_extents(); }
    hssize_t npoints(Dataspace const& s) { return s.nr_elements(); }
    hid_t space_id(Dataspace const& s) { return s.id(); }
    Dataspace scalar_space() { return Dataspace{H5S_SCALAR}; }

    // ---- datasets
    using TP = Dataset::TransferPropertyList;
    TP transfer_plist() { return TP{}; }
    Dataset open1(Group const& g, std::string const& n) { return Dataset{g, n}; }
    Dataset open2(Identifier& g, std::string const& n) { return open_dataset(g, n); }
    Dataset create(Identifier& g, std::string const& n, Datatype const& t, Dataspace const& s,
        Dataset::CreationPropertyList const& p) { return create_dataset(g, n, t, s, p); }
    Dataset::CreationPropertyList dcpl() { return {}; }
    void set_chunk(Dataset::CreationPropertyList& p, Shape const& s) { p.set_chunk(s); }
    void set_fill_time(Dataset::CreationPropertyList& p, H5D_fill_time_t t) { p.set_fill_time(t); }
    void set_fill_value(Dataset::CreationPropertyList& p, Datatype const& t, void const* v) { p.set_fill_value(t, v); }
    template<typename T> T fill_roundtrip(Dataset::CreationPropertyList& p, T v) { p.set_fill_value<T>(v); return p.get_fill_value<T>(); }
    bool fill_defined(Dataset::CreationPropertyList const& p) { return p.fill_value_defined(); }
    hid_t plist_id(PropertyList const& p) { return p.id(); }
    Dataset::CreationPropertyList dcpl_of(Dataset const& d) { return d.creation_property_list(); }
    Datatype datatype_of(Dataset const& d) { return d.datatype(); }
    Dataspace dataspace_of(Dataset const& d) { return d.dataspace(); }
    Shape shape_of(Dataset const& d) { return d.shape(); }
    hid_t ds_id(Dataset const& d) { return d.id(); }
    hid_t dt_id(Datatype const& d) { return d.id(); }
    void resize(Dataset& d, Shape const& s) { d.resize(s); }
    void read1(Dataset const& d, Datatype const& t, void* b) { d.read(t, b); }
    void read2(Dataset const& d, Datatype const& t, Hyperslab const& h, void* b) { d.read(t, h, b); }
    void read3(Dataset const& d, Datatype const& t, Hyperslab const& h, TP const& p, void* b) { d.read(t, h, p, b); }
    void read4(Dataset const& d, Datatype const& t, Dataspace const& m, void* b) { d.read(t, m, b); }
    void read5(Dataset const& d, Datatype const& t, Dataspace const& m, Hyperslab const& h, void* b) { d.read(t, m, h, b); }
    void read6(Dataset const& d, Datatype const& t, Dataspace const& m, Hyperslab const& h, TP const& p, void* b) { d.read(t, m, h, p, b); }
    void write1(Dataset const& d, Datatype const& t, void const* b) { d.write(t, b); }
    void write2(Dataset const& d, Datatype const& t, Hyperslab const& h, void const* b) { d.write(t, h, b); }
    void write3(Dataset const& d, Datatype const& t, Hyperslab const& h, TP const& p, void const* b) { d.write(t, h, p, b); }
    void write4(Dataset const& d, Datatype const& t, Dataspace const& m, void const* b) { d.write(t, m, b); }
    void write5(Dataset const& d, Datatype const& t, Dataspace const& m, Hyperslab const& h, void const* b) { d.write(t, m, h, b); }
    void write6(Dataset const& d, Datatype const& t, Dataspace const& m, Hyperslab const& h, TP const& p, void const* b) { d.write(t, m, h, p, b); }
    void fill(Dataset const& d, Datatype const& t, Hyperslab const& h, void const* b) { d.fill(t, h, b); }
    bool dataset_exists_(Identifier const& i, std::string const& n) { return dataset_exists(i, n); }

    // ---- datatypes
    Datatype native(int k)
    {
        switch (k)
        {
            case 0: return native_int8;
            case 1: return native_int16;
            case 2: return native_int32;
            case 3: return native_int64;
            case 4: return native_uint8;
            case 5: return native_uint16;
            case 6: return native_uint32;
            case 7: return native_uint64;
            case 8: return native_float32;
            default: return native_float64;
        }
    }
    Datatype native_by_type(int k)
    {
        switch (k)
        {
            case 0: return native_datatype<std::int8_t>();
            case 1: return native_datatype<std::int16_t>();
            case 2: return native_datatype<std::int32_t>();
            case 3: return native_datatype<std::int64_t>();
            case 4: return native_datatype<std::uint8_t>();
            case 5: return native_datatype<std::uint16_t>();
            case 6: return native_datatype<std::uint32_t>();
            case 7: return native_datatype<std::uint64_t>();
            case 8: return native_datatype<float>();
            default: return native_datatype<double>();
        }
    }
    Datatype standard(int k)
    {
        switch (k)
        {
            case 0: return std_int8_le;
            case 1: return std_int16_le;
            case 2: return std_int32_le;
            case 3: return std_int64_le;
            case 4: return std_uint8_le;
            case 5: return std_uint16_le;
            case 6: return std_uint32_le;
            case 7: return std_uint64_le;
            case 8: return ieee_float32_le;
            default: return ieee_float64_le;
        }
    }
    Datatype datatype_of_id(hid_t id) { return Datatype{id}; }
    Datatype datatype_owning(Identifier const& i) { return Datatype{Identifier{i}}; }
    Datatype string_type(std::size_t n) { return create_datatype(n); }
    Datatype vlen_string_type() { return create_string_datatype(); }
    Datatype to_file(Datatype const& t) { return file_datatype(t); }
    Datatype to_memory(Datatype const& t) { return memory_datatype(t); }
    std::string native_name(Datatype const& t) { return native_datatype_as_string(t); }
    std::string standard_name(Datatype const& t) { return standard_datatype_as_string(t); }
    bool is_standard(Datatype const& t) { return t.is_standard(); }
    bool is_native(Datatype const& t) { return t.is_native(); }
    bool is_string(Datatype const& t) { return t.is_string(); }
    std::size_t size(Datatype const& t) { return t.size(); }
    bool equal(Datatype const& a, Datatype const& b) { return a == b; }
    bool unequal(Datatype const& a, Datatype const& b) { return a != b; }
    H5T_cset_t encoding(Datatype const& t) { return t.encoding(); }
    H5T_class_t class_of(Datatype const& t) { return t.class_(); }
    Datatype compound(std::size_t n) { return create_compound_datatype(n); }
    void insert(Datatype& t, std::string const& n, std::size_t o, Datatype const& m) { t.insert(n, o, m); }
    Datatype recode(Datatype const& t) { return decode_datatype(encode_datatype(t)); }

    template<typename T> hid_t native_trait() { return NativeDatatypeTraits<T>::type_id(); }
    template<typename T> hid_t standard_trait() { return StandardDatatypeTraits<T>::type_id(); }
#define VP_D(K, T) \
    hid_t native_trait_##K() { return NativeDatatypeTraits<T>::type_id(); } \
    hid_t standard_trait_##K() { return StandardDatatypeTraits<T>::type_id(); } \
    std::string native_trait_name_##K() { return NativeDatatypeTraits<T>::name(); } \
    std::string standard_trait_name_##K() { return StandardDatatypeTraits<T>::name(); } \
    std::size_t standard_trait_size_##K() { return StandardDatatypeTraits<T>::nr_bytes(); }
    VP_D(0, std::int8_t)
    VP_D(1, std::int16_t)
    VP_D(2, std::int32_t)
    VP_D(3, std::int64_t)
    VP_D(4, std::uint8_t)
    VP_D(5, std::uint16_t)
    VP_D(6, std::uint32_t)
    VP_D(7, std::uint64_t)
    VP_D(8, float)
    VP_D(9, double)
    Datatype standard_by_type(int k)
    {
        switch (k)
        {
            case 0: return std_datatype_le<std::int8_t>();
            case 1: return std_datatype_le<std::int16_t>();
            case 2: return std_datatype_le<std::int32_t>();
            case 3: return std_datatype_le<std::int64_t>();
            case 4: return std_datatype_le<std::uint8_t>();
            case 5: return std_datatype_le<std::uint16_t>();
            case 6: return std_datatype_le<std::uint32_t>();
            case 7: return std_datatype_le<std::uint64_t>();
            case 8: return ieee_datatype_le<float>();
            default: return ieee_datatype_le<double>();
        }
    }
    Datatype native_string() { return native_datatype<std::string>(); }
    Datatype standard_string() { return std_datatype<std::string>(); }
    std::string native_string_name() { return NativeDatatypeTraits<std::string>::name(); }
    std::string standard_string_name() { return StandardDatatypeTraits<std::string>::name(); }

    // ---- attributes
    Attributes attributes_of(Identifier const& i) { return Attributes{i}; }
    bool attribute_exists(Attributes const& a, std::string const& n) { return a.exists(n); }
    Attribute attribute(Attributes const& a, std::string const& n) { return a.attribute(n); }
    Attribute add_attribute(Attributes& a, std::string const& n, Datatype const& t, Dataspace const& s) { return a.add(n, t, s); }
    Datatype attribute_type(Attributes const& a, std::string const& n) { return a.datatype(n); }
    template<typename T> void put(Attributes& a, std::string const& n, T const& v) { a.write<T>(n, v); }
    template<typename T> T get(Attributes const& a, std::string const& n) { return a.read<T>(n); }
    void put_str(Attributes& a, std::string const& n, std::string const& v) { put<std::string>(a, n, v); }
    std::string get_str(Attributes const& a, std::string const& n) { return get<std::string>(a, n); }
#define VP_T(T, N) \
    void put_##N(Attributes& a, std::string const& n, T const& v) { put<T>(a, n, v); } \
    T get_##N(Attributes const& a, std::string const& n) { return get<T>(a, n); } \
    void putv_##N(Attributes& a, std::string const& n, std::vector<T> const& v) { put<std::vector<T>>(a, n, v); } \
    std::vector<T> getv_##N(Attributes const& a, std::string const& n) { return get<std::vector<T>>(a, n); } \
    T fill_##N(Dataset::CreationPropertyList& p, T v) { return fill_roundtrip<T>(p, v); }
    VP_T(std::int8_t, i8)
    VP_T(std::int16_t, i16)
    VP_T(std::int32_t, i32)
    VP_T(std::int64_t, i64)
    VP_T(std::uint8_t, u8)
    VP_T(std::uint16_t, u16)
    VP_T(std::uint32_t, u32)
    VP_T(std::uint64_t, u64)
    VP_T(float, f32)
    VP_T(double, f64)

    // ---- groups, links, files
    Group group(Identifier const& i, std::string const& n) { return Group{i, n}; }
    Group group_in(Group const& g, std::string const& n) { return Group{g, n}; }
    Group make_group(Group& g, std::string const& n) { return create_group(g, n); }
    bool has_group(Group const& g, std::string const& n) { return group_exists(g, n); }
    bool contains_group(Group const& g, std::string const& n) { return g.contains_group(n); }
    bool contains_dataset(Group const& g, std::string const& n) { return g.contains_dataset(n); }
    bool contains_soft_link(Group const& g, std::string const& n) { return g.contains_soft_link(n); }
    bool contains_hard_link(Group const& g, std::string const& n) { return g.contains_hard_link(n); }
    bool contains_attribute(Group const& g, std::string const& n) { return g.contains_attribute(n); }
    std::vector<std::string> group_names(Group const& g) { return g.group_names(); }
    std::vector<std::string> object_names(Group const& g) { return g.object_names(); }
    bool has_parent(Group const& g) { return g.has_parent(); }
    Group parent(Group const& g) { return g.parent(); }
    std::string parent_pathname(Group const& g) { return g.parent_pathname(); }
    Identifier id_of(PrimaryDataObject const& g) { return g.id(); }
    hid_t hid_of(PrimaryDataObject const& g) { return g.id(); }
    std::string pathname(Identifier const& i) { return i.pathname(); }
    std::string name(Identifier const& i) { return i.name(); }
    hid_t hid(Identifier const& i) { return i; }
    bool same_id(Identifier const& a, Identifier const& b) { return a == b; }
    bool other_id(Identifier const& a, Identifier const& b) { return a != b; }
    bool same_object(PrimaryDataObject const& a, PrimaryDataObject const& b) { return a == b; }
    bool other_object(PrimaryDataObject const& a, PrimaryDataObject const& b) { return a != b; }
    PrimaryDataObject primary(Identifier const& i, std::string const& n) { return PrimaryDataObject{i, n}; }
    SoftLink make_soft_link(Group& g, Identifier const& t, std::string const& n) { return g.create_soft_link(t, n); }
    HardLink make_hard_link(Group& g, Identifier const& t, std::string const& n) { return g.create_hard_link(t, n); }
    SoftLink soft_link(Group& g, std::string const& n) { return g.soft_link(n); }
    HardLink hard_link(Group& g, std::string const& n) { return g.hard_link(n); }
    std::string soft_path(SoftLink const& l) { return l.path(); }
    std::string link_name(Link const& l) { return l.name(); }
    File open_file(std::string const& n) { return File{n}; }
    File open_file_flags(std::string const& n, unsigned int f) { return File{n, f}; }
    File make_file(std::string const& n) { return create_file(n); }
    File make_memory_file(std::string const& n) { return create_in_memory_file(n); }
    std::string file_pathname(File const& f) { return f.pathname(); }
    unsigned int file_intent(File const& f) { return f.intent(); }
    void file_flush(File const& f) { f.flush(); }
    std::string file_version(File const& f) { return f.hdf5_version(); }
    ssize_t file_objects(File const& f, unsigned int t) { return f.object_count(t); }
}
