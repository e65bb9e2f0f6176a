// Access to rasters through GDAL
#include "lue/gdal/data_type.hpp"
#include "lue/gdal/dataset.hpp"
#include "lue/gdal/driver.hpp"
#include "lue/gdal/library.hpp"
#include "lue/gdal/raster.hpp"
#include "lue/gdal/raster_band.hpp"
#include "lue/gdal/type_traits.hpp"
#include "lue/gdal/compare_rasters.hpp"

namespace vg {
    using namespace lue::gdal;
    using S = std::string;
    using O = std::map<std::string, std::string>;
    using D = DatasetPtr;
    using B = Raster::Band;

    // ---- types and drivers
    S type_name(GDALDataType t) { return as_string(t); }
    S name_of_driver(S const& s) { return driver_name(s); }
    DriverPtr find_driver(S const& s) { return driver(s); }

#define TYPE(n, T) \
    GDALDataType type_##n() { return TypeTraits<T>::data_type; } \
    GDALDataType type_v_##n() { return data_type_v<T>; } \
    bool supports_##n() { return supports<T>(); } \
    void verify_##n() { verify_support<T>(); } \
    T no_data_##n(GDALRasterBand& b) { return std::get<0>(no_data_value<T>(b)); } \
    bool has_no_data_##n(GDALRasterBand& b) { return std::get<1>(no_data_value<T>(b)); } \
    T m_no_data_##n(B& b) { return std::get<0>(b.no_data_value<T>()); } \
    bool m_has_no_data_##n(B& b) { return std::get<1>(b.no_data_value<T>()); } \
    bool set_no_data_##n(GDALRasterBand& b, T v) { return set_no_data_value<T>(b, v); } \
    void m_set_no_data_##n(B& b, T v) { b.set_no_data_value<T>(v); }

    TYPE(u8, std::uint8_t)
    TYPE(i8, std::int8_t)
    TYPE(u16, std::uint16_t)
    TYPE(i16, std::int16_t)
    TYPE(u32, std::uint32_t)
    TYPE(i32, std::int32_t)
    TYPE(u64, std::uint64_t)
    TYPE(i64, std::int64_t)
    TYPE(f32, float)
    TYPE(f64, double)

    // ---- datasets
    D open(S const& n, GDALAccess m) { return open_dataset(n, m); }
    D try_open(S const& n, GDALAccess m) { return try_open_dataset(n, m); }
    bool is_open(D const& d) { return static_cast<bool>(d); }
    GDALDataset* get(D const& d) { return d.get(); }
    D create3(GDALDriver& g, S const& n, Shape const& s, Count b, GDALDataType t, O const& o) { return create_dataset(g, n, s, b, t, o); }
    D create3s(S const& g, S const& n, Shape const& s, Count b, GDALDataType t, O const& o) { return create_dataset(g, n, s, b, t, o); }
    D create0(S const& g, S const& n, O const& o) { return create_dataset(g, n, o); }
    D copy(S const& n, GDALDataset& d, O const& o) { return create_copy(n, d, o); }
    void remove(GDALDriver& g, S const& n) { delete_dataset(g, n); }
    Count nr_bands(GDALDataset& d) { return nr_raster_bands(d); }
    RasterBandPtr band1(GDALDataset& d) { return raster_band(d); }
    RasterBandPtr band(GDALDataset& d, Count n) { return raster_band(d, n); }
    GDALDataType ds_type(GDALDataset& d) { return data_type(d); }
    GDALDataType name_type(S const& n) { return data_type(n); }
    Shape ds_shape(GDALDataset& d) { return shape(d); }
    GeoTransform ds_geo(GDALDataset& d) { return geo_transform(d); }
    void ds_set_geo(GDALDataset& d, GeoTransform const& g) { set_geo_transform(d, g); }

    // ---- bands
    GDALDataType b_type(GDALRasterBand& b) { return data_type(b); }
    Shape b_block_shape(GDALRasterBand& b) { return block_shape(b); }
    Shape b_shape(GDALRasterBand& b) { return shape(b); }
    void b_read_block(GDALRasterBand& b, Offset const& o, void* p) { read_block(b, o, p); }
    void b_write_block(GDALRasterBand& b, Offset const& o, void* p) { write_block(b, o, p); }
    void b_read4(GDALRasterBand& b, Offset const& o, Shape const& s, GDALDataType t, void* p) { read(b, o, s, t, p); }
    void b_read3(GDALRasterBand& b, Shape const& s, GDALDataType t, void* p) { read(b, s, t, p); }
    void b_write4(GDALRasterBand& b, Offset const& o, Shape const& s, GDALDataType t, void* p) { write(b, o, s, t, p); }
    void b_write3(GDALRasterBand& b, Shape const& s, GDALDataType t, void* p) { write(b, s, t, p); }

    // ---- raster
    Raster raster(D const& d) { return Raster{d}; }
    GDALDataType r_type(Raster& r) { return r.data_type(); }
    Shape r_shape(Raster& r) { return r.shape(); }
    GeoTransform r_geo(Raster& r) { return r.geo_transform(); }
    void r_set_geo(Raster& r, GeoTransform const& g) { r.set_geo_transform(g); }
    Count r_nr(Raster& r) { return r.nr_bands(); }
    B r_band(Raster& r, Count n) { return r.band(n); }
    B m_band(RasterBandPtr p) { return B{p}; }
    GDALDataType m_type(B& b) { return b.data_type(); }
    Shape m_block_shape(B& b) { return b.block_shape(); }
    Shape m_shape(B& b) { return b.shape(); }
    void m_read_block(B& b, Offset const& o, void* p) { b.read_block(o, p); }
    void m_write_block(B& b, Offset const& o, void* p) { b.write_block(o, p); }
    void m_read1(B& b, void* p) { b.read(p); }
    void m_write1(B& b, void* p) { b.write(p); }
    void m_write4(B& b, Offset const& o, Shape const& s, GDALDataType t, void* p) { b.write(o, s, t, p); }
    void m_write3(B& b, Shape const& s, GDALDataType t, void* p) { b.write(s, t, p); }

    // ---- comparison
    std::vector<S> compare(S const& a, S const& b) { return compare_rasters(a, b); }
}
