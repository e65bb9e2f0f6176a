#include "check.hpp"
#include "lue/gdal/dataset.hpp"
#include "lue/gdal/driver.hpp"
#include "lue/gdal/raster.hpp"
#include "lue/gdal/raster_band.hpp"
#include "lue/gdal/type_traits.hpp"
#include <filesystem>
#include <limits>
#include <numeric>
#include <vector>

using namespace lue::gdal;

static int opened = 0, closed = 0;

extern "C" GDALDatasetH __real_GDALOpen(char const*, GDALAccess);
extern "C" void __real_GDALClose(GDALDatasetH);
extern "C" GDALDatasetH __wrap_GDALOpen(char const* n, GDALAccess a)
{
    auto r = __real_GDALOpen(n, a);
    opened += r != nullptr;
    return r;
}
extern "C" void __wrap_GDALClose(GDALDatasetH d)
{
    ++closed;
    __real_GDALClose(d);
}

// A dataset of which calls fail, and that records what it is asked
struct Call { char kind; int a[9]; void* p; };
static std::vector<Call> calls;
static bool fail = false;

class FakeBand: public GDALRasterBand
{
public:
    FakeBand(GDALDataset* d, int n, GDALDataType t, int xs, int ys, int bx, int by)
    {
        poDS = d; nBand = n; eAccess = GA_Update; eDataType = t; nRasterXSize = xs; nRasterYSize = ys; nBlockXSize = bx; nBlockYSize = by;
    }
    CPLErr IReadBlock(int x, int y, void* p) override
    {
        calls.push_back({'r', {x, y}, p});
        return fail ? CE_Failure : CE_None;
    }
    CPLErr IWriteBlock(int x, int y, void* p) override
    {
        calls.push_back({'w', {x, y}, p});
        return fail ? CE_Failure : CE_None;
    }
    CPLErr IRasterIO(GDALRWFlag rw, int x, int y, int xs, int ys, void* p, int bx, int by, GDALDataType t, GSpacing ps, GSpacing ls, GDALRasterIOExtraArg*) override
    {
        bool contiguous = ps == GDALGetDataTypeSizeBytes(t) && ls == ps * bx;
        calls.push_back({rw == GF_Read ? 'R' : 'W', {x, y, xs, ys, bx, by, int(t), contiguous}, p});
        return fail ? CE_Failure : CE_None;
    }
    CPLErr SetNoDataValue(double) override { return CE_Failure; }
};

class Fake: public GDALDataset
{
public:
    Fake(int rows, int cols, GDALDataType t, int by, int bx, int bands)
    {
        nRasterXSize = cols; nRasterYSize = rows; eAccess = GA_Update;
        for (int i = 1; i <= bands; ++i)
            SetBand(i, new FakeBand(this, i, t, cols, rows, bx, by));
    }
    CPLErr SetGeoTransform(double*) override { return fail ? CE_Failure : CE_None; }
};

template<typename F>
static bool throws(F f)
{
    try { f(); } catch (std::exception const&) { return true; }
    return false;
}

static bool is(char kind, int x, int y, int xs, int ys, int bx, int by, int t, void* p)
{
    if (calls.size() != 1)
        return false;
    auto& c = calls[0];
    return c.kind == kind && c.p == p && c.a[0] == x && c.a[1] == y && c.a[2] == xs && c.a[3] == ys && c.a[4] == bx && c.a[5] == by && c.a[6] == t && c.a[7] == 1;
}

static void fake(int rows, int cols, GDALDataType t, int by, int bx)
{
    std::string w = vf::cat(rows, "x", cols, " blocks ", by, "x", bx, " type ", t, ": ");
    vf::at(w);
    static std::vector<double> buffer(1 << 20);
    void* p = buffer.data();
    DatasetPtr d{new Fake(rows, cols, t, by, bx, 2), gdal_close};
    {
        Raster r{d};
        vf::check(shape(*d) == Shape{rows, cols} && r.shape() == Shape{rows, cols}, w + "shape");
        vf::check(data_type(*d) == t && r.data_type() == t, w + "type");
        vf::check(nr_raster_bands(*d) == 2 && r.nr_bands() == 2, w + "bands");
        for (int n : {-1, 0, 3})
            vf::check(throws([&] { r.band(n); }) && throws([&] { raster_band(*d, n); }), w + vf::cat("band ", n, " is refused"));
        vf::check(raster_band(*d) == d->GetRasterBand(1), w + "first band");
        GDALRasterBand& b = *raster_band(*d, 2);
        vf::check(&b == d->GetRasterBand(2), w + "second band");
        auto m = r.band(2);
        vf::check(shape(b) == Shape{rows, cols} && m.shape() == Shape{rows, cols}, w + "shape of band");
        vf::check(block_shape(b) == Shape{by, bx} && m.block_shape() == Shape{by, bx}, w + "shape of blocks");
        vf::check(data_type(b) == t && m.data_type() == t, w + "type of band");
        int y = (rows - 1) / by, x = (cols - 1) / bx;
        int oy = rows / 2, ox = cols / 3, ny = rows - oy, nx = cols - ox;
        GDALDataType mt = GDT_Float64;
        for (bool f : {false, true})
        {
            fail = f;
            auto block = [&](char kind, std::string const& what, auto op)
            {
                calls.clear();
                vf::check(throws(op) == f, w + what + ": failure");
                vf::check(calls.size() == 1 && calls[0].kind == kind && calls[0].a[0] == x && calls[0].a[1] == y && calls[0].p == p, w + what);
            };
            block('r', "read block", [&] { read_block(b, {y, x}, p); });
            block('r', "Band::read_block", [&] { m.read_block({y, x}, p); });
            auto window = [&](char kind, std::string const& what, int oy, int ox, int ny, int nx, GDALDataType mt, auto op)
            {
                calls.clear();
                vf::check(throws(op) == f, w + what + ": failure");
                vf::check(is(kind, ox, oy, nx, ny, nx, ny, mt, p), w + what);
            };
            window('R', "read window", oy, ox, ny, nx, mt, [&] { read(b, {oy, ox}, {ny, nx}, mt, p); });
            window('W', "write window", oy, ox, ny, nx, mt, [&] { write(b, {oy, ox}, {ny, nx}, mt, p); });
            window('W', "Band::write window", oy, ox, ny, nx, mt, [&] { m.write({oy, ox}, {ny, nx}, mt, p); });
            window('R', "read", 0, 0, ny, nx, mt, [&] { read(b, Shape{ny, nx}, mt, p); });
            window('W', "write", 0, 0, ny, nx, mt, [&] { write(b, Shape{ny, nx}, mt, p); });
            window('W', "Band::write shape", 0, 0, ny, nx, mt, [&] { m.write(Shape{ny, nx}, mt, p); });
            window('R', "Band::read", 0, 0, rows, cols, t, [&] { m.read(p); });
            window('W', "Band::write", 0, 0, rows, cols, t, [&] { m.write(p); });
            GeoTransform g{1, 2, 0, 3, 0, -2};
            vf::check(throws([&] { set_geo_transform(*d, g); }) == f && throws([&] { r.set_geo_transform(g); }) == f, w + vf::cat("failure to set georeference: ", f));
        }
        fail = false;
        vf::check(!set_no_data_value<double>(b, 3), w + "no-data value refused");
    }
}

template<typename T>
static void no_data(T v)
{
    std::string w = vf::cat("no data of type ", data_type_v<T>, ", value ", +v, ": ");
    vf::at(w);
    auto d = create_dataset("MEM", "", Shape{3, 2}, 2, data_type_v<T>);
    GDALRasterBand& b = *raster_band(*d, 2);
    auto m = Raster{d}.band(2);
    vf::check(!std::get<1>(no_data_value<T>(b)) && !std::get<1>(m.no_data_value<T>()), w + "none at first");
    vf::check(set_no_data_value<T>(b, v), w + "set");
    auto [x, ok] = no_data_value<T>(b);
    auto [y, ok2] = m.template no_data_value<T>();
    vf::check(ok && ok2 && x == v && y == v, w + vf::cat("read back ", +x, " ", +y));
    int s = 0;
    if constexpr (std::is_same_v<T, std::int64_t>)
        vf::check(b.GetNoDataValueAsInt64(&s) == v && s, w + "stored");
    else if constexpr (std::is_same_v<T, std::uint64_t>)
        vf::check(b.GetNoDataValueAsUInt64(&s) == v && s, w + "stored");
    else
        vf::check(b.GetNoDataValue(&s) == double(v) && s, w + "stored");
    vf::check(!std::get<1>(no_data_value<T>(*raster_band(*d, 1))), w + "other bands have none");
}

template<typename T>
static void no_data()
{
    no_data<T>(std::numeric_limits<T>::lowest());
    no_data<T>(std::numeric_limits<T>::max());
    no_data<T>(T(7));
    if (sizeof(T) == 8)
        no_data<T>(T((1ll << 53) + 1));
}

static std::string meta(DatasetPtr const& d)
{
    auto p = d->GetMetadataItem("COMPRESSION", "IMAGE_STRUCTURE");
    return p ? p : "";
}

static void files()
{
    vf::at("files");
    int o = opened, c = closed;
    vf::check(throws([] { open_dataset("none.tif", GA_ReadOnly); }), "a file that is not there is refused");
    vf::check(!try_open_dataset("none.tif", GA_ReadOnly), "a file that is not there is not opened");
    vf::check(throws([] { data_type("none.tif"); }), "type of a file that is not there");
    vf::check(opened == o && closed == c, "nothing opened, nothing closed");
    {
        auto d = create_dataset("GTiff", "a.tif", Shape{20, 33}, 2, GDT_Int16, {{"TILED", "YES"}, {"BLOCKXSIZE", "32"}, {"BLOCKYSIZE", "16"}, {"COMPRESS", "DEFLATE"}});
        vf::check(shape(*d) == Shape{20, 33} && nr_raster_bands(*d) == 2 && data_type(*d) == GDT_Int16, "dataset created");
        vf::check(block_shape(*raster_band(*d, 1)) == Shape{16, 32}, "creation options");
        set_geo_transform(*d, {10, 2, 0, 50, 0, -2});
        for (int n : {1, 2})
        {
            std::vector<std::int16_t> v(20 * 33);
            std::iota(v.begin(), v.end(), n * 1000);
            Raster{d}.band(n).write(v.data());
        }
        vf::check(closed == c, "a dataset in use stays open");
    }
    vf::check(closed == c + 1, "a dataset created is closed once");
    o = opened, c = closed;
    {
        auto d = open_dataset("a.tif", GA_ReadOnly);
        vf::check(d->GetAccess() == GA_ReadOnly, "read only");
        vf::check(meta(d) == "DEFLATE", "compression option");
        Raster r{d};
        vf::check(r.geo_transform() == GeoTransform{10, 2, 0, 50, 0, -2}, "georeference");
        for (int n : {1, 2})
        {
            std::vector<std::int16_t> v(20 * 33);
            r.band(n).read(v.data());
            bool ok = true;
            for (int i = 0; i < 20 * 33; ++i)
                ok = ok && v[i] == n * 1000 + i;
            vf::check(ok, "cells of a band");
            std::vector<std::int16_t> k(16 * 32);
            r.band(n).read_block({1, 0}, k.data());
            vf::check(k[0] == n * 1000 + 16 * 33 && k[33] == n * 1000 + 17 * 33 + 1, "cells of a block");
        }
        auto z = create_copy("b.tif", *d, {{"COMPRESS", "LZW"}, {"BLOCKYSIZE", "8"}});
        vf::check(shape(*z) == Shape{20, 33} && nr_raster_bands(*z) == 2 && data_type(*z) == GDT_Int16, "copy");
        vf::check(closed == c, "datasets in use stay open");
    }
    vf::check(opened == o + 1 && closed == c + 2, vf::cat("datasets are closed once: ", opened - o, " ", closed - c));
    o = opened, c = closed;
    vf::check(data_type("b.tif") == GDT_Int16, "type of a file");
    vf::check(opened == o + 1 && closed == c + 1, "datasets are closed once");
    {
        auto d = open_dataset("b.tif", GA_Update);
        vf::check(meta(d) == "LZW", "options of a copy");
        vf::check(d->GetAccess() == GA_Update, "update");
        std::vector<std::int16_t> k(33 * 20, 5);
        auto b = Raster{d}.band(1);
        auto s = b.block_shape();
        b.write_block({1, 0}, k.data());
    }
    {
        auto d = open_dataset("b.tif", GA_ReadOnly);
        std::vector<std::int16_t> v(20 * 33);
        auto b = Raster{d}.band(1);
        b.read(v.data());
        int s = b.block_shape()[0];
        bool ok = true;
        for (int i = 0; i < 20 * 33; ++i)
            ok = ok && v[i] == (i / 33 >= s && i / 33 < 2 * s ? 5 : 1000 + i);
        vf::check(ok, "a block is written where it belongs");
    }
    vf::check(throws([] { create_dataset("GTiff", "no such directory/a.tif", Shape{2, 3}, 1, GDT_Byte); }), "failure to create");
    vf::check(throws([] { create_dataset("no such driver", "a.tif", Shape{2, 3}, 1, GDT_Byte); }), "no driver");
    auto d = open_dataset("a.tif", GA_ReadOnly);
    vf::check(throws([&] { create_copy("no such directory/a.tif", *d); }), "failure to copy");
    d = {};
    delete_dataset(*driver("GTiff"), "b.tif");
    vf::check(!std::filesystem::exists("b.tif") && std::filesystem::exists("a.tif"), "the dataset named is deleted");
    vf::check(throws([&] { delete_dataset(*driver("GTiff"), "none.tif"); }), "failure to delete");
    for (GeoTransform g : {GeoTransform{0, 1, 0, 0, 0, 1}, GeoTransform{0, 1, .5, 0, 0, -1}, GeoTransform{0, 1, 0, 0, .5, -1}, GeoTransform{0, 1, 0, 0, 0, -2}, GeoTransform{0, -1, 0, 0, 0, -1}})
    {
        auto d = create_dataset("MEM", "", Shape{2, 3}, 1, GDT_Byte);
        set_geo_transform(*d, g);
        vf::check(throws([&] { geo_transform(*d); }), "georeference that is not supported");
    }
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    register_gdal_drivers();
    CPLSetErrorHandler(CPLQuietErrorHandler);
    for (int r : {1, 2, 5, 17})
        for (int c : {1, 3, 4, 31})
            for (int by : {1, 4})
                for (int bx : {1, 3, 40})
                    fake(r, c, static_cast<GDALDataType>(vf::rnd(1, 7)), by, bx);
    no_data<std::uint8_t>(); no_data<std::int8_t>(); no_data<std::uint16_t>(); no_data<std::int16_t>();
    no_data<std::uint32_t>(); no_data<std::int32_t>(); no_data<std::uint64_t>(); no_data<std::int64_t>();
    no_data<float>(); no_data<double>();
    files();
    vf::sample("96 rasters with calls recorded, and failing; no-data values of 10 types; GeoTIFF files");
    return vf::done();
}
