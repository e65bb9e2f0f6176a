#include "check.hpp"
#include "lue/gdal/compare_rasters.hpp"
#include "lue/gdal/dataset.hpp"
#include "lue/gdal/driver.hpp"
#include "lue/gdal/raster.hpp"
#include "lue/gdal/raster_band.hpp"
#include "lue/gdal/type_traits.hpp"
#include <cmath>
#include <filesystem>
#include <limits>
#include <vector>

using namespace lue::gdal;
using Options = std::map<std::string, std::string>;

static Options const OPTIONS[] = {{}, {{"BLOCKYSIZE", "3"}}, {{"BLOCKYSIZE", "1"}}, {{"TILED", "YES"}, {"BLOCKXSIZE", "16"}, {"BLOCKYSIZE", "16"}}, {{"TILED", "YES"}, {"BLOCKXSIZE", "16"}, {"BLOCKYSIZE", "32"}}, {{"TILED", "YES"}, {"BLOCKXSIZE", "64"}, {"BLOCKYSIZE", "16"}}};

template<typename T>
struct R
{
    Shape shape;
    std::vector<std::vector<T>> bands;
    std::vector<GDALDataType> types;
    bool has_no_data = false;
    T no_data{};
    GeoTransform geo{10, 2, 0, 50, 0, -2};
    Options options;

    void save(std::string const& name) const
    {
        auto d = create_dataset("GTiff", name, shape, bands.size(), data_type_v<T>, options);
        set_geo_transform(*d, geo);
        for (std::size_t b = 0; b < bands.size(); ++b)
        {
            auto& x = *raster_band(*d, b + 1);
            if (has_no_data)
                set_no_data_value<T>(x, no_data);
            write(x, shape, data_type_v<T>, const_cast<T*>(bands[b].data()));
        }
    }
};

template<typename T>
static bool same(R<T> const& a, R<T> const& b)
{
    auto eq = [](T x, T y, bool nan) { return x == y || (nan && x != x && y != y); };
    bool nan = a.no_data != a.no_data;
    if (a.has_no_data != b.has_no_data || (a.has_no_data && !eq(a.no_data, b.no_data, true)))
        return false;
    for (std::size_t i = 0; i < a.bands.size(); ++i)
        for (std::size_t c = 0; c < a.bands[i].size(); ++c)
            if (!eq(a.bands[i][c], b.bands[i][c], a.has_no_data && nan))
                return false;
    return true;
}

template<typename T>
static void one(R<T> const& a, R<T> const& b, std::string w)
{
    w = vf::cat("type ", data_type_v<T>, " ", a.shape[0], "x", a.shape[1], " bands ", a.bands.size(), " ", w);
    vf::at(w);
    a.save("a.tif");
    b.save("b.tif");
    bool e = compare_rasters("a.tif", "b.tif").empty();
    vf::check(e == same(a, b), w + (e ? ": found equal" : ": found different"));
    bool f = compare_rasters("b.tif", "a.tif").empty();
    vf::check(e == f, w + ": not symmetric");
}

template<typename T>
static void type()
{
    for (int i = 0; i < (vf::thorough ? 120 : 16); ++i)
    {
        R<T> a;
        a.shape = {int(vf::rnd(1, i % 3 ? 40 : 4)), int(vf::rnd(1, i % 2 ? 70 : 4))};
        int n = a.shape[0] * a.shape[1];
        a.bands.resize(vf::rnd(1, 3));
        for (auto& b : a.bands)
            for (int k = 0; k < n; ++k)
                b.push_back(T(vf::rnd(0, 9)));
        a.options = OPTIONS[vf::rnd(0, 5)];
        if (i % 2)
        {
            a.has_no_data = true;
            a.no_data = T(3);
            if (std::is_floating_point_v<T> && i % 4 == 1)
            {
                a.no_data = std::numeric_limits<T>::quiet_NaN();
                a.bands[0][n / 2] = a.no_data;
            }
        }
        else if (std::is_floating_point_v<T> && i % 8 == 4)
            a.bands[0][n / 2] = std::numeric_limits<T>::quiet_NaN();
        R<T> b = a;
        b.options = OPTIONS[vf::rnd(0, 5)];
        one(a, b, "equal cells");
        // every corner, and random cells
        int r = a.shape[0], c = a.shape[1];
        for (int k : {0, c - 1, (r - 1) * c, r * c - 1, int(vf::rnd(0, n - 1)), int(vf::rnd(0, n - 1))})
        {
            R<T> d = b;
            auto& v = d.bands[vf::rnd(0, d.bands.size() - 1)][k];
            v = v == T(11) ? T(12) : T(11);
            one(a, d, vf::cat("cell ", k / c, ",", k % c));
        }
        R<T> d = b;
        d.has_no_data = !d.has_no_data;
        one(a, d, "no-data");
        d = b;
        d.no_data = T(8);
        one(a, d, "no-data value");
        auto differ = [&](R<T> const& d, std::string const& w)
        {
            vf::at(w);
            a.save("a.tif");
            d.save("b.tif");
            vf::check(!compare_rasters("a.tif", "b.tif").empty() && !compare_rasters("b.tif", "a.tif").empty(), w + ": not found different");
        };
        d = b;
        d.bands.push_back(d.bands[0]);
        differ(d, "number of bands");
        d = b;
        d.geo[vf::rnd(0, 1) * 3] += 1;
        differ(d, "georeference");
        if (r > 1)
        {
            d = b;
            d.shape[0] -= 1;
            for (auto& x : d.bands)
                x.resize(n - c);
            differ(d, "rows");
        }
        if (r != c)
        {
            d = b;
            std::swap(d.shape[0], d.shape[1]);
            differ(d, "transposed");
        }
        std::filesystem::remove("b.tif");
        vf::check(!compare_rasters("a.tif", "b.tif").empty() && !compare_rasters("b.tif", "a.tif").empty(), "a raster that is not there");
    }
}

template<typename T, typename U>
static void differ()
{
    R<T> a{{2, 2}, {{1, 2, 3, 4}}};
    R<U> b{{2, 2}, {{1, 2, 3, 4}}};
    a.save("a.tif");
    b.save("b.tif");
    vf::at("types");
    vf::check(!compare_rasters("a.tif", "b.tif").empty() && !compare_rasters("b.tif", "a.tif").empty(), "types differ");
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    register_gdal_drivers();
    CPLSetErrorHandler(CPLQuietErrorHandler);
    type<std::uint8_t>(); type<std::int8_t>(); type<std::uint16_t>(); type<std::int16_t>(); type<std::uint32_t>();
    type<std::int32_t>(); type<std::uint64_t>(); type<std::int64_t>(); type<float>(); type<double>();
    R<std::int64_t> a{{1, 2}, {{(1ll << 53), 1}}}, b{{1, 2}, {{(1ll << 53) + 1, 1}}};
    one(a, b, "64 bits");
    a.bands = b.bands;
    a.has_no_data = b.has_no_data = true;
    a.no_data = (1ll << 53);
    b.no_data = (1ll << 53) + 1;
    one(a, b, "64 bits no-data");
    differ<std::uint8_t, std::int8_t>(); differ<std::int16_t, std::uint16_t>(); differ<float, double>(); differ<std::int32_t, std::int64_t>();
    differ<std::int32_t, float>(); differ<std::uint32_t, std::uint64_t>();
    vf::sample("10 types, blocks of six shapes, rasters up to 40x70, up to 3 bands");
    return vf::done();
}
