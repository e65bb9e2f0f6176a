#include "check.hpp"
#include "lue/gdal/data_type.hpp"
#include "lue/gdal/driver.hpp"
#include "lue/gdal/library.hpp"
#include "lue/gdal/type_traits.hpp"
#include <map>
#include <set>
#include <vector>

using namespace lue::gdal;

template<typename T>
static void type(GDALDataType t, std::string const& name)
{
    vf::at(name);
    vf::check(TypeTraits<T>::data_type == t && data_type_v<T> == t, name + ": type of the library");
    vf::check(as_string(t) == name, name + ": name is " + as_string(t));
    vf::check(GDALGetDataTypeSizeBytes(data_type_v<T>) == int(sizeof(T)), name + ": size");
    vf::check(!!GDALDataTypeIsFloating(data_type_v<T>) == std::is_floating_point_v<T>, name + ": class");
    vf::check(!!GDALDataTypeIsSigned(data_type_v<T>) == std::is_signed_v<T>, name + ": signedness");
    bool threw = false;
    try { verify_support<T>(); } catch (std::exception const&) { threw = true; }
    vf::check(supports<T>() && !threw, name + ": supported");
}

static void file(std::string const& f, std::string const& want)
{
    vf::at("name " + f);
    auto r = driver_name(f);
    vf::check(r == want, "driver of '" + f + "' is " + r + ", not " + want);
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    register_gdal_drivers();
    register_gdal_drivers();
    type<std::uint8_t>(GDT_Byte, "GDT_Byte");
    type<std::int8_t>(GDT_Int8, "GDT_Int8");
    type<std::uint16_t>(GDT_UInt16, "GDT_UInt16");
    type<std::int16_t>(GDT_Int16, "GDT_Int16");
    type<std::uint32_t>(GDT_UInt32, "GDT_UInt32");
    type<std::int32_t>(GDT_Int32, "GDT_Int32");
    type<std::uint64_t>(GDT_UInt64, "GDT_UInt64");
    type<std::int64_t>(GDT_Int64, "GDT_Int64");
    type<float>(GDT_Float32, "GDT_Float32");
    type<double>(GDT_Float64, "GDT_Float64");
    std::set<std::string> names;
    for (int t = 0; t < GDT_TypeCount; ++t)
    {
        auto n = as_string(static_cast<GDALDataType>(t));
        vf::check(names.insert(n).second && n.substr(0, 4) == "GDT_", vf::cat("name of type ", t, ": ", n));
        auto g = GDALGetDataTypeName(static_cast<GDALDataType>(t));
        vf::check(t == 0 ? n == "GDT_Unknown" : n == std::string("GDT_") + g, vf::cat("name of type ", t, ": ", n, " is ", g));
    }

    std::map<std::string, std::string> ext{{".tif", "GTiff"}, {".hdf4", "HDF4"}, {".h4", "HDF4"}, {".hdf5", "HDF5"}, {".h5", "HDF5"}, {".nc", "netCDF"}, {".map", "PCRaster"}, {".csf", "PCRaster"}, {".img", "HFA"}};
    std::vector<std::string> stems{"a", "dir.tif/a", "/x/y.h5/b.c", "a.map", "A b", "../a", "\xc3\xa9", "a."};
    for (auto const& [x, d] : ext)
        for (unsigned bits = 0; bits < 1u << x.size(); ++bits)
        {
            std::string y = x;
            for (unsigned i = 0; i < x.size(); ++i)
                if (bits >> i & 1)
                    y[i] = std::toupper(y[i]);
            for (auto const& s : stems)
                file(s + y, d);
            file(y, "Unknown");
            file("d/" + y, "Unknown");
        }
    for (auto const& s : {"a", "dir.nc/b", ""})
        for (auto const& x : {"", ".", ".tiff", ".ti", ".t", "tif", ".tif2", ".txt", ".hdf", ".h", ".maps", ".tif/b", ".tif.bak", ".tif ", ". tif", ".imgx", ".nc4", ".\xc3\xa9"})
            file(std::string(s) + x, "Unknown");
    for (auto const& n : {"GTiff", "MEM"})
    {
        DriverPtr p = driver(n);
        vf::check(p && p->GetDescription() == std::string(n), std::string("driver ") + n);
    }
    for (auto const& n : {"Unknown", "", "no such driver"})
    {
        bool threw = false;
        try { driver(n); } catch (std::runtime_error const&) { threw = true; }
        vf::check(threw, std::string("driver '") + n + "' is refused");
    }
    vf::sample("10 element types; names of 15 types; 9 extensions in every letter case; 54 unknown ones");
    return vf::done();
}
