// Calls of the public interface of the data model
#include "lue/data_model.hpp"

namespace vx {
    using namespace lue::data_model;
    namespace hdf5 = lue::hdf5;

    // ---- arrays
    Array array1(hdf5::Group const& g, std::string const& n) { return Array{g, n}; }
    Array array2(hdf5::Group const& g, std::string const& n, hdf5::Datatype const& t) { return Array{g, n, t}; }
    hdf5::Datatype memory_type_of(Array const& a) { return a.memory_datatype(); }
    hdf5::Datatype file_type_of(Array const& a) { return a.file_datatype(); }
    void aread1(Array const& a, void* b) { a.read(b); }
    void aread2(Array const& a, hdf5::Hyperslab const& h, void* b) { a.read(h, b); }
    void aread3(Array const& a, hdf5::Datatype const& t, hdf5::Hyperslab const& h, void* b) { a.read(t, h, b); }
    void aread4(Array const& a, hdf5::Datatype const& t, hdf5::Hyperslab const& h, Array::TransferPropertyList const& p, void* b) { a.read(t, h, p, b); }
    void aread5(Array const& a, hdf5::Dataspace const& m, void* b) { a.read(m, b); }
    void awrite1(Array& a, void const* b) { a.write(b); }
    void awrite2(Array& a, hdf5::Hyperslab const& h, void const* b) { a.write(h, b); }
    void awrite3(Array& a, hdf5::Hyperslab const& h, Array::TransferPropertyList const& p, void const* b) { a.write(h, p, b); }
    void awrite4(Array& a, hdf5::Dataspace const& m, void const* b) { a.write(m, b); }
    void awrite5(Array& a, hdf5::Dataspace const& m, hdf5::Hyperslab const& h, void const* b) { a.write(m, h, b); }
    void awrite6(Array& a, hdf5::Dataspace const& m, hdf5::Hyperslab const& h, Array::TransferPropertyList const& p, void const* b) { a.write(m, h, p, b); }
    bool has_no_data(Array const& a) { return a.has_no_data_value(); }
    std::int32_t no_data_i32(Array const& a) { return a.no_data_value<std::int32_t>(); }
    double no_data_f64(Array const& a) { return a.no_data_value<double>(); }
}
