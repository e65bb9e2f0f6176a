#include "check.hpp"
#include "lue/data_model.hpp"
#include <cstring>
using namespace lue::hdf5;
namespace dm = lue::data_model;
using TP = Dataset::TransferPropertyList;

static hid_t fid = -1;
static int number = 0;

struct Sel
{
    Offset o;
    Stride s;
    Count c;

    std::size_t size() const
    {
        std::size_t n = 1;
        for (auto x : c) n *= x;
        return n;
    }

    // indices of the cells in the dataset, in order of the memory block
    std::vector<std::size_t> cells(Shape const& d) const
    {
        std::vector<std::size_t> r(size());
        for (std::size_t k = 0; k < r.size(); ++k)
        {
            std::size_t rest = k, idx = 0, stride = 1;
            for (int i = static_cast<int>(d.size()) - 1; i >= 0; --i)
            {
                idx += (o[i] + (rest % c[i]) * s[i]) * stride;
                rest /= c[i];
                stride *= d[i];
            }
            r[k] = idx;
        }
        return r;
    }
};

static Sel random_sel(Shape const& d)
{
    Sel r;
    r.o.resize(d.size());
    r.s.resize(d.size());
    r.c.resize(d.size());
    for (std::size_t i = 0; i < d.size(); ++i)
    {
        r.o[i] = vf::rnd(0, d[i] - 1);
        r.s[i] = vf::rnd(1, 3);
        r.c[i] = vf::rnd(1, (d[i] - r.o[i] - 1) / r.s[i] + 1);
    }
    return r;
}

template<typename T>
std::vector<T> raw_read(hid_t ds, std::size_t n)
{
    std::vector<T> v(n);
    H5Dread(ds, native_datatype<T>().id(), H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
    return v;
}

template<typename T>
void raw_write(hid_t ds, std::vector<T> const& v)
{
    H5Dwrite(ds, native_datatype<T>().id(), H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
}

template<typename T, typename M>
void round(int rank)
{
    Shape d;
    std::size_t n = 1;
    for (int i = 0; i < rank; ++i)
    {
        d.push_back(vf::rnd(1, rank > 4 ? 2 : 6));
        n *= d.back();
    }
    Group root{Identifier{H5Gopen2(fid, "/", H5P_DEFAULT), H5Gclose}};
    std::string name = vf::cat("d", number++);
    std::vector<hsize_t> mx(d.begin(), d.end());
    mx[0] = H5S_UNLIMITED;
    Dataset::CreationPropertyList pl;
    pl.set_chunk(d);
    {
        hid_t s = H5Screate_simple(rank, d.data(), mx.data());
        hid_t i = H5Dcreate2(root.id(), name.c_str(), native_datatype<T>().id(), s, H5P_DEFAULT, pl.id(), H5P_DEFAULT);
        H5Dclose(i);
        H5Sclose(s);
    }
    hid_t ds = H5Dopen2(root.id(), name.c_str(), H5P_DEFAULT);
    Dataset x{root, name};
    dm::Array a{root, name}, am{root, name, native_datatype<M>()};
    Datatype t = native_datatype<T>(), m = native_datatype<M>();
    Sel sel = random_sel(d);
    Hyperslab h{sel.o, sel.s, sel.c};
    auto cells = sel.cells(d);
    TP tp;
    std::string w = vf::cat("shape ", vf::list(d), " offset ", vf::list(sel.o), " stride ", vf::list(sel.s), " count ", vf::list(sel.c), " element size ", sizeof(T), ": ");
    vf::at(w);
    vf::check(x.shape() == d && a.shape() == d && x.dataspace().dimension_extents() == d && x.dataspace().nr_dimensions() == rank && x.dataspace().nr_elements() == static_cast<long>(n), w + "shape");
    vf::check(x.datatype() == t && a.file_datatype() == t && a.memory_datatype() == t && am.memory_datatype() == m, w + "datatype");
    std::vector<T> all(n);
    for (auto& v : all) v = static_cast<T>(vf::rnd(0, 100));
    raw_write(ds, all);
    Dataspace mem{create_dataspace(Shape{cells.size()})}, mall{create_dataspace(Shape{n})};
    M const guard = static_cast<M>(111);
    auto expect = [&](std::string const& what, bool selected, auto fn) {
        std::vector<M> b((selected ? cells.size() : n) + 2, guard);
        vf::at(w + what);
        try { fn(b.data()); } catch (std::exception const& e) { vf::check(false, w + what + ": " + e.what()); return; }
        bool ok = b[b.size() - 1] == guard && b[b.size() - 2] == guard;
        for (std::size_t k = 0; k + 2 < b.size(); ++k) ok = ok && b[k] == static_cast<M>(all[selected ? cells[k] : k]);
        vf::check(ok, w + what + " gives other values");
        vf::check(raw_read<T>(ds, n) == all, w + what + " changes the dataset");
    };
    expect("read(type)", false, [&](M* b) { x.read(m, b); });
    expect("read(type, memory)", false, [&](M* b) { x.read(m, mall, b); });
    expect("read(type, selection)", true, [&](M* b) { x.read(m, h, b); });
    expect("read(type, selection, properties)", true, [&](M* b) { x.read(m, h, tp, b); });
    expect("read(type, memory, selection)", true, [&](M* b) { x.read(m, mem, h, b); });
    expect("read(type, memory, selection, properties)", true, [&](M* b) { x.read(m, mem, h, tp, b); });
    expect("array read()", false, [&](M* b) { am.read(b); });
    expect("array read(memory)", false, [&](M* b) { am.read(mall, b); });
    expect("array read(selection)", true, [&](M* b) { am.read(h, b); });
    expect("array read(type, selection)", true, [&](M* b) { a.read(m, h, b); });
    expect("array read(type, selection, properties)", true, [&](M* b) { a.read(m, h, tp, b); });
    auto stored = [&](std::string const& what, bool selected, auto fn) {
        raw_write(ds, all);
        std::vector<M> b(selected ? cells.size() : n);
        for (auto& v : b) v = static_cast<M>(vf::rnd(0, 100));
        auto want = all;
        for (std::size_t k = 0; k < b.size(); ++k) want[selected ? cells[k] : k] = static_cast<T>(b[k]);
        auto copy = b;
        vf::at(w + what);
        try { fn(b.data()); } catch (std::exception const& e) { vf::check(false, w + what + ": " + e.what()); return; }
        vf::check(raw_read<T>(ds, n) == want, w + what + " stores other values");
        vf::check(b == copy, w + what + " changes the buffer");
    };
    stored("write(type)", false, [&](M* b) { x.write(m, b); });
    stored("write(type, memory)", false, [&](M* b) { x.write(m, mall, b); });
    stored("write(type, selection)", true, [&](M* b) { x.write(m, h, b); });
    stored("write(type, selection, properties)", true, [&](M* b) { x.write(m, h, tp, b); });
    stored("write(type, memory, selection)", true, [&](M* b) { x.write(m, mem, h, b); });
    stored("write(type, memory, selection, properties)", true, [&](M* b) { x.write(m, mem, h, tp, b); });
    stored("array write()", false, [&](M* b) { am.write(b); });
    stored("array write(memory)", false, [&](M* b) { am.write(mall, b); });
    stored("array write(selection)", true, [&](M* b) { am.write(h, b); });
    stored("array write(selection, properties)", true, [&](M* b) { am.write(h, tp, b); });
    stored("array write(memory, selection)", true, [&](M* b) { am.write(mem, h, b); });
    stored("array write(memory, selection, properties)", true, [&](M* b) { am.write(mem, h, tp, b); });
    {
        raw_write(ds, all);
        M v = static_cast<M>(vf::rnd(1, 100));
        vf::at(w + "fill");
        try
        {
            x.fill(m, h, &v);
            auto want = all;
            for (auto i : cells) want[i] = static_cast<T>(v);
            vf::check(raw_read<T>(ds, n) == want, w + "fill");
        }
        catch (std::exception const& e) { vf::check(false, w + "fill: " + e.what()); }
    }
    {
        raw_write(ds, all);
        Shape r = d;
        r[0] = vf::rnd(0, 9);
        x.resize(r);
        vf::check(x.shape() == r && a.shape() == r, w + vf::cat("resize to ", vf::list(r)));
        std::size_t row = n / d[0], k = std::min<std::size_t>(r[0], d[0]) * row;
        auto got = raw_read<T>(ds, r[0] * row);
        vf::check(std::equal(all.begin(), all.begin() + k, got.begin()), w + "resize keeps the cells");
        r.push_back(1);
    }
    H5Dclose(ds);
}

static int fail_what = 0;
extern "C" herr_t __real_H5Dread(hid_t, hid_t, hid_t, hid_t, hid_t, void*);
extern "C" herr_t __wrap_H5Dread(hid_t a, hid_t b, hid_t c, hid_t d, hid_t e, void* f) { return fail_what == 1 ? -1 : __real_H5Dread(a, b, c, d, e, f); }
extern "C" herr_t __real_H5Dwrite(hid_t, hid_t, hid_t, hid_t, hid_t, void const*);
extern "C" herr_t __wrap_H5Dwrite(hid_t a, hid_t b, hid_t c, hid_t d, hid_t e, void const* f) { return fail_what == 2 ? -1 : __real_H5Dwrite(a, b, c, d, e, f); }
extern "C" herr_t __real_H5Sselect_hyperslab(hid_t, H5S_seloper_t, hsize_t const*, hsize_t const*, hsize_t const*, hsize_t const*);
extern "C" herr_t __wrap_H5Sselect_hyperslab(hid_t a, H5S_seloper_t b, hsize_t const* c, hsize_t const* d, hsize_t const* e, hsize_t const* f) { return fail_what == 3 ? -1 : __real_H5Sselect_hyperslab(a, b, c, d, e, f); }
extern "C" herr_t __real_H5Dset_extent(hid_t, hsize_t const*);
extern "C" herr_t __wrap_H5Dset_extent(hid_t a, hsize_t const* b) { return fail_what == 4 ? -1 : __real_H5Dset_extent(a, b); }

static void failures()
{
    Group root{Identifier{H5Gopen2(fid, "/", H5P_DEFAULT), H5Gclose}};
    hsize_t d[2] = {3, 4}, mx[2] = {H5S_UNLIMITED, 4};
    Dataset::CreationPropertyList pl;
    pl.set_chunk({3, 4});
    hid_t s = H5Screate_simple(2, d, mx);
    hid_t i = H5Dcreate2(root.id(), "f", H5T_NATIVE_INT32, s, H5P_DEFAULT, pl.id(), H5P_DEFAULT);
    H5Dclose(i);
    H5Sclose(s);
    Dataset x{root, "f"};
    std::vector<std::int32_t> b(12);
    Hyperslab h{{0, 0}, {2, 2}};
    Datatype t = native_int32;
    std::int32_t v = 3;
    auto with = [&](int k, std::string const& what, auto fn) {
        fail_what = k;
        bool threw = vf::throws(fn);
        fail_what = 0;
        vf::check(threw, "a failing " + what + " is not reported");
    };
    with(1, "read", [&] { x.read(t, b.data()); });
    with(1, "read of a selection", [&] { x.read(t, h, b.data()); });
    with(2, "write", [&] { x.write(t, b.data()); });
    with(2, "write of a selection", [&] { x.write(t, h, b.data()); });
    with(2, "fill", [&] { x.fill(t, h, &v); });
    with(3, "selection while reading", [&] { x.read(t, h, b.data()); });
    with(3, "selection while writing", [&] { x.write(t, h, b.data()); });
    with(4, "resize", [&] { x.resize({5, 4}); });
    vf::check(vf::throws([&] { Dataset{root, "absent"}; }), "an absent dataset opens");
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    fid = H5Fcreate("p03.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    vf::scenario("failures", failures);
    int const n = vf::thorough ? 60 : 12;
    for (int i = 0; i < n; ++i)
    {
        int r = i < 6 ? i % 3 + 1 : vf::rnd(1, 6);
        vf::scenario("i32", [&] { round<std::int32_t, std::int32_t>(r); });
        vf::scenario("i32 as double", [&] { round<std::int32_t, double>(r); });
        vf::scenario("i64 as i32", [&] { round<std::int64_t, std::int32_t>(r); });
        vf::scenario("u8", [&] { round<std::uint8_t, std::uint8_t>(r); });
        vf::scenario("i8 as u16", [&] { round<std::int8_t, std::uint16_t>(r); });
        vf::scenario("f32 as u64", [&] { round<float, std::uint64_t>(r); });
        vf::scenario("f64 as i16", [&] { round<double, std::int16_t>(r); });
    }
    vf::sample("rank 1..6, mixed memory and file types, strided selections");
    H5Fclose(fid);
    return vf::done();
}
