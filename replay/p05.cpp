#include "check.hpp"
#include "lue/hdf5.hpp"
#include "lue/hdf5/datatype_traits.hpp"
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
using namespace lue::hdf5;

template<typename T>
void element(char const* nn, char const* sn, hid_t nid, hid_t sid, Datatype const& nobj, Datatype const& sobj)
{
    std::string w = nn;
    auto own = [](hid_t id) { return Datatype{Identifier{H5Tcopy(id), H5Tclose}}; };
    Datatype want_n = own(nid), want_s = own(sid);
    std::vector<Datatype> ns{native_datatype<T>(), nobj, own(nid), Datatype{NativeDatatypeTraits<T>::type_id()}};
    std::vector<Datatype> ss{sobj, own(sid), Datatype{StandardDatatypeTraits<T>::type_id()}};
    for (auto& n : ns)
    {
        vf::check(n == want_n && n.is_native() && !n.is_string() && n.size() == sizeof(T), w + ": native");
        vf::check(native_datatype_as_string(n) == nn, w + ": name " + native_datatype_as_string(n));
        Datatype f = file_datatype(n);
        vf::check(f == want_s && f.is_standard() && memory_datatype(f) == want_n, w + ": file datatype");
        vf::check(standard_datatype_as_string(f) == sn, w + ": name of file datatype " + standard_datatype_as_string(f));
        vf::check(decode_datatype(encode_datatype(n)) == n, w + ": encode");
    }
    for (auto& s : ss)
        vf::check(s == want_s && s.is_standard() && memory_datatype(s) == want_n && s.size() == sizeof(T) && standard_datatype_as_string(s) == sn, w + ": standard");
    vf::check(NativeDatatypeTraits<T>::name() == nn && StandardDatatypeTraits<T>::name() == sn && StandardDatatypeTraits<T>::nr_bytes() == sizeof(T), w + ": traits");
}

// Whether f ends in an exception or ends the process
template<typename F>
bool refused(F&& f)
{
    std::cout.flush();
    pid_t p = fork();
    if (p == 0)
    {
        std::freopen("/dev/null", "w", stderr);
        std::signal(SIGABRT, SIG_DFL);
        try { f(); } catch (...) { _exit(7); }
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    element<std::int8_t>("H5T_NATIVE_INT8", "H5T_STD_I8LE", H5T_NATIVE_INT8, H5T_STD_I8LE, native_int8, std_int8_le);
    element<std::int16_t>("H5T_NATIVE_INT16", "H5T_STD_I16LE", H5T_NATIVE_INT16, H5T_STD_I16LE, native_int16, std_int16_le);
    element<std::int32_t>("H5T_NATIVE_INT32", "H5T_STD_I32LE", H5T_NATIVE_INT32, H5T_STD_I32LE, native_int32, std_int32_le);
    element<std::int64_t>("H5T_NATIVE_INT64", "H5T_STD_I64LE", H5T_NATIVE_INT64, H5T_STD_I64LE, native_int64, std_int64_le);
    element<std::uint8_t>("H5T_NATIVE_UINT8", "H5T_STD_U8LE", H5T_NATIVE_UINT8, H5T_STD_U8LE, native_uint8, std_uint8_le);
    element<std::uint16_t>("H5T_NATIVE_UINT16", "H5T_STD_U16LE", H5T_NATIVE_UINT16, H5T_STD_U16LE, native_uint16, std_uint16_le);
    element<std::uint32_t>("H5T_NATIVE_UINT32", "H5T_STD_U32LE", H5T_NATIVE_UINT32, H5T_STD_U32LE, native_uint32, std_uint32_le);
    element<std::uint64_t>("H5T_NATIVE_UINT64", "H5T_STD_U64LE", H5T_NATIVE_UINT64, H5T_STD_U64LE, native_uint64, std_uint64_le);
    element<float>("H5T_NATIVE_FLOAT", "H5T_IEEE_F32LE", H5T_NATIVE_FLOAT, H5T_IEEE_F32LE, native_float32, ieee_float32_le);
    element<double>("H5T_NATIVE_DOUBLE", "H5T_IEEE_F64LE", H5T_NATIVE_DOUBLE, H5T_IEEE_F64LE, native_float64, ieee_float64_le);
    for (std::size_t n : {1, 2, 7, 100, 65536})
    {
        Datatype a = create_datatype(n);
        Datatype b{Identifier{H5Tcopy(H5T_C_S1), H5Tclose}};
        H5Tset_size(b.id(), n);
        for (auto* t : {&a, &b})
        {
            auto cset = t == &a ? H5T_CSET_UTF8 : H5T_CSET_ASCII;
            for (auto u : {*t, file_datatype(*t), memory_datatype(*t), decode_datatype(encode_datatype(*t))})
                vf::check(u == *t && u.is_string() && u.size() == n && u.encoding() == cset && !H5Tis_variable_str(u.id()) && native_datatype_as_string(u) == "string" && standard_datatype_as_string(u) == "string",
                    vf::cat("string of ", n));
        }
    }
    for (auto t : {create_string_datatype(), native_datatype<std::string>(), std_datatype<std::string>()})
        for (auto u : {t, file_datatype(t), memory_datatype(t)})
            vf::check(u.is_string() && H5Tis_variable_str(u.id()) > 0 && u.encoding() == H5T_CSET_UTF8, "variable length string");
    std::vector<std::pair<char const*, hid_t>> others{{"int32 BE", H5T_STD_I32BE}, {"uint64 BE", H5T_STD_U64BE}, {"float32 BE", H5T_IEEE_F32BE},
        {"float64 BE", H5T_IEEE_F64BE}, {"bits", H5T_STD_B32LE}, {"reference", H5T_STD_REF_OBJ}, {"long double", H5T_NATIVE_LDOUBLE}};
    for (auto& [n, id] : others)
    {
        Datatype t{Identifier{H5Tcopy(id), H5Tclose}};
        vf::check(refused([&] { file_datatype(t); }), vf::cat("file datatype of ", n, " accepted"));
        vf::check(refused([&] { memory_datatype(t); }), vf::cat("memory datatype of ", n, " accepted"));
        vf::check(refused([&] { native_datatype_as_string(t); }), vf::cat("name of ", n, " accepted"));
        vf::check(refused([&] { standard_datatype_as_string(t); }), vf::cat("standard name of ", n, " accepted"));
        vf::check(decode_datatype(encode_datatype(t)) == t, vf::cat("encode ", n));
    }
    vf::sample("all element types, strings, unsupported types");
    return vf::done();
}
