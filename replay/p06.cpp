#include "check.hpp"
#include "lue/hdf5.hpp"
#include <csignal>
#include <map>
#include <sys/wait.h>
#include <unistd.h>
#include <variant>
using namespace lue::hdf5;

static char const* fail_call = "";
static bool failing(char const* n) { return std::string(n) == fail_call; }
extern "C" {
herr_t __real_H5Awrite(hid_t, hid_t, void const*);
herr_t __wrap_H5Awrite(hid_t a, hid_t t, void const* b) { return failing("H5Awrite") ? -1 : __real_H5Awrite(a, t, b); }
herr_t __real_H5Aread(hid_t, hid_t, void*);
herr_t __wrap_H5Aread(hid_t a, hid_t t, void* b) { return failing("H5Aread") ? -1 : __real_H5Aread(a, t, b); }
hid_t __real_H5Acreate2(hid_t, char const*, hid_t, hid_t, hid_t, hid_t);
hid_t __wrap_H5Acreate2(hid_t a, char const* n, hid_t t, hid_t s, hid_t p, hid_t q) { return failing("H5Acreate") ? -1 : __real_H5Acreate2(a, n, t, s, p, q); }
hid_t __real_H5Aopen(hid_t, char const*, hid_t);
hid_t __wrap_H5Aopen(hid_t a, char const* n, hid_t p) { return failing("H5Aopen") ? -1 : __real_H5Aopen(a, n, p); }
htri_t __real_H5Aexists(hid_t, char const*);
htri_t __wrap_H5Aexists(hid_t a, char const* n) { return failing("H5Aexists") ? -1 : __real_H5Aexists(a, n); }
}

using V = std::variant<std::int8_t, std::int16_t, std::int32_t, std::int64_t, std::uint8_t, std::uint16_t, std::uint32_t, std::uint64_t, float, double, std::string,
    std::vector<std::int8_t>, std::vector<std::int32_t>, std::vector<std::int64_t>, std::vector<std::uint8_t>, std::vector<std::uint64_t>, std::vector<float>, std::vector<double>>;

template<std::size_t I = 0>
void make(V& v, std::size_t k)
{
    if constexpr (I < std::variant_size_v<V>)
    {
        if (k == I)
        {
            using T = std::variant_alternative_t<I, V>;
            T x{};
            if constexpr (std::is_same_v<T, std::string>)
            {
                int n = vf::rnd(0, 3) == 0 ? vf::rnd(1, 2000) : vf::rnd(1, 12);
                for (int i = 0; i < n; ++i) x += static_cast<char>(vf::rnd(0, 20) == 0 ? vf::rnd(-128, 127) : vf::rnd('a', 'z'));
            }
            else if constexpr (std::is_arithmetic_v<T>)
            {
                x = vf::rnd(0, 3) == 0 ? std::numeric_limits<T>::max() : vf::rnd(0, 2) == 0 ? std::numeric_limits<T>::lowest() : static_cast<T>(vf::rnd(-1000000, 1000000));
            }
            else
            {
                x.resize(vf::rnd(1, 9));
                for (auto& e : x) e = static_cast<typename T::value_type>(vf::rnd(-1000000, 1000000));
            }
            v = x;
            return;
        }
        make<I + 1>(v, k);
    }
}

static int code(std::function<void()> f)
{
    std::cout.flush();
    std::fflush(stdout);
    pid_t p = fork();
    if (p == 0)
    {
        std::freopen("/dev/null", "w", stderr);
        std::signal(SIGABRT, SIG_DFL);
        try { f(); } catch (...) { _exit(7); }
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000;
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    hid_t f = H5Fcreate("p06.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    H5Gclose(H5Gcreate2(f, "g", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT));
    hid_t sp = H5Screate(H5S_SCALAR);
    H5Dclose(H5Dcreate2(f, "d", H5T_STD_I32LE, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT));
    std::vector<Attributes> as{Attributes{Identifier{H5Oopen(f, "/", H5P_DEFAULT), H5Oclose}},
        Attributes{Identifier{H5Oopen(f, "/g", H5P_DEFAULT), H5Oclose}}, Attributes{Identifier{H5Oopen(f, "/d", H5P_DEFAULT), H5Oclose}}};
    std::vector<std::string> names{"a", "b", "lue_x", "A", "a b", "\xc3\xa9", std::string(300, 'n')};
    std::vector<std::map<std::string, V>> model(3);
    auto whole = [&](std::string const& w) {
        for (std::size_t o = 0; o < as.size(); ++o)
            for (auto& n : names)
            {
                bool there = model[o].count(n);
                vf::check(as[o].exists(n) == there, w + ": existence of attribute " + n.substr(0, 9));
                if (there)
                    std::visit([&](auto const& x) { using T = std::decay_t<decltype(x)>; vf::check(as[o].exists(n) && as[o].template read<T>(n) == x, w + ": value of attribute " + n.substr(0, 9)); }, model[o][n]);
            }
    };
    int rounds = vf::thorough ? 3000 : 600;
    for (int r = 0; r < rounds; ++r)
    {
        std::size_t o = vf::rnd(0, 2);
        std::string n = names[vf::rnd(0, names.size() - 1)];
        V v;
        make(v, vf::rnd(0, std::variant_size_v<V> - 1));
        std::string w = vf::cat("write of kind ", v.index(), " over ", model[o].count(n) ? static_cast<int>(model[o][n].index()) : -1);
        vf::scenario(w, [&] {
            std::visit([&](auto const& x) { as[o].write(n, x); }, v);
            model[o][n] = v;
            std::visit([&](auto const& x) { using T = std::decay_t<decltype(x)>; vf::check(as[o].template read<T>(n) == x, w + ": reads back another value"); }, v);
            if (r % 20 == 0) whole(w);
        });
    }
    vf::scenario("at the end", [&] { whole("at the end"); });
    vf::scenario("long vectors", [&] {
        hid_t pl = H5Pcreate(H5P_FILE_ACCESS);
        H5Pset_libver_bounds(pl, H5F_LIBVER_LATEST, H5F_LIBVER_LATEST);
        hid_t lf = H5Fcreate("p06long.h5", H5F_ACC_TRUNC, H5P_DEFAULT, pl);
        Attributes la{Identifier{H5Oopen(lf, "/", H5P_DEFAULT), H5Oclose}};
        for (std::size_t n : {255u, 256u, 8191u, 8192u, 16384u, 65535u, 65536u, 70000u})
        {
            std::vector<std::int64_t> v(n);
            for (std::size_t i = 0; i < n; ++i) v[i] = static_cast<std::int64_t>(i * 7919 + n);
            la.write("v", v);
            vf::check(la.read<std::vector<std::int64_t>>("v") == v, vf::cat("a vector of ", n, " numbers reads back as another one"));
            std::vector<std::uint8_t> b(n, 200);
            la.write("b", b);
            vf::check(la.read<std::vector<std::uint8_t>>("b") == b, vf::cat("a vector of ", n, " bytes reads back as another one"));
            std::string t(n, 't');
            la.write("t", t);
            vf::check(la.read<std::string>("t") == t, vf::cat("a string of ", n, " characters reads back as another one"));
        }
    });
    auto refused = [&](std::string const& w, std::function<void()> g) { vf::check(code(g) != 0, w + " succeeds"); };
    refused("reading an absent number", [&] { as[0].read<int>("absent"); });
    refused("reading an absent string", [&] { as[0].read<std::string>("absent"); });
    refused("reading an absent vector", [&] { as[0].read<std::vector<int>>("absent"); });
    vf::check(!as[0].exists("absent"), "reading creates an attribute");
    vf::scenario("failures", [&] {
        as[0].write<int>("f", 3);
        as[0].write<std::string>("fs", "text");
        as[0].write<std::vector<int>>("fv", {1, 2});
        for (auto c : {"H5Awrite", "H5Acreate", "H5Aopen", "H5Aexists", "H5Aread"})
        {
            fail_call = c;
            bool rd = std::string(c) == "H5Aread", cr = std::string(c) == "H5Acreate";
            if (!rd && !cr) refused(vf::cat("write of a number with a failing ", c), [&] { as[0].write<int>("f", 4); });
            if (!rd && !cr) refused(vf::cat("write of a string with a failing ", c), [&] { as[0].write<std::string>("fs", "abcd"); });
            if (cr) refused(vf::cat("write of a new number with a failing ", c), [&] { as[0].write<int>("fnew", 4); });
            if (cr) refused(vf::cat("write of a new string with a failing ", c), [&] { as[0].write<std::string>("fnew", "q"); });
            if (std::string(c) == "H5Aopen" || rd)
            {
                refused(vf::cat("read of a number with a failing ", c), [&] { as[0].read<int>("f"); });
                refused(vf::cat("read of a string with a failing ", c), [&] { as[0].read<std::string>("fs"); });
                refused(vf::cat("read of a vector with a failing ", c), [&] { as[0].read<std::vector<int>>("fv"); });
            }
            fail_call = "";
        }
        vf::check(as[0].read<int>("f") == 3, "a failing write leaves the old value");
    });
    vf::sample("600 writes of 18 kinds of values over attributes of any kind, on three objects");
    return vf::done();
}
