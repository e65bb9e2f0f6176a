#include "check.hpp"
#include "lue/hdf5/chunk.hpp"
#include <cmath>
using namespace lue::hdf5;

static void one(Shape const& s, std::size_t z)
{
    std::string w = "value " + vf::list(s) + vf::cat(" elements of ", z, " bytes");
    unsigned __int128 size = z;
    bool over = false;
    for (auto x : s) { size *= x; if (size > (unsigned __int128)1 << 62) over = true; if (over) break; }
    if (over) return;
    vf::at(w);
    Shape c = chunk_shape(s, z);
    std::string g = w + ": chunk " + vf::list(c);
    if (!vf::check(c.size() == s.size() + 1, g + ": rank")) return;
    unsigned __int128 b = z;
    bool ok = true, large = false, ones = true;
    for (auto x : c) { ok = ok && x >= 1; ones = ones && x == 1; if (x < (hsize_t)1 << 40) b *= x; else large = true; if (b > (unsigned __int128)1 << 80) large = true; if (large) break; }
    for (std::size_t i = 0; i < s.size(); ++i) ok = ok && c[i + 1] >= 1 && c[i + 1] <= s[i];
    vf::check(ok, g + ": extents");
    vf::check((!large && b <= 1048576) || (z > 1048576 && ones), g + ": larger than the limit");
    if (size <= 1048576)
    {
        vf::check(std::equal(s.begin(), s.end(), c.begin() + 1) && c[0] * size <= 1048576 && (c[0] + 1) * size > 1048576, g + ": whole values");
    }
    else
        vf::check(c[0] == 1, g + ": part of a value");
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    for (std::size_t z : {1, 2, 3, 4, 8, 16, 100, 1048575, 1048576, 1048577, 5000000})
    {
        one({}, z);
        for (int k = 0; k <= 20; ++k)
            for (int r = 1; r <= 20; ++r)
                if (k % r == 0 && (1048576 >> k) % z == 0) one(Shape(r, hsize_t(1) << (k / r)), z);
        for (hsize_t a : {1ul, 2ul, 3ul, 1024ul, 131071ul, 131072ul, 131073ul, 1048576ul, 1048577ul, 99999999999ul})
        {
            one({a}, z);
            for (hsize_t b : {1ul, 7ul, 1024ul, 1025ul, 1048576ul, 99999999ul}) { one({a, b}, z); one({a, b, 3}, z); one({1, a, b, 20000}, z); }
        }
        for (int r = 1; r <= 20; ++r) { one(Shape(r, 2), z); one(Shape(r, 3), z); one(Shape(std::min(r, 5), 4000), z); }
    }
    int n = vf::thorough ? 2000000 : 200000;
    for (int i = 0; i < n; ++i)
    {
        int r = vf::rnd(0, i % 3 ? 5 : 32);
        Shape s(r);
        int m = r > 8 ? 4 : 1 << vf::rnd(1, 24 / std::max(r / 2, 1));
        for (auto& x : s) x = vf::rnd(1, vf::rnd(0, 2) ? m : 3);
        one(s, i % 7 ? 1 << vf::rnd(0, 3) : vf::rnd(1, 300));
    }
    vf::sample("special and random value shapes of rank 0..32");
    return vf::done();
}
