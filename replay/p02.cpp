#include "check.hpp"
#include "lue/hdf5/hyperslab.hpp"
#include "lue/hdf5/shape.hpp"

using namespace lue::hdf5;

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    int const rounds = vf::thorough ? 20000 : 3000;
    for (int k = 0; k < rounds; ++k)
    {
        int const r = vf::rnd(0, k % 10 ? 5 : 32);
        Offset o(r); Stride s(r); Count c(r); Shape sh(r);
        hsize_t n = 1, vol = 1;
        for (int d = 0; d < r; ++d)
        {
            o[d] = vf::rnd(0, 50); s[d] = vf::rnd(1, 4); c[d] = vf::rnd(vf::rnd(0, 9) ? 1 : 0, r > 8 ? 2 : 9); sh[d] = vf::rnd(1, r > 8 ? 2 : 9);
            n *= c[d]; vol *= sh[d];
        }
        if (r == 0) n = 0;
        std::string w = vf::cat("offset ", vf::list(o), " stride ", vf::list(s), " count ", vf::list(c));
        Hyperslab h{o, s, c};
        Hyperslab g{o, c};
        Hyperslab f{sh};
        vf::check(h.start() == o && h.stride() == s && h.count() == c && int(h.nr_dimensions()) == r, w + ": vectors");
        vf::check(g.start() == o && g.stride() == Stride(r, 1) && g.count() == c, w + ": without stride");
        vf::check(f.start() == Offset(r, 0) && f.stride() == Stride(r, 1) && f.count() == Count(sh.begin(), sh.end()), "shape " + vf::list(sh));
        vf::check(h.nr_elements() == n, w + vf::cat(": ", h.nr_elements(), " elements"));
        vf::check(g.nr_elements() == n, w + vf::cat(" without stride: ", g.nr_elements(), " elements"));
        vf::check(h.empty() == (n == 0) && g.empty() == (n == 0), w + ": empty");
        {
            Shape big(1 + r % 3);
            hsize_t v = 1;
            for (auto& x : big) { x = vf::rnd(1, 200000); v *= x; }
            vf::check(size_of_shape(big) == v && size_of_shape(big, 8) == 8 * v && Hyperslab{big}.nr_elements() == v, "large shape " + vf::list(big));
        }
        vf::check(size_of_shape(sh) == vol && size_of_shape(sh, 8) == 8 * vol, "size of shape " + vf::list(sh));
        Hyperslab m = h; m = g; m.count() = c;
        vf::check(m.nr_elements() == n && m.start() == o, w + ": copy");
        Shape a{hsize_t(vf::rnd(5, 40)), hsize_t(vf::rnd(5, 40))}, b{hsize_t(vf::rnd(1, 5)), hsize_t(vf::rnd(1, 5))};
        Offset ctr{b[0] / 2 + vf::rnd(0, a[0] - b[0]), b[1] / 2 + vf::rnd(0, a[1] - b[1])};
        auto q = hyperslab(ctr, b, a);
        vf::check(q.start() == Offset{ctr[0] - b[0] / 2, ctr[1] - b[1] / 2} && q.count() == Count{b[0], b[1]} && q.stride() == Stride{1, 1},
            "around " + vf::list(ctr) + " shape " + vf::list(b));
    }
    vf::check(Hyperslab{}.empty() && Hyperslab{}.nr_elements() == 0, "default selection");
    vf::sample("random selections of rank 0..32");
    return vf::done();
}
