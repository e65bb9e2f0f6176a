#include "check.hpp"
#include "lue/gdal/blocks.hpp"
#include <algorithm>

using namespace lue::gdal;

static void one(int fy, int fx, int by, int bx)
{
    std::string w = vf::cat("raster ", fy, "x", fx, " block ", by, "x", bx);
    Blocks b{Shape{fy, fx}, Shape{by, bx}};
    int f[2] = {fy, fx};
    int k[2] = {by, bx};
    vf::check(b.raster_shape() == Shape{fy, fx} && b.block_shape() == Shape{by, bx}, w + ": shapes");
    auto n = b.shape_in_blocks();
    for (int d = 0; d < 2; ++d)
        vf::check(long(n[d]) * k[d] >= f[d] && long(n[d] - 1) * k[d] < f[d], w + vf::cat(": ", n[d], " blocks along axis ", d));
    for (int y : {0, n[0] / 2, n[0] - 1})
        for (int x : {0, n[1] / 2, n[1] - 1})
        {
            auto v = b.shape_in_valid_cells({y, x});
            int o[2] = {y, x};
            for (int d = 0; d < 2; ++d)
                vf::check(v[d] == std::min<long>(k[d], f[d] - long(o[d]) * k[d]), w + vf::cat(": block ", y, ",", x, " valid ", v[d], " along axis ", d));
        }
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    for (int fy = 1; fy <= 7; ++fy)
        for (int fx = 1; fx <= 7; ++fx)
            for (int by = 1; by <= fy; ++by)
                for (int bx = 1; bx <= fx; ++bx)
                    one(fy, fx, by, bx);
    for (int i = 0; i < 20000; ++i)
    {
        int fy = vf::rnd(1, i % 2 ? 1000 : 1 << 29), fx = vf::rnd(1, i % 3 ? 1000 : 1 << 29);
        one(fy, fx, vf::rnd(1, fy), vf::rnd(1, fx));
    }
    for (int f : {(1 << 24) + 1, (1 << 24) + 257, (1 << 26) + 3, (1 << 29) + 1, 123456789})
        for (int b : {1, 2, 3, 255, 256, 4096})
        {
            one(f, 5, b, 5);
            one(7, f, 2, b);
        }
    vf::sample("all rasters up to 7x7 with all blocks; 20000 random ones");
    return vf::done();
}
