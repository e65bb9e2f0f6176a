// Time domains against a model
#include "clocks.hpp"
#include "lue/info/time/time_box.hpp"
#include "lue/info/time/time_cell.hpp"
#include "lue/info/time/time_point.hpp"

using namespace lue::data_model;
namespace h5 = lue::hdf5;
using V = std::vector<std::uint64_t>;
using Items = same_shape::constant_shape::Value;

// Adds items, or writes and reads them
void round(h5::Group& g, std::string const& path, Items& v, std::size_t width, V& model)
{
    auto before = vf::dump(g.id());
    std::set<std::string> want;
    std::size_t n = vf::rnd(0, 5), old = model.size() / width;
    v.expand(n);
    if (n)
    {
        V x(n * width);
        for (auto& y : x) y = vf::rng() | 1;
        v.write(IndexRange(old, old + n), x.data());
        model.insert(model.end(), x.begin(), x.end());
        want = {"~" + path, (old ? "~" : "+") + path + "#"};
    }
    vf::same_changes(before, vf::dump(g.id()), want, path + ": adding items");
}
void look(Items const& v, std::size_t width, bool flat, V const& model, std::string const& what)
{
    vf::check(v.nr_arrays() == model.size() / width, what + ": number");
    vf::check(v.array_shape() == (flat ? h5::Shape{} : h5::Shape{width}), what + ": coordinates of each");
    vf::check(v.file_datatype() == h5::Datatype{H5T_STD_U64LE} && v.memory_datatype() == h5::Datatype{H5T_NATIVE_UINT64}, what + ": type");
    if (model.empty()) return;
    V x(model.size());
    v.read(IndexRange(0, model.size() / width), x.data());
    vf::check(x == model, what + ": values");
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    h5::File f{h5::create_file("p14.h5")};
    for (int i = 0; i < (vf::thorough ? 120 : 18); ++i)
        vf::scenario("domain", [&] {
            h5::Group g{h5::create_group(f, vf::cat("g", i))}, other{h5::create_group(g, "other")};
            auto kind = static_cast<TimeDomainItemType>(i % 3);
            Clock c = vf::some_clock();
            std::string p = vf::cat("/g", i, "/lue_time_domain"), q = p + "/lue_coordinates", r = p + "/lue_time_discretization";
            vf::check(!time_domain_exists(g) && !has_linked_time_domain(g) && vf::throws([&] { TimeDomain{g}; }), "no domain yet");
            auto before = vf::dump(g.id());
            TimeDomain d = create_time_domain(g, TimeConfiguration{kind}, c);
            auto want = vf::clock_changes(p, c);
            want.insert("+" + q);
            if (kind == TimeDomainItemType::cell) want.insert("+" + r);
            vf::same_changes(before, vf::dump(g.id()), want, "creating a domain");
            before = vf::dump(g.id());
            vf::check(vf::throws([&] { create_time_domain(g, TimeConfiguration{kind}, c); }), "a second domain is refused");
            vf::same_changes(before, vf::dump(g.id()), {}, "a second domain");
            link_time_domain(other, d);
            vf::same_changes(before, vf::dump(g.id()), {vf::cat("+/g", i, "/other/lue_time_domain")}, "sharing a domain");
            vf::check(time_domain_exists(g) && !has_linked_time_domain(g) && has_linked_time_domain(other), "the domain exists");
            V a, b;
            for (int k = 0; k < 6; ++k)
            {
                TimeDomain e{k % 2 ? g : other};
                vf::check(e.configuration().value<TimeDomainItemType>() == kind && e.configuration() == TimeConfiguration{kind} && vf::same(e.clock(), c), "the domain found again");
                if (kind == TimeDomainItemType::point)
                {
                    auto v = e.value<TimePoint>();
                    round(g, q, v, 1, a);
                    look(v, 1, false, a, "points");
                    vf::check(v.nr_points() == a.size() && d.value<TimePoint>().nr_points() == a.size(), "number of points");
                }
                else if (kind == TimeDomainItemType::box)
                {
                    auto v = e.value<TimeBox>();
                    round(g, q, v, 2, a);
                    look(v, 2, false, a, "boxes");
                    vf::check(v.nr_boxes() == a.size() / 2 && d.value<TimeBox>().nr_boxes() == a.size() / 2, "number of boxes");
                }
                else
                {
                    auto v = e.value<TimeCell>();
                    if (vf::rnd(0, 1)) round(g, q, v, 2, a);
                    if (vf::rnd(0, 1)) round(g, r, v.count(), 1, b);
                    look(v, 2, false, a, "cells");
                    look(v.count(), 1, true, b, "counts of cells");
                    vf::check(v.nr_boxes() == a.size() / 2 && v.nr_counts() == b.size() && d.value<TimeCell>().nr_counts() == b.size(), "number of cells");
                }
            }
        });
    h5::Group g{h5::create_group(f, "failures")}, h{h5::create_group(g, "other")};
    Clock c{time::Unit::day, 3};
    TimeConfiguration t{TimeDomainItemType::cell};
    vf::each_failure("create", [&] { create_time_domain(g, t, c); }, "H5Lexists H5Aexists");
    auto d = create_time_domain(g, t, c);
    vf::each_failure("open", [&] { TimeDomain{g}; }, "H5Aexists");
    vf::each_failure("link", [&] { link_time_domain(h, d); });
    vf::each_failure("cells", [&] { d.value<TimeCell>(); });
    vf::sample("histories of opening a domain of each kind through its group or a link, adding and reading items, checked against a model and the whole file");
    return vf::done();
}
