// Space domains against a model
#include "inject.hpp"
#include "dump.hpp"
#include "lue/hdf5/file.hpp"
#include "lue/info/space/mobile_space_box.hpp"
#include "lue/info/space/mobile_space_point.hpp"
#include "lue/info/space/stationary_space_box.hpp"
#include "lue/info/space/stationary_space_point.hpp"
#include "lue/object/space_domain.hpp"

using namespace lue::data_model;
namespace h5 = lue::hdf5;

template<typename C, typename E, typename Nr>
void history(h5::Group& g, std::string const& path, Mobility m, SpaceDomainItemType t, std::size_t rank, Nr nr)
{
    using T = h5::NativeDatatypeTraits<E>;
    h5::Datatype const type{T::type_id()};
    std::size_t const width = t == SpaceDomainItemType::box ? 2 * rank : rank;
    vf::check(!space_domain_exists(g) && vf::throws([&] { SpaceDomain{g}; }), "no domain yet");
    std::string p = path + "/lue_space_domain", q = p + "/lue_coordinates";
    auto before = vf::dump(g.id());
    SpaceDomain d = create_space_domain(g, SpaceConfiguration{m, t}, type, rank);
    vf::same_changes(before, vf::dump(g.id()), {"+" + p, "+" + p + "@lue_mobility", "+" + p + "@lue_space_domain_item_type", "+" + q}, "creating a domain");
    before = vf::dump(g.id());
    vf::check(vf::throws([&] { create_space_domain(g, SpaceConfiguration{m, t}, type, rank); }), "a second domain is refused");
    vf::same_changes(before, vf::dump(g.id()), {}, "a second domain");
    std::vector<E> model;
    for (int k = 0; k < 4; ++k)
    {
        SpaceDomain e{g};
        vf::check(space_domain_exists(g) && e.configuration() == SpaceConfiguration{m, t} && e.configuration().value<Mobility>() == m && e.configuration().value<SpaceDomainItemType>() == t,
                  "the domain found again");
        C v = k % 2 ? e.value<C>() : d.value<C>(type);
        auto was = vf::dump(g.id());
        std::size_t n = vf::rnd(0, 4), old = model.size() / width;
        v.expand(n);
        std::set<std::string> want;
        if (n)
        {
            std::vector<E> x(n * width);
            for (auto& y : x) y = static_cast<E>(vf::rnd(1, 100));
            v.write(IndexRange(old, old + n), x.data());
            model.insert(model.end(), x.begin(), x.end());
            want = {"~" + q, (old ? "~" : "+") + q + "#"};
        }
        vf::same_changes(was, vf::dump(g.id()), want, "adding items");
        vf::check(nr(v) == model.size() / width && v.nr_arrays() == model.size() / width && nr(SpaceDomain{g}.value<C>()) == model.size() / width, "number of items");
        vf::check(v.array_shape() == h5::Shape{width}, "coordinates of an item");
        vf::check(v.memory_datatype() == type && v.file_datatype() == h5::file_datatype(type), "type of the coordinates");
        if (!model.empty())
        {
            std::vector<E> x(model.size());
            v.read(IndexRange(0, model.size() / width), x.data());
            vf::check(x == model, "coordinates");
        }
    }
}

template<typename E> void all(h5::File& f, std::string const& name, std::size_t rank)
{
    using M = Mobility;
    using I = SpaceDomainItemType;
    auto with = [&](std::string const& n, auto fn) {
        vf::scenario(vf::cat(name, n, " of rank ", rank), [&] {
            std::string p = vf::cat(name, n, rank);
            h5::Group g{h5::create_group(f, p)};
            fn(g, "/" + p);
        });
    };
    with(" still points ", [&](h5::Group& g, std::string const& p) { history<StationarySpacePoint, E>(g, p, M::stationary, I::point, rank, [](auto const& v) { return v.nr_points(); }); });
    with(" still boxes ", [&](h5::Group& g, std::string const& p) { history<StationarySpaceBox, E>(g, p, M::stationary, I::box, rank, [](auto const& v) { return v.nr_boxes(); }); });
    with(" moving points ", [&](h5::Group& g, std::string const& p) { history<MobileSpacePoint, E>(g, p, M::mobile, I::point, rank, [](auto const& v) { return v.nr_points(); }); });
    with(" moving boxes ", [&](h5::Group& g, std::string const& p) { history<MobileSpaceBox, E>(g, p, M::mobile, I::box, rank, [](auto const& v) { return v.nr_boxes(); }); });
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    h5::File f{h5::create_file("p15.h5")};
    for (std::size_t r : {1, 2, 3, 40}) all<double>(f, "double", r);
    for (std::size_t r : {1, 3}) all<std::int32_t>(f, "int32", r);
    all<float>(f, "float", 2);
    all<std::uint8_t>(f, "uint8", 2);
    all<std::int64_t>(f, "int64", 2);
    h5::Group g{h5::create_group(f, "failures")};
    SpaceConfiguration c{Mobility::mobile, SpaceDomainItemType::box};
    h5::Datatype t{H5T_NATIVE_DOUBLE};
    vf::each_failure("create", [&] { create_space_domain(g, c, t, 2); }, "H5Lexists H5Aexists");
    auto d = create_space_domain(g, c, t, 2);
    vf::each_failure("open", [&] { SpaceDomain{g}; });
    vf::each_failure("items", [&] { d.value<MobileSpaceBox>(); });
    auto v = d.value<MobileSpaceBox>();
    vf::each_failure("expand", [&] { v.expand(3); });
    vf::sample("histories of creating, reopening, adding and reading items of every kind, for several types and ranks");
    return vf::done();
}
