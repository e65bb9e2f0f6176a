// Aspects and configurations against a table
#include "inject.hpp"
#include "dump.hpp"
#include "lue/core/configuration.hpp"
#include "lue/hdf5/file.hpp"
#include "lue/hdf5/group.hpp"

using namespace lue::data_model;
namespace h5 = lue::hdf5;
using Names = std::vector<std::string>;

template<typename E> void aspect(h5::Group& g, std::string const& path, std::string const& tag, Names const& names)
{
    auto& a = g.attributes();
    vf::check(Tag<E>::value() == tag, tag + ": name of the attribute");
    for (std::size_t i = 0; i < names.size(); ++i)
    {
        E v = static_cast<E>(i);
        vf::check(aspect_to_string<E>(v) == names[i], vf::cat(tag, ": text of value ", i));
        vf::check(string_to_aspect<E>(names[i]) == v, vf::cat(tag, ": value of text ", names[i]));
        bool there = a.exists(tag), same = there && a.read<std::string>(tag) == names[i];
        auto before = vf::dump(g.id());
        Aspect<E>{v}.save(a);
        vf::same_changes(before, vf::dump(g.id()), same ? std::set<std::string>{} : std::set<std::string>{(there ? "~" : "+") + path + "@" + tag}, tag + ": saving");
        vf::check(a.read<std::string>(tag) == names[i], tag + ": text stored");
        before = vf::dump(g.id());
        vf::check(Aspect<E>{a}.value() == v && Aspect<E>{a} == Aspect<E>{v}, tag + ": value loaded");
        vf::same_changes(before, vf::dump(g.id()), {}, tag + ": loading");
    }
    for (std::string t : {std::string("x"), std::string(" "), names[0] + " ", names[0].substr(1), std::string("Box"), std::string("unknown"), names[0] + names[0]})
    {
        a.write<std::string>(tag, t);
        vf::check(vf::throws([&] { Aspect<E>{a}; }), tag + ": '" + t + "' is refused");
        vf::check(vf::throws([&] { string_to_aspect<E>(t); }), tag + ": the text '" + t + "' is refused");
    }
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    h5::File f{h5::create_file("p12.h5")};
    h5::Group near{h5::create_group(f, "near")};
    for (int k = 0; k < (vf::thorough ? 6 : 2); ++k)
    {
        h5::Group g{h5::create_group(f, vf::cat("g", k))};
        std::string p = vf::cat("/g", k);
        for (h5::Group* x : {&near, &g})
        {
            std::string q = x == &g ? p : "/near";
            vf::scenario("aspects of " + q, [&] {
                aspect<ShapePerObject>(*x, q, "lue_shape_per_object", {"same_shape", "different_shape"});
                aspect<ValueVariability>(*x, q, "lue_value_variability", {"constant", "variable"});
                aspect<ShapeVariability>(*x, q, "lue_shape_variability", {"constant_shape", "variable_shape"});
                aspect<TimeDomainItemType>(*x, q, "lue_time_domain_item_type", {"point", "box", "cell"});
                aspect<Mobility>(*x, q, "lue_mobility", {"stationary", "mobile"});
                aspect<SpaceDomainItemType>(*x, q, "lue_space_domain_item_type", {"point", "box"});
                aspect<SpaceDiscretization>(*x, q, "lue_space_discretization", {"regular_grid"});
                aspect<TimeDiscretization>(*x, q, "lue_time_discretization", {"regular_grid"});
                aspect<time::Unit>(*x, q, "lue_time_unit", {"nanosecond", "microsecond", "millisecond", "second", "minute", "hour", "day", "week", "month", "year"});
                aspect<time::Calendar>(*x, q, "lue_epoch_calendar", {"gregorian"});
                aspect<time::Epoch::Kind>(*x, q, "lue_epoch_kind", {"common_era", "formation_of_earth"});
            });
        }
        vf::scenario("configurations", [&] {
            using PC = Configuration<ShapePerObject, ValueVariability, ShapeVariability>;
            using SC = Configuration<Mobility, SpaceDomainItemType>;
            auto& a = g.attributes();
            for (int i = 0; i < 8; ++i)
            {
                PC c{static_cast<ShapePerObject>(i & 1), static_cast<ValueVariability>(i >> 1 & 1), static_cast<ShapeVariability>(i >> 2)};
                c.save(a);
                PC d{a};
                vf::check(c == d && !(c != d) && d.value<ShapePerObject>() == c.value<ShapePerObject>() && d.value<ValueVariability>() == c.value<ValueVariability>() &&
                              d.value<ShapeVariability>() == c.value<ShapeVariability>() && static_cast<int>(d.value<ShapeVariability>()) == i >> 2 && static_cast<int>(d.value<ValueVariability>()) == (i >> 1 & 1),
                          "configuration of properties");
                SC s{static_cast<Mobility>(i & 1), static_cast<SpaceDomainItemType>(i >> 1 & 1)};
                s.save(a);
                SC t{a};
                vf::check(s == t && static_cast<int>(t.value<Mobility>()) == (i & 1) && static_cast<int>(t.value<SpaceDomainItemType>()) == (i >> 1 & 1), "configuration of space");
                vf::check(PC{a} == c, "configurations do not disturb each other");
                for (int j = 0; j < 8; ++j)
                {
                    PC e{static_cast<ShapePerObject>(j & 1), static_cast<ValueVariability>(j >> 1 & 1), static_cast<ShapeVariability>(j >> 2)};
                    vf::check((c == e) == (i == j) && (c != e) == (i != j), "comparing configurations");
                }
            }
        });
    }
    h5::Group g{h5::create_group(f, "failures")};
    Configuration<Mobility, SpaceDomainItemType> c{Mobility::mobile, SpaceDomainItemType::box};
    vf::check(vf::child([&] { Aspect<Mobility>{g.attributes()}; }) != 0, "what is not stored is refused");
    c.save(g.attributes());
    vf::each_failure("save", [&] { c.save(g.attributes()); }, "H5Aexists");
    vf::each_failure("load", [&] { Configuration<Mobility, SpaceDomainItemType> d{g.attributes()}; });
    vf::sample("every value of every aspect saved over every other, any other text, all configurations of three aspects; whole file compared");
    return vf::done();
}
