// Histories of adding properties of all kinds, against a model
#include "inject.hpp"
#include "dump.hpp"
#include "lue/hdf5/file.hpp"
#include "lue/object/property/properties.hpp"

using namespace lue::data_model;
namespace h5 = lue::hdf5;
namespace ss = same_shape;
namespace ds = different_shape;

struct Model { int kind; bool shaped; h5::Datatype type; h5::Shape shape; Rank rank; std::string description; };
static char const* const KIND[6] = {"lue_same_shape", "lue_same_shape_constant_shape", "lue_same_shape_variable_shape",
                                    "lue_different_shape", "lue_different_shape_constant_shape", "lue_different_shape_variable_shape"};

template<typename P> void describe(P& p, std::string const& n, Model const& m, std::string const& what)
{
    vf::check(p.name() == n && p.description() == m.description, what + ": name and description");
    if constexpr (requires { p.value().array_shape(); })
        vf::check(p.value().array_shape() == m.shape, what + ": shape");
    else
        vf::check(p.value().rank() == m.rank, what + ": rank");
    vf::check(p.value().file_datatype() == h5::file_datatype(m.type) && p.value().memory_datatype() == h5::memory_datatype(p.value().file_datatype()), what + ": element type");
}

template<typename C, typename F> void of_kind(Properties& ps, int kind, std::map<std::string, Model> const& model, std::string const& what, F open)
{
    std::set<std::string> want, got;
    for (auto& [n, m] : model) if (m.kind == kind) want.insert(n);
    auto names = ps.names<C>();
    got.insert(names.begin(), names.end());
    vf::check(got == want && names.size() == want.size(), vf::cat(what, ": names of kind ", kind));
    for (auto& n : want)
    {
        describe(ps.collection<C>()[n], n, model.at(n), vf::cat(what, ": ", n, " of kind ", kind));
        open(n, model.at(n));
    }
}

static void look(Properties& ps, std::map<std::string, Model> const& model, std::string const& what)
{
    vf::check(ps.size() == model.size() && ps.empty() == model.empty(), what + ": size");
    auto open = [&]<typename P>(int kind, P*) {
        return [&ps, kind, what](std::string const& n, Model const& m) {
            P p{ps.collection_group(n), n};
            describe(p, n, m, vf::cat(what, ": ", n, " of kind ", kind, " opened"));
        };
    };
    of_kind<ss::Properties>(ps, 0, model, what, open(0, (ss::Property*)nullptr));
    of_kind<ss::constant_shape::Properties>(ps, 1, model, what, open(1, (ss::constant_shape::Property*)nullptr));
    of_kind<ss::variable_shape::Properties>(ps, 2, model, what, open(2, (ss::variable_shape::Property*)nullptr));
    of_kind<ds::Properties>(ps, 3, model, what, open(3, (ds::Property*)nullptr));
    of_kind<ds::constant_shape::Properties>(ps, 4, model, what, open(4, (ds::constant_shape::Property*)nullptr));
    of_kind<ds::variable_shape::Properties>(ps, 5, model, what, open(5, (ds::variable_shape::Property*)nullptr));
    for (auto& [n, m] : model)
    {
        int k = m.kind;
        vf::check(ps.contains(n), what + ": contains " + n);
        vf::check(ps.shape_per_object(n) == (k < 3 ? ShapePerObject::same : ShapePerObject::different), what + ": shape per object of " + n);
        vf::check(ps.value_variability(n) == (k % 3 ? ValueVariability::variable : ValueVariability::constant), what + ": value variability of " + n);
        if (k % 3)
            vf::check(ps.shape_variability(n) == (k % 3 == 2 ? ShapeVariability::variable : ShapeVariability::constant), what + ": shape variability of " + n);
        else
            vf::check(vf::throws([&] { ps.shape_variability(n); }), what + ": no shape variability of " + n);
        auto g = ps.collection_group(n).id().pathname();
        vf::check(g.ends_with(std::string("/") + KIND[k]), what + ": group of " + n);
    }
    for (std::string n : {"absent", "lue_value", ""})
        if (!model.count(n))
        {
            if (!n.empty()) vf::check(!ps.contains(n), what + ": does not contain " + n);
            vf::check(vf::throws([&] { ps.shape_per_object(n); }) && vf::throws([&] { ps.value_variability(n); }) && vf::throws([&] { ps.shape_variability(n); }) && vf::throws([&] { ps.collection_group(n); }),
                      what + ": no classification of '" + n + "'");
        }
}

static h5::Datatype const TYPES[10] = {h5::native_uint8, h5::native_uint16, h5::native_uint32, h5::native_uint64, h5::native_int8, h5::native_int16, h5::native_int32, h5::native_int64, h5::native_float32, h5::native_float64};

// Adds a property in one of the ten ways
static void add(Properties& ps, int way, std::string const& n, Model const& m)
{
    auto& d = m.description;
    switch (way)
    {
        case 0: describe(ps.add(n, m.type, d), n, m, "new"); break;
        case 1: describe(ps.add(n, m.type, m.shape, d), n, m, "new"); break;
        case 2: describe(ps.add<ss::Property>(n, m.type, d), n, m, "new"); break;
        case 3: describe(ps.add<ss::Property>(n, m.type, m.shape, d), n, m, "new"); break;
        case 4: describe(ps.add<ss::constant_shape::Property>(n, m.type, d), n, m, "new"); break;
        case 5: describe(ps.add<ss::constant_shape::Property>(n, m.type, m.shape, d), n, m, "new"); break;
        case 6: describe(ps.add<ss::variable_shape::Property>(n, m.type, m.rank, d), n, m, "new"); break;
        case 7: describe(ps.add(n, m.type, m.rank, d), n, m, "new"); break;
        case 8: describe(ps.add<ds::constant_shape::Property>(n, m.type, m.rank, d), n, m, "new"); break;
        default: describe(ps.add<ds::variable_shape::Property>(n, m.type, m.rank, d), n, m, "new");
    }
}

static int const KIND_OF[10] = {0, 0, 0, 0, 1, 1, 2, 3, 4, 5};

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    h5::File f{h5::create_file("p17.h5")};
    std::vector<std::string> const NAMES{"a", "b", "lue_value", "0", "a b", "é", "lue_same_shape", "A", "aa", "x.y", "long_long_long_long_long_long_long_name", "p"};
    for (int round = 0; round < (vf::thorough ? 60 : 12); ++round)
    {
        vf::scenario(vf::cat("history ", round), [&] {
            std::string top = vf::cat("g", round), at = "/" + top + "/lue_properties/";
            h5::Group g{h5::create_group(f, top)};
            Properties ps = create_properties(g);
            vf::check(vf::throws([&] { create_properties(g); }), "a second collection");
            std::map<std::string, Model> model;
            look(ps, model, "no properties");
            for (int k = 0; k < 14; ++k)
            {
                int way = k < 10 ? (k + round) % 10 : static_cast<int>(vf::rnd(0, 9));
                std::string n = NAMES[vf::rnd(0, NAMES.size() - 1)];
                std::string what = vf::cat("adding ", n, " in way ", way, ", after ", k);
                Model m{KIND_OF[way], way == 1 || way == 3 || way == 5, TYPES[vf::rnd(0, 9)], {}, static_cast<Rank>(vf::rnd(1, 4)), vf::rnd(0, 1) ? "" : "what it is"};
                if (m.shaped) for (long i = vf::rnd(1, 3); i > 0; --i) m.shape.push_back(vf::rnd(1, 5));
                auto before = vf::dump(g.id());
                if (model.count(n))
                {
                    vf::check(vf::throws([&] { add(ps, way, n, m); }), what + ": a taken name");
                    vf::same_changes(before, vf::dump(g.id()), {}, what + ": a taken name");
                }
                else
                {
                    add(ps, way, n, m);
                    std::string p = at + KIND[m.kind] + "/" + n;
                    bool found = false;
                    for (auto& d : vf::differences(before, vf::dump(g.id())))
                    {
                        found = found || d == "+" + p;
                        vf::check(d.compare(0, p.size() + 1, "+" + p) == 0, what + ": changes " + d);
                    }
                    vf::check(found, what + ": stored");
                    model.emplace(n, m);
                }
                look(ps, model, what);
                Properties again{g};
                look(again, model, what + ", found again");
                if (k % 5 == 4) ps = Properties{g};
            }
        });
    }
    h5::Group g{h5::create_group(f, "failures")};
    Properties ps = create_properties(g);
    for (int way = 0; way < 10; ++way)
    {
        Model m{KIND_OF[way], way == 1 || way == 3 || way == 5, TYPES[way], {}, 2, "d"};
        if (m.shaped) m.shape = {2, 3};
        vf::each_failure(vf::cat("add in way ", way), [&] { add(ps, way, vf::cat("n", way), m); }, "H5Lexists H5Aexists");
    }
    vf::sample("histories of adding properties in ten ways under twelve names, duplicates included");
    return vf::done();
}
