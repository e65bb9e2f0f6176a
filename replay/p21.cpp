// Path names of arrays: all strings over a small alphabet up to a length, and random ones
#include "check.hpp"
#include "lue/data_model/hl/util.hpp"
#include <array>
#include <set>
#include <stdexcept>
#include <vector>

static std::vector<std::string> split(std::string const& s)
{
    std::vector<std::string> r{""};
    for (char c : s)
        if (c == '/') r.emplace_back(); else r.back() += c;
    return r;
}

static void test(std::string const& s)
{
    auto c = split(s);
    {
        std::array<std::string, 3> r;
        bool threw = vf::throws([&] { r = lue::parse_array_pathname3(s); });
        vf::check(threw == (c.size() != 3), "three names in '" + s + "'");
        if (!threw && c.size() == 3) vf::check(r[0] == c[0] && r[1] == c[1] && r[2] == c[2], "the three names in '" + s + "'");
    }
    std::array<std::string, 4> r;
    bool threw = vf::throws([&] { r = lue::parse_array_pathname(s); });
    vf::check(threw == (c.size() < 4), "dataset and names in '" + s + "'");
    if (threw || c.size() < 4) return;
    auto n = c.size();
    vf::check(r[1] == c[n - 3] && r[2] == c[n - 2] && r[3] == c[n - 1], "the names in '" + s + "'");
    if (n == 4 && c[0].empty()) return;  // no dataset
    std::string want, rest;
    for (std::size_t i = 0; i + 3 < n; ++i) rest += (i ? "/" : "") + c[i];
    for (char x : rest + (rest.empty() ? "/" : ""))
        if (x != '/' || want.empty() || want.back() != '/') want += x;
    vf::check(r[0] == want, "the dataset in '" + s + "': " + r[0] + " instead of " + want);
}

int main(int argc, char** argv)
{
    vf::init(argc, argv);
    char const alphabet[4] = {'/', 'a', '.', ' '};
    int const most = vf::thorough ? 9 : 7;
    for (int n = 0; n <= most; ++n)
        for (long k = 0; k < (1L << (2 * n)); ++k)
        {
            std::string s;
            for (int i = 0; i < n; ++i) s += alphabet[(k >> (2 * i)) & 3];
            test(s);
        }
    for (int k = 0; k < (vf::thorough ? 200000 : 20000); ++k)
    {
        std::string s;
        for (long n = vf::rnd(0, 40); n > 0; --n) s += vf::rnd(0, 2) ? static_cast<char>(vf::rnd(1, 255)) : '/';
        test(s);
    }
    for (auto s : {"a.lue/p/s/x", "/a/b/c.lue/p/s/x", "../a.lue/p/s/x", "./a/p/s/x", "//a/p/s/x", "a//b/p/s/x"}) test(s);
    vf::sample("strings of four characters up to length 7, and random ones");
    return vf::done();
}
