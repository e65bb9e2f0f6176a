#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <random>
#include <sstream>
#include <string>

namespace vf {
    inline long cases = 0;
    inline long fails = 0;
    inline std::mt19937_64 rng;
    inline bool thorough = false;

    inline void init(int argc, char** argv)
    {
        rng.seed(argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1);
        thorough = argc > 2 && std::string(argv[2]) == "thorough";
        std::setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    }

    inline long rnd(long lo, long hi)
    {
        return lo + static_cast<long>(rng() % static_cast<unsigned long>(hi - lo + 1));
    }

    template<typename... A>
    std::string cat(A const&... a)
    {
        std::ostringstream s;
        (s << ... << a);
        return s.str();
    }

    template<typename C>
    std::string list(C const& c)
    {
        std::ostringstream s;
        s << "(";
        for (auto const& x : c)
        {
            s << " " << +x;
        }
        s << " )";
        return s.str();
    }

    inline void at(std::string const& what)
    {
        std::printf("at %s\n", what.c_str());
    }

    inline bool check(bool ok, std::string const& what)
    {
        ++cases;
        if (!ok && ++fails <= 40)
        {
            std::printf("FAIL %s\n", what.c_str());
        }
        return ok;
    }

    inline void sample(std::string const& what)
    {
        std::printf("sample %s\n", what.c_str());
    }

    // Runs fn, true when it throws
    template<typename F>
    bool throws(F&& fn)
    {
        try
        {
            fn();
        }
        catch (...)
        {
            return true;
        }
        return false;
    }

    // Runs a scenario; an exception is a failure
    template<typename F>
    void scenario(std::string const& what, F&& fn)
    {
        at(what);
        try
        {
            fn();
        }
        catch (std::exception const& e)
        {
            check(false, what + ": unexpected exception: " + e.what());
        }
        catch (...)
        {
            check(false, what + ": unexpected exception");
        }
    }

    inline int done()
    {
        std::printf("cases %ld\n", cases);
        std::fflush(stdout);
        return 0;
    }
}
