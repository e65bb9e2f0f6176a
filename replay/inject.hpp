#pragma once
// Failure injection: the k-th call of a wrapped library function made while armed reports failure
#include "check.hpp"
#include <csignal>
#include <hdf5.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vf {
    inline long inject_at = 0;  // 0: not armed
    inline long inject_count = 0;
    inline char const* inject_hit = nullptr;
    inline std::string inject_skip;  // names of calls, each between blanks, that are not made to fail

    inline bool hit(char const* name)
    {
        if (inject_at == 0 || (!inject_skip.empty() && inject_skip.find(std::string(" ") + name + " ") != std::string::npos)) return false;
        if (++inject_count != inject_at) return false;
        inject_hit = name;
        return true;
    }

    // Runs fn in a child process: 0 done, 7 exception, others: the process ended otherwise
    inline int child(std::function<void()> const& fn, std::string* name = nullptr)
    {
        std::cout.flush();
        std::fflush(stdout);
        int p[2];
        if (pipe(p) != 0) return 1001;
        pid_t pid = fork();
        if (pid == 0)
        {
            close(p[0]);
            (void)!std::freopen("/dev/null", "w", stderr);
            std::signal(SIGABRT, SIG_DFL);
            alarm(60);
            int r = 0;
            auto tell = [&] { if (inject_hit) { (void)!write(p[1], inject_hit, std::string(inject_hit).size()); } };
            try { fn(); inject_at = 0; } catch (...) { inject_at = 0; r = 7; }
            tell();
            _exit(r);
        }
        close(p[1]);
        char b[200];
        ssize_t n;
        std::string s;
        while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, n);
        close(p[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (name) *name = s;
        return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    }

    inline bool refused(std::function<void()> const& fn)
    {
        return child(fn) != 0;
    }

    // Every single failing call while fn runs has to end in an exception (or the process ending).
    // fn runs in a child process each time: setup is kept by the parent.
    inline void each_failure(std::string const& what, std::function<void()> const& fn, std::string const& skip = "", long max = 400)
    {
        inject_skip = skip.empty() ? "" : " " + skip + " ";
        at(what);
        for (long k = 1; k <= max; ++k)
        {
            std::string name;
            int r = child([&] { inject_count = 0; inject_hit = nullptr; inject_at = k; fn(); }, &name);
            if (name.empty() && r == 0) break;  // no k-th call
            if (name.empty() && r == 7) { check(false, what + ": throws while no call fails"); break; }
            if (name.empty()) continue;  // ended by a signal
            check(r != 0, cat(what, ": failure of ", name, " (call ", k, ") is not reported"));
        }
        inject_skip.clear();
    }
}

#define VF_WRAP(R, N, P, A) extern "C" R __real_##N P; extern "C" R __wrap_##N P { if (vf::hit(#N)) return -1; return __real_##N A; }
VF_WRAP(hid_t, H5Acreate2, (hid_t a, const char* b, hid_t c, hid_t d, hid_t e, hid_t f), (a, b, c, d, e, f))
VF_WRAP(htri_t, H5Aexists, (hid_t a, const char* b), (a, b))
VF_WRAP(hid_t, H5Aopen, (hid_t a, const char* b, hid_t c), (a, b, c))
VF_WRAP(herr_t, H5Aread, (hid_t a, hid_t b, void* c), (a, b, c))
VF_WRAP(herr_t, H5Awrite, (hid_t a, hid_t b, const void* c), (a, b, c))
VF_WRAP(hid_t, H5Aget_type, (hid_t a), (a))
VF_WRAP(hid_t, H5Aget_space, (hid_t a), (a))
VF_WRAP(herr_t, H5Adelete, (hid_t a, const char* b), (a, b))
VF_WRAP(hid_t, H5Dcreate2, (hid_t a, const char* b, hid_t c, hid_t d, hid_t e, hid_t f, hid_t g), (a, b, c, d, e, f, g))
VF_WRAP(hid_t, H5Dopen2, (hid_t a, const char* b, hid_t c), (a, b, c))
VF_WRAP(hid_t, H5Dget_space, (hid_t a), (a))
VF_WRAP(hid_t, H5Dget_type, (hid_t a), (a))
VF_WRAP(hid_t, H5Dget_create_plist, (hid_t a), (a))
VF_WRAP(herr_t, H5Dread, (hid_t a, hid_t b, hid_t c, hid_t d, hid_t e, void* f), (a, b, c, d, e, f))
VF_WRAP(herr_t, H5Dwrite, (hid_t a, hid_t b, hid_t c, hid_t d, hid_t e, const void* f), (a, b, c, d, e, f))
VF_WRAP(herr_t, H5Dset_extent, (hid_t a, const hsize_t* b), (a, b))
VF_WRAP(hid_t, H5Fcreate, (const char* a, unsigned b, hid_t c, hid_t d), (a, b, c, d))
VF_WRAP(hid_t, H5Fopen, (const char* a, unsigned b, hid_t c), (a, b, c))
VF_WRAP(herr_t, H5Fflush, (hid_t a, H5F_scope_t b), (a, b))
VF_WRAP(herr_t, H5Fget_intent, (hid_t a, unsigned* b), (a, b))
VF_WRAP(ssize_t, H5Fget_name, (hid_t a, char* b, size_t c), (a, b, c))
VF_WRAP(ssize_t, H5Fget_obj_count, (hid_t a, unsigned b), (a, b))
VF_WRAP(hid_t, H5Gcreate2, (hid_t a, const char* b, hid_t c, hid_t d, hid_t e), (a, b, c, d, e))
VF_WRAP(hid_t, H5Gopen2, (hid_t a, const char* b, hid_t c), (a, b, c))
VF_WRAP(ssize_t, H5Iget_name, (hid_t a, char* b, size_t c), (a, b, c))
VF_WRAP(hid_t, H5Iget_file_id, (hid_t a), (a))
VF_WRAP(herr_t, H5Lcreate_soft, (const char* a, hid_t b, const char* c, hid_t d, hid_t e), (a, b, c, d, e))
VF_WRAP(herr_t, H5Lcreate_hard, (hid_t a, const char* b, hid_t c, const char* d, hid_t e, hid_t f), (a, b, c, d, e, f))
VF_WRAP(htri_t, H5Lexists, (hid_t a, const char* b, hid_t c), (a, b, c))
VF_WRAP(herr_t, H5Lget_info, (hid_t a, const char* b, H5L_info_t* c, hid_t d), (a, b, c, d))
VF_WRAP(herr_t, H5Lget_val, (hid_t a, const char* b, void* c, size_t d, hid_t e), (a, b, c, d, e))
VF_WRAP(herr_t, H5Literate, (hid_t a, H5_index_t b, H5_iter_order_t c, hsize_t* d, H5L_iterate_t e, void* f), (a, b, c, d, e, f))
VF_WRAP(herr_t, H5Oget_info_by_name, (hid_t a, const char* b, H5O_info_t* c, hid_t d), (a, b, c, d))
VF_WRAP(herr_t, H5Oget_info, (hid_t a, H5O_info_t* b), (a, b))
VF_WRAP(hid_t, H5Oopen, (hid_t a, const char* b, hid_t c), (a, b, c))
VF_WRAP(hid_t, H5Pcreate, (hid_t a), (a))
VF_WRAP(herr_t, H5Pset_chunk, (hid_t a, int b, const hsize_t* c), (a, b, c))
VF_WRAP(herr_t, H5Pset_fill_time, (hid_t a, H5D_fill_time_t b), (a, b))
VF_WRAP(herr_t, H5Pset_fill_value, (hid_t a, hid_t b, const void* c), (a, b, c))
VF_WRAP(herr_t, H5Pset_fapl_core, (hid_t a, size_t b, hbool_t c), (a, b, c))
VF_WRAP(herr_t, H5Sselect_hyperslab, (hid_t a, H5S_seloper_t b, const hsize_t* c, const hsize_t* d, const hsize_t* e, const hsize_t* f), (a, b, c, d, e, f))
VF_WRAP(hid_t, H5Screate_simple, (int a, const hsize_t* b, const hsize_t* c), (a, b, c))
VF_WRAP(int, H5Sget_simple_extent_dims, (hid_t a, hsize_t* b, hsize_t* c), (a, b, c))
VF_WRAP(int, H5Sget_simple_extent_ndims, (hid_t a), (a))
VF_WRAP(hssize_t, H5Sget_simple_extent_npoints, (hid_t a), (a))
VF_WRAP(hid_t, H5Tcopy, (hid_t a), (a))
VF_WRAP(herr_t, H5Tset_size, (hid_t a, size_t b), (a, b))
VF_WRAP(herr_t, H5Tset_cset, (hid_t a, H5T_cset_t b), (a, b))
VF_WRAP(hid_t, H5Tdecode, (const void* a), (a))
VF_WRAP(herr_t, H5Tencode, (hid_t a, void* b, size_t* c), (a, b, c))
