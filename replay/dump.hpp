#pragma once
// The complete contents of an HDF5 file, read with the library itself
#include "check.hpp"
#include <hdf5.h>
#include <map>
#include <set>
#include <vector>

namespace vf {
    using Dump = std::map<std::string, std::string>;

    inline std::string type_text(hid_t t)
    {
        std::string r = cat(static_cast<int>(H5Tget_class(t)), ":", H5Tget_size(t));
        if (H5Tget_class(t) == H5T_INTEGER) r += H5Tget_sign(t) == H5T_SGN_2 ? "s" : "u";
        if (H5Tget_class(t) == H5T_INTEGER || H5Tget_class(t) == H5T_FLOAT) r += H5Tget_order(t) == H5T_ORDER_LE ? "" : "B";
        return r;
    }
    inline std::string space_text(hid_t s)
    {
        if (H5Sget_simple_extent_type(s) != H5S_SIMPLE) return "scalar";
        int n = H5Sget_simple_extent_ndims(s);
        std::vector<hsize_t> d(n + 1), m(n + 1);
        H5Sget_simple_extent_dims(s, d.data(), m.data());
        d.resize(n);
        m.resize(n);
        std::string r = list(d) + "/(";
        for (auto x : m) r += x == H5S_UNLIMITED ? " *" : " " + std::to_string(x);
        return r + " )";
    }
    inline std::string hex(std::vector<unsigned char> const& b)
    {
        std::string r;
        char t[3];
        for (auto c : b) { std::snprintf(t, 3, "%02x", c); r += t; }
        return r;
    }
    inline void dump_object(hid_t parent, std::string const& name, std::string const& path, Dump& out, std::map<unsigned long, std::string>& seen)
    {
        hid_t o = H5Oopen(parent, name.c_str(), H5P_DEFAULT);
        H5O_info_t info;
        H5Oget_info(o, &info);
        if (seen.count(info.addr)) { out[path] = "same as " + seen[info.addr]; H5Oclose(o); return; }
        seen[info.addr] = path;
        hsize_t n = info.num_attrs;
        for (hsize_t i = 0; i < n; ++i)
        {
            hid_t a = H5Aopen_by_idx(o, ".", H5_INDEX_NAME, H5_ITER_INC, i, H5P_DEFAULT, H5P_DEFAULT);
            char an[600];
            H5Aget_name(a, 600, an);
            hid_t t = H5Aget_type(a), s = H5Aget_space(a);
            std::vector<unsigned char> b(H5Aget_storage_size(a) + 8);
            H5Aread(a, t, b.data());
            out[path + "@" + an] = type_text(t) + " " + space_text(s) + " " + hex(b);
            H5Tclose(t);
            H5Sclose(s);
            H5Aclose(a);
        }
        if (info.type == H5O_TYPE_DATASET)
        {
            hid_t t = H5Dget_type(o), s = H5Dget_space(o), p = H5Dget_create_plist(o);
            H5D_fill_value_t f;
            H5Pfill_value_defined(p, &f);
            std::string d = "dataset " + type_text(t) + " " + space_text(s) + (f == H5D_FILL_VALUE_USER_DEFINED ? " filled" : "");
            if (f == H5D_FILL_VALUE_USER_DEFINED)
            {
                std::vector<unsigned char> v(H5Tget_size(t));
                H5Pget_fill_value(p, t, v.data());
                d += " " + hex(v);
            }
            out[path] = d;
            hssize_t m = H5Sget_simple_extent_npoints(s);
            if (m > 0 && m < 2000000)
            {
                std::vector<unsigned char> b(m * H5Tget_size(t));
                H5Dread(o, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data());
                out[path + "#"] = hex(b);
            }
            H5Tclose(t);
            H5Sclose(s);
            H5Pclose(p);
        }
        else
        {
            out[path] = "group";
            H5G_info_t gi;
            H5Gget_info(o, &gi);
            for (hsize_t i = 0; i < gi.nlinks; ++i)
            {
                char ln[600];
                H5Lget_name_by_idx(o, ".", H5_INDEX_NAME, H5_ITER_INC, i, ln, 600, H5P_DEFAULT);
                H5L_info_t li;
                H5Lget_info(o, ln, &li, H5P_DEFAULT);
                std::string sub = (path == "/" ? "" : path) + "/" + ln;
                if (li.type == H5L_TYPE_SOFT)
                {
                    std::vector<char> v(li.u.val_size + 1);
                    H5Lget_val(o, ln, v.data(), v.size(), H5P_DEFAULT);
                    out[sub] = cat("soft ", v.data());
                }
                else
                    dump_object(o, ln, sub, out, seen);
            }
        }
        H5Oclose(o);
    }
    inline Dump dump(hid_t object_in_file)
    {
        Dump out;
        std::map<unsigned long, std::string> seen;
        hid_t f = H5Iget_file_id(object_in_file);
        dump_object(f, "/", "/", out, seen);
        H5Fclose(f);
        return out;
    }
    inline Dump dump_file(std::string const& name)
    {
        hid_t f = H5Fopen(name.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
        if (f < 0) return {{"unreadable", name}};
        Dump d = dump(f);
        H5Fclose(f);
        return d;
    }
    // What was added (+), removed (-) or changed (~)
    inline std::set<std::string> differences(Dump const& a, Dump const& b)
    {
        std::set<std::string> r;
        for (auto& [k, v] : a)
            if (!b.count(k)) r.insert("-" + k);
            else if (b.at(k) != v) r.insert("~" + k);
        for (auto& [k, v] : b)
            if (!a.count(k)) r.insert("+" + k);
        return r;
    }
    inline bool same_changes(Dump const& a, Dump const& b, std::set<std::string> const& want, std::string const& what)
    {
        auto got = differences(a, b);
        if (got == want) return check(true, what);
        std::string t = what + ": changes";
        for (auto& x : got) if (!want.count(x)) t += " " + x + " (not expected)";
        for (auto& x : want) if (!got.count(x)) t += " " + x + " (missing)";
        return check(false, t.substr(0, 600));
    }
}
