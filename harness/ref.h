// Shared helpers for the harnesses: small reference functions, written branch-free where the inputs are symbolic.
#pragma once
#include "sym.h"
#include <string>
#include <vector>
namespace ref
{
    inline unsigned char lower(unsigned char c) { return c + (((unsigned)(c - 'A') <= 25u) ? 32 : 0); }
    inline bool eqi(const std::string& a, const char* lit)
    {
        size_t n = 0;
        while (lit[n]) ++n;
        if (a.size() != n) return false;
        int ok = 1;
        for (size_t i = 0; i < n; ++i) ok &= (lower(a[i]) == (unsigned char)lit[i]);
        return ok;
    }
    // equality without forking per character
    inline bool eq(const std::string& a, const std::string& b)
    {
        if (a.size() != b.size()) return false;
        int ok = 1;
        for (size_t i = 0; i < a.size(); ++i) ok &= (a[i] == b[i]);
        return ok;
    }
    inline bool contains(const std::string& s, char c)
    {
        int r = 0;
        for (size_t i = 0; i < s.size(); ++i) r |= (s[i] == c);
        return r;
    }
}
