//@ bound: two range sets of 0..3 and 0..5 ranges, every 64-bit location and length without overflow
#include "ref.h"
#include <ByteBuffer.h>
using namespace mdp;

static BytesRangeSet input(const char* name, size_t max)
{
    BytesRangeSet r;
    size_t n = sym_range(name, 0, max);
    for (size_t i = 0; i < n; ++i) {
        BytesRange x(sym_u64("loc"), sym_u64("len"));
        sym_assume(x.location + x.length >= x.location);
        r.push_back(x);
    }
    return r;
}
HARNESS(append)
{
    BytesRangeSet a = input("na", BOUND(3, 4)), b = input("nb", BOUND(5, 7));
    for (auto& x : a) sym_assume(x.length < (1ull << 62));
    for (auto& x : b) sym_assume(x.length < (1ull << 62));
    BytesRangeSet r = a;
    r.append(b);
    bool joins = !a.empty() && !b.empty() && a.back().location + a.back().length == b.front().location;
    sym_assert(r.size() == a.size() + b.size() - (joins ? 1 : 0), "only the touching pair is merged");
    for (size_t i = 0; i + (joins ? 1 : 0) < a.size(); ++i)
        sym_assert(r[i].location == a[i].location && r[i].length == a[i].length, "ranges before the seam are kept");
    if (joins) {
        sym_reach("joined");
        auto& m = r[a.size() - 1];
        sym_assert(m.location == a.back().location && m.length == a.back().length + b.front().length, "the joined range covers both");
        for (size_t i = 1; i < b.size(); ++i) sym_assert(r[a.size() + i - 1].location == b[i].location && r[a.size() + i - 1].length == b[i].length, "ranges after the seam are kept");
    } else {
        sym_reach("apart");
        for (size_t i = 0; i < b.size(); ++i) sym_assert(r[a.size() + i].location == b[i].location && r[a.size() + i].length == b[i].length, "appended ranges are kept");
    }
    sym_observe("n", r.size());
}
HARNESS(associative)
{
    BytesRangeSet a = input("na", 2), b = input("nb", 2), c = input("nc", 1);
    for (auto* s : { &a, &b, &c })
        for (auto& x : *s) sym_assume((x.length < (1ull << 60)) & (x.length > 0));
    BytesRangeSet l = a, bc = b, r = a;
    l.append(b);
    l.append(c);
    bc.append(c);
    r.append(bc);
    sym_assert(l.size() == r.size(), "appending in either grouping gives as many ranges");
    for (size_t i = 0; i < l.size() && i < r.size(); ++i)
        sym_assert(l[i].location == r[i].location && l[i].length == r[i].length, "appending in either grouping gives the same ranges");
    sym_reach("assoc");
}
