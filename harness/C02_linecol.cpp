//@ bound: newline indices of 1..5 lines with arbitrary 64-bit strictly increasing offsets, arbitrary 64-bit range inside the indexed text; source text of 0..6 bytes over {newline, a, CR, two-, three- and four-byte characters}
//@ outside: ranges whose end overflows 64 bits; the start of a range lying after the last newline
#include "ref.h"
#include <SourceMapUtils.h>
using namespace drafter;

static void checkPos(const NewLinesIndex& idx, const AnnotationPosition& a, size_t loc, size_t len)
{
    // first character of the range is in [idx[k], idx[k+1]): line k+1, 1-based column
    for (size_t k = 0; k + 1 < idx.size(); ++k) {
        int inFirst = (loc >= idx[k]) & (loc < idx[k + 1]);
        sym_assert(!inFirst | ((a.fromLine == k + 1) & (a.fromColumn == loc - idx[k] + 1)), "first character of the range");
        if (len) {
            size_t last = loc + len - 1;
            int inLast = (last >= idx[k]) & (last < idx[k + 1]);
            sym_assert(!inLast | ((a.toLine == k + 1) & (a.toColumn == last - idx[k] + 1)), "last character of the range");
        }
    }
}
HARNESS(map)
{
    size_t n = sym_range("n", 1, BOUND(6, 9));
    NewLinesIndex idx;
    idx.push_back(0);
    for (size_t i = 1; i < n; ++i) {
        size_t v = sym_u64("v");
        sym_assume(v > idx.back());
        idx.push_back(v);
    }
    mdp::Range r;
    r.location = sym_u64("loc");
    r.length = sym_u64("len");
    sym_assume(r.location + r.length >= r.location);
    auto a = GetLineFromMap(idx, r);
    sym_observe("fl", a.fromLine);
    sym_observe("fc", a.fromColumn);
    sym_observe("tl", a.toLine);
    sym_observe("tc", a.toColumn);
    if (r.location + r.length <= idx.back()) {
        checkPos(idx, a, r.location, r.length);
        if (r.length && r.location < idx.back()) {
            sym_reach("inside");
            sym_assert((a.fromLine < a.toLine) | ((a.fromLine == a.toLine) & (a.fromColumn <= a.toColumn)), "start not after end");
        }
    } else {
        sym_reach("past the last newline");
        sym_assert(a.toLine == n && a.toColumn == 1, "an end past the last newline is reported on the line after it");
        if (r.location < idx.back()) checkPos(idx, a, r.location, 0);
    }
}
// a lead octet and continuation octets
static void more(std::string& s, unsigned lo, unsigned hi, int n)
{
    unsigned c = sym_u8("lead");
    sym_assume((c >= lo) & (c <= hi));
    s += (char)c;
    while (n-- > 0) s += (char)(0x80 | (sym_u8("octet") & 0x3F));
}
HARNESS(text)
{
    std::string s;
    size_t n = sym_range("n", 0, BOUND(5, 7)), chars = 0;
    std::vector<size_t> want(1, 0);
    for (size_t i = 0; i < n; ++i) {
        switch (sym_range("c", 0, 4)) {
            case 0:
                s += '\n';
                want.push_back(chars + 1);
                break;
            case 1: {
                char c = (char)sym_u8("ascii");
                sym_assume((c != '\n') & ((unsigned char)c < 0x80));
                s += c;
                break;
            }
            case 2: more(s, 0xC2, 0xDF, 1); break;
            case 3: more(s, 0xE1, 0xEC, 2); break;
            default: more(s, 0xF1, 0xF3, 3);
        }
        ++chars;
    }
    auto idx = GetLinesEndIndex(s);
    sym_assert(idx.size() == want.size(), "one entry per line");
    for (size_t i = 0; i < idx.size() && i < want.size(); ++i) sym_assert(idx[i] == want[i], "entries count characters, not bytes");
    if (idx.size() > 2) sym_reach("three lines");
    sym_observe("lines", idx.size());
}
