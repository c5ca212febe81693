//@ bound: text of 0..4 characters of 1..4 bytes each (every code point), every pair of character boundaries; arbitrary byte buffers of 0..4 bytes with arbitrary 64-bit ranges (memory safety); range sets of up to 2 ranges
//@ outside: text with embedded NUL octets; ranges that cut a character in half (memory safety only)
#include "ref.h"
#include <ByteBuffer.h>
using namespace mdp;

// valid UTF-8 text; starts[i] = byte offset of character i, plus the end
static std::string text(std::vector<size_t>& starts, size_t maxChars)
{
    std::string s;
    size_t n = sym_range("chars", 0, maxChars);
    for (size_t i = 0; i < n; ++i) {
        starts.push_back(s.size());
        size_t k = sym_range("k", 1, 4);
        std::string c = sym_str_n("c", k);
        unsigned char a = c[0];
        if (k == 1) sym_assume((a < 0x80) & (a != 0));
        else {
            unsigned char b = c[1];
            if (k == 2) sym_assume((a >= 0xC2) & (a <= 0xDF));
            else if (k == 3) sym_assume((a >= 0xE0) & (a <= 0xEF) & ((a != 0xE0) | (b >= 0xA0)) & ((a != 0xED) | (b <= 0x9F)));
            else sym_assume((a >= 0xF0) & (a <= 0xF4) & ((a != 0xF0) | (b >= 0x90)) & ((a != 0xF4) | (b <= 0x8F)));
            for (size_t j = 1; j < k; ++j) sym_assume((c[j] & 0xC0) == 0x80);
        }
        s += c;
    }
    starts.push_back(s.size());
    return s;
}
HARNESS(aligned)
{
    std::vector<size_t> st;
    std::string s = text(st, BOUND(3, 5));
    size_t n = st.size() - 1;
    ByteBufferCharacterIndex idx;
    BuildCharacterIndex(idx, s);
    sym_assert(idx.size() == s.size(), "one index entry per byte");
    for (size_t c = 0; c < n; ++c)
        for (size_t b = st[c]; b < st[c + 1]; ++b) sym_assert(idx[b] == c, "each byte maps to the character it belongs to");
    size_t from = sym_range("from", 0, n), to = sym_range("to", 0, n);
    sym_assume(from <= to);
    BytesRangeSet rs;
    rs.push_back(BytesRange(st[from], st[to] - st[from]));
    auto a = BytesRangeSetToCharactersRangeSet(rs, s);
    auto b = BytesRangeSetToCharactersRangeSet(rs, idx);
    sym_assert(a.size() == 1 && b.size() == 1, "one range in, one range out");
    if (!s.empty()) {
        sym_assert(a[0].location == from && a[0].length == to - from, "location and length count characters (from text)");
        sym_assert(b[0].location == from && b[0].length == to - from, "location and length count characters (from index)");
    } else {
        sym_assert(a[0].location == 0 && a[0].length == 0 && b[0].location == 0 && b[0].length == 0, "empty text");
        sym_reach("empty text");
    }
    if (to > from + 1 && s.size() > n) sym_reach("multibyte range");
    // a range that overhangs the end is cut at the end
    size_t over = sym_u64("over");
    sym_assume(over <= ~(size_t)0 - s.size());
    BytesRangeSet rs2;
    rs2.push_back(BytesRange(st[from], s.size() - st[from] + over));
    auto a2 = BytesRangeSetToCharactersRangeSet(rs2, s);
    auto b2 = BytesRangeSetToCharactersRangeSet(rs2, idx);
    if (!s.empty()) {
        sym_assert(a2[0].location == from && a2[0].length == n - from, "overhanging range is cut at the end of the text (from text)");
        sym_assert(b2[0].location == from && b2[0].length == n - from, "overhanging range is cut at the end of the text (from index)");
    }
    sym_observe("n", n);
}
HARNESS(sets)
{
    std::vector<size_t> st;
    std::string s = text(st, 3);
    size_t n = st.size() - 1;
    ByteBufferCharacterIndex idx;
    BuildCharacterIndex(idx, s);
    size_t p[4];
    for (size_t i = 0; i < 4; ++i) {
        p[i] = sym_range("p", 0, n);
        sym_assume(i == 0 || p[i] >= p[i - 1]);
    }
    BytesRangeSet rs;
    rs.push_back(BytesRange(st[p[0]], st[p[1]] - st[p[0]]));
    rs.push_back(BytesRange(st[p[2]], st[p[3]] - st[p[2]]));
    auto a = BytesRangeSetToCharactersRangeSet(rs, s);
    auto b = BytesRangeSetToCharactersRangeSet(rs, idx);
    sym_assert(a.size() == 2 && b.size() == 2, "ranges stay separate and ordered");
    if (!s.empty())
        for (int i = 0; i < 2; ++i) {
            sym_assert(a[i].location == p[2 * i] && a[i].length == p[2 * i + 1] - p[2 * i], "each range converted (from text)");
            sym_assert(b[i].location == p[2 * i] && b[i].length == p[2 * i + 1] - p[2 * i], "each range converted (from index)");
        }
    auto c = BytesRangeSetToConsecutiveCharactersRangeSet(rs, idx);
    sym_assert(c.size() == 1, "one covering range");
    if (!s.empty()) sym_assert(c[0].location == p[0] && c[0].length == p[3] - p[0], "the consecutive range covers the first through the last range, in characters");
    sym_assert(BytesRangeSetToConsecutiveCharactersRangeSet(BytesRangeSet(), idx).empty(), "nothing from nothing");
    // the mapped bytes are the concatenation of the ranges
    ByteBuffer m = MapBytesRangeSet(rs, s);
    sym_assert(ref::eq(m, s.substr(st[p[0]], st[p[1]] - st[p[0]]) + s.substr(st[p[2]], st[p[3]] - st[p[2]])), "mapped bytes");
    sym_reach("sets");
    sym_observe("m", m);
}
HARNESS(arbitrary)
{
    std::string s = sym_str("s", 0, BOUND(4, 5));
    ByteBufferCharacterIndex idx;
    BuildCharacterIndex(idx, s);
    sym_assert(idx.size() == s.size(), "one index entry per byte");
    for (size_t i = 0; i < idx.size(); ++i) sym_assert(idx[i] <= i, "a character index never exceeds the byte index");
    BytesRange r(sym_u64("loc"), sym_u64("len"));
    BytesRangeSet rs;
    rs.push_back(r);
    auto a = BytesRangeSetToCharactersRangeSet(rs, s);
    auto b = BytesRangeSetToCharactersRangeSet(rs, idx);
    if (ref::contains(s, 0)) return;
    sym_assert(a[0].location <= s.size() && a[0].length <= s.size(), "result stays inside the text");
    sym_assert(b[0].location <= s.size() && b[0].length <= s.size(), "result stays inside the text (index)");
    sym_reach("arbitrary");
}
HARNESS(mapped)
{
    std::string s = sym_str("s", 0, BOUND(4, 6));
    BytesRange r(sym_u64("loc"), sym_u64("len"));
    sym_assume(r.location + r.length >= r.location);
    BytesRangeSet rs;
    rs.push_back(r);
    ByteBuffer m = MapBytesRangeSet(rs, s);
    sym_observe("m", m);
    size_t end = r.location + r.length;
    if (end <= s.size()) {
        sym_reach("inside");
        sym_assert(ref::eq(m, s.substr(r.location, r.length)), "the bytes of the range");
    } else if (end == s.size() + 1 && r.location <= s.size()) {
        sym_reach("one past");
        sym_assert(ref::eq(m, s.substr(r.location)), "a range over the newline Sundown adds yields the rest of the text");
    } else {
        sym_reach("wrong map");
        sym_assert(m.empty(), "a wrong map yields nothing");
    }
}
