//@ all: time=60
//@ bound: every well-formed UTF-8 string value of up to 2 characters and every octet string of up to 3; keys of up to 2 octets and every key of up to 5 letters; trees of every kind up to depth 2 with up to 2 entries
//@ assume: numbers hold the text of a JSON number; in strings that are no UTF-8 each ill-formed part may read as U+FFFD
#include "sov.h"
#include <utils/so/YamlIo.h>
#include <sstream>
using namespace sov;

static std::string text(const V& v)
{
    auto x = build(v);
    std::ostringstream o;
    so::serialize_yaml(o, x);
    return o.str();
}
static void check(const V& v)
{
    std::string t = text(v);
    Yaml y(t);
    V back = y.document();
    sym_assert(y.ok, "the output is one YAML document in block style");
    sym_assert(same(back, v), "reading the output gives the value back: every entry once, in order");
    for (unsigned char c : t) sym_assert(c >= 0x20 || c == '\n', "no control octet but the line feed is written");
    sym_observe("size", t.size());
    sym_reach(v.kids.size() ? "structure" : "scalar");
}
HARNESS(characters) // every character on its own
{
    uint32_t c = sym_u32("c");
    sym_assume(c < 0x110000 && (c < 0xD800 || c > 0xDFFF));
    std::string s;
    utf8(c, s);
    if (sym_bool("more")) s += sym_bool("before") ? std::string("\xC2\xA0") : std::string("0");
    check(V(String, s));
}
HARNESS(ascii)
{
    std::string s = sym_str("text", 0, BOUND(3, 4));
    for (unsigned char c : s) sym_assume(c < 0x80);
    check(V(String, s));
}
// length of the well-formed sequence at i (RFC 3629), 0 if there is none
static size_t wellFormed(const std::string& s, size_t i)
{
    auto at = [&](size_t k) { return k < s.size() ? (unsigned char)s[k] : 0; };
    auto tail = [&](size_t k) { return (at(k) & 0xC0) == 0x80; };
    unsigned a = at(i), b = at(i + 1);
    if (a < 0x80) return 1;
    if (a >= 0xC2 && a <= 0xDF) return tail(i + 1) ? 2 : 0;
    if (a >= 0xE0 && a <= 0xEF) return tail(i + 1) && tail(i + 2) && (a != 0xE0 || b >= 0xA0) && (a != 0xED || b < 0xA0) ? 3 : 0;
    if (a >= 0xF0 && a <= 0xF4) return tail(i + 1) && tail(i + 2) && tail(i + 3) && (a != 0xF0 || b >= 0x90) && (a != 0xF4 || b < 0x90) ? 4 : 0;
    return 0;
}
HARNESS(octets) // whatever they are, the output stays a document; ill-formed parts read as the replacement character
{
    std::string s = sym_str("text", 1, BOUND(2, 3));
    bool bad = false;
    for (unsigned char c : s) bad = bad || c >= 0x80;
    if (!bad) return;
    std::string t = text(V(String, s));
    Yaml y(t);
    V back = y.document();
    sym_assert(y.ok && back.k == String, "the output is one YAML document holding a string");
    for (auto& p : { t, back.s }) {
        size_t i = 0;
        while (i < p.size()) {
            size_t n = wellFormed(p, i);
            sym_assert(n != 0, "what is written is well-formed UTF-8");
            if (!n) break;
            i += n;
        }
    }
    sym_reach("octets");
}
HARNESS(keys)
{
    V o(Object);
    o.kids.emplace_back(sym_str("key", 0, BOUND(2, 3)), V(True));
    for (unsigned char c : o.kids[0].first) sym_assume(c < 0x80);
    if (sym_bool("two")) o.kids.emplace_back("b", V(String, "x"));
    check(o);
}
HARNESS(words)
{
    V o(Object);
    std::string k = sym_str("key", 4, 5);
    for (char c : k) sym_assume((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'));
    o.kids.emplace_back(k, V(Null));
    check(o);
}
HARNESS(trees) { check(tree(BOUND(2, 3), 2, 0)); }
HARNESS(wide)
{
    V v(sym_bool("object") ? Object : Array);
    for (size_t i = sym_range("n", 0, BOUND(4, 6)); i > 0; --i) v.kids.emplace_back(v.k == Object ? std::string(1, 'a' + i) : "", i == 1 ? tree(1, 2, 0) : i == 2 ? V(Object) : V(String, "s"));
    if (sym_bool("inner")) {
        V w(sym_bool("outer") ? Object : Array);
        w.kids.emplace_back(w.k == Object ? "k" : "", v);
        v = w;
    }
    check(v);
}
