//@ all: time=60
//@ bound: every string value and key of up to 3 octets; trees of every kind up to depth 2 with up to 2 entries and objects and arrays of up to 4 entries
//@ assume: numbers hold the text of a JSON number
#include "sov.h"
#include <utils/so/JsonIo.h>
#include <sstream>
using namespace sov;

static void check(const V& v)
{
    auto x = build(v);
    std::ostringstream a, b;
    so::serialize_json(a, x);
    so::serialize_json(b, x, so::packed{});
    std::string pretty = a.str(), packed = b.str();
    Json p(pretty), q(packed);
    V back = p.value(0), pback = q.value(0);
    sym_assert(p.ok && p.end(), "the output is one JSON text");
    sym_assert(q.ok && q.end(), "the packed output is one JSON text");
    sym_assert(same(back, v), "reading the output gives the value back: every entry once, in order");
    sym_assert(same(pback, v), "reading the packed output gives the value back");
    sym_assert(p.layout, "each entry is on a line of its own, indented by its depth");
    sym_assert(::ref::eq(p.bare, packed), "the packed output is the same text without white space");
    for (unsigned char c : packed) sym_assert(c >= 0x20, "no control octet is written");
    sym_observe("size", pretty.size());
    sym_reach(v.kids.size() ? "structure" : "scalar");
}
HARNESS(strings) { check(V(String, sym_str("text", 0, BOUND(3, 4)))); }
HARNESS(keys)
{
    V o(Object);
    o.kids.emplace_back(sym_str("key", 0, BOUND(3, 4)), V(Null));
    if (sym_bool("two")) o.kids.emplace_back("b", V(String, "x"));
    check(o);
}
HARNESS(trees) { check(tree(BOUND(2, 3), 2, BOUND(0, 0))); }
HARNESS(wide)
{
    V v(sym_bool("object") ? Object : Array);
    for (size_t i = sym_range("n", 0, BOUND(4, 6)); i > 0; --i) v.kids.emplace_back(v.k == Object ? std::string(1, 'a' + i) : "", i == 1 ? tree(1, 2, 0) : i == 2 ? V(Object) : V(String, "s"));
    if (sym_bool("inner")) {
        V w(Array);
        w.kids.emplace_back("", v);
        v = w;
    }
    check(v);
}
