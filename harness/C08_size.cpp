//@ bound: trees of every kind up to depth 2 with up to 2 children per container, every combination of the fixed, fixed-type and nullable type attributes, values, samples and defaults, both values of the inherited-fixed flag
#include "elem.h"
#include <refract/ElementSize.h>
using namespace model;
typedef unsigned long long u64;
static const u64 OPEN = 0xFFFFFFFFull;

static u64 add(u64 a, u64 b) { return a == OPEN || b == OPEN || a + b >= OPEN ? OPEN : a + b; }
static u64 mul(u64 a, u64 b) { return !a || !b ? 0 : a == OPEN || b == OPEN || a * b >= OPEN ? OPEN : a * b; }
static const Node* attr(const Node& n, const char* k)
{
    for (auto& a : n.attr)
        if (a.first == k) return &a.second;
    return nullptr;
}
static bool flag(const Node& n, const char* f)
{
    if (auto t = attr(n, "typeAttributes"))
        for (auto& k : t->kids)
            if (k.s == f) return true;
    return false;
}
static bool defines(const Node& n)
{
    auto s = attr(n, "samples");
    return n.has || (s && !s->kids.empty()) || attr(n, "default");
}
static u64 ref_size(const Node& n, bool inh)
{
    bool fixed = flag(n, "fixed"), ftype = flag(n, "fixedType");
    u64 r = OPEN;
    switch (n.k) {
        case Null: return 1;
        case String:
        case Number:
        case Bool:
            r = (fixed || (inh && defines(n))) ? 1 : n.k == Bool ? 2 : OPEN;
            break;
        case Object:
            if (inh || fixed || ftype) {
                r = 1;
                if (n.has)
                    for (auto& k : n.kids) r = mul(r, ref_size(k, inh || fixed));
            }
            break;
        case Array:
            if (inh || fixed) {
                r = 1;
                if (n.has)
                    for (auto& k : n.kids) r = mul(r, ref_size(k, true));
            } else if (ftype && !n.has) r = 0;
            break;
        case Member:
            if (!n.has || n.kids.size() < 2 || !n.kids[1]) return 0;
            r = ref_size(n.kids[1], inh);
            if (auto v = attr(n, "variable"))
                if (v->has && v->b) r = mul(OPEN, r);
            break;
        case Enum: {
            auto e = attr(n, "enumerations");
            if (!e || !e->has) return 0;
            r = 0;
            for (auto& k : e->kids) r = add(r, ref_size(k, inh || fixed));
            break;
        }
        case Holder: return n.has && n.kids.size() ? ref_size(n.kids[0], inh) : 0;
        case Select:
            r = 0;
            if (n.has)
                for (auto& k : n.kids) r = add(r, ref_size(k, inh));
            return r;
        case Option:
            if (!n.has) return 0;
            r = 1;
            for (auto& k : n.kids) r = mul(r, ref_size(k, inh));
            return r;
        case Ref: return ref_size(*attr(n, "resolved"), inh);
        default: return 0;
    }
    return flag(n, "nullable") ? add(r, 1) : r;
}
static void flags(Node& n)
{
    Node t = list(Array);
    switch (sym_range("typeattr", 0, 4)) {
        case 0: break;
        case 1: t.kids.push_back(str("fixed")); break;
        case 2: t.kids.push_back(str("fixedType")); break;
        case 3: t.kids.push_back(str("required")); break;
        case 4: t.kids = { str("fixed"), str("fixedType") };
    }
    if (sym_bool("nullable")) t.kids.push_back(str("nullable"));
    if (!t.kids.empty()) n.attr.emplace_back("typeAttributes", t);
}
static void given(Node& n)
{
    n.has = true;
    if (n.k == Bool) n.b = true;
    else n.s = "1";
}
static Node prim(Kind k, bool full)
{
    Node n = full ? leaf(k) : node(k);
    if (full) {
        flags(n);
        switch (sym_range("given", 0, 3)) {
            case 1: n.attr.emplace_back("samples", list(Array, value(k))); break;
            case 2: n.attr.emplace_back("default", value(k)); break;
            case 3: n.attr.emplace_back("samples", list(Array)); break;
        }
    } else {
        switch (sym_range("prim", 0, 3)) {
            case 1: given(n); break;
            case 2: n.attr.emplace_back("typeAttributes", list(Array, str("fixed"))); break;
            case 3: n.attr.emplace_back("typeAttributes", list(Array, str("nullable"))); given(n); break;
        }
    }
    return n;
}
static Node small() { return prim(pick({ String, Bool }), false); }
static void check(const Node& n)
{
    bool inh = sym_bool("inherits");
    u64 want = ref_size(n, inh);
    auto e = build(n);
    u64 got = sizeOf(*e, inh).data();
    sym_observe("size", got);
    sym_assert(got == want, "the count of values follows from content, type attributes and children");
    sym_assert(is(*e, n), "counting leaves the element as it was");
    if (got == OPEN) sym_reach("open");
    else if (got == 0) sym_reach("none");
    else if (got > 1) sym_reach("several");
    else sym_reach("one");
}
HARNESS(primitives) { check(prim(pick({ Null, String, Number, Bool }), true)); }
HARNESS(objects)
{
    Node n = node(Object);
    flags(n);
    n.has = sym_bool("has");
    if (n.has)
        for (size_t i = sym_range("n", 0, 2); i > 0; --i) {
            Node m = member(i == 1 ? "a" : "b", small());
            if (sym_bool("var")) m.attr.emplace_back("variable", boolean(sym_bool("v")));
            n.kids.push_back(m);
        }
    check(n);
}
HARNESS(members)
{
    Node n = node(Member);
    n.has = sym_bool("has");
    flags(n);
    if (n.has) n.kids = { str("k"), sym_bool("value") ? small() : Node() };
    switch (sym_range("var", 0, 4)) {
        case 1: n.attr.emplace_back("variable", boolean(true)); break;
        case 2: n.attr.emplace_back("variable", boolean(false)); break;
        case 3: n.attr.emplace_back("variable", node(Bool)); break;
        case 4: n.attr.emplace_back("variable", str("true")); break;
    }
    check(n);
}
HARNESS(arrays)
{
    Node n = node(Array);
    flags(n);
    n.has = sym_bool("has");
    if (n.has)
        for (size_t i = sym_range("n", 0, 2); i > 0; --i) n.kids.push_back(small());
    check(n);
}
HARNESS(enums)
{
    Node n = node(Enum);
    flags(n);
    n.has = sym_bool("has");
    if (n.has && sym_bool("set")) n.kids.push_back(str("x"));
    if (sym_bool("enums")) {
        Node a = node(Array);
        a.has = sym_bool("filled");
        if (a.has)
            for (size_t i = sym_range("n", 0, 2); i > 0; --i) a.kids.push_back(small());
        n.attr.emplace_back("enumerations", a);
    }
    check(n);
}
HARNESS(selects)
{
    Node n = node(Select);
    n.has = sym_bool("has");
    if (n.has)
        for (size_t i = sym_range("n", 0, 2); i > 0; --i) {
            Node o = node(Option);
            o.has = sym_bool("filled");
            if (o.has)
                for (size_t j = sym_range("m", 0, i == 1 ? 2 : 1); j > 0; --j) o.kids.push_back(member(j == 1 ? "a" : "b", small()));
            n.kids.push_back(o);
        }
    check(n);
}
HARNESS(indirect)
{
    Node inner = sym_bool("object") ? list(Object, member("a", small())) : small();
    if (sym_bool("fixedinner") && inner.attr.empty()) flags(inner);
    Node n;
    if (sym_bool("holder")) {
        n = node(Holder);
        n.has = sym_bool("has");
        if (n.has && sym_bool("set")) n.kids.push_back(inner);
    } else {
        n = refTo("T");
        n.attr.emplace_back("resolved", inner);
    }
    check(n);
}
HARNESS(nested)
{
    Node inner = list(pick({ Object, Array }));
    flags(inner);
    Node a = small();
    inner.kids.push_back(inner.k == Object ? member("a", a) : a);
    Node outer = list(pick({ Object, Array }));
    if (sym_bool("outerflags")) flags(outer);
    outer.kids.push_back(outer.k == Object ? member("o", inner) : inner);
    check(outer);
}
// an extension counts as what it merges to: the later type attributes and the later content win
HARNESS(extends)
{
    Node a = node(pick({ Bool, String })), b = node(a.k);
    a.has = sym_bool("ahas");
    b.has = sym_bool("bhas");
    a.s = b.s = "1";
    flags(a);
    flags(b);
    Node n = node(Extend);
    size_t k = sym_range("n", 0, 3);
    n.has = k > 0;
    if (k > 1) n.kids.push_back(a);
    if (k > 2) n.kids.push_back(b);
    bool inh = sym_bool("inherits");
    u64 want = 0;
    if (k == 2) want = ref_size(a, inh);
    if (k == 3) {
        Node m = a;
        m.has = a.has || b.has;
        if (!b.attr.empty()) m.attr = b.attr;
        want = ref_size(m, inh);
        sym_reach("merged");
    }
    u64 got = sizeOf(*build(n), inh).data();
    sym_observe("size", got);
    sym_assert(got == want, "an extension counts as its merged element");
}
