//@ all: time=60
//@ bound: primitives, enums, objects of up to 2 properties and arrays of up to 2 items of every kind, with any combination of content, sample, default and type attributes; mixins, selects and extensions of up to 2 parts
//@ assume: members hold a key and a value, enums with content a value, extensions at least one part, as the parser and C15 build them
#include "attrs.h"
#include "sov.h"
#include <refract/JsonValue.h>
using namespace model;
using sov::V;

// ---- reference
struct Flags {
    bool fixed, nullable;
};
static Flags own(const Node& n, Flags f) { return { f.fixed || typed(n, "fixed"), f.nullable || typed(n, "nullable") }; }
static Flags down(const Node& n, Flags f) { return { f.fixed && bound(n), false }; } // what a container hands to an entry
static V value(const Node& n, Flags f);
static bool other(const Node& n, Flags f, V& v) // the value of an element without content
{
    auto s = sampleOf(n), d = defaultOf(n);
    if (s || d) v = value(s ? *s : *d, f);
    else if (!f.nullable) return false;
    return true;
}
static std::string key(const Node& k)
{
    if (k.k == Extend) return key(merged(k));
    if (k.has) return k.s;
    auto v = valueOf(k);
    return v ? key(*v) : "";
}
static void put(V& o, const std::string& k, const V& v)
{
    for (auto& e : o.kids)
        if (::ref::eq(e.first, k)) {
            e.second = v;
            return;
        }
    o.kids.emplace_back(k, v);
}
static void property(V& o, const Node& n, Flags f)
{
    switch (n.k) {
        case Member: {
            if (typed(n, "optional") && !valueOf(n.kids[1])) return;
            auto k = key(n.kids[0]);
            if (k.size()) put(o, k, value(n.kids[1], own(n, f)));
            return;
        }
        case Select:
            for (auto& opt : n.kids)
                if (opt.has && opt.kids.size()) {
                    for (auto& e : opt.kids) property(o, e, f);
                    return;
                }
            return;
        case Holder:
            if (n.has && n.kids.size()) property(o, n.kids[0], f);
            return;
        case Ref:
            if (auto r = at(n.attr, "resolved")) property(o, *r, f);
            return;
        case Extend: property(o, merged(n), f); return;
        case Object: {
            V m = value(n, f);
            if (m.k == sov::Object)
                for (auto& e : m.kids) put(o, e.first, e.second);
            return;
        }
        default: return;
    }
}
static void item(V& a, const Node& n, Flags f)
{
    switch (n.k) {
        case Member:
        case Option:
        case Select: return;
        case Ref:
            if (auto r = at(n.attr, "resolved")) {
                Node m = r->k == Extend ? merged(*r) : *r;
                if (m.k != Array) return;
                V v = value(m, f);
                if (v.k == sov::Array)
                    for (auto& e : v.kids) a.kids.push_back(e);
            }
            return;
        case String:
        case Number:
        case Bool:
            if (!valueOf(n) && !typed(n, "fixed") && !f.fixed) return; // only a type
        default: a.kids.emplace_back("", value(n, down(n, f)));
    }
}
static V value(const Node& n, Flags f)
{
    V v;
    switch (n.k) {
        case String:
        case Number:
        case Bool:
            f = own(n, f);
            if (n.has) return n.k == Bool ? V(n.b ? sov::True : sov::False) : V(n.k == String ? sov::String : sov::Number, n.s);
            if (other(n, f, v)) return v;
            return n.k == String ? V(sov::String) : n.k == Number ? V(sov::Number, "0") : V(sov::False);
        case Object:
            f = own(n, f);
            if (!n.has && other(n, f, v)) return v;
            v = V(sov::Object);
            for (auto& e : n.kids) property(v, e, down(e, f));
            return v;
        case Array:
            f = own(n, f);
            if (!n.has && other(n, f, v)) return v;
            v = V(sov::Array);
            for (auto& e : n.kids) item(v, e, down(e, f));
            return v;
        case Enum: {
            f = own(n, f);
            if (n.has) return value(n.kids[0], { f.fixed, false });
            if (other(n, f, v)) return v;
            auto l = at(n.attr, "enumerations");
            return l && l->has && l->kids.size() ? value(l->kids[0], f) : V();
        }
        case Holder: return n.has && n.kids.size() ? value(n.kids[0], f) : V();
        case Extend: return value(merged(n), f);
        case Ref: {
            auto r = at(n.attr, "resolved");
            return r ? value(*r, f) : V();
        }
        default: return V();
    }
}
static void check(const Node& n)
{
    auto e = build(n);
    V got = sov::read(generateJsonValue(*e)), want = value(n, { false, false });
    sym_assert(sov::same(got, want), "the generated value is the content, sample, default, null or empty value of every element, property and item");
    sym_assert(is(*e, n), "generating a value leaves the element as it was");
    static const char* tag[] = { "null", "true", "false", "string", "number", "object", "array" };
    sym_reach(tag[got.k]);
}
// ---- generation
static Node literal(Kind k, const char* s)
{
    Node n = node(k);
    n.has = true;
    if (k == Bool) n.b = true;
    else n.s = s;
    return n;
}
// a primitive with or without content, sample and default
static Node prim(std::initializer_list<Kind> ks, bool attributes = true)
{
    Node n = node(pick(ks));
    if (n.k == Null) return n;
    if (sym_bool("has")) n = model::value(n.k);
    if (!attributes) return n;
    switch (sym_range("other", 0, 3)) {
        case 1: n.attr.emplace_back("samples", list(Array, literal(n.k, "3"), literal(n.k, "4"))); break;
        case 2: n.attr.emplace_back("default", literal(n.k, "5")); break;
    }
    return n;
}
static Node flags(Node n, bool fixed = true)
{
    switch (sym_range("flags", 0, fixed ? 3 : 1)) {
        case 1: return with(n, "nullable");
        case 2: return with(n, "fixed");
        case 3: return with(with(n, "nullable"), "fixed");
    }
    return n;
}
HARNESS(primitives)
{
    Node n = flags(node(pick({ String, Number, Bool, Null })));
    Node p = leaf(n.k);
    n.has = p.has, n.s = p.s, n.b = p.b;
    Kind o = n.k == String ? Number : String;
    switch (sym_range("samples", 0, 4)) {
        case 1: n.attr.emplace_back("samples", list(Array)); break;
        case 2: n.attr.emplace_back("samples", list(Array, model::value(n.k), model::value(n.k))); break;
        case 3: n.attr.emplace_back("samples", list(Array, flags(leaf(n.k)))); break;
        case 4: n.attr.emplace_back("samples", list(Array, list(Array, leaf(o)))); break;
    }
    switch (sym_range("default", 0, 2)) {
        case 1: n.attr.emplace_back("default", leaf(n.k)); break;
        case 2: n.attr.emplace_back("default", model::value(o)); break;
    }
    check(n);
}
static Node mem(std::initializer_list<Kind> ks)
{
    Node k;
    switch (sym_range("key", 0, 4)) {
        case 0: k = str(sym1("k")); break;
        case 1: k = node(String); break;
        case 2: k = node(String); k.attr.emplace_back("samples", list(Array, str("k"))); break;
        case 3: k = node(String); k.attr.emplace_back("default", sym_bool("set") ? str("k") : str("")); break;
        case 4: k = list(Extend, node(String), str("k")); break;
    }
    Node m = member(k, prim(ks));
    switch (sym_range("type", 0, 3)) {
        case 1: m = with(m, "optional"); break;
        case 2: m = with(m, "nullable"); break;
        case 3: m = with(m, "fixed"); break;
    }
    if (sym_bool("variable")) m.attr.emplace_back("variable", boolean(true));
    return m;
}
HARNESS(properties)
{
    Node n = flags(list(Object, mem({ String, Bool })));
    if (sym_bool("two")) n.kids.push_back(member("k", num("7")));
    check(n);
}
// objects within an object
static Node object()
{
    Node o = node(Object);
    o.has = sym_bool("has");
    if (o.has)
        for (size_t i = sym_range("n", 0, 2); i > 0; --i) o.kids.push_back(member(i == 1 ? "a" : sym1("k"), prim({ String }, false)));
    else switch (sym_range("other", 0, 3)) {
        case 1: o.attr.emplace_back("samples", list(Array, list(Object, member("a", num("8"))))); break;
        case 2: o.attr.emplace_back("default", list(Object, member("a", num("9")))); break;
        case 3: o.attr.emplace_back("samples", list(Array, str("no object"))); break;
    }
    return o;
}
static Node reference(Node r)
{
    Node n = refTo("R");
    if (r) n.attr.emplace_back("resolved", r);
    return n;
}
//@ unit objects time=60
HARNESS(objects)
{
    Node n = flags(list(Object, member("b", model::value(String))));
    if (sym_bool("first")) n.kids.push_back(member("a", model::value(String)));
    Node o = object();
    switch (sym_range("how", 0, 7)) {
        case 0: n.kids.push_back(flags(o)); break;
        case 1: n.kids.push_back(reference(sym_bool("extend") ? list(Extend, o) : o)); break;
        case 2: n.kids.push_back(sym_bool("resolved") ? reference(str("s")) : reference(Node())); break;
        case 3: n.kids.push_back(list(Extend, list(Object, member("a", num("0"))), o)); break;
        case 4: n.kids.push_back(list(Holder, o)); break;
        case 5: n.kids.push_back(node(pick({ Holder, String, Array, Null, Enum, Option }))); break;
        case 6: n.kids.push_back(member("a", o)); break;
        case 7: n.kids.push_back(list(pick({ Array, Enum }), str("s"))); break;
    }
    if (sym_bool("after")) n.kids.push_back(member("a", num("6")));
    check(n);
}
HARNESS(selects)
{
    Node s = list(Select);
    for (size_t i = sym_range("options", 0, 2); i > 0; --i) {
        Node o = node(Option);
        o.has = sym_bool("set");
        if (o.has)
            for (size_t j = sym_range("n", 0, 2); j > 0; --j) o.kids.push_back(member(j == 1 ? sym1("k") : i == 1 ? "a" : "b", prim({ String, Number }, false)));
        s.kids.push_back(o);
    }
    Node n = flags(list(Object, s));
    if (sym_bool("after")) n.kids.push_back(member("a", num("6")));
    check(n);
}
static Node plain(bool content) // an item of every kind
{
    switch (sym_range("item", 0, content ? 9 : 5)) {
        case 0: return flags(prim({ String, Number, Bool, Null }));
        case 1: return list(Object, member("a", prim({ String })));
        case 2: return flags(list(Array, prim({ String, Number })));
        case 3: {
            Node n = flags(node(Array));
            if (sym_bool("sample")) n.attr.emplace_back("samples", list(Array, list(Array, str("s"))));
            return n;
        }
        case 4: return list(Enum, prim({ String }));
        case 5: return list(Extend, prim({ String }, false), prim({ String }));
        case 6: return list(Holder, prim({ String }, false));
        case 7: return list(pick({ Option, Select }));
        case 8: return member("k", model::value(String));
        default: return node(pick({ Object, Holder, Enum }));
    }
}
//@ unit items time=60
HARNESS(items)
{
    Node n = flags(list(Array, plain(true)));
    if (sym_bool("two")) n.kids.push_back(sym_bool("value") ? model::value(Number) : node(Number));
    check(n);
}
HARNESS(spliced)
{
    Node a = node(Array);
    a.has = sym_bool("has");
    if (a.has)
        for (size_t i = sym_range("n", 0, 2); i > 0; --i) a.kids.push_back(i == 1 ? flags(prim({ String, Number }, false)) : sym_bool("value") ? str("v") : node(String));
    else if (sym_bool("sample")) a.attr.emplace_back("samples", list(Array, list(Array, str("s"), node(String))));
    a = flags(a);
    Node r;
    switch (sym_range("what", 0, 4)) {
        case 0: r = reference(a); break;
        case 1: r = reference(list(Extend, list(Array, num("1")), a)); break;
        case 2: r = reference(list(Extend, list(Object), list(Object))); break;
        case 3: r = reference(sym_bool("value") ? model::value(String) : node(Object)); break;
        case 4: r = reference(Node()); break;
    }
    Node n = flags(list(Array, model::value(Number), r));
    if (sym_bool("after")) n.kids.push_back(model::value(Bool));
    check(n);
}
HARNESS(enums)
{
    Node n = flags(node(Enum));
    auto entry = [](bool) { return sym_bool("enum") ? list(Enum, flags(prim({ String }, false), false)) : flags(prim({ Number }, false), false); };
    if (sym_bool("has")) {
        n.has = true;
        n.kids.push_back(flags(prim({ String, Number })));
        check(sym_bool("in an array") ? flags(list(Array, n)) : n);
        return;
    }
    switch (sym_range("other", 0, 2)) {
        case 1: n.attr.emplace_back("samples", list(Array, entry(true))); break;
        case 2: n.attr.emplace_back("default", entry(true)); break;
    }
    switch (sym_range("enumerations", 0, 3)) {
        case 1: n.attr.emplace_back("enumerations", node(Array)); break;
        case 2: n.attr.emplace_back("enumerations", list(Array)); break;
        case 3: n.attr.emplace_back("enumerations", list(Array, flags(prim({ String }), false), num("2"))); break;
    }
    check(sym_bool("in an array") ? flags(list(Array, n)) : n);
}
HARNESS(others)
{
    Node p = sym_bool("object") ? object() : flags(prim({ String, Number, Bool, Null }));
    switch (sym_range("what", 0, 7)) {
        case 0: check(list(Holder, p)); return;
        case 1: check(list(Extend, p)); return;
        case 2: check(reference(p)); return;
        case 3: check(reference(Node())); return;
        case 4: check(reference(list(Holder, p))); return;
        case 5: check(list(Holder, list(Extend, reference(p)))); return;
        case 6: check(node(pick({ Holder, Member, Option, Select }))); return;
        case 7: check(flags(p)); return;
    }
}
