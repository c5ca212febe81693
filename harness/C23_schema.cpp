//@ all: time=60
//@ bound: primitives, enums of up to 2 enumerations, objects of up to 2 properties with mixins, selects of up to 2 options, arrays of up to 2 items, extensions and references, any type attributes; every value up to depth 2 with up to 2 entries and symbolic texts and keys
//@ assume: members hold a key and a value, the key being a text unless variable; extensions hold at least one part
#include "attrs.h"
#include "schema.h"
#include <refract/ElementSize.h>
#include <refract/JsonSchema.h>
#include <refract/JsonValue.h>
using namespace model;
using sov::V;

// ---- reference: which values a type describes
struct Flags {
    bool fixed, fixedType, nullable;
};
static Flags own(const Node& n, Flags f) { return { f.fixed || typed(n, "fixed"), f.fixedType || typed(n, "fixedType"), f.nullable || typed(n, "nullable") }; }
static Flags down(const Node& n, Flags f) { return { f.fixed && bound(n), false, false }; }
static int accepts(const Node& n, Flags f, const V& v);
struct Props { // what is required of an object
    struct Prop {
        std::string key;
        Node n;
        Flags f;
        bool exact;
    };
    std::vector<Prop> named, variable;
    std::vector<std::string> required;
    std::vector<std::vector<Props> > selects;
};
static void put(std::vector<Props::Prop>& l, const Props::Prop& p)
{
    for (auto& e : l)
        if (e.exact == p.exact && ::ref::eq(e.key, p.key)) {
            e = p;
            return;
        }
    l.push_back(p);
}
static void property(Props& o, const Node& n, Flags f, bool required)
{
    switch (n.k) {
        case Member: {
            Node k = n.kids[0].k == Extend ? merged(n.kids[0]) : n.kids[0];
            Flags m = { f.fixed || typed(n, "fixed"), typed(n, "fixedType"), typed(n, "nullable") };
            if (variable(n)) {
                bool exact = m.fixed || typed(k, "fixed");
                put(o.variable, { exact ? k.s : "", n.kids[1], m, exact });
                return;
            }
            put(o.named, { k.s, n.kids[1], m, true });
            if ((required || typed(n, "required")) && !typed(n, "optional")) o.required.push_back(k.s);
            return;
        }
        case Select: {
            std::vector<Props> s;
            for (auto& opt : n.kids)
                if (opt.has && opt.kids.size()) {
                    s.emplace_back();
                    for (auto& e : opt.kids) property(s.back(), e, f, required);
                }
            if (s.size()) o.selects.push_back(s);
            return;
        }
        case Holder:
            if (n.has && n.kids.size()) property(o, n.kids[0], f, required);
            return;
        case Ref:
            if (auto r = at(n.attr, "resolved")) property(o, *r, f, required);
            return;
        case Extend: property(o, merged(n), f, required); return;
        case Object: // a mixin: its properties, as if they were given in its place
            f.fixed = f.fixed || typed(n, "fixed");
            for (auto& e : n.kids) property(o, e, down(e, f), required);
            return;
        default: return;
    }
}
static int matches(const Props::Prop& p, const std::string& key)
{
    if (!p.exact) return 1; // any name
    if (p.key.empty()) return key.empty();
    int any = 0; // the text of a fixed variable name is a part of the name
    for (size_t i = 0; i + p.key.size() <= key.size(); ++i) any |= ::ref::eq(key.substr(i, p.key.size()), p.key);
    return any;
}
static int known(const Props& p, const std::string& key) // whether the property is described at all
{
    int any = 0;
    for (auto& e : p.named) any |= ::ref::eq(e.key, key);
    for (auto& e : p.variable) any |= matches(e, key);
    for (auto& s : p.selects)
        for (auto& o : s) any |= known(o, key);
    return any;
}
static int fulfils(const Props& p, const V& v)
{
    int ok = 1;
    for (auto& e : v.kids) {
        for (auto& d : p.named) ok &= !::ref::eq(d.key, e.first) | accepts(d.n, d.f, e.second);
        for (auto& d : p.variable) ok &= !matches(d, e.first) | accepts(d.n, d.f, e.second);
    }
    for (auto& r : p.required) {
        int any = 0;
        for (auto& e : v.kids) any |= ::ref::eq(e.first, r);
        ok &= any;
    }
    for (auto& s : p.selects) {
        int n = 0;
        for (auto& o : s) n += fulfils(o, v);
        ok &= n == 1;
    }
    return ok;
}
struct Item {
    Node n;
    Flags f;
};
static void items(std::vector<Item>& l, const Node& n, Flags f)
{
    for (auto& e : n.kids) {
        Flags d = down(e, f);
        if (e.k == Ref) {
            if (auto r = at(e.attr, "resolved")) {
                Node m = r->k == Extend ? merged(*r) : *r;
                d.fixed = d.fixed || typed(m, "fixed");
                items(l, m, d);
            }
        } else
            l.push_back({ e, d });
    }
}
static int accepts(const Node& n, Flags f, const V& v)
{
    switch (n.k) {
        case Null: return v.k == sov::Null;
        case String:
        case Number:
        case Bool: {
            f = own(n, f);
            if (v.k == sov::Null) return f.nullable;
            if (n.k == Bool ? v.k != sov::True && v.k != sov::False : v.k != (n.k == String ? sov::String : sov::Number)) return 0;
            if (!f.fixed || !n.has) return 1;
            return n.k == Bool ? (v.k == sov::True) == n.b : ::ref::eq(v.s, n.s);
        }
        case Object: {
            f = own(n, f);
            if (v.k == sov::Null) return f.nullable;
            if (v.k != sov::Object) return 0;
            bool closed = f.fixed || f.fixedType;
            Props p;
            for (auto& e : n.kids) property(p, e, down(e, f), closed);
            int ok = fulfils(p, v);
            if (closed)
                for (auto& e : v.kids) ok &= known(p, e.first);
            return ok;
        }
        case Array: {
            f = own(n, f);
            if (v.k == sov::Null) return f.nullable;
            if (v.k != sov::Array) return 0;
            std::vector<Item> l;
            items(l, n, f);
            int ok = 1;
            if (f.fixedType)
                for (auto& e : v.kids) {
                    int any = 0;
                    for (auto& i : l) any |= accepts(i.n, i.f, e.second);
                    ok &= any;
                }
            else if (f.fixed) {
                if (v.kids.size() != l.size()) return 0;
                for (size_t i = 0; i < l.size(); ++i) ok &= accepts(l[i].n, l[i].f, v.kids[i].second);
            }
            return ok;
        }
        case Enum: {
            f = own(n, f);
            int any = f.nullable && v.k == sov::Null;
            auto l = at(n.attr, "enumerations");
            if (l)
                for (auto& e : l->kids) {
                    auto r = build(e);
                    if (sizeOf(*r) == cardinal{ 1 }) any |= jschema::equal(sov::read(generateJsonValue(*r)), v); // C08, C22
                    else any |= accepts(e, { f.fixed, false, false }, v);
                }
            return any;
        }
        case Holder: return n.has && n.kids.size() ? accepts(n.kids[0], f, v) : 1;
        case Extend: return accepts(merged(n), f, v);
        case Ref: {
            auto r = at(n.attr, "resolved");
            return r ? accepts(*r, f, v) : 1;
        }
        default: return 0;
    }
}
static void check(const Node& n, const V& v)
{
    auto e = build(n);
    V s = sov::read(drafter::utils::so::Value{ schema::generateJsonSchema(*e) });
    sym_assert(is(*e, n), "generating a schema leaves the element as it was");
    sym_assert(jschema::schema(s, true), "the generated schema is a schema: known keywords, each once, with values of the right kind");
    bool known = true;
    int got = jschema::valid(s, v, known);
    sym_assert(known, "patterns match a literal text, no text or any text");
    sym_assert(got == accepts(n, { false, false, false }, v), "the generated schema accepts exactly the values of the type");
    sym_reach("compared");
}
// ---- generation
static V text() { return V(sov::String, sym_str("t", 0, 1)); }
static V scalar()
{
    switch (sym_range("value", 0, 4)) {
        case 0: return V(sov::Null);
        case 1: return V(sov::True);
        case 2: return V(sov::False);
        case 3: return text();
        default: return V(sov::Number, sym1("n"));
    }
}
static V any(int depth, size_t max, bool simple = false)
{
    auto kid = [&] { return depth > 1 ? any(depth - 1, max, simple) : simple ? (sym_bool("string") ? V(sov::String, "x") : V(sov::Null)) : scalar(); };
    switch (depth ? sym_range("shape", 0, 2) : 0) {
        case 1: {
            V v(sov::Array);
            for (size_t i = sym_range("n", 0, max); i > 0; --i) v.kids.emplace_back("", kid());
            return v;
        }
        case 2: {
            V v(sov::Object);
            for (size_t i = sym_range("n", 0, max); i > 0; --i) v.kids.emplace_back(sym1("key"), kid());
            if (v.kids.size() > 1) sym_assume(v.kids[0].first != v.kids[1].first);
            return v;
        }
        default: return scalar();
    }
}
static V objectOf(size_t max, bool empty = true) // an object with values of few kinds
{
    V v(sov::Object);
    for (size_t i = sym_range("n", empty ? 0 : 1, max); i > 0; --i) v.kids.emplace_back(sym1("key"), sym_bool("string") ? V(sov::String, sym1("t")) : V(sov::Null));
    if (v.kids.size() > 1) sym_assume(v.kids[0].first != v.kids[1].first);
    return v;
}
static Node prim(std::initializer_list<Kind> ks)
{
    Node n = node(pick(ks));
    return n.k != Null && sym_bool("has") ? value(n.k) : n;
}
static Node flag(Node n, std::initializer_list<const char*> names)
{
    size_t i = sym_range("flag", 0, names.size());
    return i ? with(n, names.begin()[i - 1]) : n;
}
#define ALL { "fixed", "fixedType", "nullable", "required" }
static Node reference(Node r)
{
    Node n = refTo("R");
    if (r) n.attr.emplace_back("resolved", r);
    return n;
}
HARNESS(primitives)
{
    Node n = flag(prim({ String, Number, Bool, Null }), ALL);
    if (n.attr.size() && sym_bool("more")) n = with(n, "nullable");
    if (sym_bool("sample") && n.k == String) n.attr.emplace_back("samples", list(Array, str("s")));
    switch (sym_range("in", 0, 5)) {
        case 1: n = list(Holder, n); break;
        case 2: n = reference(n); break;
        case 3: n = n.k == Null ? list(Extend, n) : list(Extend, prim({ n.k }), n); break;
        case 4: n = node(pick({ Holder, Option, Select, Ref })); break;
        case 5: n = list(pick({ Option, Select })); break;
    }
    check(n, any(1, 1));
}
HARNESS(properties)
{
    Node m = member(str(sym1("k")), prim({ String, Null }));
    m = flag(m, { "fixed", "required", "optional", "nullable", "fixedType" });
    if (m.attr.size() && sym_bool("more")) m = with(m, "required");
    Node n = flag(list(Object, m), { "fixed", "fixedType", "nullable" });
    if (sym_bool("two")) {
        Node o = member("a", node(Bool));
        n.kids.push_back(sym_bool("required") ? with(o, "required") : o);
    }
    check(n, sym_bool("object") ? objectOf(2) : scalar());
}
HARNESS(inner)
{
    Node o = list(Object, member("a", flag(prim({ String }), { "fixed" })));
    if (sym_bool("sample")) o.kids[0].kids[1].attr.emplace_back("samples", list(Array, str("s")));
    Node m = flag(member("k", sym_bool("object") ? flag(o, { "fixed", "fixedType", "nullable" }) : flag(list(Array, o.kids[0].kids[1]), { "fixed", "fixedType" })),
        { "fixed", "fixedType", "nullable" });
    Node n = flag(list(Object, m), { "fixed", "fixedType" });
    V v(sov::Object);
    if (sym_bool("there")) v.kids.emplace_back(sym1("key"), any(1, 1));
    check(n, v);
}
static Node anyName(Node m)
{
    m.attr.emplace_back("variable", boolean(true));
    return m;
}
HARNESS(variables)
{
    Node k;
    switch (sym_range("name", 0, 2)) {
        case 0: k = str(sym1("k")); break;
        case 1: k = node(String); break;
        case 2: k = list(Extend, node(String), str(sym1("k"))); break;
    }
    if (k.k == String && sym_bool("fixed name")) k = with(k, "fixed");
    Node n = flag(list(Object, anyName(flag(member(k, prim({ String })), { "fixed", "nullable" }))), { "fixed", "fixedType" });
    switch (sym_range("two", 0, 2)) {
        case 1: n.kids.push_back(with(member("a", node(Null)), "optional")); break;
        case 2: n.kids.push_back(anyName(member("l", node(Null)))); break;
    }
    V v(sov::Object);
    if (sym_bool("one")) v.kids.emplace_back(sym_str("key", 0, 1), sym_bool("string") ? V(sov::String, sym1("t")) : V(sov::Null));
    check(n, v);
}
HARNESS(patterns) // every name of two octets
{
    Node k = with(str(sym1("k", 2)), "fixed");
    V v(sov::Object);
    v.kids.emplace_back(sym_str("key", 1, BOUND(2, 3)), V(sov::Null));
    check(with(list(Object, anyName(member(k, node(Null)))), "fixedType"), v);
}
static Node mixed() // properties from elsewhere
{
    Node o = node(Object);
    o.has = sym_bool("has");
    if (o.has) o.kids.push_back(flag(member(sym1("k"), prim({ String })), { "required", "optional", "fixed" }));
    return o;
}
static void mix(Node n, Node o, const V& v)
{
    n.kids.insert(sym_bool("first") ? n.kids.begin() : n.kids.end(), o);
    check(n, v);
}
HARNESS(mixins)
{
    mix(flag(list(Object, member("a", node(Null))), { "fixed", "fixedType" }), reference(mixed()), objectOf(2));
}
HARNESS(fixed_mixins)
{
    Node o = mixed();
    if (o.has && sym_bool("variable")) o.kids[0] = anyName(o.kids[0]);
    mix(flag(list(Object, member("a", value(String))), { "fixed", "fixedType" }), reference(with(o, "fixed")), objectOf(1));
}
HARNESS(other_mixins)
{
    Node o;
    switch (sym_range("how", 0, 3)) {
        case 0: o = reference(Node()); break;
        case 1: o = reference(list(Extend, list(Object, member("b", node(Null))), mixed())); break;
        case 2: o = list(Holder, mixed()); break;
        case 3: o = node(pick({ Holder, String, Number, Bool, Null, Array, Enum, Option })); break;
    }
    mix(flag(list(Object, member("a", value(String))), { "fixed", "fixedType" }), o, objectOf(1));
}
HARNESS(selects)
{
    Node s = list(Select);
    for (size_t i = sym_range("options", 0, 2); i > 0; --i) {
        Node o = node(Option);
        o.has = sym_bool("set");
        if (o.has)
            for (size_t j = sym_range("m", 0, i == 1 ? 2 : 1); j > 0; --j) o.kids.push_back(flag(member(j == 1 ? sym1("k") : "b", node(String)), { "required" }));
        s.kids.push_back(o);
    }
    if (s.kids.size() && s.kids[0].kids.size() && sym_bool("nested")) s.kids[0].kids[0] = list(Select, list(Option, s.kids[0].kids[0]));
    Node n = flag(list(Object, s), { "fixed", "fixedType" });
    if (sym_bool("other")) n.kids.push_back(sym_bool("select") ? list(Select, list(Option, member("c", node(Null)))) : member("a", node(Null)));
    check(n, objectOf(2));
}
static Node entry()
{
    switch (sym_range("item", 0, 4)) {
        case 0: return flag(prim({ String, Null }), { "fixed", "nullable" });
        case 1: return list(Object, member("a", prim({ String })));
        case 2: return flag(list(Array, prim({ String })), { "fixedType" });
        case 3: {
            Node n = node(Enum);
            n.attr.emplace_back("enumerations", list(Array, with(value(String), "fixed")));
            return n;
        }
        default: return list(Extend, node(String), prim({ String }));
    }
}
static V arrayOf(size_t max)
{
    V v(sov::Array);
    for (size_t i = sym_range("n", 0, max); i > 0; --i)
        switch (sym_range("v", 0, i == 1 ? 3 : 1)) {
            case 0: v.kids.emplace_back("", V(sov::String, sym1("t"))); break;
            case 1: v.kids.emplace_back("", V(sov::Null)); break;
            case 2: {
                V a(sov::Array);
                a.kids.emplace_back("", V(sov::String, sym1("t")));
                v.kids.emplace_back("", a);
                break;
            }
            default: {
                V a(sov::Object);
                a.kids.emplace_back("a", V(sov::String, sym1("t")));
                v.kids.emplace_back("", a);
            }
        }
    return v;
}
//@ unit items time=60
HARNESS(items)
{
    Node n = node(Array);
    n.has = sym_bool("has");
    if (n.has)
        for (size_t i = sym_range("items", 0, 2); i > 0; --i) n.kids.push_back(i == 2 ? prim({ String, Null }) : entry());
    n = flag(n, { "fixed", "fixedType", "nullable" });
    if (n.attr.size() && sym_bool("more")) n = with(n, "nullable");
    check(n, sym_bool("array") ? arrayOf(BOUND(2, 3)) : scalar());
}
HARNESS(spliced)
{
    Node a = node(Array);
    a.has = sym_bool("has");
    if (a.has)
        for (size_t i = sym_range("items", 0, 2); i > 0; --i) a.kids.push_back(prim({ String }));
    a = flag(a, { "fixed", "fixedType" });
    Node r = reference(sym_bool("resolved") ? sym_bool("extend") ? list(Extend, list(Array, node(Null)), a) : a : Node());
    Node n = flag(list(Array, r), { "fixed", "fixedType" });
    if (sym_bool("before")) n.kids.insert(n.kids.begin(), node(Bool));
    check(n, arrayOf(3));
}
static Node listed(int depth)
{
    switch (sym_range("entry", 0, depth ? 6 : 1)) {
        case 0: return with(value(String), "fixed");
        case 1: return flag(prim({ String, Bool }), { "nullable" });
        case 2: return node(Null);
        case 3: return flag(list(Array, value(String)), { "fixed", "fixedType" });
        case 4: return flag(list(Object, member("a", value(String))), { "fixed", "fixedType" });
        case 5: return list(Extend, node(String), with(value(String), "fixed"));
        default: {
            Node n = node(Enum);
            n.attr.emplace_back("enumerations", list(Array, with(value(String), "fixed"), prim({ Number })));
            return sym_bool("nullable") ? with(n, "nullable") : n;
        }
    }
}
HARNESS(enums)
{
    Node n = flag(node(Enum), { "fixed", "nullable" });
    Node l = list(Array);
    for (size_t i = sym_range("m", 1, 2); i > 0; --i) l.kids.push_back(listed(i == 1));
    n.attr.emplace_back("enumerations", l);
    check(n, any(1, 1, true));
}
HARNESS(empty_enums)
{
    Node n = flag(sym_bool("has") ? list(Enum, value(String)) : node(Enum), { "fixed", "nullable" });
    if (n.attr.size() && sym_bool("both")) n = with(n, "nullable");
    switch (sym_range("enumerations", 0, 3)) {
        case 1: n.attr.emplace_back("enumerations", node(Array)); break;
        case 2: n.attr.emplace_back("enumerations", list(Array)); break;
        case 3: n.attr.emplace_back("enumerations", list(Array, with(value(String), "fixed"))); break;
    }
    check(n, any(1, 1, true));
}
