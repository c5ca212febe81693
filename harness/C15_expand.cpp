//@ all: time=60
//@ bound: registries of 2 types (an object, array, string or enum and an object of up to 1 entry) or 3 objects with symbolic parents, and one element of every kind with up to 2 entries of symbolic named types; names of one octet
//@ assume: the stand-in for a type that inherits circularly and contains itself is not specified
//@ assume: options and members carry no type name of their own (the parser gives them none); enumerations of an enum are an array with content
#include "elem.h"
#include "SourceAnnotation.h"
#include <refract/ExpandVisitor.h>
#include <refract/IsExpandableVisitor.h>
#include <refract/Registry.h>
using namespace model;

// ---- reference
typedef std::vector<std::string> Names;
static std::vector<std::pair<std::string, Node> > types; // registered types, without their id
struct Circular {};
static std::string nameOf(const Node& n) { return n.name.empty() ? defaultName(n.k) : n.name; }
static bool named(const Node& n) { return n.k != Holder && !n.name.empty(); } // reference names are of one octet, reserved ones longer
static bool eqs(const std::string& a, const std::string& b) { return a.size() == b.size() && ::ref::eq(a, b); }
static const Node* find(const std::string& n)
{
    for (auto& t : types)
        if (eqs(t.first, n)) return &t.second;
    return nullptr;
}
static bool in(const Names& v, const std::string& n)
{
    for (auto& s : v)
        if (eqs(s, n)) return true;
    return false;
}
static void put(std::vector<std::pair<std::string, Node> >& m, const std::string& k, const Node& v)
{
    for (auto& e : m)
        if (e.first == k) {
            e.second = v;
            return;
        }
    m.emplace_back(k, v);
}
static void drop(std::vector<std::pair<std::string, Node> >& m, const std::string& k)
{
    for (size_t i = 0; i < m.size(); ++i)
        if (m[i].first == k) {
            m.erase(m.begin() + i);
            return;
        }
}
static bool expandable(const Node& n)
{
    if (n.k == None) return false;
    if (n.k == Ref || n.k == Holder || named(n)) return true;
    for (auto& a : n.attr)
        if (n.k == Enum && a.first == "enumerations" && expandable(a.second)) return true;
    if (n.has)
        for (auto& k : n.kids)
            if (expandable(k)) return true;
    return false;
}
static Node expandNamed(const Node& n, Names& members);
static Node expand(const Node& n, Names& members); // None: nothing to expand
static Node expandOrClone(const Node& n, Names& members)
{
    if (n.k == None) return n;
    Node r = expand(n, members);
    return r.k == None ? n : r;
}
static Node expandMembers(Node n, Names& members)
{
    n.name.clear();
    if (n.has)
        for (auto& k : n.kids) k = expandOrClone(k, members);
    if (n.k == Enum)
        for (auto& a : n.attr)
            if (a.first == "enumerations") {
                Node l = list(Array);
                for (auto& k : a.second.kids) l.kids.push_back(expandOrClone(k, members));
                a.second = l;
            }
    return n;
}
static Node expand(const Node& n, Names& members)
{
    switch (n.k) {
        case Null:
        case Holder: return Node();
        case Ref: {
            Node r = n;
            if (!n.has || n.s.empty()) return r;
            if (in(members, n.s)) throw Circular();
            members.push_back(n.s);
            if (auto t = find(n.s)) {
                Node e = expandOrClone(*t, members);
                for (auto& m : e.meta)
                    if (m.first == "id") {
                        Node id = m.second;
                        put(e.meta, "ref", id);
                        drop(e.meta, "id");
                        break;
                    }
                put(r.attr, "resolved", e);
            }
            members.pop_back();
            return r;
        }
        case String:
        case Number:
        case Bool: return named(n) ? expandNamed(n, members) : Node();
        case Enum: return named(n) ? expandNamed(n, members) : expandMembers(n, members);
        case Member: {
            if (!expandable(n)) return Node();
            std::string name = n.name;
            Node r = expandMembers(n, members);
            r.name = name;
            return r;
        }
        default:
            if (!expandable(n)) return Node();
            return named(n) ? expandNamed(n, members) : expandMembers(n, members);
    }
}
static Node root(std::string name)
{
    Names seen;
    const Node* r = nullptr;
    while (auto t = find(name)) {
        if (in(seen, name)) {
            sym_assume(false); // a circle of types has no root; which of its types stands in is left open
            break;
        }
        seen.push_back(name);
        r = t;
        if (!named(*t)) break;
        name = t->name;
    }
    return r ? *r : Node();
}
static Node expandNamed(const Node& n, Names& members)
{
    if (in(members, n.name)) {
        Node r = root(n.name);
        r.name.clear();
        r.has = false;
        r.kids.clear();
        drop(r.meta, "id");
        put(r.meta, "ref", str(n.name));
        sym_reach("circular");
        return r;
    }
    members.push_back(n.name);
    Node tree = node(Extend);
    Names chain;
    std::string at = n.name;
    while (auto t = find(at)) {
        if (in(chain, at)) {
            tree = node(Extend);
            sym_reach("circular inheritance");
            break;
        }
        chain.push_back(at);
        Node p = *t;
        at = p.name;
        p.name.clear();
        drop(p.meta, "id");
        put(p.meta, "ref", str(chain.back()));
        tree.has = true;
        tree.kids.insert(tree.kids.begin(), p);
        if (at.empty()) break;
    }
    Node e = expandMembers(tree, members);
    for (auto& m : n.meta)
        if (m.first == "id") put(e.meta, "id", m.second);
    members.pop_back();
    Node origin = expandMembers(n, members);
    drop(origin.meta, "id");
    e.has = true;
    e.kids.push_back(origin);
    sym_reach("named");
    return e;
}

// ---- generation
static std::string typeName(const char* what)
{
    std::string s = sym1(what);
    sym_assume(s[0] >= 'A' && s[0] <= 'C');
    return s;
}
static Node typed(Kind k, int naming = 2) // naming 0: never, 1: always, 2: either
{
    Node n = node(k);
    if (k == Ref) return refTo(typeName("symbol"));
    if (naming == 1 || (naming && sym_bool("typed"))) n.name = typeName("type");
    if (k == String || k == Null) {
        n.has = k == Null || sym_bool("has");
        if (n.has && k == String) n.s = sym1("s");
    }
    return n;
}
static Node entry() { return typed(pick({ String, Object, Ref })); }
static Node body(Kind k, size_t max)
{
    Node n = typed(k);
    if (k == String || k == Ref || k == Null) return n;
    size_t m = (size_t)sym_range("entries", 0, max);
    if (k == Enum) {
        if (m) {
            Node l = list(Array);
            for (size_t i = 0; i < m; ++i) l.kids.push_back(entry());
            n.attr.emplace_back("enumerations", l);
        }
        return n;
    }
    n.has = m > 0;
    for (size_t i = 0; i < m; ++i) n.kids.push_back(k == Object ? member(i ? "b" : "a", entry()) : entry());
    return n;
}
static bool same2(const Node& a, const Node& b) { return same(a, b) != 0; }
static void run(const Node& n)
{
    Registry r;
    for (auto& t : types) r.add(build(t.second));
    auto e = build(n);
    IsExpandableVisitor is;
    VisitBy(*e, is);
    sym_assert(is.get() == expandable(n), "expandable exactly when it uses a named type or a reference");
    Node want;
    bool circular = false, thrown = false;
    Names members;
    try {
        want = expand(n, members);
    } catch (const Circular&) {
        circular = true;
    }
    std::unique_ptr<IElement> got;
    ExpandVisitor v(r);
    try {
        VisitBy(*e, v);
        got = v.get();
    } catch (const snowcrash::Error& err) {
        thrown = true;
        sym_assert(err.code == snowcrash::MSONError, "a circular mixin is reported as an MSON error");
    }
    sym_assert(thrown == circular, "an error exactly when a type mixes itself in");
    if (circular) sym_reach("circular mixin");
    if (thrown || circular) return;
    sym_assert(same2(read(got.get()), want), "the expansion is the inheritance chain of every named type, outermost base first, followed by the element itself");
    sym_observe("expanded", !!got);
    sym_assert(is.get() || !got || n.k == Enum, "nothing is expanded where there is nothing to expand");
    sym_assert(same2(read(e.get()), n), "the element expanded is unchanged");
    for (auto& t : types) {
        auto f = r.find(t.first);
        sym_assert(f && same2(read(f), t.second), "the registered types are unchanged");
        sym_assert(!got || disjoint(got.get(), f), "the expansion shares nothing with the registry");
    }
    sym_assert(!got || disjoint(got.get(), e.get()), "the expansion shares nothing with the element");
    sym_reach("done");
}
static void type(const char* name, Node n)
{
    n.meta.insert(n.meta.begin(), { "id", str(name) });
    types.emplace_back(name, n);
}
// the element varies, the types are simple
HARNESS(elements)
{
    types.clear();
    Node a = list(Object, member("m", str("1")));
    a.meta.emplace_back("description", str("d"));
    a.attr.emplace_back("x", boolean(true));
    type("A", a);
    Node b = node(Object);
    b.name = "A";
    type("B", b);
    Kind k = pick({ Null, String, Ref, Object, Array, Extend, Option, Select, Enum, Member, Holder });
    Node n;
    switch (k) {
        case Holder: n = node(k); break;
        case Member: n = list(Member, sym_bool("typedkey") ? entry() : str("k"), sym_bool("value") ? entry() : Node()); break;
        case Option: n = list(Option, member("o", entry())); break;
        case Select:
            n = node(Select);
            n.has = sym_bool("options");
            if (n.has) n.kids = { list(Option, member("o", entry())), list(Option, member("p", str("s"))) };
            break;
        case Enum:
            n = body(k, 1);
            n.has = sym_bool("content");
            if (n.has && sym_bool("set")) n.kids.push_back(entry());
            break;
        case Extend:
            n = list(Extend, entry());
            break;
        default: n = body(k, BOUND(1, 2));
    }
    if (sym_bool("id")) n.meta.emplace_back("id", str("I"));
    if (sym_bool("attr")) n.attr.emplace_back("samples", list(Array));
    if (k == Select) n.attr.clear();
    run(n);
}
// the types vary, the element is of a named type
HARNESS(registry)
{
    types.clear();
    type("A", body(pick({ Array, String, Enum, Object }), 1));
    Node b = list(Object, member("m", typed(pick({ String, Ref }), 1)));
    if (sym_bool("inherits")) b.name = typeName("type");
    type("B", b);
    Node n = typed(pick({ Object, Ref }), 1);
    run(n);
}
HARNESS(chains)
{
    types.clear();
    const char* names[] = { "A", "B", "C" };
    for (int i = 0; i < 3; ++i) {
        Node t = typed(Object);
        if (sym_bool("member")) {
            Node v = node(Object);
            v.name = typeName("type");
            t.has = true;
            t.kids.push_back(member("m", v));
        }
        type(names[i], t);
    }
    run(typed(Object, 1));
}
