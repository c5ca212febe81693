//@ all: time=60
//@ bound: extensions of 0..3 elements of every kind; objects of up to 2 members, references and selects each, symbolic one-byte keys; arrays and enumerations of up to 2 entries; one symbolic meta key and one symbolic attribute key per element
//@ assume: the enumerations attribute of an enum, where present, is an array with content
#include "elem.h"
#include <refract/Exception.h>
using namespace model;

// ---- reference
typedef std::vector<std::pair<std::string, Node> > Info;
static void put(Info& m, const std::string& k, const Node& v)
{
    for (auto& e : m)
        if (e.first == k) {
            e.second = v;
            return;
        }
    m.emplace_back(k, v);
}
static const Node* at(const Info& m, const char* k)
{
    for (auto& e : m)
        if (e.first == k) return &e.second;
    return nullptr;
}
static bool keyed(const Node& e, const std::string& key)
{
    return e.k == Member && e.kids.size() == 2 && e.kids[0].k == String && e.kids[0].s == key;
}
static bool replaces(const Node& old, const Node& m)
{
    if (m.k == Ref) return old.k == Ref && old.s == m.s;
    if (m.k != Member || m.kids[0].k != String) return false;
    if (old.k == Select) {
        for (auto& o : old.kids)
            for (auto& c : o.kids)
                if (keyed(c, m.kids[0].s)) return true;
        return false;
    }
    return keyed(old, m.kids[0].s);
}
static Node merge2(Node t, const Node& a)
{
    for (auto& m : a.meta)
        if (m.first != "id" && m.first != "prefix" && m.first != "namespace") put(t.meta, m.first, m.second);
    for (auto& m : a.attr)
        if (!(t.k == Enum && m.first == "enumerations")) put(t.attr, m.first, m.second);
    if (t.k == Enum)
        if (auto more = at(a.attr, "enumerations"))
            if (!more->kids.empty()) {
                if (auto have = at(t.attr, "enumerations")) {
                    Node e = *have;
                    for (auto& x : more->kids) {
                        for (size_t i = 0; i < e.kids.size(); ++i)
                            if (same(e.kids[i], x, false)) {
                                e.kids.erase(e.kids.begin() + i);
                                break;
                            }
                        e.kids.push_back(x);
                    }
                    put(t.attr, "enumerations", e);
                } else
                    put(t.attr, "enumerations", *more);
            }
    if (!a.has) return t;
    switch (t.k) {
        case Object:
            for (auto& m : a.kids) {
                t.has = true;
                size_t i = 0;
                while (i < t.kids.size() && !replaces(t.kids[i], m)) ++i;
                if (i < t.kids.size()) t.kids[i] = m;
                else t.kids.push_back(m);
            }
            break;
        case Array:
            for (auto& m : a.kids) {
                t.has = true;
                t.kids.push_back(m);
            }
            break;
        default:
            t.has = true;
            t.s = a.s;
            t.b = a.b;
            t.kids = a.kids;
    }
    return t;
}
static bool mergeable(Kind k) { return k == String || k == Number || k == Bool || k == Array || k == Object || k == Enum || k == Ref; }

static void check(const std::vector<Node>& parts)
{
    dsd::Extend e;
    for (auto& p : parts) e.push_back(build(p));
    Node want;
    bool error = false;
    for (size_t i = 0; i < parts.size() && !error; ++i) {
        if (i == 0) want = parts[0];
        else if (parts[i].k != want.k || !mergeable(want.k)) error = true;
        else want = merge2(want, parts[i]);
    }
    std::unique_ptr<IElement> got;
    bool thrown = false;
    try {
        got = e.merge();
    } catch (const LogicError&) {
        thrown = true;
    }
    sym_assert(thrown == error, "an error exactly when the parts are of different kinds or of a kind that cannot be merged");
    if (!thrown) {
        sym_assert(is(got.get(), want), "the merged element is the parts laid over one another, later over earlier");
        for (auto& p : e) sym_assert(disjoint(got.get(), p.get()), "the merged element shares nothing with the parts");
        sym_observe("children", got && want.kids.size());
        sym_reach(parts.size() > 1 ? "merged" : "one");
    } else
        sym_reach("error");
    for (size_t i = 0; i < parts.size(); ++i) sym_assert(is(e.begin()[i].get(), parts[i]), "the parts are unchanged");
}
#define ALL { Null, String, Number, Bool, Ref, Array, Object, Extend, Option, Enum, Holder, Member, Select }
static Node bare(Kind k)
{
    Node n = k <= Ref ? leaf(k) : node(k);
    return n;
}
HARNESS(kinds)
{
    std::vector<Node> p;
    for (size_t i = sym_range("n", 0, 3); i > 0; --i) p.push_back(i == 1 ? bare(pick({ String, Array, Enum })) : bare(pick(ALL)));
    check(p);
}
HARNESS(primitives)
{
    Kind k = pick({ String, Number, Bool, Ref });
    std::vector<Node> p;
    for (size_t i = sym_range("n", 2, 3); i > 0; --i) p.push_back(leaf(k));
    check(p);
}
static void info(Info& m, const char* special)
{
    switch (sym_range("info", 0, 3)) {
        case 1: m.emplace_back(sym1("key"), leaf(String)); break;
        case 2: m.emplace_back(special, leaf(String)); break;
        case 3:
            m.emplace_back("x", value(Bool));
            m.emplace_back(special, value(String));
            break;
    }
}
HARNESS(infos)
{
    Node a = node(pick({ String, Object, Enum, Array })), b = node(a.k);
    const char* special[] = { "id", "prefix", "namespace", "ref", "description", "title" };
    if (sym_bool("meta")) {
        const char* s = special[sym_range("special", 0, 5)];
        info(a.meta, s);
        info(b.meta, s);
    } else {
        info(a.attr, "y");
        info(b.attr, "y");
    }
    check({ a, b });
}
static Node property(int level)
{
    switch (sym_range("prop", 0, level ? 3 : 2)) {
        case 0: return member(sym1("k"), level ? value(String) : Node());
        case 1: return refTo(sym1("r"));
        case 2: { // a key that is itself an expanded named type
            Node m = member(list(Extend, value(String)), node(Bool));
            return m;
        }
        default: {
            Node s = node(Select);
            s.has = true;
            for (size_t i = sym_range("no", 1, 2); i > 0; --i) s.kids.push_back(list(Option, i == 1 ? member(sym1("k"), node(Bool)) : refTo(sym1("k"))));
            return s;
        }
    }
}
static Node object(int level, size_t max)
{
    Node o = node(Object);
    o.has = sym_bool("has");
    if (o.has)
        for (size_t i = sym_range("n", 0, max); i > 0; --i) o.kids.push_back(property(level));
    return o;
}
HARNESS(objects)
{
    Node a = object(1, 2), b = object(1, BOUND(1, 2));
    check({ a, b });
}
HARNESS(object_chains)
{
    std::vector<Node> p;
    for (int i = 0; i < 3; ++i) {
        Node o = node(Object);
        o.has = sym_bool("has");
        if (o.has)
            for (size_t j = sym_range("n", 0, i == 1 ? 2 : 1); j > 0; --j) o.kids.push_back(member(sym1("k"), value(Bool)));
        p.push_back(o);
    }
    check(p);
}
static Node items(size_t max)
{
    Node a = node(Array);
    a.has = sym_bool("has");
    if (a.has)
        for (size_t i = sym_range("n", 0, max); i > 0; --i) a.kids.push_back(sym_bool("nested") ? list(Array, value(String)) : leaf(String));
    return a;
}
HARNESS(arrays)
{
    std::vector<Node> p;
    for (size_t i = sym_range("parts", 2, 3); i > 0; --i) p.push_back(items(i == 3 ? 1 : 2));
    check(p);
}
static Node enumeration(size_t max)
{
    Node e = node(Enum), a = list(Array);
    for (size_t i = sym_range("n", 0, max); i > 0; --i) {
        a.kids.push_back(i == 1 ? leaf(pick({ String, Number })) : value(String));
        if (i == 1 && sym_bool("named")) a.kids.back().name = "T";
    }
    e.attr.emplace_back("enumerations", a);
    return e;
}
HARNESS(enumerations)
{
    check({ enumeration(2), enumeration(2) });
}
HARNESS(enums)
{
    std::vector<Node> p;
    for (size_t i = sym_range("parts", 2, 3); i > 0; --i) {
        Node e = node(Enum);
        if (sym_bool("enums")) e = enumeration(1);
        if (e.attr.empty() || i != 2) {
            e.has = sym_bool("has");
            if (e.has && sym_bool("set")) e.kids.push_back(value(String));
        }
        p.push_back(e);
    }
    check(p);
}
