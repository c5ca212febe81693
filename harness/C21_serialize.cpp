//@ all: time=60
//@ bound: trees of every kind up to depth 2 with up to 2 children; elements with up to 2 meta and attribute entries named sourceMap or any one-octet key, nested twice; with and without source maps
//@ assume: enums and holders with content hold an element, members a key
#include "elem.h"
#include "sov.h"
#include <refract/SerializeSo.h>
using namespace model;
using sov::V;

static std::string nameOf(const Node& n) { return n.name.empty() ? defaultName(n.k) : n.name; }
static V expected(const Node& n, bool maps);
static V info(const std::vector<std::pair<std::string, Node> >& m, bool maps)
{
    V o(sov::Object);
    for (auto& e : m)
        if (maps || e.first != "sourceMap") o.kids.emplace_back(e.first, expected(e.second, maps));
    return o;
}
static V content(const Node& n, bool maps)
{
    switch (n.k) {
        case Null: return V(sov::Null);
        case String:
        case Ref: return V(sov::String, n.s);
        case Number: return V(sov::Number, n.s);
        case Bool: return V(n.b ? sov::True : sov::False);
        case Enum:
        case Holder: return expected(n.kids[0], maps);
        case Member: {
            V o(sov::Object);
            o.kids.emplace_back("key", expected(n.kids[0], maps));
            if (n.kids[1]) o.kids.emplace_back("value", expected(n.kids[1], maps));
            return o;
        }
        default: {
            V a(sov::Array);
            for (auto& k : n.kids) a.kids.emplace_back("", expected(k, maps));
            return a;
        }
    }
}
static V expected(const Node& n, bool maps)
{
    V o(sov::Object);
    o.kids.emplace_back("element", V(sov::String, nameOf(n)));
    V m = info(n.meta, maps);
    if (m.kids.size()) o.kids.emplace_back("meta", m);
    V a = info(n.attr, maps || nameOf(n) == "annotation");
    if (a.kids.size()) o.kids.emplace_back("attributes", a);
    if (n.has) o.kids.emplace_back("content", content(n, maps));
    return o;
}
static void check(const Node& n)
{
    bool maps = sym_bool("maps");
    auto e = build(n);
    auto v = serialize::renderSo(*e, maps);
    sym_assert(same(sov::read(v), expected(n, maps)), "the serialization states name, meta, attributes and content of every element, each once and in order");
    sym_assert(is(*e, n), "serializing leaves the element as it was");
    sym_reach(maps ? "with source maps" : "without source maps");
}
#define EVERY { Null, String, Number, Bool, Ref, Array, Object, Extend, Option, Enum, Holder, Member, Select }
static bool whole(const Node& n) // content as the parser builds it
{
    if ((n.k == Enum || n.k == Holder) && n.has && n.kids.empty()) return false;
    if (n.k == Member && (!n.has || !n.kids[0])) return false;
    for (auto& k : n.kids)
        if (k && !whole(k)) return false;
    return true;
}
HARNESS(trees)
{
    Node n = any(EVERY, { Object, Array, Enum, Member, Bool, Holder }, BOUND(1, 2), 2);
    sym_assume(whole(n));
    check(n);
}
HARNESS(leaves)
{
    Node n = any({ Array, Member, Enum, Extend, Select }, { Null, String, Number, Bool, Ref }, 0, 2);
    sym_assume(whole(n));
    if (n.kids.size()) n.kids[0] = leaf(pick({ Null, String, Number, Bool, Ref }));
    if (n.k == Select && n.kids.size()) n.kids[0] = list(Option, n.kids[0]);
    if (sym_bool("named")) n.name = sym_str_n("name", 2);
    check(n);
}
// an entry, itself with entries
static void entries(Node& n, int depth)
{
    for (size_t i = sym_range("entries", 0, depth ? 2 : 1); i > 0; --i) {
        Node v = depth ? value(String) : list(Array, value(Number));
        if (depth && i == 1) entries(v, depth - 1);
        auto& m = sym_bool("meta") ? n.meta : n.attr;
        std::string k = sym_bool("map") ? "sourceMap" : sym1("key");
        for (auto& o : m) sym_assume(o.first != k);
        m.emplace_back(k, v);
    }
}
//@ unit maps time=60
HARNESS(maps)
{
    Node n = node(pick({ String, Object, Member }));
    if (n.k == Member) {
        n = member("k", value(Bool));
        if (sym_bool("on the value")) entries(n.kids[1], 0);
    }
    if (sym_bool("annotation")) n.name = "annotation";
    entries(n, 1);
    Node m = list(Array, n);
    if (sym_bool("in an annotation")) {
        m = node(Array);
        m.name = "annotation";
        m.attr.emplace_back("a", n);
    }
    check(m);
}
