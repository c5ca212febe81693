//@ all: time=40
//@ bound: pairs of trees of every kind with up to 1 level of children (2 of a container), content, attributes and meta of one entry each, symbolic one-byte values and keys
#include "elem.h"
using namespace model;
#define EVERY { Null, String, Number, Bool, Ref, Array, Object, Extend, Option, Enum, Holder, Member, Select }

static void checkPair(const Node& a, const Node& b)
{
    auto x = build(a), y = build(b);
    int want = same(a, b, false);
    bool got = *x == *y;
    sym_observe("eq", got);
    sym_assert(got == (want != 0), "equal exactly when kind, content, attributes and meta are equal");
    sym_assert((*y == *x) == got, "equality is symmetric");
    sym_assert((*x != *y) == !got, "inequality is the negation");
    sym_assert(*x == *x && *y == *y, "equality is reflexive");
    if (got) sym_reach("equal");
    else sym_reach("different");
}
// all pairs of kinds, no children
HARNESS(kinds)
{
    Node a = any(EVERY, { String }, 0, 1), b = any(EVERY, { String }, 0, 1);
    if (sym_bool("rename")) b.name = sym1("name");
    checkPair(a, b);
}
// same kind: children differ in number, order, kind or content
#define PAIRS(K)                                                                                                                           \
    Node a = any({ K }, { String, Bool, Array }, 1, 2), b = any({ K }, { String, Bool, Array }, 1, 2);                                      \
    checkPair(a, b);
HARNESS(arrays) { PAIRS(Array) }
HARNESS(objects) { PAIRS(Object) }
HARNESS(extends) { PAIRS(Extend) }
HARNESS(options) { PAIRS(Option) }
HARNESS(enums) { PAIRS(Enum) }
HARNESS(holders) { PAIRS(Holder) }
HARNESS(members) { PAIRS(Member) }
HARNESS(selects) { PAIRS(Select) }
static void info(std::vector<std::pair<std::string, Node> >& v)
{
    for (size_t i = sym_range("ninfo", 0, 2); i > 0; --i) {
        std::string k = sym1("key");
        for (auto& o : v) sym_assume(!::ref::eq(o.first, k));
        v.emplace_back(k, leaf(pick({ String, Bool })));
    }
}
HARNESS(infos)
{
    Node a = node(pick({ String, Object })), b = node(a.k);
    if (sym_bool("meta")) {
        info(a.meta);
        info(b.meta);
    } else {
        info(a.attr);
        info(b.attr);
    }
    auto x = build(a), y = build(b);
    sym_assert((x->meta() == y->meta()) == (same(a, b, false) || a.attr.size() || b.attr.size()), "meta equality");
    checkPair(a, b);
}
