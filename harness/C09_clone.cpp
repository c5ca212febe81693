//@ bound: trees of every kind with up to 2 children per container (1 level below), one attribute, an id and one further meta entry in either order, symbolic one-byte values; all 32 combinations of clone flags
#include "elem.h"
using namespace model;
#define EVERY { Null, String, Number, Bool, Ref, Array, Object, Extend, Option, Enum, Holder, Member, Select }

static Node decorated(const Node& base)
{
    Node n = base;
    if (sym_bool("named")) n.name = sym1("name");
    if (sym_bool("attr")) n.attr.emplace_back(sym1("akey"), value(String));
    size_t meta = sym_range("meta", 0, 4); // none, id, other, both in either order
    if (meta == 1 || meta == 3) n.meta.emplace_back("id", value(String));
    if (meta >= 2) n.meta.emplace_back(sym1("mkey"), list(Array, value(Bool)));
    if (meta == 4) n.meta.emplace_back("id", value(String));
    return n;
}
static Node expected(const Node& n, int flags)
{
    Node w = node(n.k);
    if (flags & IElement::cElement) w.name = n.name;
    if (flags & IElement::cAttributes) w.attr = n.attr;
    if (flags & IElement::cMeta)
        for (auto& m : n.meta)
            if (!((flags & IElement::cNoMetaId) && m.first == "id")) w.meta.push_back(m);
    if ((flags & IElement::cValue) && n.has) {
        w.has = true;
        w.s = n.s;
        w.b = n.b;
        w.kids = n.kids;
    }
    return w;
}
static void overwrite(IElement& e)
{
    e.element("x");
    e.meta().clear();
    e.meta().set("other", from_primitive("v"));
    e.attributes().set("other", make_element<NullElement>());
}
HARNESS(flags)
{
    Node n = decorated(any(EVERY, { String }, 0, 1));
    sym_assume(n.name != "");
    int f = (int)sym_range("flags", 0, 31);
    auto e = build(n);
    auto c = e->clone(f);
    sym_assert(is(*c, expected(n, f)), "a clone holds exactly the requested parts");
    sym_assert(is(*e, n), "cloning leaves the original as it was");
    sym_assert(disjoint(e.get(), c.get()), "a clone shares no element with its original");
    overwrite(*e);
    sym_assert(is(*c, expected(n, f)), "changing the original leaves the clone as it was");
    if (f == IElement::cAll) sym_reach("all");
    if (f == 31) sym_reach("all without id");
}
static void deep(const Node& n)
{
    auto e = build(n);
    auto c = refract::clone(*e);
    sym_assert(is(*c, n) && *c == *e, "a full clone is equal to its original");
    sym_assert(disjoint(e.get(), c.get()), "a full clone shares no element with its original");
    e.reset();
    sym_assert(is(*c, n), "a clone outlives its original");
    sym_reach("deep");
}
HARNESS(trees) { deep(any(EVERY, { Object, Array, Enum, Member, Bool }, 1, 2)); }
//@ unit decorated_trees time=40
HARNESS(decorated_trees)
{
    Node n = any({ Array, Object, Extend, Option, Select, Enum, Holder }, { String, Array }, 1, 1);
    deep(decorated(n));
}
template <typename E>
static void copies(const Node& n, const Node& m)
{
    auto a = build(n), b = build(m);
    E& x = static_cast<E&>(*a);
    E& y = static_cast<E&>(*b);
    E copy(x);
    sym_assert(is(copy, n) && disjoint(&copy, &x), "a copy is equal and independent");
    y = x;
    sym_assert(is(y, n) && is(x, n) && disjoint(&y, &x), "an assigned copy is equal and independent");
    y = *&y;
    sym_assert(is(y, n), "self-assignment changes nothing");
    E moved(std::move(copy));
    sym_assert(is(moved, n), "moving keeps everything");
    E target;
    target = std::move(moved);
    sym_assert(is(target, n), "move assignment keeps everything");
    overwrite(x);
    if (!x.empty()) x.set();
    sym_assert(is(y, n) && is(target, n), "changing the original leaves its copies as they were");
    if (n.has && m.has) {
        auto c = build(m);
        static_cast<E&>(*c).set(static_cast<E&>(target).get());
        Node w = m;
        w.s = n.s;
        w.b = n.b;
        w.kids = n.kids;
        sym_assert(is(*c, w), "setting content replaces content only");
        sym_reach("set");
    }
}
HARNESS(copying)
{
    Kind k = pick(EVERY);
    Node n = any({ k }, { String, Array }, 0, 2), m = any({ k }, { Bool }, 0, 1);
    if (sym_bool("info")) {
        n.attr.emplace_back("a", value(String));
        m.meta.emplace_back("id", value(String));
    }
    switch (k) {
        case Null: return copies<NullElement>(n, m);
        case String: return copies<StringElement>(n, m);
        case Number: return copies<NumberElement>(n, m);
        case Bool: return copies<BooleanElement>(n, m);
        case Ref: return copies<RefElement>(n, m);
        case Array: return copies<ArrayElement>(n, m);
        case Object: return copies<ObjectElement>(n, m);
        case Extend: return copies<ExtendElement>(n, m);
        case Option: return copies<OptionElement>(n, m);
        case Enum: return copies<EnumElement>(n, m);
        case Holder: return copies<HolderElement>(n, m);
        case Member: return copies<MemberElement>(n, m);
        case Select: return copies<SelectElement>(n, m);
        default: return;
    }
}
