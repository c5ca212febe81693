//@ all: time=60
//@ bound: trees of every kind up to depth 2 with up to 2 children; element names and keys of one symbolic octet
#include "elem.h"
#include <refract/ComparableVisitor.h>
#include <refract/Exception.h>
#include <refract/FilterVisitor.h>
#include <refract/Iterate.h>
#include <refract/Query.h>
#include <refract/TypeQueryVisitor.h>
#include <refract/Utils.h>
#include <refract/VisitorUtils.h>
using namespace model;
#define EVERY { Null, String, Number, Bool, Ref, Array, Object, Extend, Option, Enum, Holder, Member, Select }

struct Kinds { // which overload a visitor of elements is given
    int kind = -1;
    const IElement* at = nullptr;
#define ON(E, K)                                                                                                                           \
    void operator()(const E& e)                                                                                                            \
    {                                                                                                                                      \
        kind = K;                                                                                                                          \
        at = &e;                                                                                                                           \
    }
    ON(IElement, 100)
    ON(NullElement, Null) ON(StringElement, String) ON(NumberElement, Number) ON(BooleanElement, Bool) ON(RefElement, Ref)
    ON(ArrayElement, Array) ON(ObjectElement, Object) ON(ExtendElement, Extend) ON(OptionElement, Option) ON(EnumElement, Enum)
    ON(HolderElement, Holder) ON(MemberElement, Member) ON(SelectElement, Select)
};
struct Typed {
    template <typename E>
    const IElement* operator()(const E& e) { return &e; }
};
template <typename E>
static void casts(IElement* e, Kind own, Kind k)
{
    const IElement* c = e;
    sym_assert((TypeQueryVisitor::as<E>(e) != nullptr) == (own == k), "as<T> gives the element exactly when it is of that type");
    sym_assert(!(own == k) || static_cast<IElement*>(TypeQueryVisitor::as<E>(e)) == e, "as<T> gives the element itself");
    sym_assert((TypeQueryVisitor::as<const E>(c) != nullptr) == (own == k), "as<const T> gives the element exactly when it is of that type");
    sym_assert((refract::get<E>(e) != nullptr) == (own == k), "get<T> gives the element exactly when it is of that type");
    sym_assert((refract::get<const E>(c) != nullptr) == (own == k), "get<const T> gives the element exactly when it is of that type");
    sym_assert(TypeQueryVisitor::as<const E>((const IElement*)nullptr) == nullptr, "no element is of any type");
}
HARNESS(types)
{
    Kind k = pick(EVERY);
    Node n = k <= Ref ? leaf(k) : node(k);
    if (k > Ref) n.has = sym_bool("has");
    if (sym_bool("named")) n.name = sym1("name");
    auto e = build(n);
    Kinds v;
    VisitBy(*e, v);
    sym_assert(v.kind == k && v.at == e.get(), "an element is given to the visitor as its own type");
    Visit(v, *e);
    sym_assert(v.kind == 100 && v.at == e.get(), "an element seen through its interface is given as such");
    sym_assert(refract::visit(*e, Typed()) == e.get(), "visit applies the functor to the element");
    TypeQueryVisitor a, b;
    static const TypeQueryVisitor::ElementType T[] = { TypeQueryVisitor::Null, TypeQueryVisitor::String, TypeQueryVisitor::Number, TypeQueryVisitor::Boolean, TypeQueryVisitor::Ref,
        TypeQueryVisitor::Array, TypeQueryVisitor::Object, TypeQueryVisitor::Extend, TypeQueryVisitor::Option, TypeQueryVisitor::Enum, TypeQueryVisitor::Holder, TypeQueryVisitor::Member, TypeQueryVisitor::Select };
    VisitBy(*e, a);
    Visit(b, *e);
    sym_assert(a.get() == T[k] && b.get() == T[k], "the type query names the type of the element");
    for (int i = 0; i < 13; ++i) sym_assert((a.get() == T[i]) == (i == k), "types are told apart");
    casts<NullElement>(e.get(), k, Null);
    casts<StringElement>(e.get(), k, String);
    casts<NumberElement>(e.get(), k, Number);
    casts<BooleanElement>(e.get(), k, Bool);
    casts<RefElement>(e.get(), k, Ref);
    casts<ArrayElement>(e.get(), k, Array);
    casts<ObjectElement>(e.get(), k, Object);
    casts<ExtendElement>(e.get(), k, Extend);
    casts<OptionElement>(e.get(), k, Option);
    casts<EnumElement>(e.get(), k, Enum);
    casts<HolderElement>(e.get(), k, Holder);
    casts<MemberElement>(e.get(), k, Member);
    casts<SelectElement>(e.get(), k, Select);
    sym_reach("typed");
}

// ---- iteration
typedef std::vector<const IElement*> Elements;
static bool iterable(Kind k) { return k == Array || k == Object || k == Extend || k == Option || k == Select; }
static Elements childrenOf(const IElement* e)
{
    Elements r;
    if (e->empty()) return r;
    auto all = [&](auto& c) {
        for (auto& k : c) r.push_back(k.get());
    };
    switch (kindOf(*e)) {
        case Array: all(static_cast<const ArrayElement*>(e)->get()); break;
        case Object: all(static_cast<const ObjectElement*>(e)->get()); break;
        case Extend: all(static_cast<const ExtendElement*>(e)->get()); break;
        case Option: all(static_cast<const OptionElement*>(e)->get()); break;
        case Select: all(static_cast<const SelectElement*>(e)->get()); break;
        case Member: {
            auto& m = static_cast<const MemberElement*>(e)->get();
            if (m.key()) r.push_back(m.key());
            if (m.value()) r.push_back(m.value());
            break;
        }
        default: break;
    }
    return r;
}
static void preorder(const IElement* e, Elements& out)
{
    out.push_back(e);
    for (auto c : childrenOf(e)) preorder(c, out);
}
struct Collect {
    Elements seen;
    template <typename E>
    void operator()(const E& e) { seen.push_back(&e); }
};
static Node tree(int depth)
{
    Node n;
    switch (sym_range("shape", 0, depth ? 7 : 1)) {
        case 0: return leaf(String);
        case 1: return value(Bool);
        case 2: n = node(Array); break;
        case 3: n = node(Object); break;
        case 4: n = node(pick({ Extend, Option })); break;
        case 5: {
            n = node(Select);
            n.has = true;
            if (sym_bool("opt")) n.kids.push_back(list(Option, tree(depth - 1)));
            return n;
        }
        case 6: return list(Member, sym_bool("key") ? leaf(String) : Node(), sym_bool("value") ? tree(depth - 1) : Node());
        case 7: return sym_bool("holder") ? list(Holder, leaf(String)) : list(Enum, leaf(String));
    }
    n.has = sym_bool("has");
    if (n.has)
        for (size_t i = sym_range("n", 0, 2); i > 0; --i) n.kids.push_back(tree(i == 1 ? depth - 1 : 0));
    return n;
}
HARNESS(iteration)
{
    Node n = tree(2);
    auto e = build(n);
    Elements want;
    preorder(e.get(), want);
    Collect all, kids;
    {
        Iterate<> i(all);
        i(*e);
    }
    sym_assert(all.seen == want, "recursive iteration visits every element once, parents before their children and children in order");
    {
        Iterate<Children> i(kids);
        i(*e);
    }
    Elements level;
    if (iterable(n.k)) level = childrenOf(e.get());
    sym_assert(kids.seen == level, "iteration over children visits exactly the children in order");
    sym_observe("visited", all.seen.size());
    sym_reach(level.empty() ? "leaf" : "children");
}
HARNESS(filter)
{
    Node n = node(pick({ Array, Object, Extend, Option }));
    n.has = true;
    for (size_t i = sym_range("n", 0, 2); i > 0; --i) {
        Node c = sym_bool("deep") ? list(Array, value(String)) : value(String);
        c.name = sym1("name");
        if (c.kids.size()) c.kids[0].name = sym1("inner");
        n.kids.push_back(c);
    }
    if (sym_bool("rootname")) n.name = sym1("name");
    std::string wanted = sym_bool("default") ? defaultName(n.k) : sym1("wanted");
    auto e = build(n);
    Elements all, want, level;
    preorder(e.get(), all);
    for (auto x : all)
        if (::ref::eq(x->element(), wanted)) want.push_back(x);
    for (auto x : childrenOf(e.get()))
        if (::ref::eq(x->element(), wanted)) level.push_back(x);
    FilterVisitor f{ query::Element(wanted) };
    {
        Iterate<> i(f);
        i(*e);
    }
    sym_assert(f.elements() == want && f.empty() == want.empty(), "the filter selects exactly the elements of that name, in order");
    FilterVisitor g{ query::Element(wanted) };
    {
        Iterate<Children> i(g);
        i(*e);
    }
    sym_assert(g.elements() == level && g.empty() == level.empty(), "filtered children are exactly the children of that name");
    sym_reach(want.empty() ? "none" : "some");
}

// ---- lookup of members by key
HARNESS(comparable)
{
    std::string s = sym_str("text", 0, 1);
    Node key = value(String), val = value(String);
    bool hasKey = sym_bool("key"), hasValue = sym_bool("value");
    Node m = list(Member, hasKey ? key : Node(), hasValue ? val : Node());
    auto e = build(m);
    ComparableVisitor byKey(s, ComparableVisitor::key), byValue(s);
    VisitBy(*e, byKey);
    VisitBy(*e, byValue);
    sym_assert(byKey.get() == (hasKey && ::ref::eq(key.s, s)), "a member compares by key");
    sym_assert(byValue.get() == (hasValue && ::ref::eq(val.s, s)), "a member compares by value");
    Node o = leaf(pick({ String, Number, Bool, Null }));
    auto x = build(o);
    ComparableVisitor k(s, ComparableVisitor::key), v(s);
    VisitBy(*x, k);
    VisitBy(*x, v);
    sym_assert(!k.get(), "only members have a key");
    if (o.k == String && o.has) sym_assert(v.get() == (::ref::eq(o.s, s) != 0), "a string compares by its text");
    else if (o.k != String) sym_assert(!v.get(), "other elements never equal a text");
    sym_reach("compared");
}
HARNESS(find_member)
{
    Node o = node(Object);
    o.has = true;
    for (size_t i = sym_range("n", 0, 3); i > 0; --i) {
        switch (i == 3 ? 0 : sym_range("child", 0, 3)) {
            case 0: o.kids.push_back(member(sym1("k"), value(Bool))); break;
            case 1: o.kids.push_back(refTo(sym1("k"))); break;
            case 2: o.kids.push_back(list(Select, list(Option, member(sym1("k"), Node())))); break;
            case 3: o.kids.push_back(list(Member, Node(), value(String))); break;
        }
    }
    std::string name = sym1("wanted");
    auto e = build(o);
    const IElement* want = nullptr;
    size_t i = 0;
    for (auto& c : static_cast<ObjectElement&>(*e).get()) {
        auto& k = o.kids[i++];
        if (!want && k.k == Member && k.kids[0] && ::ref::eq(k.kids[0].s, name)) want = c.get();
    }
    const IElement* got = FindMemberByKey(static_cast<const ObjectElement&>(*e), name);
    sym_assert(got == want, "the first member with that key is found");
    sym_reach(want ? "found" : "missing");
}
