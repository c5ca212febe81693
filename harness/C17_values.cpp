//@ all: time=60
//@ bound: elements of every kind with or without content, samples and default attributes (absent, empty, one or two entries, of the same or another kind), up to 2 type attributes of any octet or a known name
//@ assume: the samples and enumerations attributes are arrays with content; the value of an enum or member asked for inheritance is present
#include "attrs.h"
#include "SourceAnnotation.h"
#include <refract/Registry.h>
#include <refract/VisitorUtils.h>
using namespace model;
static const IElement* realAttr(const IElement& e, const char* k)
{
    auto i = e.attributes().find(k);
    return i == e.attributes().end() ? nullptr : i->second.get();
}
static const IElement* realSample(const IElement& e)
{
    auto a = dynamic_cast<const ArrayElement*>(realAttr(e, "samples"));
    return a->get().begin()->get();
}

static void typeAttributes(Node& n)
{
    switch (sym_range("typeAttributes", 0, 4)) {
        case 1: n.attr.emplace_back("typeAttributes", node(Array)); break;
        case 2: n.attr.emplace_back("typeAttributes", str("fixed")); break;
        case 3: n.attr.emplace_back("typeAttributes", list(Array, str("nullable"))); break;
        case 4: {
            static const char* names[] = { "fixed", "fixedType", "required", "optional", "nullable", "sample" };
            Node a = list(Array);
            if (sym_bool("other")) a.kids.push_back(sym_bool("number") ? num("1") : node(String));
            a.kids.push_back(str(sym_bool("known") ? std::string(names[sym_range("which", 0, 5)]) : sym1("attr")));
            n.attr.emplace_back("typeAttributes", a);
        }
    }
}
HARNESS(type_attributes)
{
    Node n = leaf(pick({ String, Null }));
    if (sym_bool("noise")) n.attr.emplace_back("x", list(Array, str("fixed")));
    typeAttributes(n);
    auto e = build(n);
    sym_assert(hasFixedTypeAttr(*e) == ::model::typed(n, "fixed"), "fixed");
    sym_assert(hasFixedTypeTypeAttr(*e) == ::model::typed(n, "fixedType"), "fixedType");
    sym_assert(hasRequiredTypeAttr(*e) == ::model::typed(n, "required"), "required");
    sym_assert(hasOptionalTypeAttr(*e) == ::model::typed(n, "optional"), "optional");
    sym_assert(hasNullableTypeAttr(*e) == ::model::typed(n, "nullable"), "nullable");
    for (auto a : { "fixed", "fixedType", "required", "optional", "nullable" }) {
        sym_assert(hasTypeAttr(*e, a) == ::model::typed(n, a), "a type attribute is present exactly when listed");
        sym_assert(HasTypeAttribute(*e, a) == ::model::typed(n, a), "both queries agree");
    }
    std::string any = sym1("asked");
    sym_assume(any[0] != 0);
    sym_assert(hasTypeAttr(*e, any.c_str()) == ::model::typed(n, any) && HasTypeAttribute(*e, any) == ::model::typed(n, any), "any other name is present exactly when listed");
    if (!(n.attr.size() && n.attr.back().second.k == String)) { // adding
        std::string add = sym_bool("fixed") ? "fixed" : "nullable";
        Node want = n;
        bool had = ::model::typed(n, add);
        if (at(n.attr, "typeAttributes")) {
            if (!had) {
                want.attr.back().second.has = true;
                want.attr.back().second.kids.push_back(str(add));
            }
        } else
            want.attr.emplace_back("typeAttributes", list(Array, str(add)));
        if (!at(n.attr, "typeAttributes") || at(n.attr, "typeAttributes")->has) {
            if (add == "fixed") setFixedTypeAttribute(*e);
            else setTypeAttribute(*e, add);
            sym_assert(is(*e, want), "a type attribute is added once and nothing else changes");
            sym_reach(had ? "already set" : "set");
        }
    }
}
HARNESS(variable)
{
    Node n = sym_bool("member") ? member("k", str("v")) : value(String);
    switch (sym_range("var", 0, 4)) {
        case 1: n.attr.emplace_back("variable", boolean(sym_bool("is"))); break;
        case 2: n.attr.emplace_back("variable", node(Bool)); break;
        case 3: n.attr.emplace_back("variable", str("true")); break;
        case 4: n.attr.emplace_back("Variable", boolean(true)); break;
    }
    auto v = at(n.attr, "variable");
    bool want = v && v->k == Bool && v->has && v->b;
    auto e = build(n);
    sym_assert(isVariable(*e) == want && IsVariableProperty(*e) == want, "variable exactly when so marked");
    sym_reach(want ? "variable" : "constant");
}

// ---- samples, defaults and values
static void values(Node& n)
{
    Kind other = n.k == String ? Number : String;
    switch (sym_range("samples", 0, 4)) {
        case 1: n.attr.emplace_back("samples", list(Array)); break;
        case 2: n.attr.emplace_back("samples", list(Array, sym_bool("othersample") ? value(other) : leaf(n.k))); break;
        case 3: n.attr.emplace_back("samples", list(Array, value(n.k), value(n.k))); break;
        case 4: n.attr.emplace_back("samples", str("s")); break;
    }
    switch (sym_range("default", 0, 2)) {
        case 1: n.attr.emplace_back("default", leaf(n.k)); break;
        case 2: n.attr.emplace_back("default", value(other)); break;
    }
    if (sym_bool("nullable")) n.attr.emplace_back("typeAttributes", list(Array, str("nullable")));
}
template <typename E>
static void primitive(const IElement& x, const Node& n)
{
    auto& e = static_cast<const E&>(x);
    auto s = sampleOf(n), d = defaultOf(n);
    bool ds = s && s->k == n.k, dd = d && d->k == n.k;
    const IElement* wantSample = ds ? realSample(e) : nullptr;
    const IElement* wantDefault = dd ? realAttr(e, "default") : nullptr;
    sym_assert(GetSample<const E>(e) == wantSample, "the sample is the first one, when of the element's type");
    sym_assert(GetDefault<const E>(e) == wantDefault, "the default is that of the element, when of its type");
    const IElement* want = n.has ? &e : ds ? wantSample : dd ? wantDefault : ::model::typed(n, "nullable") ? nullptr : &e;
    sym_assert(GetValue<const E>()(e) == want, "the value is the content, else the sample, else the default, else null or empty");
    sym_assert(IsLiteral(e) == (n.k != Null && (n.has || ::model::typed(n, "fixed"))), "a literal is a primitive with content or a fixed one");
    sym_reach(want == &e ? "own" : want ? "other" : "null");
}
HARNESS(values)
{
    Node n = leaf(pick({ String, Number, Bool, Null }));
    if (n.k != Null) values(n);
    auto e = build(n);
    auto s = sampleOf(n), d = defaultOf(n);
    const IElement* ws = s ? realSample(*e) : nullptr;
    const IElement* wd = d ? realAttr(*e, "default") : nullptr;
    sym_assert(findFirstSample(*e) == ws, "the first sample is found whatever its type");
    sym_assert(findDefault(*e) == wd && hasDefault(*e) == (wd != nullptr), "the default is found whatever its type");
    const IElement* want = n.has ? e.get() : ws ? ws : wd;
    sym_assert(findValue(*e) == want, "the value is the content, else the first sample, else the default");
    sym_assert(definesValue(*e) == (want != nullptr), "a value is defined exactly when there is one");
    sym_assert(inheritsFixed(*e) == (n.k == Null || want), "a primitive inherits fixed exactly when it defines a value");
    switch (n.k) {
        case String: primitive<StringElement>(*e, n); break;
        case Number: primitive<NumberElement>(*e, n); break;
        case Bool: primitive<BooleanElement>(*e, n); break;
        default: primitive<NullElement>(*e, n);
    }
}
HARNESS(inherited)
{
    Node n;
    auto inner = [] {
        Node v = leaf(pick({ String, Null }));
        if (sym_bool("dflt")) v.attr.emplace_back("default", str("d"));
        return v;
    };
    auto fixed = [](const Node& v) { return v.k == Null || v.has || v.attr.size(); };
    bool want = true;
    switch (sym_range("what", 0, 6)) {
        case 0: n = node(Object); break;
        case 1:
            n = node(Array);
            n.has = sym_bool("has");
            if (sym_bool("sample")) n.attr.emplace_back("samples", list(Array, list(Array)));
            want = n.has || n.attr.size();
            break;
        case 2: {
            bool var = sym_bool("variable");
            n = member("k", inner());
            want = !var && fixed(n.kids[1]);
            if (var) n.attr.emplace_back("variable", boolean(true));
            break;
        }
        case 3:
            n = list(Enum, inner());
            want = fixed(n.kids[0]);
            break;
        case 4:
            n = node(pick({ Enum, Member }));
            if (sym_bool("dflt")) n.attr.emplace_back("default", list(Enum, str("d")));
            want = n.attr.size();
            break;
        case 5:
            n = list(Extend, inner());
            if (n.kids[0].k != Null && sym_bool("more")) {
                n.kids.push_back(value(n.kids[0].k));
                want = true;
            } else
                want = fixed(n.kids[0]);
            break;
        case 6: n = sym_bool("ref") ? refTo("A") : sym_bool("select") ? node(Select) : node(Option); break;
    }
    auto e = build(n);
    sym_assert(inheritsFixed(*e) == want, "fixed is inherited by exactly the elements bound to a value");
    sym_reach(want ? "inherits" : "open");
}
// ---- values of enumerations
static const Node* enumValue(const Node& n)
{
    auto s = sampleOf(n), d = defaultOf(n);
    if (s && s->k == Enum) return enumValue(*s);
    if (d && d->k == Enum) return enumValue(*d);
    if (n.has && n.kids.size()) return &n.kids[0];
    auto e = at(n.attr, "enumerations");
    if (e && e->k == Array && e->has)
        for (auto& i : e->kids) {
            if (i.k == Enum)
                if (auto r = enumValue(i)) return r;
            if (i.has) return &i;
        }
    return nullptr;
}
static Node enumeration(int depth)
{
    Node n = node(Enum);
    n.has = sym_bool("has");
    if (n.has && sym_bool("set")) n.kids.push_back(leaf(String));
    if (depth && sym_bool("sample")) n.attr.emplace_back("samples", list(Array, sym_bool("enum") ? enumeration(0) : value(String)));
    if (depth && sym_bool("default")) n.attr.emplace_back("default", enumeration(0));
    if (sym_bool("enums")) {
        Node l = list(Array);
        for (size_t i = sym_range("n", 0, depth ? 2 : 1); i > 0; --i) l.kids.push_back(depth && i == 2 && sym_bool("nested") ? enumeration(0) : leaf(String));
        n.attr.emplace_back("enumerations", l);
    }
    return n;
}
HARNESS(enum_values)
{
    Node n = enumeration(1);
    auto e = build(n);
    auto got = GetValue<EnumElement>()(static_cast<const EnumElement&>(*e));
    auto want = enumValue(n);
    sym_assert(!got == !want, "an enum has a value exactly when its sample, default, content or an enumeration gives one");
    if (got && want) sym_assert(is(got, *want), "the value of an enum is that of its sample, else default, else content, else first enumeration");
    if (want) sym_reach("value");
    else sym_reach("none");
}
// ---- adding
HARNESS(adding)
{
    Node n = leaf(pick({ String, Number })), want;
    bool enm = sym_bool("enum");
    const char* key = enm ? "enumerations" : "samples";
    if (sym_bool("noise")) n.attr.emplace_back("x", leaf(String));
    if (sym_bool("there")) {
        Node a = list(Array);
        for (size_t i = sym_range("n", 1, 2); i > 0; --i) a.kids.push_back(value(String));
        n.attr.emplace_back(key, a);
    }
    if (sym_bool("after")) n.attr.emplace_back("y", leaf(String));
    want = n;
    Node v = leaf(pick({ String, Bool }));
    bool found = false;
    for (auto& a : want.attr)
        if (a.first == key) {
            a.second.kids.push_back(v);
            found = true;
        }
    if (!found) want.attr.emplace_back(key, list(Array, v));
    auto e = build(n);
    if (enm) addEnumeration(*e, build(v));
    else addSample(*e, build(v));
    sym_assert(is(*e, want), "a sample or enumeration is added behind those already there");
    sym_reach(found ? "appended" : "created");
    Node d = leaf(String);
    setDefault(*e, build(d));
    want.attr.emplace_back("default", d);
    sym_assert(is(*e, want), "the default is set");
    setDefault(*e, build(v));
    want.attr.back().second = v;
    sym_assert(is(*e, want), "the default is replaced");
}
// ---- keys
HARNESS(keys)
{
    Node key = leaf(String);
    bool dflt = false;
    std::string want = key.s;
    bool sample = sym_bool("sample");
    if (sample) key.attr.emplace_back("samples", list(Array, value(String)));
    if (sym_bool("default")) dflt = true, key.attr.emplace_back("default", value(String));
    if (!key.has) want = sample ? key.attr[0].second.kids[0].s : dflt ? key.attr.back().second.s : "";
    if (sym_bool("extend")) {
        key = list(Extend, key);
        if (sym_bool("more")) {
            Node m = value(String);
            want = m.s;
            key.kids.push_back(m);
        }
        sym_reach("extended");
        Node m = list(Member, key, node(Bool));
        auto e = build(m);
        sym_assert(::ref::eq(GetKeyAsString(static_cast<MemberElement&>(*e)), want), "the key of a named type is its value, sample or default");
    } else {
        Node m = list(Member, key, node(Bool));
        auto e = build(m);
        sym_assert(::ref::eq(GetKeyAsString(static_cast<MemberElement&>(*e)), key.s), "the key is the text of its string");
        sym_reach("string");
    }
    auto k = build(key);
    sym_assert(::ref::eq(renderKey(*k), want), "the rendered key is the text, else the sample, else the default");
}
HARNESS(no_key)
{
    Node m = list(Member, sym_bool("key") ? leaf(pick({ Number, Bool, Null })) : Node(), value(String));
    auto e = build(m);
    sym_assert(GetKeyAsString(static_cast<MemberElement&>(*e)).empty(), "a member without a string key has no key text");
    sym_reach("no key");
}
HARNESS(lookups)
{
    Node n = node(pick({ String, Object }));
    switch (sym_range("desc", 0, 3)) {
        case 1: n.meta.emplace_back("description", leaf(String)); break;
        case 2: n.meta.emplace_back("description", value(Number)); break;
        case 3: n.attr.emplace_back("description", value(String)); break;
    }
    if (sym_bool("title")) n.meta.emplace_back("title", value(String));
    auto e = build(n);
    auto d = at(n.meta, "description");
    bool want = d && d->k == String;
    auto got = GetDescription(*e);
    sym_assert((got != nullptr) == want, "a description is found exactly when its meta entry is a string");
    if (got) sym_assert(is(got, *d), "the description found is that of the element");
    auto t = FindCollectionMemberValue<const StringElement>(e->meta(), "title");
    sym_assert((t != nullptr) == (at(n.meta, "title") != nullptr), "an entry is found by key and type");
    sym_assert(!FindCollectionMemberValue<const NumberElement>(e->meta(), "title"), "an entry of another type is not found");
    sym_reach(want ? "described" : "plain");
}
// ---- members of mixed in types
struct Gather {
    template <typename E>
    void operator()(const E& e, std::vector<const IElement*>& m) const { m.push_back(&e); }
};
HARNESS(mixins)
{
    Node r = refTo("A");
    bool circular = false;
    size_t want = 0;
    switch (sym_range("resolved", 0, 3)) {
        case 1: r.attr.emplace_back("resolved", node(Object)); want = 1; break;
        case 2: r.attr.emplace_back("resolved", node(pick({ Array, String, Ref }))); circular = true; break;
        case 3: {
            Node x = list(Extend);
            for (size_t i = sym_range("n", 0, 2); i > 0; --i) {
                bool bad = sym_bool("bad");
                x.kids.push_back(node(bad ? Array : Object));
                if (bad) circular = true;
                if (!circular) ++want;
            }
            r.attr.emplace_back("resolved", x);
        }
    }
    auto e = build(r);
    std::vector<const IElement*> got;
    bool thrown = false;
    try {
        HandleRefWhenFetchingMembers<ObjectElement>(*e, got, Gather());
    } catch (const snowcrash::Error& x) {
        thrown = true;
        sym_assert(x.code == snowcrash::MSONError, "a mixin of another kind is an MSON error");
    }
    sym_assert(thrown == circular, "an error exactly when the mixin is of another kind");
    sym_assert(got.size() == want, "every part of the mixin is handed over in order");
    sym_reach(thrown ? "mismatch" : "fetched");
}
// ---- numbers
HARNESS(numbers)
{
    static const int64_t edge[] = { 0, 1, -1, 2147483647, 2147483648ll, -2147483648ll, -2147483649ll, 9223372036854775807ll, (-9223372036854775807ll - 1) };
    int64_t v;
    if (sym_bool("edge")) v = edge[sym_range("which", 0, 8)];
    else v = (int64_t)(int16_t)sym_u64("v"), sym_assume(v > -1000 && v < 1000);
    dsd::Number n(v);
    sym_assert(static_cast<std::int64_t>(n) == v, "a number built from an integer converts back to it");
    std::string t = std::to_string(v);
    sym_assert(n.get() == t, "and reads as its decimal text");
    if (sym_bool("trailing")) t += "." + sym1("c");
    sym_assert(static_cast<std::int64_t>(dsd::Number(t)) == v, "what follows the integer is dropped");
    sym_assert(dsd::Number().get() == "0" && dsd::Number(t) == dsd::Number(t) && !(dsd::Number(t) != dsd::Number(t)), "numbers compare by text");
    sym_reach("converted");
}
