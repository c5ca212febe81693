//@ all: time=90
//@ bound: objects of up to 2 members, each a property, mixin or one-of of up to 2 options, groups of up to 2 members (thorough one level deeper); property names literal or variable of any of 9 types, up to 2 of them; data structures of any of 14 types with up to 2 sections and nested types
//@ outside: values of properties (C39)
#include "mson.h"
using namespace mm;
namespace
{
    const char* const types[] = { "", "string", "number", "boolean", "array", "enum", "object", "S", "N", "E", "L", "O", "D", "U" };
    struct Made {
        mson::Element e;
        ElementMap m;
    };
    Made prop()
    {
        Item i("number");
        if (sym_bool("unnamed")) i.p.name.literal = ""; // of another language
        else i.named(sym_str_n("name", 1));
        i.value("7");
        if (sym_bool("required")) i.type().attributes = mson::RequiredTypeAttribute;
        return { i.element(true), i.map(true) };
    }
    Made plain(const char* name)
    {
        Item i;
        i.named(name).value("v");
        return { i.element(true), i.map(true) };
    }
    Made mixin()
    {
        mson::Mixin x;
        x.typeSpecification.name = type(types[sym_range("type", 6, 7)]);
        Made r = { mson::Element(std::move(x)), ElementMap() };
        return r;
    }
    Made member(int depth);
    void put(mson::Elements& e, snowcrash::SourceMap<mson::Elements>& m, const Made& x)
    {
        e.push_back(x.e);
        if (maps()) m.collection.push_back(x.m);
    }
    Made oneOf(int depth)
    {
        mson::Elements e;
        Made r;
        for (int n = sym_range("options", 0, 2); n; --n) {
            if (sym_bool("group")) {
                mson::Elements g;
                ElementMap gm;
                for (int k = sym_range("members", 0, 2); k; --k) put(g, gm.elements(), k == 1 && depth ? member(depth - 1) : plain("g"));
                put(e, r.m.oneOf(), { mson::Element(mson::Element::GroupSection(g)), gm });
            } else
                put(e, r.m.oneOf(), n == 1 && depth ? member(depth - 1) : plain("o"));
        }
        r.e = mson::Element(mson::Element::OneOfSection(e));
        return r;
    }
    Made member(int depth)
    {
        switch (sym_range("member", 0, depth > 0 ? 2 : 1)) {
            case 0: return prop();
            case 1: return mixin();
            default: return oneOf(depth - 1);
        }
    }
}
HARNESS(members)
{
    maps() = sym_bool("maps");
    Made m = member(BOUND(2, 3));
    agree(m.e, m.m);
}
HARNESS(objects)
{
    maps() = sym_bool("maps");
    Item o("object");
    bool property = sym_bool("property");
    if (property) o.named("n");
    if (sym_bool("described")) o.described("d");
    for (int n = sym_range("sections", 0, property ? BOUND(1, 2) : 2); n; --n) {
        switch (sym_range("section", 0, 2)) {
            case 0: o.section(Section(BLOCK).text("p")); break;
            default: {
                static const mson::TypeSection::Class k[] = { MEMBERS, SAMPLE, DEFAULT };
                Section s(k[sym_range("class", 0, 2)]);
                for (int i = sym_range("members", 0, n == 1 ? 2 : BOUND(1, 2)); i; --i) {
                    Made m = i == 1 ? member(BOUND(0, 1)) : plain("p");
                    s.add(m.e, m.m);
                }
                o.section(s);
            }
        }
    }
    agree(o.element(property), o.map(property));
}
HARNESS(names)
{
    maps() = sym_bool("maps");
    Item i("string");
    i.value("v");
    if (sym_bool("literal")) i.named(sym_str("name", 0, 1));
    if (sym_bool("variable")) {
        i.m.name.sourceMap = fresh();
        auto& v = i.p.name.variable;
        for (int n = sym_range("values", 0, 2); n; --n) v.values.push_back(mm::Value(sym_str("name", 0, 1), sym_bool("variable")));
        v.typeDefinition.typeSpecification.name = type(types[sym_range("type", 0, 13)]);
        if (sym_bool("nullable")) v.typeDefinition.attributes = mson::NullableTypeAttribute;
    }
    agree(i.element(true), i.map(true));
}
HARNESS(structures)
{
    maps() = true;
    snowcrash::DataStructure d;
    snowcrash::SourceMap<snowcrash::DataStructure> m;
    if (sym_bool("named")) d.name = type(sym_bool("one") ? "Y" : "X y"), m.name.sourceMap = fresh();
    d.typeDefinition.typeSpecification.name = type(types[sym_range("type", 0, 13)]);
    m.typeDefinition.sourceMap = fresh();
    m.sourceMap = fresh();
    for (int n = sym_range("nested", 0, BOUND(1, 2)); n; --n) d.typeDefinition.typeSpecification.nestedTypes.push_back(type(types[n == 1 ? sym_range("type", 1, 13) : 13], n == 1 && sym_bool("variable")));
    if (BOUND(!d.name.empty(), sym_bool("attributes"))) d.typeDefinition.attributes = mson::FixedTypeAttribute | mson::NullableTypeAttribute;
    for (int n = sym_range("sections", 0, BOUND(1, 2)); n; --n) {
        Section s(BLOCK);
        switch (sym_range("section", 0, 2)) {
            case 0: s = Section(BLOCK).text(sym_bool("text") ? "p" : ""); break;
            case 1: s = Section(sym_bool("sample") ? SAMPLE : DEFAULT).text(BOUND(0, 1) && sym_bool("valid") ? "7" : "x"); break;
            default:
                s = Section(MEMBERS);
                for (int i = sym_range("items", 1, 2); i; --i) s.add(Item().value(i == 1 ? "a" : sym_bool("known") ? "a" : "b"));
        }
        d.sections.push_back(s.s);
        if (maps()) m.sections.collection.push_back(s.m);
    }
    World w;
    Expect x;
    if (d.empty()) {
        sym_assert(!drafter::MSONToRefract(drafter::MakeNodeInfo(d, m), w.ctx), "nothing is nothing");
        return;
    }
    Node want = structure(d, m, x);
    agree(w, want, x, [&]() { return drafter::MSONToRefract(drafter::MakeNodeInfo(d, m), w.ctx); });
}
