//@ all: time=90
//@ bound: a member with any of 14 types (base, named, inherited, undefined), up to 2 values, up to 2 sections of 5 kinds and 1 item each (thorough 2), up to 2 nested types, any type attributes; text of 1 symbolic octet
//@ outside: numbers other than 7 (C38)
#include "mson.h"
using namespace mm;
namespace
{
    std::string text()
    {
        std::string s = sym_str_n("text", 1);
        sym_assume((unsigned)(s[0] - '0') > 9u);
        return s;
    }
    std::string text(Kind k)
    {
        if (k == Number) return sym_bool("valid") ? "7" : "x";
        if (k == Bool) return sym_bool("valid") ? (sym_bool("true") ? "true" : "false") : "no";
        return sym_str_n("text", 1);
    }
    mson::TypeAttributes use()
    {
        static const mson::TypeAttributes a[] = { 0, mson::SampleTypeAttribute, mson::DefaultTypeAttribute, mson::SampleTypeAttribute | mson::DefaultTypeAttribute };
        return a[sym_range("use", 0, BOUND(2, 3))];
    }
}
// every attribute of a type with every other
HARNESS(attributes)
{
    maps() = sym_bool("maps");
    static const char* const types[] = { "string", "array", "enum", "object" };
    Item m(types[sym_range("type", 0, 3)]);
    for (int i = 0; i < 7; ++i)
        if (sym_bool("attribute")) m.type().attributes |= 1 << i;
    if (sym_bool("value")) m.value("v");
    bool property = sym_bool("property");
    if (property) m.named("n");
    agree(m.element(property), m.map(property));
}
// the type of a member: its own, that of the named one, or what its parts tell
HARNESS(kinds)
{
    maps() = sym_bool("maps");
    static const char* const types[] = { "", "boolean", "string", "number", "array", "enum", "object", "S", "N", "E", "L", "O", "D", "U" };
    const char* t = types[sym_range("type", 0, 13)];
    Item m(t);
    for (int n = sym_range("values", 0, 2); n; --n) m.value(n == 1 ? text() : "7");
    bool members = sym_bool("members");
    if (!*t && members) m.type().baseType = mson::ImplicitObjectBaseType;
    if (members) m.section(Section(MEMBERS).add(Item().named("k").value("v"), true));
    if (m.type().baseType == mson::ObjectBaseType && sym_bool("implicit")) m.type().baseType = mson::ImplicitObjectBaseType;
    if (sym_bool("described")) m.described("d");
    bool property = sym_bool("property");
    if (property) m.named("n");
    static const mson::BaseTypeName around[] = { mson::StringTypeName, mson::NumberTypeName, mson::BooleanTypeName };
    agree(m.element(property), m.map(property), around[sym_range("around", 0, 2)]);
}
namespace
{
    void nest(Item& m, int max)
    {
        static const char* const types[] = { "string", "number", "boolean", "array", "enum", "object", "S", "L", "U" };
        for (int n = sym_range("nested", 0, max); n; --n)
            m.type().typeSpecification.nestedTypes.push_back(type(types[n == 1 ? sym_range("type", 0, 8) : sym_range("type", 6, 8)], sym_bool("variable")));
    }
    Item item(bool full) // a member of an array or enumeration
    {
        switch (sym_range("item", 0, full || BOUND(0, 1) ? 5 : 2)) {
            case 0: return Item().value(text());
            case 1: return Item().value("7").described("d");
            case 2: return Item("number").value(sym_bool("valid") ? "7" : "x");
            case 3: return Item("S").value("s");
            case 4: return Item("object");
            default: {
                Item i("string");
                i.type().attributes = mson::FixedTypeAttribute | (sym_bool("nullable") ? mson::NullableTypeAttribute : 0);
                return i;
            }
        }
    }
    Section part(bool full)
    {
        switch (sym_range("part", 0, 3)) {
            case 0: return Section(BLOCK).text("p");
            case 1: {
                Section s(MEMBERS);
                for (int n = sym_range("items", 1, full ? 2 : 1); n; --n) s.add(n == 1 ? item(full) : Item().value("m"));
                return s;
            }
            default: {
                Section s(sym_bool("default") ? DEFAULT : SAMPLE);
                int n = sym_range("items", 0, full ? BOUND(1, 2) : 1);
                if (!n) s.text("t"); // no list of items
                for (; n; --n) s.add(n == 1 ? item(full) : Item().value("s"));
                return s;
            }
        }
    }
    void lists(const char* t, bool parts)
    {
        maps() = true;
        Item m(t);
        int sections = parts ? sym_range("sections", 0, 2) : 0;
        if (sections < 2 || BOUND(0, 1)) m.type().attributes = use();
        if (BOUND(0, 1) && sym_bool("described")) m.described("d");
        int values = sym_range("values", 0, BOUND(parts ? 1 : 2, 2));
        for (int n = 0; n < values; ++n) { // the known one is a member too
            int k = sym_range("value", parts ? BOUND(1, 0) : 0, n ? 2 : 3);
            m.value(k == 0 ? "7" : k == 1 ? "m" : text(), k == 3);
        }
        if (parts)
            for (int n = sections; n; --n) m.section(part(n == 1));
        else {
            nest(m, BOUND(2 - values / 2, 2));
            if (sym_bool("members")) m.section(Section(MEMBERS).add(Item().value("7")));
        }
        agree(m.element(false), m.map(false));
    }
}
HARNESS(arrays) { lists("array", false); }
HARNESS(arrayParts) { lists("array", true); }
HARNESS(enums) { lists("enum", false); }
HARNESS(enumParts) { lists("enum", true); }
HARNESS(primitives)
{
    maps() = BOUND(1, 0) || sym_bool("maps");
    static const char* const types[] = { "string", "number", "boolean" };
    size_t t = sym_range("type", 0, 2);
    Kind k = based(type(types[t]).base);
    Item m(types[t]);
    m.type().attributes = use();
    if (sym_bool("value")) m.value(text(k), sym_bool("variable"));
    if (sym_bool("described")) m.described("d");
    for (int n = sym_range("sections", 0, 2); n; --n) {
        switch (sym_range("section", 0, 4)) {
            case 0: m.section(Section(BLOCK).text(n == 1 ? "p" : "q")); break;
            case 1: m.section(Section(SAMPLE).text(text(k))); break;
            case 2: m.section(Section(DEFAULT).text(text(k))); break;
            case 3: m.section(Section(sym_bool("default") ? DEFAULT : SAMPLE)); break;
            default: m.section(Section(MEMBERS).add(Item().value("m")));
        }
    }
    bool property = sym_bool("property");
    if (property) m.named(sym_str_n("name", 1));
    agree(m.element(property), m.map(property));
}
