//@ all: time=60
//@ bound: values and names of up to 5 characters of every kind the rules tell apart (quick; 6 thorough) and 3 (4) arbitrary octets; type specifications with any base type or symbol of up to 2 characters, up to 2 nested types of any kind, or 4 (thorough 6) plain ones, each a name or a link, blanks around; lists of up to 3 type attributes
//@ outside: names holding brackets or commas
#include "ref.h"
#include "snowcrash.h"
#include "MSONUtility.h"
#include "SignatureSectionProcessor.h"
using namespace mson;
namespace
{
    int space(char c) { return (c == ' ') | ((unsigned)(c - 9) <= 4u); }
    // past the text enclosed by the run of marks at the beginning: its length, and where that text ends
    size_t enclosed(const std::string& s, size_t& n)
    {
        n = 1;
        while (n < s.size() && s[n] == s[0]) ++n;
        for (size_t q = n; q + n <= s.size(); ++q) {
            bool run = true;
            for (size_t i = 0; run && i < n; ++i) run = s[q + i] == s[0];
            if (run) return q;
        }
        return 0;
    }
    struct Meant {
        std::string literal;
        bool variable;
    };
    Meant value(const std::string& s)
    {
        Meant m = { s, false };
        size_t n, e;
        if (s.empty()) return m;
        if (((s[0] == '*') | (s[0] == '_')) && s[s.size() - 1] == s[0]) {
            m.variable = true;
            if ((e = enclosed(s, n))) m.literal = s.substr(n, e - n);
        } else if (s[0] == '`' && s[s.size() - 1] == '`' && (e = enclosed(s, n))) {
            m.literal = s.substr(n, e - n);
            snowcrash::TrimString(m.literal);
        }
        if (ref::eq(m.literal, "*")) m.literal = "", m.variable = true; // wildcard
        return m;
    }
    struct Doc {
        std::string src;
        snowcrash::Blueprint bp;
        snowcrash::SectionParserData pd;
        mdp::MarkdownNodes nodes;
        snowcrash::Report report;
        Doc() : pd(0, src, bp), nodes(1) {}
    };
    const char* bases[] = { "boolean", "string", "number", "array", "enum", "object" };
    const BaseTypeName names[] = { BooleanTypeName, StringTypeName, NumberTypeName, ArrayTypeName, EnumTypeName, ObjectTypeName };
    struct Type {
        std::string text, literal; // as written, as meant
        BaseTypeName base = UndefinedTypeName;
        bool variable = false;
    };
    Type type(bool brackets = false)
    {
        Type t;
        size_t k = sym_range("base", 0, 7);
        if (k < 6) {
            t.text = bases[k], t.base = names[k];
            return t;
        }
        t.text = sym_str_from("symbol", 1, 2, "aB");
        t.literal = t.text;
        if (k == 7) { // a variable one
            t.variable = true;
            t.text = "*" + t.text + "*";
        }
        return t;
    }
    bool same(const TypeName& n, const Type& t) { return n.base == t.base && ref::eq(n.symbol.literal, t.literal) && n.symbol.variable == t.variable; }
    std::string blank() { return sym_bool("blank") ? " " : ""; }
}
HARNESS(value)
{
    std::string s = sym_bool("octets") ? sym_str("value", 0, BOUND(3, 4)) : sym_str_from("value", 0, BOUND(5, 6), "a*_` ");
    Value v = parseValue(s);
    Meant m = value(s);
    sym_reach("value");
    sym_assert(v.variable == m.variable, "a value is variable when it is emphasized or a wildcard");
    sym_assert(ref::eq(v.literal, m.literal), "a value is the text inside its emphasis or backticks");
    Symbol y = parseSymbol(s);
    sym_assert(y.variable == v.variable && ref::eq(y.literal, v.literal), "a symbol reads as a value does");
    TypeName t;
    parseTypeName(s, t, false);
    sym_assert(t.base == UndefinedTypeName && ref::eq(t.symbol.literal, v.literal), "a name of a type is a symbol");
}
HARNESS(base)
{
    size_t k = sym_range("base", 0, 6);
    std::string s = k < 6 ? bases[k] : "";
    if (sym_bool("other")) { // one octet changed, or one more
        size_t at = sym_range("at", 0, s.size());
        char c = (char)sym_u8("octet");
        if (at < s.size()) {
            sym_assume(c != s[at]);
            s[at] = c;
        } else s += c;
        if (!s.empty()) sym_assume((s[0] != '*') & (s[0] != '_') & (s[0] != '`'));
        k = 6;
    }
    TypeName t;
    parseTypeName(s, t);
    sym_reach("base");
    sym_assert(t.base == (k < 6 ? names[k] : UndefinedTypeName), "only the name of a base type is one");
    sym_assert(ref::eq(t.symbol.literal, k < 6 ? "" : s), "any other name is a symbol");
    BaseType b = parseBaseType(t.base);
    sym_assert(b == (k < 3 ? PrimitiveBaseType : k < 5 ? ValueBaseType : k == 5 ? ObjectBaseType : UndefinedBaseType), "types are primitive, values or objects");
}
HARNESS(specification)
{
    Type name = type(), nested[2];
    int n = (int)sym_range("nested", 0, 2);
    std::string s = name.text + blank();
    bool link[2] = {};
    if (n) {
        s += "[";
        for (int i = 0; i < n; ++i) {
            nested[i] = type();
            link[i] = sym_bool("link");
            if (i) s += "," + blank();
            s += link[i] ? "[" + nested[i].text + "]" + (sym_bool("target") ? "(b)" : "[]") : nested[i].text;
        }
        s += "]";
    } else if (sym_bool("link")) s = "[" + name.text + (sym_bool("target") ? "](b)" : "][]");
    TypeSpecification t;
    parseTypeSpecification(s, t);
    sym_reach(n ? "nested" : "plain");
    sym_assert(same(t.name, name), "the name of a type is what comes before its brackets, or the text of a link");
    sym_assert((int)t.nestedTypes.size() == n, "every nested type counts once");
    for (int i = 0; i < n && i < (int)t.nestedTypes.size(); ++i) sym_assert(same(t.nestedTypes[i], nested[i]), "nested types are in order, links read as their text");
}
HARNESS(nested) // names and links in every order
{
    std::string s = "array[";
    int n = (int)sym_range("nested", 1, BOUND(4, 6));
    for (int i = 0; i < n; ++i) {
        std::string t(1, (char)('A' + i));
        if (i) s += ",";
        switch (sym_range("kind", 0, 2)) {
            case 0: s += t; break;
            case 1: s += "[" + t + "][]"; break;
            default: s += "[" + t + "](b)"; break;
        }
    }
    s += "]";
    TypeSpecification t;
    parseTypeSpecification(s, t);
    sym_reach("nested");
    sym_assert(t.name.base == ArrayTypeName && (int)t.nestedTypes.size() == n, "every nested type counts once");
    for (int i = 0; i < n; ++i) sym_assert(ref::eq(t.nestedTypes[i].symbol.literal, std::string(1, (char)('A' + i))), "nested types are in order, links read as their text");
}
HARNESS(definition)
{
    const char* words[] = { "required", "optional", "fixed", "sample", "default", "nullable", "fixed-type" };
    const TypeAttribute bits[] = { RequiredTypeAttribute, OptionalTypeAttribute, FixedTypeAttribute, SampleTypeAttribute, DefaultTypeAttribute, NullableTypeAttribute, FixedTypeTypeAttribute };
    const char* types[] = { "object", "string", "enum[A]", "A", "B[string]", "C", "*D*" };
    const BaseType base[] = { ObjectBaseType, PrimitiveBaseType, ValueBaseType, ObjectBaseType, ValueBaseType, UndefinedBaseType, UndefinedBaseType };
    Doc d;
    d.pd.namedTypeBaseTable["A"] = ObjectBaseType;
    d.pd.namedTypeBaseTable["B"] = ValueBaseType;
    d.pd.namedTypeDependencyTable["A"], d.pd.namedTypeDependencyTable["B"], d.pd.namedTypeDependencyTable["N"];
    d.pd.namedTypeContext = "N";
    std::vector<std::string> attributes;
    unsigned want = 0, ignored = 0;
    int found = -1;
    size_t n = sym_range("attributes", 0, BOUND(2, 3));
    for (size_t i = 0; i < n; ++i) {
        size_t k = sym_range("attribute", 0, 13);
        if (k < 7) attributes.push_back(words[k]), want |= bits[k];
        else {
            attributes.push_back(types[k - 7]);
            if (found < 0) found = (int)k - 7;
            else ++ignored;
        }
    }
    TypeDefinition t;
    parseTypeDefinition(d.nodes.begin(), d.pd, attributes, d.report, t);
    sym_reach("definition");
    sym_assert(t.attributes == want, "each type attribute is taken for what it is");
    sym_assert(t.baseType == (found < 0 ? UndefinedBaseType : base[found]), "the base type is that of the named type, wherever it comes from");
    bool unnested = found == 4 ? false : false;
    sym_assert(d.report.warnings.size() == ignored + unnested, "only the first type counts, others are reported");
    sym_assert((d.report.error.code != snowcrash::Error::OK) == (found == 5), "a type that is not there is an error");
    if (found >= 0) sym_assert(t.typeSpecification.name.symbol.variable == (found == 6), "an emphasized type is variable");
}
HARNESS(unnested) // nested types of what holds none
{
    const char* types[] = { "object", "string", "enum", "array", "A", "B", "*D*" };
    const bool holds[] = { false, false, true, true, false, true, false };
    Doc d;
    d.pd.namedTypeBaseTable["A"] = ObjectBaseType;
    d.pd.namedTypeBaseTable["B"] = ValueBaseType;
    d.pd.namedTypeDependencyTable["A"], d.pd.namedTypeDependencyTable["B"];
    size_t k = sym_range("type", 0, 6);
    bool nested = sym_bool("nested");
    TypeDefinition t;
    parseTypeDefinition(d.nodes.begin(), d.pd, { types[k] + std::string(nested ? "[string]" : "") }, d.report, t);
    sym_reach("unnested");
    bool warned = d.report.warnings.size() == 1 && d.report.warnings[0].code == snowcrash::LogicalErrorWarning;
    sym_assert(warned == (nested && !holds[k]) && d.report.warnings.size() <= 1, "nested types are for arrays and enums");
}
HARNESS(property) // names of properties
{
    Doc d;
    std::string s = sym_str_from("name", 0, BOUND(5, 6), "a*_` :(");
    sym_assume(s.empty() || (!space(s[0]) && !space(s[s.size() - 1])));
    PropertyName p;
    parsePropertyName(d.nodes.begin(), d.pd, s, d.report, p);
    bool variable = !s.empty() && ((s[0] == '*') | (s[0] == '_')) && s[s.size() - 1] == s[0];
    sym_reach("property");
    if (!variable) {
        std::string want = s;
        size_t n, e;
        if (!s.empty() && s[0] == '`' && s[s.size() - 1] == '`' && (e = enclosed(s, n))) {
            want = s.substr(n, e - n);
            snowcrash::TrimString(want);
        }
        sym_assert(ref::eq(p.literal, want) && p.variable.empty(), "the name of a property is the text inside its backticks");
    } else sym_assert(p.literal.empty(), "a variable name has no literal");
}
HARNESS(variable) // *name (type)*
{
    Doc d;
    std::string n = sym_str_from("name", 1, 2, "aB");
    bool typed = sym_bool("typed");
    char mark = sym_bool("star") ? '*' : '_';
    PropertyName p;
    parsePropertyName(d.nodes.begin(), d.pd, mark + n + (typed ? " (string)" : "") + mark, d.report, p);
    sym_reach("variable");
    sym_assert(p.literal.empty() && p.variable.values.size() == 1 && ref::eq(p.variable.values[0].literal, n), "a variable name holds its sample");
    sym_assert(p.variable.typeDefinition.typeSpecification.name.base == (typed ? StringTypeName : UndefinedTypeName), "a variable name holds its type");
}
HARNESS(kinds)
{
    BaseType a = (BaseType)sym_range("left", 0, 6), b = (BaseType)sym_range("right", 0, 6);
    auto kind = [](BaseType t) { return (int)t == 0 ? 0 : ((int)t + 1) / 2; };
    sym_reach("kinds");
    sym_assert(isSameBaseType(a, b) == (kind(a) == kind(b)), "implied base types are the same as those given");
}
