//@ all: time=150
//@ bound: attributes of a resource and a named type of any of 4 types (thorough 11), with up to 2 nested members, mixins, choices and type sections of any kind (of a named type as headers or items), these with up to 2 (thorough nested 3 deep); members with name, up to 2 values, type, type attributes, description, further lines and paragraphs, each of them or none; source maps on (thorough or off)
//@ outside: what signatures, values and types mean (C26, C28), named types that do not exist (C29), paragraphs and code after nested members, sections of a named type after one its type does not allow
#include "md.h"
#include <deque>
namespace
{
    using namespace snowcrash;
    typedef mdp::BytesRangeSet At;
    bool maps;
    std::string out(const At& a)
    {
        std::string s = "@";
        for (auto& r : a) s += std::to_string(r.location) + "+" + std::to_string(r.length) + ",";
        return s;
    }
    // ---- the syntax tree as text
    std::string out(const mson::TypeName& t)
    {
        static const char* base[] = { "", "boolean", "string", "number", "array", "enum", "object" };
        return base[t.base] + (t.symbol.variable ? "*" + t.symbol.literal + "*" : t.symbol.literal);
    }
    std::string out(const mson::TypeDefinition& d)
    {
        std::string s = "(" + out(d.typeSpecification.name) + "[";
        for (auto& t : d.typeSpecification.nestedTypes) s += out(t) + ",";
        return s + "]" + std::to_string(d.attributes) + "/" + std::to_string((int)d.baseType) + ")";
    }
    std::string out(const mson::Values& v)
    {
        std::string s;
        for (auto& x : v) s += (x.variable ? "*" : "'") + x.literal + "'";
        return s;
    }
    std::string out(const mson::TypeSections& s, const SourceMap<mson::TypeSections>& m);
    std::string out(const mson::ValueMember& v, const SourceMap<mson::ValueMember>& m)
    {
        return out(v.valueDefinition.values) + out(v.valueDefinition.typeDefinition) + out(m.valueDefinition.sourceMap) + "-" + v.description + out(m.description.sourceMap) + out(m.sourceMap) + out(v.sections, m.sections);
    }
    template <typename T>
    const SourceMap<T>& at(const typename Collection<SourceMap<T> >::type& c, size_t i)
    {
        static const SourceMap<T> none;
        return i < c.size() ? c[i] : none;
    }
    std::string out(const mson::Elements& es, const SourceMap<mson::Elements>& m)
    {
        std::string s = "{";
        for (size_t i = 0; i < es.size(); ++i) {
            auto& e = es[i];
            auto& em = at<mson::Element>(m.collection, i);
            if (auto p = e.property()) {
                s += "P" + p->name.literal;
                if (!p->name.variable.empty()) s += "~" + out(p->name.variable.values) + out(p->name.variable.typeDefinition);
                s += out(em.property.name.sourceMap) + out(*p, em.property);
            } else if (auto v = e.value())
                s += "V" + out(*v, em.value);
            else if (auto x = e.mixin())
                s += "I" + out(*x) + out(em.mixin.sourceMap);
            else if (auto o = e.oneOf())
                s += "O" + out(*o, em.oneOf());
            else if (auto g = e.group())
                s += "G" + out(*g, em.elements());
            else
                s += "?";
            s += ";";
        }
        return s + "}" + std::to_string(m.collection.size());
    }
    std::string out(const mson::TypeSections& ss, const SourceMap<mson::TypeSections>& m)
    {
        std::string s = "[";
        for (size_t i = 0; i < ss.size(); ++i) {
            auto& t = ss[i];
            auto& tm = at<mson::TypeSection>(m.collection, i);
            s += std::to_string((int)t.klass) + "/" + std::to_string((int)t.baseType) + t.content.description + out(tm.description.sourceMap) + "=" + t.content.value + out(tm.value.sourceMap) + out(t.content.elements(), tm.elements()) + "|";
        }
        return s + "]" + std::to_string(m.collection.size());
    }

    // ---- what a document is meant to say
    enum Kind { ITEM, INCLUDE, ONEOF, SAMPLE, DEFAULT, ITEMS, MEMBERS, PROPERTIES };
    struct Type {
        const char* text;
        const char* name; // in the syntax tree
        const char* nested;
        mson::BaseType base;
    };
    const Type types[] = { { "", "", "", mson::UndefinedBaseType }, { "string", "string", "", mson::PrimitiveBaseType }, { "object", "object", "", mson::ObjectBaseType }, { "array", "array", "", mson::ValueBaseType }, { "S", "S", "", mson::PrimitiveBaseType }, { "P", "P", "", mson::ImplicitObjectBaseType }, { "array[number, S]", "array", "number,S,", mson::ValueBaseType }, { "L", "L", "", mson::ValueBaseType }, { "enum", "enum", "", mson::ValueBaseType }, { "O", "O", "", mson::ObjectBaseType }, { "number", "number", "", mson::PrimitiveBaseType } };
    const int TYPES = sizeof(types) / sizeof(*types);
    struct In {
        Kind kind = ITEM;
        std::string name;
        bool variable = false; // name
        bool listed = false; // a section of a named type that is an item
        std::vector<std::string> values;
        int type = 0, attrs = 0;
        std::string desc, rest;
        std::vector<std::string> paras;
        std::deque<In> kids;
        At line, whole, para[2];
        bool property() const { return kind == ITEM && !name.empty(); }
        std::string list() const
        {
            std::string s;
            for (auto& v : values) s += (s.empty() ? "" : ", ") + v;
            return s;
        }
        std::string first() const
        {
            static const char* const words[] = { "", "Include ", "One Of", "Sample", "Default", "Items", "Members", "Properties" };
            static const char* const attributes[] = { "", "required", "fixed, optional", "nullable, fixed-type", "sample", "default" };
            std::string s = words[kind];
            if (kind == INCLUDE) return s + types[type].text;
            if (kind == ITEM) s = variable ? "*" + name + " (S)*" : name;
            if (!values.empty()) s += (s.empty() ? "" : ": ") + list();
            std::string a = types[type].text, b = attributes[attrs];
            if (!a.empty() || !b.empty()) s += (s.empty() ? "(" : " (") + a + (a.empty() || b.empty() ? "" : ", ") + b + ")";
            if (!desc.empty()) s += " - " + desc;
            return s;
        }
    };
    const int bits[] = { 0, mson::RequiredTypeAttribute, mson::FixedTypeAttribute | mson::OptionalTypeAttribute, mson::NullableTypeAttribute | mson::FixedTypeTypeAttribute, mson::SampleTypeAttribute, mson::DefaultTypeAttribute };
    void write(md::Doc& d, In& i)
    {
        d.item(i.first() + (i.rest.empty() ? "" : "\n" + i.rest));
        mdp::MarkdownNode& n = d.top();
        i.line = n.children().back().sourceMap;
        for (size_t k = 0; k < i.paras.size(); ++k) {
            d.text(i.paras[k]);
            i.para[k] = d.top().children().back().sourceMap;
        }
        for (auto& k : i.kids) write(d, k);
        i.whole = d.top().sourceMap;
        d.end();
    }
    struct Reader {
        const md::Doc& d;
        std::vector<int> warnings;
        bool stopped = false, ignored = false; // blocks that belong to nothing
        explicit Reader(const md::Doc& d) : d(d) {}
        std::string at(const At& a) const { return out(maps ? a : At()); }
        std::string source(const At& a) const { return d.src.substr(a[0].location, a[0].length); }
        static std::string trim(std::string s)
        {
            size_t b = s.find_first_not_of(" \n"), e = s.find_last_not_of(" \n");
            return s.substr(b, e - b + 1);
        }
        static std::string definition(const Type& t, int attrs, mson::BaseType base) { return std::string("(") + t.name + "[" + t.nested + "]" + std::to_string(attrs) + "/" + std::to_string((int)base) + ")"; }
        static bool object(mson::BaseType b) { return b == mson::ObjectBaseType || b == mson::ImplicitObjectBaseType; }
        static bool array(mson::BaseType b) { return b == mson::ValueBaseType || b == mson::ImplicitValueBaseType; }
        static bool primitive(mson::BaseType b) { return b == mson::PrimitiveBaseType || b == mson::ImplicitPrimitiveBaseType; }

        struct Section {
            int klass;
            mson::BaseType base;
            std::string description, value, elements;
            At descAt, valueAt;
            size_t n = 0;
        };
        std::string print(const std::vector<Section>& ss) const
        {
            std::string s = "[";
            for (auto& t : ss) s += std::to_string(t.klass) + "/" + std::to_string((int)t.base) + t.description + at(t.descAt) + "=" + t.value + at(t.valueAt) + "{" + t.elements + "}" + std::to_string(maps ? t.n : 0) + "|";
            return s + "]" + std::to_string(maps ? ss.size() : 0);
        }
        std::string plain(const std::string& value, const At& where) // a value without anything else
        {
            return "V'" + value + "'" + definition(types[0], 0, mson::UndefinedBaseType) + at(where) + "-" + at(At()) + at(At()) + "[]0;";
        }
        std::string include(const In& i)
        {
            auto b = types[i.type].base;
            if (primitive(b) || b == mson::UndefinedBaseType) warnings.push_back(FormattingWarning);
            return "I" + definition(types[i.type], 0, b) + at(i.line) + ";";
        }
        // members of a choice
        std::string choice(const In& i)
        {
            std::string s;
            size_t n = 0;
            for (auto& k : i.kids) {
                switch (k.kind) {
                    case ITEM: s += member(k, true); break;
                    case INCLUDE: s += include(k); break;
                    case ONEOF: s += choice(k); break;
                    case PROPERTIES: {
                        size_t m = 0;
                        std::string g = members(k, true, m);
                        s += "G{" + g + "}" + std::to_string(maps ? m : 0) + ";";
                        break;
                    }
                    default: sym_assume(false);
                }
                ++n;
            }
            if (!n) warnings.push_back(EmptyDefinitionWarning);
            return "O{" + s + "}" + std::to_string(maps ? n : 0) + ";";
        }
        // what a section holds
        std::string members(const In& i, bool object, size_t& n)
        {
            std::string s;
            for (auto& k : i.kids) {
                switch (k.kind) {
                    case INCLUDE: s += include(k); break;
                    case ONEOF:
                        if (!object) {
                            warnings.push_back(LogicalErrorWarning);
                            continue;
                        }
                        s += choice(k);
                        break;
                    case ITEM: s += member(k, object); break;
                    default: sym_assume(false); // type sections do not nest
                }
                ++n;
            }
            return s;
        }
        void section(const In& k, mson::BaseType& base, std::vector<Section>& ss)
        {
            if (base == mson::UndefinedBaseType && k.kind == PROPERTIES) base = mson::ImplicitObjectBaseType;
            if (base == mson::UndefinedBaseType && (k.kind == SAMPLE || k.kind == DEFAULT)) base = mson::ImplicitPrimitiveBaseType;
            Section s;
            s.base = base;
            s.valueAt = k.whole;
            if (k.kind == PROPERTIES || k.kind == ITEMS || k.kind == MEMBERS) {
                if (k.kind == PROPERTIES ? !object(base) : !array(base)) {
                    warnings.push_back(LogicalErrorWarning);
                    return;
                }
                s.klass = mson::TypeSection::MemberTypeClass;
                s.elements = members(k, k.kind == PROPERTIES, s.n);
            } else {
                s.klass = k.kind == SAMPLE ? mson::TypeSection::SampleClass : mson::TypeSection::DefaultClass;
                if (primitive(base)) {
                    s.value = k.list();
                    if (!k.values.empty()) s.valueAt = k.line;
                    for (auto& i : k.kids) {
                        if (i.kind != ITEM) {
                            warnings.push_back(LogicalErrorWarning);
                            continue;
                        }
                        if (!s.value.empty()) s.value += s.value.back() == '\n' ? "\n" : "\n\n"; // a blank line between
                        s.value += source(i.whole);
                        if (s.valueAt.empty() || s.n++ + k.values.size() == 0) s.valueAt = At();
                        for (auto& r : i.whole)
                            if (!s.valueAt.empty() && s.valueAt.back().location + s.valueAt.back().length == r.location) s.valueAt.back().length += r.length;
                            else s.valueAt.push_back(r);
                    }
                    s.n = 0;
                } else {
                    if (!k.values.empty() && object(base)) warnings.push_back(LogicalErrorWarning);
                    if (array(base))
                        for (auto& v : k.values) s.elements += plain(v, k.line), ++s.n;
                    for (auto& i : k.kids) {
                        if (i.kind != ITEM) {
                            warnings.push_back(LogicalErrorWarning);
                            continue;
                        }
                        s.elements += member(i, object(base)), ++s.n;
                    }
                }
            }
            ss.push_back(s);
        }
        // everything nested in a member or type; its base type may follow from that
        void nested(const std::deque<In>& kids, mson::BaseType& base, std::vector<Section>& ss)
        {
            for (auto& k : kids) {
                if (k.kind >= SAMPLE) {
                    section(k, base, ss);
                    continue;
                }
                if (!ss.empty() && ss.back().klass == mson::TypeSection::BlockDescriptionClass) { // still the description
                    ss.back().description += "\n\n" + trim(source(k.whole));
                    for (auto& r : k.whole)
                        if (ss.back().descAt.back().location + ss.back().descAt.back().length == r.location) ss.back().descAt.back().length += r.length;
                        else ss.back().descAt.push_back(r);
                    continue;
                }
                if (base == mson::UndefinedBaseType) base = mson::ImplicitObjectBaseType;
                if (ss.empty() || ss.back().klass != mson::TypeSection::MemberTypeClass) {
                    Section s;
                    s.klass = mson::TypeSection::MemberTypeClass, s.base = base;
                    ss.push_back(s);
                }
                Section& s = ss.back();
                switch (k.kind) {
                    case INCLUDE: {
                        std::string e = include(k);
                        auto b = types[k.type].base;
                        if (object(b) ? !object(base) : array(b) ? !array(base) : primitive(b) ? !primitive(base) : b != base) warnings.push_back(LogicalErrorWarning);
                        else s.elements += e, ++s.n;
                        break;
                    }
                    case ONEOF:
                        if (!object(base)) {
                            warnings.push_back(LogicalErrorWarning);
                            break;
                        }
                        s.elements += choice(k), ++s.n;
                        break;
                    default: {
                        if (primitive(base)) {
                            warnings.push_back(LogicalErrorWarning);
                            stopped = true;
                            return;
                        }
                        mson::BaseType b;
                        s.elements += member(k, object(base), &b), ++s.n;
                        if (object(b) && !k.values.empty()) warnings.push_back(LogicalErrorWarning);
                    }
                }
            }
        }
        std::string member(const In& i, bool property, mson::BaseType* kind = nullptr)
        {
            const Type& t = types[i.type];
            auto base = t.base;
            std::vector<std::string> values = i.values;
            if (values.size() > 1 && primitive(base)) values.assign(1, i.list());
            if (values.size() > 1 && base == mson::UndefinedBaseType) base = mson::ImplicitValueBaseType;
            std::vector<Section> ss;
            describe(i, ss);
            nested(i.kids, base, ss);
            if (base == mson::UndefinedBaseType) base = mson::ImplicitPrimitiveBaseType;
            if (kind) *kind = base;
            std::string s = property ? "P" : "V";
            if (property) {
                s += i.variable ? "~'" + i.name + "'" + definition(types[4], 0, mson::PrimitiveBaseType) : i.name;
                s += at(i.line);
            }
            for (auto& v : values) s += "'" + v + "'";
            s += definition(t, bits[i.attrs], base);
            s += at(values.empty() && !i.type && !i.attrs ? At() : i.line);
            return s + "-" + i.desc + at(i.desc.empty() ? At() : i.line) + at(i.line) + print(ss) + ";";
        }
        void describe(const In& i, std::vector<Section>& ss)
        {
            Section s;
            s.klass = mson::TypeSection::BlockDescriptionClass, s.base = mson::UndefinedBaseType;
            auto add = [&](const std::string& t, const At& where) {
                if (!s.description.empty()) s.description += "\n\n";
                s.description += t;
                for (auto& r : where)
                    if (!s.descAt.empty() && s.descAt.back().location + s.descAt.back().length == r.location) s.descAt.back().length += r.length;
                    else s.descAt.push_back(r);
            };
            if (!i.rest.empty()) add(i.rest, i.line);
            for (size_t k = 0; k < i.paras.size(); ++k) add(i.paras[k], i.para[k]);
            if (!s.description.empty()) ss.push_back(s);
        }
    };
    void compare(md::Doc& d, Reader& r, const std::string& have, const std::string& want)
    {
        sym_assert(d.report.error.code == Error::OK, "a document without errors is parsed without errors");
        if (!ref::eq(have, want)) sym_observe_bytes("have", have.data(), have.size()), sym_observe_bytes("want", want.data(), want.size());
        sym_assert(ref::eq(have, want), "the members are those written");
        std::vector<int> got;
        for (auto& w : d.report.warnings)
            if (w.code != IgnoringWarning || !r.ignored) got.push_back(w.code);
        std::sort(got.begin(), got.end());
        std::sort(r.warnings.begin(), r.warnings.end());
        sym_assert(got == r.warnings, "every fault has its warning");
        if (!got.empty()) sym_reach("warning");
    }
    void structures(md::Doc& d)
    {
        d.header(1, "Data Structures");
        for (auto* t : { "S (string)", "L (array)", "O (object)", "P" }) d.header(2, t);
    }
    // the attributes of a resource
    void attributes(In top)
    {
        maps = BOUND(true, sym_bool("maps"));
        md::Doc d;
        d.header(1, "R [/r]");
        std::string t = types[top.type].text;
        d.item("Attributes" + (t.empty() ? t : " (" + t + ")") + (top.rest.empty() ? "" : "\n" + top.rest));
        top.line = d.top().children().back().sourceMap;
        for (size_t k = 0; k < top.paras.size(); ++k) {
            d.text(top.paras[k]);
            top.para[k] = d.top().children().back().sourceMap;
        }
        for (auto& k : top.kids) write(d, k);
        d.end();
        structures(d);
        d.parse(maps ? ExportSourcemapOption : 0);
        Reader r(d);
        auto base = types[top.type].base;
        if (base == mson::UndefinedBaseType) base = mson::ImplicitObjectBaseType;
        std::vector<Reader::Section> ss;
        r.describe(top, ss);
        r.nested(top.kids, base, ss);
        std::string want = Reader::definition(types[top.type], 0, base) + r.at(top.type ? top.line : At()) + r.at(top.line) + r.print(ss);
        sym_assert(d.report.error.code == Error::OK && d.bp.content.elements().size() == 2, "a document without errors is parsed without errors");
        auto& a = d.bp.content.elements()[0].content.resource.attributes;
        SourceMap<Attributes> none;
        auto& m = maps ? d.sm.content.elements().collection[0].content.resource.attributes : none;
        std::string have = out(a.typeDefinition) + out(m.typeDefinition.sourceMap) + out(m.sourceMap) + out(a.sections, m.sections);
        compare(d, r, have, want);
    }
    // the members and sections of a named type
    void named(In top)
    {
        maps = BOUND(true, sym_bool("maps"));
        md::Doc d;
        structures(d);
        std::string t = types[top.type].text;
        auto last = [&] { return d.top().children().back().sourceMap; };
        d.header(2, "T" + (t.empty() ? t : " (" + t + ")"));
        top.line = last();
        for (size_t k = 0; k < top.paras.size(); ++k) d.text(top.paras[k]), top.para[k] = last();
        for (auto& k : top.kids)
            if (k.kind < SAMPLE || k.listed) write(d, k);
            else {
                d.header(3, k.first());
                k.line = k.whole = last();
                for (auto& m : k.kids) write(d, m);
            }
        d.parse(maps ? ExportSourcemapOption : 0);
        Reader r(d);
        auto base = types[top.type].base;
        if (base == mson::UndefinedBaseType) base = mson::ImplicitObjectBaseType;
        std::vector<Reader::Section> ss;
        r.describe(top, ss);
        r.nested(top.kids, base, ss);
        if (!top.kids.empty() && top.kids.back().kind > DEFAULT && !top.kids.back().listed) r.ignored = Reader::object(base) ? top.kids.back().kind < PROPERTIES : top.kids.back().kind == PROPERTIES || !Reader::array(base);
        r.ignored |= r.stopped;
        std::string want = "T" + r.at(top.line) + Reader::definition(types[top.type], 0, base) + r.at(top.type ? top.line : At()) + r.print(ss);
        auto& all = d.bp.content.elements();
        sym_assert(d.report.error.code == Error::OK && all.size() == 1 && all[0].content.elements().size() == 5, "a document without errors is parsed without errors");
        auto& a = all[0].content.elements()[4].content.dataStructure;
        SourceMap<DataStructure> none;
        auto& m = maps ? d.sm.content.elements().collection[0].content.elements().collection[4].content.dataStructure : none;
        std::string have = out(a.name) + out(m.name.sourceMap) + out(a.typeDefinition) + out(m.typeDefinition.sourceMap) + out(a.sections, m.sections);
        compare(d, r, have, want);
    }
    bool objects(const In& i)
    {
        auto b = types[i.type].base;
        return !Reader::array(b);
    }
    // something nested in a parent
    In simple(bool object, int kinds, const char* name)
    {
        In i;
        i.kind = (Kind)sym_range("kind", 0, kinds);
        if (i.kind == ITEM) {
            if (object) i.name = name;
            else i.values.push_back(name);
        }
        if (i.kind == INCLUDE) {
            static const int of[] = { 9, 7, 5, 4 };
            i.type = of[sym_range("of", 0, 3)];
        }
        return i;
    }
}
HARNESS(members)
{
    In top;
    top.type = sym_bool("array") ? 3 : BOUND(0, sym_bool("object") ? 2 : 0);
    In i;
    bool object = objects(top);
    if (object) {
        i.name = "n";
        i.variable = sym_bool("variable");
    }
    for (int n = sym_range("values", 0, 2); n; --n) i.values.push_back(n == 1 ? "v" : "w");
    i.type = sym_range("type", 0, BOUND(6, TYPES - 1));
    i.attrs = sym_range("attributes", 0, BOUND(2, 5));
    if (sym_bool("described")) i.desc = "d";
    if (sym_bool("rest")) i.rest = "r";
    for (int n = sym_range("paragraphs", 0, BOUND(1, 2)); n; --n) i.paras.push_back(n == 1 ? "p" : "q");
    if (i.name.empty() && i.values.empty() && !i.type && !i.attrs) return; // nothing is described
    top.kids.push_back(i);
    attributes(top);
}
HARNESS(nested)
{
    In top;
    top.type = sym_range("top", 0, BOUND(4, 10));
    In i;
    i.type = sym_range("type", 0, BOUND(3, 10));
    if (objects(top)) i.name = "n";
    else if (sym_bool("value")) i.values.push_back("v");
    if (BOUND(0, 1) && sym_bool("rest")) i.rest = "r";
    for (int n = sym_range("nested", 1, 2); n; --n) i.kids.push_back(simple(objects(i), n == 2 ? BOUND(5, 7) : 7, n == 2 ? "a" : "b"));
    if (i.first().empty()) return;
    top.kids.push_back(i);
    attributes(top);
}
HARNESS(sections)
{
    In top;
    top.type = sym_range("top", 0, BOUND(3, 10));
    int text = sym_range("text", 0, BOUND(2, 3));
    if (text & 1) top.rest = "r";
    if (text & 2) top.paras.push_back("p");
    In s;
    s.kind = (Kind)sym_range("section", SAMPLE, PROPERTIES);
    if (s.kind <= DEFAULT)
        for (int n = sym_range("values", 0, 2); n; --n) s.values.push_back(n == 1 ? "v" : "w");
    bool object = s.kind == PROPERTIES || (s.kind <= DEFAULT && objects(top));
    for (int n = sym_range("members", 0, 2); n; --n) s.kids.push_back(simple(object, s.kind > DEFAULT || BOUND(n == 2, true) ? 2 : 0, n == 2 ? "a" : "b"));
    top.kids.push_back(s);
    if (sym_bool("more")) top.kids.push_back(simple(objects(top), 0, "c"));
    attributes(top);
}
HARNESS(choices)
{
    In top;
    top.type = BOUND(0, sym_range("top", 0, 10));
    In one;
    one.kind = ONEOF;
    for (int n = sym_range("options", 0, 2); n; --n) {
        In i;
        static const Kind k[] = { ITEM, INCLUDE, ONEOF, PROPERTIES };
        i.kind = k[sym_range("option", 0, 3)];
        if (i.kind == ITEM) i.name = n == 2 ? "a" : "b", i.type = BOUND(n == 1 && sym_bool("typed") ? 2 : 0, sym_range("type", 0, 4));
        if (i.kind == INCLUDE) i.type = sym_bool("primitive") ? 4 : 9;
        if (i.kind == ITEM ? n == 1 && i.type == 2 : i.kind >= ONEOF)
            for (int m = sym_range("nested", 0, n == 1 ? 2 : BOUND(1, 2)); m; --m) i.kids.push_back(simple(true, BOUND(n == 1 ? 2 : 0, 2), m == 2 ? "c" : "d"));
        one.kids.push_back(i);
    }
    top.kids.push_back(one);
    if (sym_bool("more")) top.kids.push_back(simple(true, BOUND(0, 2), "e"));
    attributes(top);
}
HARNESS(named)
{
    In top;
    top.type = sym_range("top", 0, BOUND(3, 10));
    if (sym_bool("paragraph")) top.paras.push_back("p");
    if (top.paras.empty() && sym_bool("member")) top.kids.push_back(simple(objects(top), 2, "c"));
    for (int k = sym_range("sections", 0, BOUND(top.kids.empty() && top.paras.empty() ? 2 : 1, 2)); k; --k) {
        In s;
        s.kind = (Kind)sym_range("section", SAMPLE, PROPERTIES);
        if (BOUND(s.kind == DEFAULT, s.kind <= DEFAULT && sym_bool("value"))) s.values.push_back("v");
        s.listed = (top.kids.empty() || top.kids.back().kind < SAMPLE || top.kids.back().listed) && BOUND(top.paras.empty() && (k == 1 || !top.type), true) && sym_bool("listed"); // items after a header belong to it
        bool object = s.kind == PROPERTIES || (s.kind <= DEFAULT && objects(top));
        for (int n = sym_range("members", 0, k == 1 && BOUND(top.kids.empty() || !s.listed, true) ? 2 : 1); n; --n) s.kids.push_back(simple(object, BOUND(n > 1 || s.listed, 0) ? 0 : 2, n == 2 ? "a" : "b"));
        top.kids.push_back(s);
        bool fits = s.kind <= DEFAULT || (s.kind == PROPERTIES ? objects(top) && !Reader::primitive(types[top.type].base) : !objects(top));
        if (k > 1 && !s.listed && !fits) return; // what follows belongs to nothing
    }
    named(top);
}
