// MSON as the parser hands it over, and the Refract elements it stands for.
#pragma once
#include "elem.h"
#include "ConversionContext.h"
#include "MsonTypeSectionToApie.h"
#include "RefractDataStructure.h"
#include "snowcrash.h"
#include <algorithm>
#include <set>
namespace mm
{
    using namespace model;
    typedef mdp::CharactersRangeSet Loc;
    typedef std::vector<std::pair<size_t, size_t> > Place;
    // ---- where things come from: ranges nothing else has
    inline bool& maps() { static bool on; return on; }
    inline Loc fresh()
    {
        static size_t at = 0;
        Loc l;
        if (maps()) l.push_back(mdp::CharactersRange(at += 10, 3));
        return l;
    }
    inline Place place(const Loc& l)
    {
        Place p;
        for (auto& r : l) p.emplace_back(r.location, r.length);
        return p;
    }
    inline Node mapNode(const Loc& l)
    {
        Node in = list(Array);
        in.name = "sourceMap";
        for (auto& r : l) in.kids.push_back(list(Array, num(std::to_string(r.location)), num(std::to_string(r.length))));
        return list(Array, in);
    }
    inline void set(std::vector<std::pair<std::string, Node> >& m, const char* key, Node v)
    {
        for (auto& e : m)
            if (e.first == key) {
                e.second = v;
                return;
            }
        m.emplace_back(key, v);
    }
    inline void attachMap(Node& n, const Loc& l)
    {
        if (!l.empty()) set(n.attr, "sourceMap", mapNode(l));
    }
    // the order of attributes says nothing
    inline Node& sorted(Node& n)
    {
        for (auto* m : { &n.meta, &n.attr }) {
            for (auto& e : *m) sorted(e.second);
            std::sort(m->begin(), m->end(), [](const std::pair<std::string, Node>& a, const std::pair<std::string, Node>& b) { return a.first < b.first; });
        }
        for (auto& k : n.kids) sorted(k);
        return n;
    }
    // ---- what is expected of a conversion
    struct Expect {
        std::set<std::pair<std::string, Place> > warnings; // a phrase of the warning, and where
        bool error = false;
        void warn(const char* what, const Loc& l) { warnings.insert({ what, place(l) }); }
    };
    struct World {
        drafter::ConversionContext ctx;
        World() : ctx("")
        {
            add("S", String, "string");
            add("N", Number, "number");
            add("E", Enum, "enum");
            add("L", Array, "array");
            add("O", Object, "object");
            add("D", String, "S");
        }
        void add(const char* name, Kind k, const char* parent)
        {
            Node n = node(k);
            n.name = parent;
            n.meta.emplace_back("id", str(name));
            ctx.typeRegistry().add(build(n));
        }
    };
    inline std::map<std::string, Kind>& more() // types beyond these
    {
        static std::map<std::string, Kind> m;
        return m;
    }
    inline Kind named(const std::string& s)
    {
        auto it = more().find(s);
        if (it != more().end()) return it->second;
        return s == "S" || s == "D" ? String : s == "N" ? Number : s == "E" ? Enum : s == "L" ? Array : s == "O" ? Object : None;
    }
    inline Kind based(mson::BaseTypeName b)
    {
        static const Kind k[] = { None, Bool, String, Number, Array, Enum, Object };
        return k[b];
    }
    inline bool primitive(Kind k) { return k == String || k == Number || k == Bool; }
    // a literal as a value of a type; has == false: it is none
    inline Node literal(Kind k, const std::string& s)
    {
        Node n = node(k);
        if (s.empty()) return n;
        if (k == Bool) n.has = s == "true" || s == "false", n.b = s == "true";
        else if (k == Number) n.has = s == "7", n.s = n.has ? s : ""; // C38 decides what a number is
        else n.has = true, n.s = s;
        return n;
    }
    inline Node typeAttributes(mson::TypeAttributes a)
    {
        Node n = list(Array);
        if (a & mson::RequiredTypeAttribute) n.kids.push_back(str("required"));
        if (a & mson::OptionalTypeAttribute) n.kids.push_back(str("optional"));
        if (a & mson::FixedTypeAttribute) n.kids.push_back(str("fixed"));
        if (a & mson::FixedTypeTypeAttribute) n.kids.push_back(str("fixedType"));
        if (a & mson::NullableTypeAttribute) n.kids.push_back(str("nullable"));
        return n;
    }
    inline void attributes(Node& n, mson::TypeAttributes a)
    {
        Node l = typeAttributes(a);
        if (!l.kids.empty()) set(n.attr, "typeAttributes", l);
    }
    inline bool literalLike(const Node& n)
    {
        if (n.has && primitive(n.k)) return true;
        for (auto& a : n.attr)
            if (a.first == "typeAttributes")
                for (auto& k : a.second.kids)
                    if (k.s == "fixed") return true;
        return false;
    }
    inline void fix(Node& n) // a literal of an enumeration is fixed
    {
        if (!literalLike(n)) return;
        for (auto& a : n.attr)
            if (a.first == "typeAttributes") {
                for (auto& k : a.second.kids)
                    if (k.s == "fixed") return;
                a.second.kids.push_back(str("fixed"));
                return;
            }
        n.attr.emplace_back("typeAttributes", list(Array, str("fixed")));
    }
    inline mson::BaseTypeName nested(const mson::TypeNames& t)
    {
        auto b = t.size() == 1 ? t[0].base : mson::StringTypeName;
        return primitive(based(b)) ? b : mson::StringTypeName;
    }
    inline Node made(Kind k, const std::string& s, bool sample)
    {
        Node v = literal(k, s);
        if (!sample || s.empty()) return v;
        Node n = node(k), l = node(Array);
        if (v.has) l = list(Array, v);
        n.attr.emplace_back("samples", l);
        return n;
    }
    struct Info {
        std::vector<Node> nodes;
        std::string text;
        Loc at;
    };
    typedef std::vector<Info> Infos;
    struct Description {
        std::string text;
        Loc at;
    };
    struct Data {
        Infos inl, val, dfl, smp, hint;
        std::vector<Description> desc;
    };
    typedef snowcrash::SourceMap<mson::Element> ElementMap;
    Node element(const mson::Element&, const ElementMap&, mson::BaseTypeName, Expect&);
    inline std::vector<Node> elements(const mson::Elements& e, const snowcrash::SourceMap<mson::Elements>& m, mson::BaseTypeName d, Expect& x)
    {
        std::vector<Node> r;
        for (size_t i = 0; i < e.size(); ++i) {
            Node n = element(e[i], m.collection.size() == e.size() ? m.collection[i] : ElementMap(), d, x);
            if (n) r.push_back(n);
        }
        return r;
    }
    inline Infos hints(const mson::TypeDefinition& t, const Loc& at, Expect& x)
    {
        Info r;
        for (auto& n : t.typeSpecification.nestedTypes) {
            const std::string& s = n.symbol.literal;
            Node e;
            if (n.base != mson::UndefinedTypeName || s.empty()) e = node(n.base == mson::UndefinedTypeName ? Object : based(n.base));
            else {
                Kind k = named(s);
                if (n.symbol.variable) {
                    if (primitive(k)) e = made(k, s, true);
                    else e = str(s), e.name = "generic";
                } else if (k == None) {
                    x.warn("Undefined named type", at);
                    continue;
                } else e = node(k), e.name = s;
            }
            r.nodes.push_back(e);
        }
        return { r };
    }
    typedef snowcrash::SourceMap<mson::TypeSections> SectionsMap;
    inline void sections(Kind k, const mson::TypeSections& ss, const SectionsMap& m, mson::BaseTypeName d, Data& data, Expect& x)
    {
        for (size_t i = 0; i < ss.size(); ++i) {
            const mson::TypeSection& s = ss[i];
            auto sm = m.collection.size() == ss.size() ? m.collection[i] : snowcrash::SourceMap<mson::TypeSection>();
            Info in;
            if (s.klass == mson::TypeSection::BlockDescriptionClass) {
                data.desc.push_back({ s.content.description, sm.description.sourceMap });
                continue;
            }
            bool members = s.klass == mson::TypeSection::MemberTypeClass;
            if (members ? primitive(k) : s.content.value.empty() && s.content.elements().empty()) continue;
            in.at = sm.value.sourceMap;
            if (primitive(k)) in.text = s.content.value;
            else {
                in.nodes = elements(s.content.elements(), sm.elements(), d, x);
                if (k == Enum) {
                    for (auto& n : in.nodes) fix(n);
                    if (in.at.empty()) // it is where its members are
                        for (auto& e : sm.elements().collection) in.at.append(e.value.sourceMap);
                }
            }
            (members ? data.val : s.klass == mson::TypeSection::SampleClass ? data.smp : data.dfl).push_back(in);
        }
    }
    inline std::vector<Node> all(const Infos& i, Loc* at = nullptr)
    {
        std::vector<Node> r;
        for (auto& n : i) {
            r.insert(r.end(), n.nodes.begin(), n.nodes.end());
            if (at) at->append(n.at);
        }
        return r;
    }
    inline Node plain(const Node& n) // without source map and description
    {
        Node r = n;
        auto drop = [](std::vector<std::pair<std::string, Node> >& m, const char* key) {
            for (size_t i = 0; i < m.size(); ++i)
                if (m[i].first == key) m.erase(m.begin() + i--);
        };
        drop(r.attr, "sourceMap");
        drop(r.meta, "description");
        return sorted(r);
    }
    inline bool among(const std::vector<Node>& l, const Node& n)
    {
        for (auto& e : l)
            if (same(plain(e), plain(n))) return true;
        return false;
    }
    inline void enumeration(Node& n, const Data& d, Expect& x)
    {
        for (auto* from : { &d.inl, &d.val })
            if (!from->empty() && from->front().nodes.size() == 1 && from->front().nodes[0].has) {
                n.has = true;
                n.kids.assign(1, from->front().nodes[0]);
                break;
            }
        std::vector<Node> val = all(d.val), out;
        for (auto* from : { &d.inl, &d.val, &d.smp, &d.dfl, &d.hint }) {
            Loc at;
            for (auto& e : all(*from, &at)) {
                if (from == &d.inl && among(val, e)) continue; // told again among the members
                if (!among(out, e)) out.push_back(e);
                else if (from != &d.smp && from != &d.dfl) x.warn("duplicit value", at);
            }
        }
        for (auto& e : out) fix(e);
        Node l = list(Array);
        l.kids = out;
        if (!out.empty()) set(n.attr, "enumerations", l);
        Node samples = list(Array), deflt = node(Enum);
        for (auto& e : all(d.smp)) samples.kids.push_back(list(Enum, e));
        if (!samples.kids.empty()) set(n.attr, "samples", samples);
        Loc at;
        std::vector<Node> dfl = all(d.dfl, &at);
        if (d.dfl.size() > 1 || (!d.dfl.empty() && d.dfl[0].nodes.size() > 1)) x.warn("multiple definitions of 'default'", at);
        if (!dfl.empty()) deflt = list(Enum, dfl.back());
        if (!d.dfl.empty()) set(n.attr, "default", deflt);
    }
    inline void keep(Node& object, const Node& n) // of the members of a name, an object keeps the last
    {
        if (object.k == Object && n.k == Member && n.kids[0].has)
            for (size_t i = 0; i < object.kids.size(); ++i) {
                auto& o = object.kids[i];
                if (o.k == Member && o.kids[0].has && ::ref::eq(o.kids[0].s, n.kids[0].s)) {
                    object.kids.erase(object.kids.begin() + i);
                    break;
                }
            }
        object.kids.push_back(n);
    }
    inline void content(Node& n, const Data& d, Expect& x)
    {
        Kind k = n.k;
        if (k == Enum) return enumeration(n, d, x);
        auto one = [&](const Info& i) {
            if (primitive(k)) return literal(k, i.text);
            Node r = list(k);
            for (auto& e : i.nodes) keep(r, e);
            return r;
        };
        if (primitive(k)) {
            for (auto* from : { &d.inl, &d.smp, &d.dfl })
                for (auto& i : *from)
                    if (k != String && !literal(k, i.text).has) x.warn(k == Bool ? "'boolean'" : "'number'", i.at);
            if (!d.inl.empty()) {
                Node v = literal(k, d.inl[0].text);
                if (!v.has) v.has = true, v.s = k == Number ? "0" : ""; // no value of the type: its zero
                n.has = true, n.s = v.s, n.b = v.b;
                attachMap(n, d.inl[0].at);
            }
        } else {
            for (auto* from : { &d.hint, &d.inl, &d.val })
                for (auto& e : all(*from)) keep(n, e);
            n.has = !n.kids.empty();
        }
        Node samples = list(Array);
        for (auto& i : d.smp) samples.kids.push_back(one(i));
        if (!d.smp.empty()) set(n.attr, "samples", samples);
        if (!d.dfl.empty()) set(n.attr, "default", one(d.dfl.back()));
    }
    inline void describe(Node& n, const std::vector<Description>& d)
    {
        Description r;
        for (auto& e : d) {
            if (e.text.empty()) continue;
            if (!r.text.empty()) r.text += "\n";
            r.text += e.text;
            r.at.append(e.at);
        }
        if (r.text.empty()) return;
        Node s = str(r.text);
        attachMap(s, r.at);
        set(n.meta, "description", s);
    }
    inline Kind resolved(const mson::TypeSpecification& t)
    {
        return t.name.base != mson::UndefinedTypeName ? based(t.name.base) : t.name.symbol.literal.empty() ? None : named(t.name.symbol.literal);
    }
    inline Kind kindOf(const mson::ValueMember& v, mson::BaseTypeName d)
    {
        auto& t = v.valueDefinition.typeDefinition.typeSpecification;
        Kind k = resolved(t);
        if (k != None) return k;
        if (v.valueDefinition.values.size() > 1) return Array;
        if (!t.name.symbol.literal.empty()) return Object;
        for (auto& s : v.sections)
            if (s.klass == mson::TypeSection::MemberTypeClass) return Object;
        return based(d);
    }
    typedef snowcrash::SourceMap<mson::ValueMember> ValueMap;
    inline Node value(const mson::ValueMember& v, const ValueMap& m, mson::BaseTypeName d, std::vector<Description>& desc, Expect& x)
    {
        auto& def = v.valueDefinition;
        auto& type = def.typeDefinition;
        Kind k = kindOf(v, d);
        Node n = node(k);
        n.name = type.typeSpecification.name.symbol.literal;
        attachMap(n, m.sourceMap);
        Data data;
        auto nest = nested(type.typeSpecification.nestedTypes);
        if (!v.description.empty()) data.desc.push_back({ v.description, m.description.sourceMap });
        bool object = type.baseType == mson::ObjectBaseType || type.baseType == mson::ImplicitObjectBaseType; // has no value
        if (!object) {
            auto a = type.attributes;
            if (!def.values.empty()) {
                if (primitive(k) && def.values.size() > 1) x.error = true;
                Info i;
                i.at = m.valueDefinition.sourceMap;
                if (primitive(k)) i.text = def.values[0].literal;
                else
                    for (auto& w : def.values) {
                        Node e = made(based(nest), w.literal, k != Enum && w.variable);
                        if (k == Enum) fix(e);
                        i.nodes.push_back(e);
                    }
                bool variable = (primitive(k) || k == Enum) && def.values[0].variable;
                (a & mson::DefaultTypeAttribute ? data.dfl : a & mson::SampleTypeAttribute || variable ? data.smp : data.inl).push_back(i);
            } else {
                if (a & mson::DefaultTypeAttribute) x.warn("'default' is specified", m.sourceMap);
                if (a & mson::SampleTypeAttribute) x.warn("'sample' is specified", m.sourceMap);
            }
            if (!primitive(k) && (def.values.empty() || type.typeSpecification.nestedTypes.size() > 1)) data.hint = hints(type, Loc(), x);
        }
        sections(k, v.sections, m.sections, nest, data, x);
        desc = data.desc;
        content(n, data, x);
        return n;
    }
    inline void clash(const mson::ValueMember& v, const ValueMap& m, Expect& x)
    {
        auto a = v.valueDefinition.typeDefinition.attributes;
        const Loc& at = m.valueDefinition.sourceMap;
        if (a & mson::FixedTypeAttribute && a & mson::OptionalTypeAttribute) x.warn("'fixed' and 'optional'", at);
        if (a & mson::RequiredTypeAttribute && a & mson::OptionalTypeAttribute) x.warn("'required' and 'optional'", at);
        if (a & mson::DefaultTypeAttribute && a & mson::SampleTypeAttribute) x.warn("'default' and 'sample'", at);
        if (a & mson::FixedTypeAttribute && a & mson::FixedTypeTypeAttribute) x.warn("'fixed' and 'fixed-type'", at);
    }
    inline Node property(const mson::PropertyMember& p, const snowcrash::SourceMap<mson::PropertyMember>& m, mson::BaseTypeName d, Expect& x)
    {
        clash(p, m, x);
        Node key = node(String);
        auto& var = p.name.variable;
        if (!var.empty()) {
            if (var.values.size() > 1) x.warn("multiple variables", m.name.sourceMap);
            if (!var.typeDefinition.empty()) {
                if (resolved(var.typeDefinition.typeSpecification) != String) {
                    x.error = true;
                    return Node();
                }
                key.name = var.typeDefinition.typeSpecification.name.symbol.literal;
            }
            if (!var.values.empty()) key.has = true, key.s = var.values[0].literal;
        }
        if (!p.name.literal.empty()) key.has = true, key.s = p.name.literal;
        attachMap(key, m.name.sourceMap);
        if (key.name.empty() && key.s.empty()) return Node(); // a property without a name is none
        std::vector<Description> desc;
        Node n = member(key, value(p, m, d, desc, x));
        if (!var.empty()) set(n.attr, "variable", boolean(true));
        attributes(n, p.valueDefinition.typeDefinition.attributes);
        if (!p.description.empty() && desc.size() > 1) desc[0].text += "\n"; // a paragraph of its own
        describe(n, desc);
        return n;
    }
    inline Node element(const mson::Element& e, const ElementMap& m, mson::BaseTypeName d, Expect& x)
    {
        if (auto* p = e.property()) return property(*p, m.property, d, x);
        if (auto* v = e.value()) {
            clash(*v, m.value, x);
            std::vector<Description> desc;
            Node n = value(*v, m.value, d, desc, x);
            attributes(n, v->valueDefinition.typeDefinition.attributes);
            describe(n, desc);
            return n;
        }
        if (auto* t = e.mixin()) {
            auto& name = t->typeSpecification.name;
            Node n = refTo(name.symbol.empty() ? defaultName(based(name.base)) : name.symbol.literal);
            set(n.attr, "path", str("content"));
            return n;
        }
        if (auto* o = e.oneOf()) {
            Node n = list(Select);
            n.has = !o->empty();
            for (size_t i = 0; i < o->size(); ++i) {
                ElementMap em = m.oneOf().collection.size() == o->size() ? m.oneOf().collection[i] : ElementMap();
                Node opt = list(Option);
                if (auto* g = (*o)[i].group()) opt.kids = elements(*g, em.elements(), mson::StringTypeName, x);
                else if (Node w = element((*o)[i], em, mson::StringTypeName, x)) opt.kids.push_back(w);
                n.kids.push_back(opt);
            }
            return n;
        }
        return Node();
    }
    inline Node structure(const snowcrash::DataStructure& s, const snowcrash::SourceMap<snowcrash::DataStructure>& m, Expect& x)
    {
        Kind k = resolved(s.typeDefinition.typeSpecification);
        Node n = node(k == None ? Object : k);
        n.name = s.typeDefinition.typeSpecification.name.symbol.literal;
        if (!s.name.symbol.literal.empty()) {
            Node id = str(s.name.symbol.literal);
            attachMap(id, m.name.sourceMap);
            set(n.meta, "id", id);
        }
        attachMap(n, m.sourceMap);
        attributes(n, s.typeDefinition.attributes);
        Data data;
        if (!primitive(n.k)) data.hint = hints(s.typeDefinition, m.typeDefinition.sourceMap, x);
        sections(n.k, s.sections, m.sections, nested(s.typeDefinition.typeSpecification.nestedTypes), data, x);
        describe(n, data.desc);
        content(n, data, x);
        return n;
    }

    // ---- comparing
    inline void agree(World& w, const Node& want, const Expect& x, const std::function<std::unique_ptr<IElement>()>& convert)
    {
        std::unique_ptr<IElement> got;
        try {
            got = convert();
            sym_assert(!x.error, "what has no meaning is an error");
        } catch (const snowcrash::Error& e) {
            sym_assert(x.error && e.code == snowcrash::MSONError, "what has a meaning is no error");
            sym_reach("error");
            return;
        }
        size_t n = 0;
        for (auto& a : w.ctx.warnings()) {
            bool known = false;
            for (auto& b : x.warnings) known |= a.message.find(b.first) != std::string::npos && place(a.location) == b.second;
            sym_assert(known && a.code == snowcrash::MSONError, "every warning has its reason");
            ++n;
        }
        sym_assert(n == x.warnings.size(), "every fault is reported once");
        if (n) sym_reach("warning");
        Node have = read(got.get()), wanted = want;
        sym_assert(same(sorted(have), sorted(wanted)), "the element is the one described");
    }
    inline void agree(const mson::Element& e, const ElementMap& m, mson::BaseTypeName d = mson::StringTypeName)
    {
        World w;
        Expect x;
        Node want = element(e, m, d, x);
        agree(w, want, x, [&]() { return drafter::MsonTypeSectionToApie(e, &m, w.ctx, d); });
    }

    // ---- writing
    struct Value : mson::Value {
        Value(const std::string& s, bool v = false) { literal = s, variable = v; }
    };
    inline mson::TypeName type(const std::string& s, bool variable = false)
    {
        mson::TypeName t;
        static const char* base[] = { "", "boolean", "string", "number", "array", "enum", "object" };
        for (int i = 1; i < 7; ++i)
            if (s == base[i]) t.base = (mson::BaseTypeName)i;
        if (t.base == mson::UndefinedTypeName) t.symbol.literal = s, t.symbol.variable = variable;
        return t;
    }
    inline void adopt(mson::TypeSection& s, const mson::Element& e) { s.content.elements().push_back(e); }
    struct Item { // a value or property with its source map
        mson::PropertyMember p;
        snowcrash::SourceMap<mson::PropertyMember> m;
        mson::TypeDefinition& type() { return p.valueDefinition.typeDefinition; }
        Item(const std::string& t = "")
        {
            type().typeSpecification.name = mm::type(t);
            Kind k = resolved(type().typeSpecification);
            type().baseType = k == Object ? mson::ObjectBaseType : k == Array || k == Enum ? mson::ValueBaseType : k == None ? mson::ImplicitPrimitiveBaseType : mson::PrimitiveBaseType;
            m.sourceMap = fresh();
            m.valueDefinition.sourceMap = fresh();
        }
        Item& value(const std::string& s, bool variable = false)
        {
            p.valueDefinition.values.push_back(Value(s, variable));
            return *this;
        }
        Item& named(const std::string& s)
        {
            p.name.literal = s;
            m.name.sourceMap = fresh();
            return *this;
        }
        Item& described(const std::string& s)
        {
            p.description = s;
            m.description.sourceMap = fresh();
            return *this;
        }
        template <typename S>
        Item& section(const S& s)
        {
            p.sections.push_back(s.s);
            if (maps()) m.sections.collection.push_back(s.m);
            return *this;
        }
        mson::Element element(bool property) const
        {
            if (property) return mson::Element(mson::PropertyMember(p));
            mson::ValueMember v = p;
            return mson::Element(std::move(v));
        }
        ElementMap map(bool property) const
        {
            ElementMap e;
            if (property) e.property = m;
            else e.value = m;
            return e;
        }
    };
    struct Section {
        mson::TypeSection s;
        snowcrash::SourceMap<mson::TypeSection> m;
        Section(mson::TypeSection::Class k) { s.klass = k; }
        Section& text(const std::string& t)
        {
            if (s.klass == mson::TypeSection::BlockDescriptionClass) {
                s.content.description = t;
                m.description.sourceMap = fresh();
            } else {
                s.content.value = t;
                m.value.sourceMap = fresh();
            }
            return *this;
        }
        Section& add(const mson::Element& e, const ElementMap& em)
        {
            s.content.elements().push_back(e);
            if (maps()) m.elements().collection.push_back(em);
            return *this;
        }
        Section& add(const Item& n, bool property = false) { return add(n.element(property), n.map(property)); }
    };
    const mson::TypeSection::Class BLOCK = mson::TypeSection::BlockDescriptionClass, MEMBERS = mson::TypeSection::MemberTypeClass, SAMPLE = mson::TypeSection::SampleClass, DEFAULT = mson::TypeSection::DefaultClass;
}
