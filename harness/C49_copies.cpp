//@ all: time=60 instr=20000000
//@ bound: descriptions, groups, resources with actions, transactions and payloads, named types with sections and members of every kind, and the source maps of all of these, with up to 2 (thorough 3) parts at 3 chosen places, nested 2 deep (thorough 3), every text with a symbolic octet, copied in any of 6 ways
//@ outside: assigning a part to the whole it is part of; what the parser makes of a source
//@ assume: source maps are kept by texts and values, as the parser fills them
#include "ref.h"
#include "snowcrash.h"
#include "Blueprint.h"
#include "BlueprintSourcemap.h"
using namespace snowcrash;
namespace
{
    // goes over all parts of a tree
    template <class F>
    struct Walk {
        F& f;
        // values
        void at(std::string& s) { f.text(s); }
        template <class E>
        void num(E& e)
        {
            unsigned v = (unsigned)e;
            f.number(v);
            e = (E)v;
        }
        void flag(bool& b)
        {
            unsigned v = b;
            f.number(v);
            b = v & 1;
        }
        template <class V>
        void all(V& v)
        {
            f.into(v);
            for (auto& x : v) at(x);
            f.out();
        }
        template <class T>
        void at(std::vector<T>& v) { all(v); }
        void at(KeyValuePair& p) { at(p.first), at(p.second); }
        // MSON
        void at(mson::Value& v) { at(v.literal), flag(v.variable); }
        void at(mson::Symbol& v) { at(v.literal), flag(v.variable); }
        void at(mson::TypeName& v) { num(v.base), at(v.symbol); }
        void at(mson::TypeDefinition& v) { num(v.baseType), at(v.typeSpecification.name), at(v.typeSpecification.nestedTypes), num(v.attributes); }
        void at(mson::ValueDefinition& v) { at(v.values), at(v.typeDefinition); }
        void at(mson::TypeSection& v) { num(v.baseType), num(v.klass), at(v.content.description), at(v.content.value), at(v.content.elements()); }
        void at(mson::NamedType& v) { at(v.name), at(v.typeDefinition), at(v.sections); }
        void at(mson::ValueMember& v) { at(v.description), at(v.valueDefinition), at(v.sections); }
        void at(mson::PropertyMember& v) { at((mson::ValueMember&)v), at(v.name.literal), at(v.name.variable); }
        void at(mson::Elements& v) { all(v); }
        void at(mson::Element& v)
        {
            f.kind(v);
            unsigned k = v.property() ? 1 : v.value() ? 2 : v.mixin() ? 3 : v.oneOf() ? 4 : v.group() ? 5 : 0;
            if (k == 1) at(const_cast<mson::PropertyMember&>(*v.property()));
            if (k == 2) at(const_cast<mson::ValueMember&>(*v.value()));
            if (k == 3) at(const_cast<mson::Mixin&>(*v.mixin()));
            if (k == 4) at(const_cast<mson::Elements&>(*v.oneOf()));
            if (k == 5) at(const_cast<mson::Elements&>(*v.group()));
        }
        // API Blueprint
        void at(Parameter& v) { at(v.name), at(v.description), at(v.type), num(v.use), at(v.defaultValue), at(v.exampleValue), at(v.values); }
        void at(Payload& v) { at(v.name), at(v.description), at(v.parameters), at(v.headers), at((mson::NamedType&)v.attributes), at(v.body), at(v.schema), at(v.reference.id), num(v.reference.meta.state); }
        void at(TransactionExample& v) { at(v.name), at(v.description), at(v.requests), at(v.responses); }
        void at(Action& v) { at(v.method), at(v.name), at(v.description), at(v.parameters), at((mson::NamedType&)v.attributes), at(v.uriTemplate), at(v.relation.str), at(v.headers), at(v.examples); }
        void at(Resource& v) { at(v.uriTemplate), at(v.name), at(v.description), at(v.model), at((mson::NamedType&)v.attributes), at(v.parameters), at(v.headers), at(v.actions); }
        void at(Element& v)
        {
            num(v.element), at(v.attributes.name), num(v.category), at(v.content.copy), at(v.content.resource), at((mson::NamedType&)v.content.dataStructure);
            at(v.content.elements());
        }
        void at(Blueprint& v) { at((Element&)v), at(v.metadata), at(v.name), at(v.description); }
        // source maps
        void at(mdp::BytesRange& r)
        {
            unsigned a = r.location, b = r.length;
            f.number(a), f.number(b);
            r.location = a, r.length = b;
        }
        void at(mdp::BytesRangeSet& s) { at((std::vector<mdp::BytesRange>&)s); }
        template <class T>
        auto parts(T& v, int) -> decltype((void)v.collection) { at(v.collection); }
        template <class T>
        void parts(T& v, long) { at(v.sourceMap); }
        template <class T>
        void at(SourceMap<T>& v) { parts(v, 0); }
        void at(SourceMap<mson::TypeSection>& v) { at(v.description), at(v.value), at(v.elements()); }
        void at(SourceMap<mson::NamedType>& v) { at(v.name), at(v.typeDefinition), at(v.sections); }
        void at(SourceMap<mson::ValueMember>& v) { at(v.description), at(v.valueDefinition), at(v.sections); }
        void at(SourceMap<mson::PropertyMember>& v) { at((SourceMap<mson::ValueMember>&)v), at(v.name); }
        void at(SourceMap<mson::Element>& v) { at(v.property), at(v.value), at(v.mixin), at(v.elements()); }
        void at(SourceMap<Parameter>& v) { at(v.sourceMap), at(v.name), at(v.description), at(v.type), at(v.use), at(v.defaultValue), at(v.exampleValue), at(v.values); }
        void at(SourceMap<Payload>& v) { at(v.sourceMap), at(v.name), at(v.description), at(v.parameters), at(v.headers), at((SourceMap<mson::NamedType>&)v.attributes), at(v.body), at(v.schema), at(v.reference); }
        void at(SourceMap<TransactionExample>& v) { at(v.name), at(v.description), at(v.requests), at(v.responses); }
        void at(SourceMap<Action>& v) { at(v.method), at(v.name), at(v.description), at(v.parameters), at((SourceMap<mson::NamedType>&)v.attributes), at(v.uriTemplate), at(v.relation), at(v.headers), at(v.examples); }
        void at(SourceMap<Resource>& v) { at(v.uriTemplate), at(v.name), at(v.description), at(v.model), at((SourceMap<mson::NamedType>&)v.attributes), at(v.parameters), at(v.headers), at(v.actions); }
        void at(SourceMap<Element>& v)
        {
            num(v.element), at(v.attributes.name), num(v.category), at(v.content.copy), at(v.content.resource), at((SourceMap<mson::NamedType>&)v.content.dataStructure);
            at(v.content.elements());
        }
        void at(SourceMap<Blueprint>& v) { at((SourceMap<Element>&)v), at(v.name), at(v.metadata), at(v.description); }
    };
    // fills a tree with texts and numbers that are all different
    struct Fill {
        unsigned n = 0, depth = 0, kinds, size[3];
        std::string pool;
        void text(std::string& s) // one of a few is empty
        {
            s = ++n + kinds & 3 ? pool.substr(n % pool.size(), 1) + std::to_string(n) : "";
        }
        void number(unsigned& v) { v = ++n % 3; }
        template <class V>
        void into(V& v) { v.resize(depth < 3 ? size[depth] : depth == 3 ? size[2] & 1 : 0), ++depth; }
        void out() { --depth; }
        void kind(mson::Element& e)
        {
            switch ((n++ + kinds) % 6) {
                case 1: e = mson::PropertyMember(); break;
                case 2: e = mson::ValueMember(); break;
                case 3: e = mson::Mixin(); break;
                case 4: e = mson::Element::OneOfSection(mson::Elements()); break;
                case 5: e = mson::Element::GroupSection(mson::Elements());
            }
        }
    };
    struct Dump {
        std::string all;
        void text(std::string& s) { all += '"', all += s; }
        void number(unsigned& v) { all += std::to_string(v) + ","; }
        template <class V>
        void into(V& v) { all += "[" + std::to_string(v.size()) + ":"; }
        void out() { all += ']'; }
        void kind(mson::Element& e) { all += e.property() ? 'p' : e.value() ? 'v' : e.mixin() ? 'm' : e.oneOf() ? 'o' : e.group() ? 'g' : '0'; }
    };
    struct Change {
        void text(std::string& s) { s += '!'; }
        void number(unsigned& v) { v ^= 1; }
        template <class V>
        void into(V&) {}
        void out() {}
        void kind(mson::Element&) {}
    };
    template <class T>
    std::string dump(T& t)
    {
        Dump d;
        Walk<Dump>{ d }.at(t);
        return d.all;
    }
    template <class T>
    void change(T& t)
    {
        Change c;
        Walk<Change>{ c }.at(t);
    }
    unsigned size[3], kinds;
    std::string pool;
    template <class T>
    void fill(T& t, unsigned n = 0, int other = 0)
    {
        Fill f;
        f.n = n, f.kinds = kinds + other, f.pool = pool;
        for (int i = 0; i < 3; ++i) f.size[i] = other ? 2 - size[i] : size[i];
        if (other) f.size[2] &= 1;
        Walk<Fill>{ f }.at(t);
    }
    template <class T>
    void copies(int how, bool first)
    {
        T* a = new T();
        fill(*a);
        std::string was = dump(*a);
        T* b = nullptr;
        switch (how) {
            case 0: b = new T(*a); break;
            case 1: *(b = new T()) = *a; break;
            case 2: fill(*(b = new T()), 7, 1), *b = *a; break;
            case 3: { // itself
                T& self = *a;
                *a = self;
                b = new T(*a);
                break;
            }
            case 4: { // in a collection that grows and shrinks
                std::vector<T> v;
                v.push_back(T());
                v.push_back(*a);
                v.push_back(v.back());
                v.insert(v.begin(), v[1]);
                v.erase(v.begin() + 1);
                for (auto& x : v) sym_assert(ref::eq(dump(x), was), "a copy is equal to what it is of");
                b = new T(v[1]);
                break;
            }
            default: { // moved
                T x(*a), y(std::move(x));
                b = new T();
                *b = std::move(y);
            }
        }
        sym_assert(ref::eq(dump(*a), was), "what is copied stays as it is");
        sym_assert(ref::eq(dump(*b), was), "a copy is equal to what it is of");
        change(first ? *a : *b);
        sym_assert(ref::eq(dump(first ? *b : *a), was), "a copy is of its own");
        delete (first ? a : b);
        sym_assert(ref::eq(dump(first ? *b : *a), was), "a copy is of its own");
        delete (first ? b : a);
    }
    template <class T>
    void run()
    {
        for (auto& s : size) s = (unsigned)sym_range("size", 0, BOUND(&s == size ? 2 : 1, 2));
        kinds = (unsigned)sym_range("kinds", 0, 5);
        pool = sym_str_n("texts", 4);
        int how = (int)sym_range("how", 0, 5);
        bool first = sym_bool("first");
        uint64_t heap = sym_live_heap();
        copies<T>(how, first);
        sym_assert(sym_live_heap() == heap, "nothing is left of a tree and its copies");
        sym_reach("copied");
    }
}
HARNESS(description) { run<Blueprint>(); }
HARNESS(element) { run<Element>(); }
HARNESS(resource) { run<Resource>(); }
HARNESS(member) { run<mson::Element>(); }
HARNESS(section) { run<mson::TypeSection>(); }
HARNESS(payload) { run<Payload>(); }
HARNESS(description_maps) { run<SourceMap<Blueprint>>(); }
HARNESS(element_maps) { run<SourceMap<Element>>(); }
HARNESS(resource_maps) { run<SourceMap<Resource>>(); }
HARNESS(member_maps) { run<SourceMap<mson::Element>>(); }
HARNESS(section_maps) { run<SourceMap<mson::TypeSection>>(); }
HARNESS(payload_maps) { run<SourceMap<Payload>>(); }
HARNESS(assigned)
{
    for (auto& s : size) s = (unsigned)sym_range("size", 0, 2);
    kinds = (unsigned)sym_range("kinds", 0, 5);
    pool = sym_str_n("texts", 4);
    if (sym_bool("type")) { // a named type becomes that of the attributes
        DataStructure to;
        mson::NamedType from;
        fill(from), fill((mson::NamedType&)to, 7, 1);
        std::string was = dump(from);
        to = from;
        sym_assert(ref::eq(dump((mson::NamedType&)to), was), "a copy is equal to what it is of");
        change((mson::NamedType&)to);
        sym_assert(ref::eq(dump(from), was), "a copy is of its own");
    } else { // maps of members become those of a choice or group
        SourceMap<mson::Element> to;
        SourceMap<mson::Elements> from;
        fill(from), fill(to, 7, 1);
        std::string was = dump(from), property = dump(to.property), value = dump(to.value), mixin = dump(to.mixin);
        to = from;
        sym_assert(ref::eq(dump(to.elements()), was) && &to.elements() == &to.oneOf(), "a copy is equal to what it is of");
        sym_assert(ref::eq(dump(to.property), property) && ref::eq(dump(to.value), value) && ref::eq(dump(to.mixin), mixin), "nothing else is assigned");
        change(to);
        sym_assert(ref::eq(dump(from), was), "a copy is of its own");
    }
    sym_reach("assigned");
}
