//@ all: time=90
//@ bound: 3 named types (thorough also with 1 symbolic member each), each of any of 4 (thorough 7) base types or another named type or none, written in any order, defined as data structures, in groups or as attributes of resources in groups or not; up to 2 errors and warnings of the parser and 2 faults of conversion
//@ outside: types inheriting from themselves or from types that do not exist (C29: errors of the parser); the element made of one data structure (C40)
//@ assume: two types have different names (C29)
#include "mson.h"
#include "NamedTypesRegistry.h"
#include "SerializeResult.h"
using namespace mm;
namespace sc = snowcrash;
namespace
{
    const int TYPES = 3;
    const char* const bases[] = { "", "string", "object", "array", "number", "boolean", "enum" };
    struct Document {
        sc::Blueprint b;
        sc::SourceMap<sc::Blueprint> m;
        void add(const sc::DataStructure& d, const sc::SourceMap<sc::DataStructure>& dm, int place)
        {
            sc::Element e(sc::Element::DataStructureElement);
            sc::SourceMap<sc::Element> em;
            if (place >= 2) {
                e.element = sc::Element::ResourceElement;
                e.content.resource.attributes = d;
                e.content.resource.uriTemplate = "/";
                em.content.resource.attributes = dm;
            } else {
                e.content.dataStructure = d;
                em.content.dataStructure = dm;
            }
            if (place == 1 || place == 3) {
                sc::Element g(sc::Element::CategoryElement);
                sc::SourceMap<sc::Element> gm;
                g.category = place == 1 ? sc::Element::DataStructureGroupCategory : sc::Element::ResourceGroupCategory;
                g.content.elements().push_back(e);
                if (maps()) gm.content.elements().collection.push_back(em);
                e = g, em = gm;
            }
            b.content.elements().push_back(e);
            if (maps()) m.content.elements().collection.push_back(em);
        }
    };
    struct Type {
        std::string name, parent;
        sc::DataStructure d;
        sc::SourceMap<sc::DataStructure> m;
    };
    void write(Type& t, const std::string& parent)
    {
        t.parent = parent;
        t.d.name.symbol.literal = t.name;
        t.m.name.sourceMap = fresh();
        t.m.sourceMap = fresh();
        t.d.typeDefinition.typeSpecification.name = type(parent);
    }
    void member(Type& t, const std::string& of, int how)
    {
        Item i(how == 2 ? "string" : of);
        if (how == 0) i.value("v");
        if (how == 1) i.named("p");
        if (how == 2) { // a name of the type
            i.p.name.variable.values.push_back(mm::Value("p"));
            i.p.name.variable.typeDefinition.typeSpecification.name = type(of);
        }
        Section s(MEMBERS);
        s.add(i, how > 0);
        t.d.sections.push_back(s.s);
        if (maps()) t.m.sections.collection.push_back(s.m);
    }
}
HARNESS(types)
{
    maps() = BOUND(true, sym_bool("maps"));
    more().clear();
    static const char* const orders[][TYPES] = { { "A", "B", "C" }, { "A", "C", "B" }, { "B", "A", "C" }, { "B", "C", "A" }, { "C", "A", "B" }, { "C", "B", "A" } };
    const char* const* names = orders[sym_range("order", 0, 5)];
    Type t[TYPES];
    int parent[TYPES];
    for (int i = 0; i < TYPES; ++i) {
        t[i].name = names[i];
        int p = sym_range("parent", 0, BOUND(3, 6) + TYPES);
        parent[i] = p >= TYPES ? -1 : p;
        write(t[i], p >= TYPES ? bases[p - TYPES] : names[p]);
    }
    for (int i = 0; i < TYPES; ++i) {
        int p = i, n = 0;
        while (parent[p] >= 0 && n <= TYPES) p = parent[p], ++n;
        sym_assume(n <= TYPES);
        Kind k = resolved(t[p].d.typeDefinition.typeSpecification);
        more()[t[i].name] = k == None ? Object : k;
    }
    int which = sym_range("which", 0, TYPES); // has a member
    if (which < TYPES) {
        Kind k = more()[t[which].name];
        std::string of = names[sym_range("of", 0, TYPES - 1)];
        sym_assume(k == Object || (k == Array && more()[of] == String));
        member(t[which], of, k == Object ? sym_range("how", 1, 2) : 0);
    }
    Document doc;
    for (int i = 0; i < TYPES; ++i) doc.add(t[i].d, t[i].m, i == 1 && BOUND(which == TYPES, true) ? sym_range("place", 0, 3) : 0);
    drafter::ConversionContext ctx("");
    Expect x;
    Node want[TYPES];
    for (int i = 0; i < TYPES; ++i) want[i] = structure(t[i].d, t[i].m, x);
    try {
        drafter::RegisterNamedTypes(drafter::MakeNodeInfo(doc.b.content.elements(), doc.m.content.elements()), ctx);
        sym_assert(!x.error, "what has no meaning is an error");
    } catch (const sc::Error& e) {
        sym_assert(x.error && e.code == sc::MSONError, "what has a meaning is no error");
        sym_reach("error");
        return;
    }
    for (int i = 0; i < TYPES; ++i) {
        auto e = ctx.typeRegistry().find(t[i].name);
        sym_assert(e, "every named type is known");
        Node have = read(e);
        sym_assert(same(sorted(have), sorted(want[i])), "a named type is what its definition says");
        if (parent[i] > i && which < TYPES) sym_reach("used before its definition");
    }
}
HARNESS(reserved)
{
    maps() = true;
    static const char* const words[] = { "string", "number", "boolean", "null", "array", "enum", "object", "String", "strin", "ref", "select", "option", "member", "extend", "generic" };
    int w = sym_range("word", 0, 14);
    Type t[2];
    t[0].name = words[w], t[1].name = "A";
    write(t[0], ""), write(t[1], "string");
    Document doc;
    int place = sym_range("place", 0, 2);
    bool first = sym_bool("first");
    for (int i = 0; i < 2; ++i) doc.add(t[i != first].d, t[i != first].m, place);
    sc::ParseResult<sc::Blueprint> r;
    r.node = doc.b, r.sourceMap = doc.m;
    drafter::ConversionContext ctx("abcdefghijklmnopqrstuvwxyz0123456789");
    auto got = read(drafter::WrapRefract(r, ctx).get());
    bool reserved = refract::isReserved(words[w]);
    sym_assert(w > 6 || reserved, "base types are reserved");
    sym_assert(w < 7 || w > 8 || !reserved, "names count case");
    sym_assert(got.kids.size() == 1 && got.kids[0].name == (reserved ? "annotation" : "category"), "a reserved name is an error and nothing else");
    if (reserved) {
        sym_assert(r.report.error.code == sc::MSONError && r.report.error.message.find(words[w]) == 0, "the error names the type");
        sym_assert(place == 2 || r.report.error.location.size() == 1, "the error has a place");
        sym_reach("reserved");
    }
}
namespace
{
    mdp::CharactersRangeSet three(size_t from)
    {
        mdp::CharactersRangeSet s;
        s.push_back(mdp::CharactersRange(from, 3));
        return s;
    }
    Node norm(Node n) { return sorted(n); }
    Node annotation(const sc::SourceAnnotation& a, const char* klass)
    {
        Node n = str(a.message);
        n.name = "annotation";
        set(n.meta, "classes", list(Array, str(klass)));
        set(n.attr, "code", num(std::to_string(a.code)));
        Node in = list(Array);
        in.name = "sourceMap";
        for (auto& r : a.location) { // the text is one line
            Node f = num(std::to_string(r.location)), l = num(std::to_string(r.length));
            set(f.attr, "line", num("1")), set(f.attr, "column", num(std::to_string(r.location + 1)));
            set(l.attr, "line", num("1")), set(l.attr, "column", num(std::to_string(r.location + r.length)));
            in.kids.push_back(list(Array, f, l));
        }
        set(n.attr, "sourceMap", list(Array, in));
        return n;
    }
}
HARNESS(problems)
{
    maps() = sym_bool("maps");
    sc::ParseResult<sc::Blueprint> r;
    bool failed = sym_bool("failed");
    if (failed) r.report.error = sc::Error("E", 3, three(2));
    std::vector<sc::SourceAnnotation> warnings;
    for (int n = sym_range("warnings", 0, 2); n; --n) {
        sc::Warning w("w", sym_range("code", 1, 2), three(sym_range("at", 0, 1)));
        r.report.warnings.push_back(w);
        warnings.push_back(w);
    }
    Document doc;
    std::vector<std::pair<std::string, Loc>> faults;
    bool error = false;
    Loc before;
    for (int n = sym_range("faults", 0, 2); n; --n) {
        Type t;
        write(t, "object");
        t.d.name = mson::TypeName();
        int kind = sym_range("kind", 0, 3);
        Item i(kind == 1 ? "boolean" : kind == 3 ? "string" : "number");
        i.named("p").value(kind ? "x" : "7");
        if (kind == 3) i.value("y"), error = true;
        if (n == 1 && sym_bool("again")) i.m.valueDefinition.sourceMap = before;
        before = i.m.valueDefinition.sourceMap;
        Section s(MEMBERS);
        s.add(i, true);
        t.d.sections.push_back(s.s);
        if (maps()) t.m.sections.collection.push_back(s.m);
        doc.add(t.d, t.m, 2);
        if (!error && (kind == 1 || kind == 2)) {
            std::pair<std::string, Loc> f(kind == 1 ? "'boolean'" : "'number'", maps() ? before : Loc());
            bool known = false;
            for (auto& g : faults) known |= g.first == f.first && place(g.second) == place(f.second);
            if (!known) faults.push_back(f);
        }
    }
    r.node = doc.b, r.sourceMap = doc.m;
    size_t resources = doc.b.content.elements().size();
    drafter::ConversionContext ctx((std::string(400, 'a') + "\n").c_str());
    Node got = read(drafter::WrapRefract(r, ctx).get());
    sym_assert(got.name == "parseResult" && got.k == Array, "the result is a parse result");
    size_t k = 0;
    if (failed) faults.clear(), error = false;
    if (!failed && !error) {
        sym_assert(got.kids.size() > k && got.kids[k].name == "category" && got.kids[k].kids.size() == resources, "without an error there is a description");
        ++k;
    }
    if (failed || error) {
        sym_assert(got.kids.size() > k && same(sorted(got.kids[k]), norm(annotation(r.report.error, "error"))), "the error is reported");
        sym_assert(r.report.error.code == (failed ? 3 : (int)sc::MSONError), "the error is the first one");
        if (!failed) sym_reach("conversion error");
        ++k;
    }
    for (auto& w : warnings) {
        sym_assert(got.kids.size() > k && same(sorted(got.kids[k]), norm(annotation(w, "warning"))), "every warning of the parser is reported, in order");
        ++k;
    }
    sym_assert(r.report.warnings.size() == warnings.size() + faults.size(), "every fault is reported once");
    for (size_t i = 0; i < faults.size(); ++i, ++k) {
        auto& w = r.report.warnings[warnings.size() + i];
        sym_assert(w.code == sc::MSONError && w.message.find(faults[i].first) != std::string::npos && place(w.location) == place(faults[i].second), "every fault is reported, in order");
        sym_assert(got.kids.size() > k && same(sorted(got.kids[k]), norm(annotation(w, "warning"))), "every fault is an annotation");
        sym_reach("fault");
    }
    sym_assert(got.kids.size() == k, "nothing else is reported");
}
HARNESS(characters)
{
    maps() = true;
    int wide = sym_range("wide", 0, 2);
    std::string src;
    for (int i = 0; i < wide; ++i) src += "\xc3\xa9";
    size_t from = src.size();
    src += "abc\n";
    Type t;
    write(t, "object");
    t.d.name = mson::TypeName();
    Item i("number");
    i.named("p").value("x");
    i.m.valueDefinition.sourceMap = three(from);
    Section s(MEMBERS);
    s.add(i, true);
    t.d.sections.push_back(s.s);
    t.m.sections.collection.push_back(s.m);
    Document doc;
    doc.add(t.d, t.m, 2);
    sc::ParseResult<sc::Blueprint> r;
    r.node = doc.b, r.sourceMap = doc.m;
    drafter::ConversionContext ctx(src.c_str());
    drafter::WrapRefract(r, ctx);
    auto& w = r.report.warnings;
    sym_assert(w.size() == 1 && w[0].location.size() == 1 && w[0].location[0].length == 3, "the fault has its place");
    sym_assert(w[0].location[0].location == (size_t)wide || w[0].location[0].location == from, "the place of a fault of conversion is that of the value");
    sym_assert(w[0].location[0].location == (size_t)wide, "the place of a fault of conversion counts characters");
}
