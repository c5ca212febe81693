//@ all: time=90
//@ bound: payloads with any of their parts, 9 media types (5 in quick) and both options; actions with up to 2 examples of up to 2 requests and 2 responses; any 2 of the elements of a group, 2 groups; parameters with any of their parts and up to 2 values; names and texts of up to 1 symbolic octet; source maps on or off
//@ outside: options with media types that are not JSON (in quick), values and schemas generated from attributes (C22, C23), conversion of attributes (C39, C40)
#include "mson.h"
#include "RefractAPI.h"
#include "options.h"
#include "refract/JsonSchema.h"
#include "refract/JsonValue.h"
#include "utils/so/JsonIo.h"
#include <sstream>
using namespace mm;
namespace sc = snowcrash;
namespace
{
    // a text and where it came from
    template <typename T>
    void put(T& to, sc::SourceMap<T>& m, const T& s) { to = s, m.sourceMap = fresh(); }
    std::string some(const char* name) { return sym_str(name, 0, 1); }
    template <typename T, typename C, typename M>
    void push(C& c, M& m, const T& t, const sc::SourceMap<T>& tm)
    {
        c.push_back(t);
        if (maps()) m.collection.push_back(tm);
    }
    template <typename M, typename T>
    sc::SourceMap<T> at(const M& m, size_t i, size_t n, const T&) { return m.collection.size() == n ? m.collection[i] : sc::SourceMap<T>(); }

    Node text(const std::string& s, const Loc& l)
    {
        Node n = str(s);
        attachMap(n, l);
        return n;
    }
    Node literalText(const std::string& s, const Loc& l)
    {
        Node n = s.empty() ? node(String) : str(s);
        attachMap(n, l);
        return n;
    }
    Node as(const char* name, Node n)
    {
        n.name = name;
        return n;
    }
    Node copy(const std::string& s, const Loc& l) { return as("copy", text(s, l)); }

    // ---- parameters
    void parameter(sc::Parameter& p, sc::SourceMap<sc::Parameter>& m, bool full)
    {
        put(p.name, m.name, full ? sym_str_n("name", 1) : std::string("p"));
        p.use = sc::UndefinedParameterUse; // as every parser of parameters leaves it
        if (!full) return;
        put(p.description, m.description, some("description"));
        put(p.type, m.type, some("type"));
        p.use = (sc::ParameterUse)sym_range("use", 0, 2);
        put(p.defaultValue, m.defaultValue, some("default"));
        put(p.exampleValue, m.exampleValue, some("example"));
        for (int n = sym_range("values", 0, 2); n; --n) {
            sc::SourceMap<sc::Value> vm;
            vm.sourceMap = fresh();
            push(p.values, m.values, some("value"), vm);
        }
    }
    Node parameters(const sc::Parameters& ps, const sc::SourceMap<sc::Parameters>& ms)
    {
        Node all = list(Object);
        all.name = "hrefVariables";
        for (size_t i = 0; i < ps.size(); ++i) {
            auto& p = ps[i];
            auto m = at(ms, i, ps.size(), p);
            Node v;
            if (p.values.empty()) {
                v = p.exampleValue.empty() ? node(String) : text(p.exampleValue, m.exampleValue.sourceMap);
                if (!p.defaultValue.empty()) set(v.attr, "default", text(p.defaultValue, m.defaultValue.sourceMap));
            } else {
                v = p.exampleValue.empty() ? node(Enum) : list(Enum, text(p.exampleValue, m.exampleValue.sourceMap));
                if (!p.defaultValue.empty()) set(v.attr, "default", list(Enum, text(p.defaultValue, m.defaultValue.sourceMap)));
                Node e = list(Array);
                for (size_t k = 0; k < p.values.size(); ++k) e.kids.push_back(literalText(p.values[k], at(m.values, k, p.values.size(), p.values[k]).sourceMap));
                set(v.attr, "enumerations", e);
            }
            Node n = model::member(text(p.name, m.name.sourceMap), v);
            if (!p.description.empty()) set(n.meta, "description", text(p.description, m.description.sourceMap));
            if (!p.type.empty()) set(n.meta, "title", text(p.type, m.type.sourceMap));
            set(n.attr, "typeAttributes", list(Array, str(p.use == sc::OptionalParameterUse ? "optional" : "required")));
            keep(all, n);
        }
        return all;
    }

    // ---- attributes
    void attributes(sc::DataStructure& d, sc::SourceMap<sc::DataStructure>& m)
    {
        d.typeDefinition.typeSpecification.name = type("object");
        Item i("number");
        i.named("n").value("7");
        Section s(MEMBERS);
        s.add(i, true);
        d.sections.push_back(s.s);
        if (maps()) m.sections.collection.push_back(s.m);
    }
    Node holder(const Node& n)
    {
        Node h = list(Holder, n);
        h.name = "dataStructure";
        return h;
    }

    // ---- payloads
    struct Media {
        const char* text;
        const char* canonical;
        bool json;
    };
    const Media media[] = { { "", "", false }, { "application/json", "application/json", true }, { "text/plain", "text/plain", false }, { "nonsense", "", false }, { "application/vnd.x+json", "application/vnd.x+json", true }, { "application/json; charset=utf-8", "application/json; charset=utf-8", true }, { "application/json-x", "application/json-x", false }, { "application/xml", "application/xml", false }, { "text/json", "text/json", false } };
    Media mediaOf(const sc::Headers& h)
    {
        for (auto& e : h)
            if (e.first == "Content-Type")
                for (auto& m : media)
                    if (e.second == m.text) return m;
        return media[0];
    }
    void payload(sc::Payload& p, sc::SourceMap<sc::Payload>& m, int full)
    {
        m.sourceMap = fresh();
        put(p.name, m.name, full ? sym_bool("named") ? sym_str_n("name", 1) : std::string() : std::string("200"));
        if (full < 2) return;
        if (sym_bool("description")) {
            put(p.description, m.description, std::string("d"));
            sc::Parameter a;
            sc::SourceMap<sc::Parameter> am;
            parameter(a, am, false);
            push(p.parameters, m.parameters, a, am);
        }
        auto header = [&](const char* k, const char* v) {
            sc::SourceMap<sc::Header> hm;
            hm.sourceMap = fresh();
            push(p.headers, m.headers, sc::Header(k, v), hm);
        };
        int k = sym_range("media", 0, BOUND(5, 9));
        if (k & 1) header("X", "y");
        if (k) header("Content-Type", media[k - 1].text);
        if (sym_bool("attributes")) ::attributes(p.attributes, m.attributes);
        if (sym_bool("body")) put(p.body, m.body, sym_str_n("octet", 1));
        if (sym_bool("schema")) put(p.schema, m.schema, std::string("{}"));
    }
    Node asset(const std::string& s, const char* klass, const std::string& type, const Loc& l)
    {
        Node a = as("asset", text(s, l));
        set(a.meta, "classes", list(Array, str(klass)));
        if (!type.empty()) set(a.attr, "contentType", str(type));
        return a;
    }
    struct Options {
        drafter_parse_options* o = nullptr;
        bool bodies = true, schemas = true;
    };
    // the requests of an action that generates from its own attributes when there are none
    Node payloadNode(const sc::Payload* p, const sc::SourceMap<sc::Payload>& m, const sc::Action* a, const sc::SourceMap<sc::Action>* am, World& w, const Options& o)
    {
        Node n = list(Array);
        bool request = a && !a->method.empty();
        n.name = request ? "httpRequest" : "httpResponse";
        if (request) {
            set(n.attr, "method", text(a->method, am->method.sourceMap));
            if (p && !p->name.empty()) set(n.meta, "title", text(p->name, m.name.sourceMap));
        } else if (p)
            set(n.attr, "statusCode", text(p->name, m.name.sourceMap));
        if (!p) return n;
        attachMap(n, m.sourceMap);
        if (!p->parameters.empty()) set(n.attr, "hrefVariables", parameters(p->parameters, m.parameters));
        if (!p->headers.empty()) {
            Node h = list(Array);
            h.name = "httpHeaders";
            for (size_t i = 0; i < p->headers.size(); ++i) {
                Node e = model::member(str(p->headers[i].first), str(p->headers[i].second));
                attachMap(e, at(m.headers, i, p->headers.size(), p->headers[i]).sourceMap);
                h.kids.push_back(e);
            }
            set(n.attr, "headers", h);
        }
        if (!p->description.empty()) n.kids.push_back(copy(p->description, m.description.sourceMap));
        Expect x;
        Node ds;
        if (!p->attributes.empty()) {
            ds = structure(p->attributes, m.attributes, x);
            n.kids.push_back(holder(ds));
        } else if (a && !a->attributes.empty())
            ds = structure(a->attributes, am->attributes, x);
        Media type = mediaOf(p->headers);
        std::unique_ptr<IElement> e = ds ? build(ds) : nullptr;
        if (!p->body.empty()) n.kids.push_back(asset(p->body, "messageBody", type.canonical, m.body.sourceMap));
        else if (e && o.bodies && type.json) {
            std::stringstream s;
            drafter::utils::so::serialize_json(s, refract::generateJsonValue(*e));
            n.kids.push_back(asset(s.str(), "messageBody", type.canonical, Loc()));
            sym_reach("generated body");
        }
        if (!p->schema.empty()) n.kids.push_back(asset(p->schema, "messageBodySchema", type.json ? "application/schema+json" : "text/plain", m.schema.sourceMap));
        else if (e && o.schemas && type.json) {
            std::stringstream s;
            drafter::utils::so::serialize_json(s, refract::schema::generateJsonSchema(*e));
            n.kids.push_back(asset(s.str(), "messageBodySchema", "application/schema+json", Loc()));
            sym_reach("generated schema");
        }
        return n;
    }

    // ---- actions
    enum What { PARAMETERS, PAYLOADS, ACTIONS, RESOURCES };
    void action(sc::Action& a, sc::SourceMap<sc::Action>& m, What w)
    {
        put(a.method, m.method, std::string("PUT"));
        put(a.name, m.name, some("name"));
        if (w == RESOURCES) return;
        if (w == ACTIONS) {
            bool described = sym_bool("described");
            if (described) put(a.description, m.description, std::string("d"));
            if (BOUND(0, 1) ? sym_bool("relation") : !described) a.relation.str = "r", m.relation.sourceMap = fresh();
            put(a.uriTemplate, m.uriTemplate, some("uri"));
            if (sym_bool("parameters")) {
                sc::Parameter p;
                sc::SourceMap<sc::Parameter> pm;
                parameter(p, pm, false);
                push(a.parameters, m.parameters, p, pm);
            }
        }
        if (sym_bool("attributes")) ::attributes(a.attributes, m.attributes);
        for (int n = sym_range("examples", w == PAYLOADS, w == PAYLOADS ? 1 : 2); n; --n) {
            sc::TransactionExample e;
            sc::SourceMap<sc::TransactionExample> em;
            if (w == ACTIONS && n == 1 && sym_bool("description")) put(e.description, em.description, std::string("e"));
            int q = w == PAYLOADS ? sym_bool("request") : n == 1 ? sym_range("requests", 0, 2) : 1, r = w == PAYLOADS ? 1 - q : n == 1 ? sym_range("responses", 0, 2) : BOUND(1, sym_range("responses", 0, 1));
            for (; q; --q) {
                sc::Payload p;
                sc::SourceMap<sc::Payload> pm;
                payload(p, pm, w == PAYLOADS ? 2 : q == 1);
                push(e.requests, em.requests, p, pm);
            }
            for (; r; --r) {
                sc::Payload p;
                sc::SourceMap<sc::Payload> pm;
                payload(p, pm, w == PAYLOADS ? 2 : 0);
                push(e.responses, em.responses, p, pm);
            }
            push(a.examples, m.examples, e, em);
        }
    }
    Node actionNode(const sc::Action& a, const sc::SourceMap<sc::Action>& m, World& w, const Options& o)
    {
        Node n = list(Array);
        n.name = "transition";
        set(n.meta, "title", text(a.name, m.name.sourceMap));
        if (!a.relation.str.empty()) set(n.attr, "relation", text(a.relation.str, m.relation.sourceMap));
        if (!a.uriTemplate.empty()) set(n.attr, "href", text(a.uriTemplate, m.uriTemplate.sourceMap));
        if (!a.parameters.empty()) set(n.attr, "hrefVariables", parameters(a.parameters, m.parameters));
        Expect x;
        if (!a.attributes.empty()) set(n.attr, "data", holder(structure(a.attributes, m.attributes, x)));
        if (!a.description.empty()) n.kids.push_back(copy(a.description, m.description.sourceMap));
        for (size_t i = 0; i < a.examples.size(); ++i) {
            auto& e = a.examples[i];
            auto em = at(m.examples, i, a.examples.size(), e);
            size_t q = e.requests.size(), r = e.responses.size();
            if (q + r == 0) continue;
            // each request with each response; one of them may be missing
            for (size_t j = 0; j < std::max<size_t>(q, 1); ++j)
                for (size_t k = 0; k < std::max<size_t>(r, 1); ++k) {
                    Node t = list(Array);
                    t.name = "httpTransaction";
                    if (!e.description.empty()) t.kids.push_back(copy(e.description, em.description.sourceMap));
                    sc::SourceMap<sc::Payload> none;
                    t.kids.push_back(payloadNode(q ? &e.requests[j] : nullptr, q ? at(em.requests, j, q, e.requests[j]) : none, &a, &m, w, o));
                    t.kids.push_back(payloadNode(r ? &e.responses[k] : nullptr, r ? at(em.responses, k, r, e.responses[k]) : none, nullptr, nullptr, w, o));
                    n.kids.push_back(t);
                    sym_reach("transaction");
                }
        }
        return n;
    }

    // ---- resources, groups, blueprints
    void resource(sc::Resource& r, sc::SourceMap<sc::Resource>& m, What w)
    {
        put(r.name, m.name, some("name"));
        put(r.uriTemplate, m.uriTemplate, std::string("/"));
        if (w == PARAMETERS)
            for (int n = sym_range("parameters", 0, 2); n; --n) {
                sc::Parameter p;
                sc::SourceMap<sc::Parameter> pm;
                parameter(p, pm, n == 1);
                push(r.parameters, m.parameters, p, pm);
            }
        if (w == RESOURCES) {
            if (sym_bool("description")) put(r.description, m.description, std::string("d"));
            if (sym_bool("attributes")) ::attributes(r.attributes, m.attributes);
        }
        for (int n = w == PARAMETERS ? 0 : sym_range("actions", w != RESOURCES, w == RESOURCES ? 2 : 1); n; --n) {
            sc::Action a;
            sc::SourceMap<sc::Action> am;
            action(a, am, w);
            push(r.actions, m.actions, a, am);
        }
    }
    Node resourceNode(const sc::Resource& r, const sc::SourceMap<sc::Resource>& m, World& w, const Options& o)
    {
        Node n = list(Array);
        n.name = "resource";
        set(n.meta, "title", text(r.name, m.name.sourceMap));
        set(n.attr, "href", text(r.uriTemplate, m.uriTemplate.sourceMap));
        if (!r.parameters.empty()) set(n.attr, "hrefVariables", parameters(r.parameters, m.parameters));
        if (!r.description.empty()) n.kids.push_back(copy(r.description, m.description.sourceMap));
        Expect x;
        if (!r.attributes.empty()) n.kids.push_back(holder(structure(r.attributes, m.attributes, x)));
        for (size_t i = 0; i < r.actions.size(); ++i) n.kids.push_back(actionNode(r.actions[i], at(m.actions, i, r.actions.size(), r.actions[i]), w, o));
        return n;
    }
    typedef sc::SourceMap<sc::Element> Map;
    void element(sc::Element& e, Map& m, int depth)
    {
        switch (sym_range("element", 0, depth ? 3 : 2)) {
            case 0:
                e.element = sc::Element::CopyElement;
                put(e.content.copy, m.content.copy, some("copy"));
                break;
            case 1:
                e.element = sc::Element::ResourceElement;
                put(e.content.resource.name, m.content.resource.name, BOUND(std::string("n"), some("name")));
                put(e.content.resource.uriTemplate, m.content.resource.uriTemplate, std::string("/"));
                break;
            case 2:
                e.element = sc::Element::DataStructureElement;
                if (sym_bool("defined")) ::attributes(e.content.dataStructure, m.content.dataStructure);
                break;
            default:
                e.element = sc::Element::CategoryElement;
                e.category = (sc::Element::Category)sym_range("category", 0, 2);
                put(e.attributes.name, m.attributes.name, some("name"));
                for (int n = sym_range("elements", 0, 2); n; --n) {
                    sc::Element k;
                    Map km;
                    element(k, km, depth - 1);
                    push(e.content.elements(), m.content.elements(), k, km);
                }
        }
    }
    Node elementNode(const sc::Element& e, const Map& m, World& w)
    {
        Options o;
        Expect x;
        switch (e.element) {
            case sc::Element::CopyElement: return e.content.copy.empty() ? Node() : copy(e.content.copy, m.content.copy.sourceMap);
            case sc::Element::ResourceElement: return resourceNode(e.content.resource, m.content.resource, w, o);
            case sc::Element::DataStructureElement: return e.content.dataStructure.empty() ? Node() : holder(structure(e.content.dataStructure, m.content.dataStructure, x));
            default: break;
        }
        Node n = list(Array);
        n.name = "category";
        if (e.category == sc::Element::ResourceGroupCategory) {
            set(n.meta, "classes", list(Array, str("resourceGroup")));
            set(n.meta, "title", text(e.attributes.name, m.attributes.name.sourceMap));
        } else if (e.category == sc::Element::DataStructureGroupCategory)
            set(n.meta, "classes", list(Array, str("dataStructures")));
        auto& es = e.content.elements();
        for (size_t i = 0; i < es.size(); ++i)
            if (Node k = elementNode(es[i], at(m.content.elements(), i, es.size(), es[i]), w)) n.kids.push_back(k);
        return n;
    }
    void whole(What w)
    {
        maps() = BOUND(w == PAYLOADS || w == ACTIONS, 0) || sym_bool("maps");
        sc::Blueprint b;
        sc::SourceMap<sc::Blueprint> m;
        put(b.name, m.name, std::string("A"));
        sc::Element e(sc::Element::ResourceElement);
        Map em;
        resource(e.content.resource, em.content.resource, w);
        push(b.content.elements(), m.content.elements(), e, em);
        Options o;
        bool generated = false; // elsewhere the options cannot matter
        if (w == PAYLOADS) {
            auto& x = e.content.resource.actions[0].examples[0];
            generated = BOUND(mediaOf((x.requests.empty() ? x.responses : x.requests)[0].headers).json, true);
        }
        if (generated && sym_bool("options")) {
            o.o = drafter_init_parse_options();
            if (sym_bool("bodies")) drafter_set_skip_gen_bodies(o.o), o.bodies = false;
            if (sym_bool("schemas")) drafter_set_skip_gen_body_schemas(o.o), o.schemas = false;
        }
        World world;
        drafter::ConversionContext ctx("", o.o);
        auto got = drafter::BlueprintToRefract(drafter::MakeNodeInfo(b, m), ctx);
        Node want = list(Array, resourceNode(e.content.resource, em.content.resource, world, o));
        want.name = "category";
        set(want.meta, "classes", list(Array, str("api")));
        set(want.meta, "title", text(b.name, m.name.sourceMap));
        Node have = read(got.get());
        sym_assert(same(sorted(have), sorted(want)), "the elements are those of the description");
        sym_assert(ctx.warnings().empty(), "nothing to report");
        drafter_free_parse_options(o.o);
    }
}
HARNESS(hrefVariables) { whole(PARAMETERS); }
HARNESS(payloads) { whole(PAYLOADS); }
HARNESS(transitions) { whole(ACTIONS); }
HARNESS(resources) { whole(RESOURCES); }
HARNESS(blueprints)
{
    maps() = sym_bool("maps");
    sc::Blueprint b;
    sc::SourceMap<sc::Blueprint> m;
    put(b.name, m.name, some("name"));
    put(b.description, m.description, some("description"));
    int elements = sym_range("elements", 0, 2);
    for (int n = elements == 2 ? BOUND(0, 2) : sym_range("metadata", 0, 2); n; --n) {
        sc::SourceMap<sc::Metadata> mm;
        mm.sourceMap = fresh();
        push(b.metadata, m.metadata, sc::Metadata(n == 1 ? some("key") : "k", "v"), mm);
    }
    for (int n = elements; n; --n) {
        sc::Element k;
        Map km;
        ::element(k, km, n == 1 ? BOUND(1, 2) : 0);
        push(b.content.elements(), m.content.elements(), k, km);
    }
    World w;
    auto got = drafter::BlueprintToRefract(drafter::MakeNodeInfo(b, m), w.ctx);
    Node want = list(Array);
    want.name = "category";
    set(want.meta, "classes", list(Array, str("api")));
    set(want.meta, "title", text(b.name, m.name.sourceMap));
    if (!b.description.empty()) want.kids.push_back(copy(b.description, m.description.sourceMap));
    if (!b.metadata.empty()) {
        Node l = list(Array);
        for (size_t i = 0; i < b.metadata.size(); ++i) {
            Node e = model::member(str(b.metadata[i].first), str(b.metadata[i].second));
            set(e.meta, "classes", list(Array, str("user")));
            attachMap(e, at(m.metadata, i, b.metadata.size(), b.metadata[i]).sourceMap);
            l.kids.push_back(e);
        }
        set(want.attr, "metadata", l);
    }
    auto& es = b.content.elements();
    for (size_t i = 0; i < es.size(); ++i)
        if (Node k = elementNode(es[i], at(m.content.elements(), i, es.size(), es[i]), w)) want.kids.push_back(k);
    Node have = read(got.get());
    sym_assert(same(sorted(have), sorted(want)), "the elements are those of the description");
}
HARNESS(annotations)
{
    std::string src = "ab\n\xc3\xa9" "d\nxyz\n"; // positions count characters
    drafter::ConversionContext ctx(src.c_str());
    sc::SourceAnnotation a;
    a.message = some("message");
    a.code = sym_range("code", 0, 1) * 13;
    size_t n = sym_range("ranges", 0, 2);
    for (size_t i = 0; i < n; ++i) {
        size_t from = i && BOUND(1, 0) ? 4 : sym_range("from", 0, 9), length = sym_range("length", 1, 10 - from);
        a.location.push_back(mdp::CharactersRange(from, length));
    }
    bool error = sym_bool("error");
    auto got = drafter::AnnotationToRefract(a, error ? "error" : "warning", ctx);
    Node want = as("annotation", str(a.message));
    set(want.meta, "classes", list(Array, str(error ? "error" : "warning")));
    set(want.attr, "code", num(std::to_string(a.code)));
    Node in = list(Array);
    in.name = "sourceMap";
    static const int line[] = { 1, 1, 1, 2, 2, 2, 3, 3, 3, 3 }, column[] = { 1, 2, 3, 1, 2, 3, 1, 2, 3, 4 };
    for (auto& r : a.location) {
        size_t last = r.location + (r.length ? r.length - 1 : 0);
        Node f = num(std::to_string(r.location)), t = num(std::to_string(r.length));
        set(f.attr, "line", num(std::to_string(line[r.location])));
        set(f.attr, "column", num(std::to_string(column[r.location])));
        set(t.attr, "line", num(std::to_string(line[last])));
        set(t.attr, "column", num(std::to_string(column[last])));
        in.kids.push_back(list(Array, f, t));
    }
    set(want.attr, "sourceMap", list(Array, in));
    Node have = read(got.get());
    sym_assert(same(sorted(have), sorted(want)), "an annotation is its message, code and place");
}
