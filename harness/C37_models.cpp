//@ all: time=60
//@ bound: two resources (thorough three), each with no model, a model of a code block or one of sections, named by the resource, by itself or not at all, and a request or response, with or without media type (quick: of the second only; one of each, models of the second with or without media type), referring to any of the models or to none; in one group or in none
//@ outside: models in actions whose method allows no body, and in actions with deprecated headers; attributes of models
#include "pay.h"
using namespace bp;
namespace
{
    const bool THICK = BOUND(false, true);
    struct Reference_ {
        bool request = false, pending = false;
        std::string id, media;
        At at, sig;
        XPayload got;
        size_t resource = 0;
    };
    void run(int count, bool maps, bool grouped, bool first_named)
    {
        md::Doc d;
        std::map<std::string, XPayload> models;
        std::deque<Reference_> refs;
        bool error = false;
        int want[20] = {}, got[20] = {};
        if (grouped) d.header(1, "Group g");
        static const char* names[] = { "A", "B", "C" };
        for (int i = 0; i < count; ++i) {
            bool named = i || first_named;
            std::string uri = std::string("/") + names[i];
            d.header(1, named ? std::string(names[i]) + " [" + uri + "]" : uri);
            At resource = d.root.children().back().sourceMap;
            int kind = (int)sym_range("model", 0, BOUND(2, 3));
            if (kind) {
                bool own = sym_bool("model with a name of its own"), type = i || THICK ? sym_bool("media type of the model") : first_named;
                XPayload m;
                m.name = own ? "M" : named ? names[i] : "";
                d.item(std::string(own ? "M Model" : "Model") + (type ? " (a/m)" : ""));
                m.at = own ? d.top().children().back().sourceMap : resource;
                if (type) m.headers.push_back({ "Content-Type", "a/m" }), m.headersAt.push_back(d.top().children().back().sourceMap);
                if (kind == 1) {
                    d.code(std::string("b") + names[i]);
                    m.body = std::string("b") + names[i] + "\n";
                    m.bodyAt = d.top().children().back().sourceMap;
                } else {
                    if (kind == 3 || i) {
                        d.text(std::string("d") + names[i]);
                        m.desc.add(std::string("d") + names[i], d.top().children().back().sourceMap);
                    }
                    d.item("Headers");
                    d.code("X: y\nZ: w");
                    size_t at = d.src.find("X: y", d.top().children().back().sourceMap[0].location);
                    m.headers.push_back({ "X", "y" }), m.headersAt.push_back(one(at, 4));
                    m.headers.push_back({ "Z", "w" }), m.headersAt.push_back(one(at + 5, 4));
                    auto& lines = d.top().children().back().sourceMap; // one range for each line
                    lines[0] = mdp::BytesRange(at, 5);
                    lines.push_back(mdp::BytesRange(at + 5, d.src.size() - at - 5));
                    d.end();
                    if (kind == 3 || !i) {
                        d.item("Schema");
                        d.code("s");
                        m.schema = "s\n";
                        m.schemaAt = d.top().children().back().sourceMap;
                        d.end();
                    }
                    d.item("Body");
                    d.code(std::string("b") + names[i]);
                    m.body = std::string("b") + names[i] + "\n";
                    m.bodyAt = d.top().children().back().sourceMap;
                    d.end();
                }
                d.end();
                if (m.name.empty() || models.count(m.name)) error = true;
                if (!models.count(m.name)) models[m.name] = m;
            }
            d.header(2, "GET");
            Reference_ r;
            r.request = THICK ? sym_bool("request") : (i > 0) == first_named;
            r.resource = i;
            static const char* ids[] = { "", "A", "B", "M" };
            r.id = ids[sym_range("reference", 0, 3)];
            r.media = (i || count == 1 || THICK) && sym_bool("media type") ? "t/u" : "";
            d.item(std::string(r.request ? "Request n" : "Response 201") + (r.media.empty() ? "" : " (t/u)"));
            r.got.name = r.request ? "n" : "201";
            r.got.at = r.sig = d.top().children().back().sourceMap;
            if (!r.media.empty()) r.got.headers.push_back({ "Content-Type", "t/u" }), r.got.headersAt.push_back(r.sig);
            if (r.id.empty()) {
                d.code("own");
                r.got.body = "own\n", r.got.bodyAt = d.top().children().back().sourceMap;
            } else {
                d.text("[" + r.id + "][]");
                r.at = d.top().children().back().sourceMap;
            }
            d.end();
            refs.push_back(r);
            if (r.request) want[EmptyDefinitionWarning]++; // no response
        }
        for (auto& r : refs) {
            if (r.id.empty()) continue;
            if (!models.count(r.id)) {
                error = true;
                if (r.request && r.media.empty()) want[EmptyDefinitionWarning]++; // nor body, nor headers
                continue;
            }
            const XPayload& m = models[r.id];
            r.got.desc = m.desc;
            r.got.body = m.body, r.got.bodyAt = m.bodyAt;
            r.got.schema = m.schema, r.got.schemaAt = m.schemaAt;
            bool typed = false;
            for (auto& h : m.headers) typed |= h.first == "Content-Type";
            if (typed && !r.media.empty()) want[IgnoringWarning]++, r.got.headers.clear(), r.got.headersAt.clear();
            r.got.headers.insert(r.got.headers.end(), m.headers.begin(), m.headers.end());
            r.got.headersAt.insert(r.got.headersAt.end(), m.headersAt.begin(), m.headersAt.end());
        }
        d.parse(maps ? ExportSourcemapOption : 0);
        sym_assert((d.report.error.code == ModelError) == error && (error || d.report.error.code == Error::OK), "a model which is not defined, not named or defined twice is an error, nothing else is");
        auto& es = grouped ? d.bp.content.elements()[0].content.elements() : d.bp.content.elements();
        sym_assert((int)es.size() == count, "resources");
        SourceMap<Payload> no;
        for (auto& r : refs) {
            const Action& a = es[r.resource].content.resource.actions[0];
            const Payload& p = r.request ? a.examples[0].requests[0] : a.examples[0].responses[0];
            const SourceMap<Payload>* sm = &no;
            if (maps) {
                auto& ms = grouped ? d.sm.content.elements().collection[0].content.elements() : d.sm.content.elements();
                auto& e = ms.collection[r.resource].content.resource.actions.collection[0].examples.collection[0];
                sm = r.request ? &e.requests.collection[0] : &e.responses.collection[0];
            }
            compare(r.got, p, *sm, maps);
            sym_assert(ref::eq(p.reference.id, r.id), "the model a payload refers to");
            sym_assert(same(sm->reference.sourceMap, maps && !r.id.empty() ? r.at : At()), "source map of a reference");
            if (!r.id.empty()) sym_assert((p.reference.meta.state == Reference::StateResolved) == (models.count(r.id) > 0), "a reference is resolved when its model is defined");
        }
        for (auto& w : d.report.warnings) got[w.code]++;
        for (int i = 0; i < 20; ++i) {
            if (got[i] != want[i]) sym_observe("code", i), sym_observe("got", got[i]), sym_observe("want", want[i]);
            sym_assert(got[i] == want[i], "warnings");
        }
        sym_reach(error ? "error" : "no error");
    }
}
HARNESS(named) { run(BOUND(2, 3), true, false, true); }
HARNESS(unnamed) { run(2, true, false, false); }
HARNESS(groups) { run(BOUND(1, 2), sym_bool("maps"), true, true); }
