// What a document is meant to say, and the comparison of a parsed blueprint and its source maps with it.
#pragma once
#include "md.h"
#include <deque>
namespace bp
{
    using namespace snowcrash;
    typedef mdp::BytesRangeSet At;
    inline bool same(const At& a, const At& b)
    {
        int ok = a.size() == b.size();
        for (size_t i = 0; ok && i < a.size(); ++i) ok &= (a[i].location == b[i].location) & (a[i].length == b[i].length);
        return ok;
    }
    struct Text { // a description: paragraphs and where they are
        std::string text;
        At at;
        void add(const std::string& s, const At& where)
        {
            if (!text.empty()) text += "\n\n";
            text += s;
            for (auto& r : where)
                if (!at.empty() && at.back().location + at.back().length == r.location) at.back().length += r.length;
                else at.push_back(r);
        }
    };
    struct XAction {
        std::string name, method, uri;
        Text desc;
        At at;
    };
    struct XResource {
        std::string name, uri;
        Text desc;
        At at;
        bool endpoint = false;
        std::deque<XAction> actions;
    };
    struct XElement { // a group, or a resource outside any group
        bool group = false;
        std::string name;
        At at;
        Text copy;
        bool copied = false;
        std::deque<XResource> resources;
    };
    struct Expect {
        std::string name;
        At nameAt;
        Text desc;
        std::deque<XElement> elements;
        std::vector<int> warnings;
        struct Says { // a warning of this kind names these things, at this place
            int code;
            std::vector<std::string> names;
            At at;
        };
        std::vector<Says> says;
    };
    inline void check(const Text& x, const std::string& text, const At& at, bool maps, const char* what)
    {
        sym_assert(ref::eq(text, x.text), what);
        sym_assert(same(at, maps ? x.at : At()), "source map of a description");
    }
    inline void named(const std::string& x, const At& where, const std::string& got, const At& at, bool maps, const char* what)
    {
        sym_assert(ref::eq(got, x), what);
        sym_assert(same(at, maps && !x.empty() ? where : At()), "source map of a name, URI or method");
    }
    inline void check(const XResource& x, const Resource& r, const SourceMap<Resource>& sm, bool maps)
    {
        SourceMap<Action> none;
        sym_assert(ref::eq(r.name, x.name), "name of a resource");
        named(x.uri, x.at, r.uriTemplate, sm.uriTemplate.sourceMap, maps, "URI of a resource");
        if (!x.endpoint) named(x.name, x.at, r.name, sm.name.sourceMap, maps, "name of a resource");
        check(x.desc, r.description, sm.description.sourceMap, maps, "description of a resource");
        sym_assert(r.actions.size() == x.actions.size(), "actions of a resource");
        sym_assert(sm.actions.collection.size() == (maps ? x.actions.size() : 0), "source maps of the actions of a resource");
        for (size_t i = 0; i < x.actions.size(); ++i) {
            const XAction& a = x.actions[i];
            const Action& b = r.actions[i];
            const SourceMap<Action>& m = maps ? sm.actions.collection[i] : none;
            named(a.name, a.at, b.name, m.name.sourceMap, maps, "name of an action");
            named(a.method, a.at, b.method, m.method.sourceMap, maps, "method of an action");
            named(a.uri, a.at, b.uriTemplate, m.uriTemplate.sourceMap, maps, "URI of an action");
            check(a.desc, b.description, m.description.sourceMap, maps, "description of an action");
        }
    }
    inline void check(const Expect& x, const md::Doc& d, bool maps)
    {
        SourceMap<Element> none;
        sym_assert(d.report.error.code == Error::OK, "a document without errors is parsed without errors");
        named(x.name, x.nameAt, d.bp.name, d.sm.name.sourceMap, maps, "name of the API");
        check(x.desc, d.bp.description, d.sm.description.sourceMap, maps, "description of the API");
        auto& es = d.bp.content.elements();
        auto& ms = d.sm.content.elements().collection;
        sym_assert(es.size() == x.elements.size(), "groups and resources of the API");
        sym_assert(ms.size() == (maps ? es.size() : 0), "source maps of the groups and resources of the API");
        sym_assert(d.bp.element == Element::CategoryElement, "the API is a category");
        for (size_t i = 0; i < es.size(); ++i) {
            const XElement& e = x.elements[i];
            const SourceMap<Element>& m = maps ? ms[i] : none;
            if (!e.group) {
                sym_assert(es[i].element == Element::ResourceElement, "a resource");
                check(e.resources[0], es[i].content.resource, m.content.resource, maps);
                continue;
            }
            sym_assert(es[i].element == Element::CategoryElement && es[i].category == Element::ResourceGroupCategory, "a group");
            named(e.name, e.at, es[i].attributes.name, m.attributes.name.sourceMap, maps, "name of a group");
            auto& in = es[i].content.elements();
            auto& im = m.content.elements().collection;
            size_t n = e.copied;
            sym_assert(in.size() == n + e.resources.size(), "members of a group");
            sym_assert(im.size() == (maps ? in.size() : 0), "source maps of the members of a group");
            if (e.copied) {
                sym_assert(in[0].element == Element::CopyElement, "description of a group");
                check(e.copy, in[0].content.copy, maps ? im[0].content.copy.sourceMap : At(), maps, "description of a group");
            }
            for (size_t k = 0; k < e.resources.size(); ++k) {
                sym_assert(in[n + k].element == Element::ResourceElement, "a resource of a group");
                check(e.resources[k], in[n + k].content.resource, maps ? im[n + k].content.resource : none.content.resource, maps);
            }
        }
        std::vector<int> got;
        for (auto& w : d.report.warnings) got.push_back(w.code);
        sym_assert(got.size() == x.warnings.size(), "number of warnings");
        for (int c = 1; c < 20; ++c) {
            int a = 0, b = 0;
            for (int v : got) a += v == c;
            for (int v : x.warnings) b += v == c;
            sym_assert(a == b, "kinds of warnings");
        }
        for (auto& y : x.says) {
            bool said = false;
            for (auto& w : d.report.warnings) {
                bool all = w.code == y.code && w.location.size() == 1 && y.at.size() == 1 && w.location[0].location == y.at[0].location && w.location[0].length == y.at[0].length;
                for (auto& t : y.names) all = all && w.message.find(t) != std::string::npos;
                said |= all;
            }
            sym_assert(said, "what a warning is about");
        }
    }
}
