// What a payload is meant to hold, and the comparison of a parsed one with it.
#pragma once
#include "bp.h"
namespace bp
{
    struct XPayload {
        bool request = false, full = false;
        std::string name, body, schema;
        Text desc;
        At at, bodyAt, schemaAt;
        std::vector<std::pair<std::string, std::string> > headers;
        std::vector<At> headersAt;
    };
    inline void join(At& to, const At& what)
    {
        for (auto& r : what)
            if (!to.empty() && to.back().location + to.back().length == r.location) to.back().length += r.length;
            else to.push_back(r);
    }
    inline At one(size_t at, size_t length)
    {
        At r;
        r.push_back(mdp::BytesRange(at, length));
        return r;
    }
    typedef std::vector<std::pair<std::string, std::string> > Pairs;
    inline void compare(const XPayload& x, const Payload& p, const SourceMap<Payload>& sm, bool maps, const Pairs& shared = Pairs(), const std::vector<At>& sharedAt = std::vector<At>())
    {
        named(x.name, x.at, p.name, sm.name.sourceMap, maps, "name or code of a payload");
        check(x.desc, p.description, sm.description.sourceMap, maps, "description of a payload");
        sym_assert(ref::eq(p.body, x.body), "body of a payload");
        sym_assert(same(sm.body.sourceMap, maps ? x.bodyAt : At()), "source map of a body");
        sym_assert(ref::eq(p.schema, x.schema), "schema of a payload");
        sym_assert(same(sm.schema.sourceMap, maps ? x.schemaAt : At()), "source map of a schema");
        auto hs = shared;
        auto at = sharedAt;
        hs.insert(hs.end(), x.headers.begin(), x.headers.end());
        at.insert(at.end(), x.headersAt.begin(), x.headersAt.end());
        sym_assert(p.headers.size() == hs.size(), "headers of a payload");
        sym_assert(sm.headers.collection.size() == (maps ? hs.size() : 0), "source maps of headers");
        for (size_t i = 0; i < hs.size(); ++i) {
            sym_assert(ref::eq(p.headers[i].first, hs[i].first) && ref::eq(p.headers[i].second, hs[i].second), "a header of a payload");
            if (maps) sym_assert(same(sm.headers.collection[i].sourceMap, at[i]), "source map of a header");
        }
    }
}
