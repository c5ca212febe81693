// What the attributes of a model element state: the reference for lookups of samples, defaults and type attributes (decided for the real lookups by C17).
#pragma once
#include "elem.h"
namespace model
{
    typedef std::vector<std::pair<std::string, Node> > Info;
    inline const Node* at(const Info& m, const std::string& k)
    {
        for (auto& e : m)
            if (e.first == k) return &e.second;
        return nullptr;
    }
    inline const Node* sampleOf(const Node& n)
    {
        auto s = at(n.attr, "samples");
        return s && s->k == Array && s->has && s->kids.size() ? &s->kids[0] : nullptr;
    }
    inline const Node* defaultOf(const Node& n) { return at(n.attr, "default"); }
    inline const Node* valueOf(const Node& n)
    {
        if (n.has) return &n;
        auto s = sampleOf(n);
        return s ? s : defaultOf(n);
    }
    inline bool typed(const Node& n, const std::string& name)
    {
        auto t = at(n.attr, "typeAttributes");
        if (!t || t->k != Array || !t->has) return false;
        for (auto& a : t->kids)
            if (a.k == String && a.has && ::ref::eq(a.s, name)) return true;
        return false;
    }
    inline bool variable(const Node& n)
    {
        auto v = at(n.attr, "variable");
        return v && v->k == Bool && v->has && v->b;
    }
    inline Node merged(const Node& n) // decided by C13
    {
        auto e = build(n);
        return read(static_cast<const ExtendElement&>(*e).get().merge().get());
    }
    inline bool bound(const Node& n) // whether the element is bound to a value, so that a fixed container binds it too
    {
        switch (n.k) {
            case Array:
            case String:
            case Number:
            case Bool: return valueOf(n);
            case Member: return variable(n) ? false : n.has ? bound(n.kids[1]) : defaultOf(n) != nullptr;
            case Enum: return n.has ? bound(n.kids[0]) : defaultOf(n) != nullptr;
            case Extend: return bound(merged(n));
            default: return true;
        }
    }
    inline Node with(const Node& n, const char* attribute) // with a type attribute added
    {
        Node r = n;
        for (auto& a : r.attr)
            if (a.first == "typeAttributes") {
                a.second.kids.push_back(str(attribute));
                return r;
            }
        r.attr.emplace_back("typeAttributes", list(Array, str(attribute)));
        return r;
    }
}
