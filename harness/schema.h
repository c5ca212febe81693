// Validator of the part of JSON Schema draft-07 that the generator uses; branch-free over the symbolic parts of schema and value.
#pragma once
#include "sov.h"
namespace jschema
{
    using sov::V;
    inline const V* get(const V& o, const char* k)
    {
        for (auto& e : o.kids)
            if (e.first == k) return &e.second;
        return nullptr;
    }
    inline int equal(const V& a, const V& b)
    {
        if (a.k != b.k || a.kids.size() != b.kids.size()) return 0;
        if (a.k != sov::Object) return sov::same(a, b);
        int all = 1;
        for (auto& x : a.kids) {
            int any = 0;
            for (auto& y : b.kids) any |= ::ref::eq(x.first, y.first) & equal(x.second, y.second);
            all &= any;
        }
        return all;
    }
    inline bool special(char c)
    {
        for (const char* p = "^$*+?.()|{}[]\\"; *p; ++p)
            if (*p == c) return true;
        return false;
    }
    // an ECMA 262 pattern made of literal and escaped characters, "(?:)" or the pattern of the empty text
    inline int matches(const std::string& pattern, const std::string& text, bool& known)
    {
        if (pattern == "(?:)") return 1;
        if (pattern == R"(^(?![\s\S]))") return text.empty();
        std::string lit;
        for (size_t i = 0; i < pattern.size(); ++i) {
            char c = pattern[i];
            if (c == '\\') {
                if (i + 1 >= pattern.size() || !special(pattern[i + 1])) return known = false;
                c = pattern[++i];
            } else if (special(c))
                return known = false;
            lit += c;
        }
        int any = 0;
        for (size_t i = 0; i + lit.size() <= text.size(); ++i) any |= ::ref::eq(text.substr(i, lit.size()), lit);
        return any;
    }
    // whether the schema is one: known keywords, each once, with values of the right kind
    inline int schema(const V& s, bool top = false);
    inline int schemas(const V& a)
    {
        if (a.k != sov::Array || a.kids.empty()) return 0;
        int ok = 1;
        for (auto& e : a.kids) ok &= schema(e.second);
        return ok;
    }
    inline int unique(const V& a, bool keys)
    {
        int ok = 1;
        for (size_t i = 0; i < a.kids.size(); ++i)
            for (size_t j = 0; j < i; ++j) ok &= !(keys ? ::ref::eq(a.kids[i].first, a.kids[j].first) : equal(a.kids[i].second, a.kids[j].second));
        return ok;
    }
    inline int schema(const V& s, bool top)
    {
        if (s.k == sov::True || s.k == sov::False) return 1;
        if (s.k != sov::Object) return 0;
        int ok = unique(s, true);
        for (auto& e : s.kids) {
            auto& k = e.first;
            auto& v = e.second;
            if (k == "$schema") ok &= top && v.k == sov::String && v.s == "http://json-schema.org/draft-07/schema#";
            else if (k == "type") {
                int any = 0;
                for (auto t : { "null", "boolean", "string", "number", "object", "array" }) any |= v.s == t;
                ok &= any & (v.k == sov::String);
            } else if (k == "properties" || k == "patternProperties") {
                ok &= v.k == sov::Object;
                ok &= unique(v, true);
                for (auto& p : v.kids) ok &= schema(p.second);
            } else if (k == "required") {
                ok &= v.k == sov::Array;
                ok &= unique(v, false);
                for (auto& p : v.kids) ok &= p.second.k == sov::String;
            } else if (k == "allOf" || k == "anyOf" || k == "oneOf") ok &= schemas(v);
            else if (k == "items") ok &= v.k == sov::Array ? (v.kids.empty() ? 1 : schemas(v)) : schema(v);
            else if (k == "additionalItems" || k == "additionalProperties") ok &= schema(v);
            else if (k == "minItems" || k == "maxItems") ok &= v.k == sov::Number;
            else if (k == "enum") {
                ok &= v.k == sov::Array;
                ok &= unique(v, false);
            } else ok &= k == "const";
        }
        return top ? ok & (get(s, "$schema") != nullptr) : ok;
    }
    inline size_t count(const V& v)
    {
        size_t n = 0;
        for (char c : v.s) n = n * 10 + (size_t)(c - '0');
        return n;
    }
    inline int valid(const V& s, const V& v, bool& known)
    {
        if (s.k == sov::True) return 1;
        if (s.k == sov::False) return 0;
        int ok = 1;
        if (auto t = get(s, "type")) {
            static const char* n[] = { "null", "boolean", "boolean", "string", "number", "object", "array" };
            ok &= t->s == n[v.k];
        }
        if (auto c = get(s, "const")) ok &= equal(*c, v);
        if (auto c = get(s, "enum")) {
            int any = 0;
            for (auto& e : c->kids) any |= equal(e.second, v);
            ok &= any;
        }
        if (auto c = get(s, "anyOf")) {
            int any = 0;
            for (auto& e : c->kids) any |= valid(e.second, v, known);
            ok &= any;
        }
        if (auto c = get(s, "allOf"))
            for (auto& e : c->kids) ok &= valid(e.second, v, known);
        if (auto c = get(s, "oneOf")) {
            int n = 0;
            for (auto& e : c->kids) n += valid(e.second, v, known);
            ok &= n == 1;
        }
        if (v.k == sov::Array) {
            auto items = get(s, "items"), more = get(s, "additionalItems"), min = get(s, "minItems"), max = get(s, "maxItems");
            if (min) ok &= v.kids.size() >= count(*min);
            if (max) ok &= v.kids.size() <= count(*max);
            for (size_t i = 0; i < v.kids.size(); ++i)
                if (items) {
                    if (items->k != sov::Array) ok &= valid(*items, v.kids[i].second, known);
                    else if (i < items->kids.size()) ok &= valid(items->kids[i].second, v.kids[i].second, known);
                    else if (more) ok &= valid(*more, v.kids[i].second, known);
                }
        }
        if (v.k == sov::Object) {
            auto props = get(s, "properties"), patterns = get(s, "patternProperties"), more = get(s, "additionalProperties"), req = get(s, "required");
            for (auto& e : v.kids) {
                int any = 0;
                if (props)
                    for (auto& p : props->kids) {
                        int is = ::ref::eq(p.first, e.first);
                        any |= is;
                        ok &= !is | valid(p.second, e.second, known);
                    }
                if (patterns)
                    for (auto& p : patterns->kids) {
                        int is = matches(p.first, e.first, known);
                        any |= is;
                        ok &= !is | valid(p.second, e.second, known);
                    }
                if (more) ok &= any | valid(*more, e.second, known);
            }
            if (req)
                for (auto& r : req->kids) {
                    int any = 0;
                    for (auto& e : v.kids) any |= ::ref::eq(r.second.s, e.first);
                    ok &= any;
                }
        }
        return ok;
    }
}
