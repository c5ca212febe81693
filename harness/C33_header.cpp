//@ all: time=60
//@ bound: header texts of a prefix of up to 1 (thorough 3-4) octets, every section keyword, method and bracket in between, and up to 2-3 (thorough 4) octets after it, over the letters, blanks, brackets, slashes and digits the grammar tells apart; as the first header of a document and as one below a resource
//@ outside: header texts of several lines; a method directly followed by a slash, and a URI which ends in a bracketed method (the grammar gives these two readings); octets the grammar does not tell apart
#include "bp.h"
using namespace bp;
namespace
{
    bool blank(char c) { return c == ' '; }
    std::string trim(const std::string& s)
    {
        size_t a = 0, b = s.size();
        while (a < b && blank(s[a])) ++a;
        while (b > a && blank(s[b - 1])) --b;
        return s.substr(a, b - a);
    }
    const char* methods[] = { "GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "PROPPATCH", "LOCK", "UNLOCK", "COPY", "MOVE", "MKCOL", "HEAD", "LINK", "UNLINK", "CONNECT" };
    size_t method(const std::string& s, size_t at) // the longest method at a place, its length
    {
        size_t best = 0;
        for (auto m : methods) {
            size_t n = 0;
            while (m[n]) ++n;
            if (n > best && s.compare(at, n, m) == 0) best = n;
        }
        return best;
    }
    // METHOD blanks* [/URI] up to the end; `apart`: at least one blank and a URI
    bool endpoint(const std::string& s, std::string& m, std::string& uri, bool apart, bool whole)
    {
        size_t n = method(s, 0), p = n;
        if (!n) return false;
        while (p < s.size() && blank(s[p])) ++p;
        if (p == s.size()) {
            if (apart) return false;
        } else if (s[p] != '/' || (apart && p == n)) return false;
        m = s.substr(0, n), uri = s.substr(p);
        return true;
    }
    // the last bracket which makes a text `name [METHOD URI]`, the name being anything
    size_t dependent(const std::string& s, std::string& m, std::string& uri)
    {
        if (s.empty() || s[s.size() - 1] != ']') return std::string::npos;
        for (size_t p = s.size(); p-- > 1;)
            if (s[p] == '[' && endpoint(s.substr(p + 1, s.size() - p - 2), m, uri, false, true)) return p;
        return std::string::npos;
    }
    struct Meaning {
        enum Kind { Text, ResourceBlock, ActionBlock, GroupBlock, DataBlock } kind = Text;
        bool action = false; // is (also) an action
        bool resource = false;
        std::string name, method, uri;
    };
    bool word(const std::string& s, size_t& p, const char* w) // a keyword, the case of its first letter free
    {
        if (p >= s.size() || ref::lower(s[p]) != (unsigned char)w[0]) return false;
        size_t n = 1;
        while (w[n]) {
            if (p + n >= s.size() || s[p + n] != w[n]) return false;
            ++n;
        }
        p += n;
        return true;
    }
    Meaning meaning(const std::string& text, bool below) // below: inside a resource
    {
        Meaning r;
        std::string s = trim(text), m, u;
        if (s.empty()) return r;
        size_t open = s.find('[');
        bool closed = s[s.size() - 1] == ']';
        if (s[0] == '/') { // URI
            r.resource = true, r.uri = s;
        } else if (endpoint(s, m, u, true, true)) { // METHOD URI: a resource of its own, always
            r.resource = r.action = true, r.method = m, r.uri = u;
            r.kind = Meaning::ResourceBlock;
            return r;
        } else if (endpoint(s, m, u, false, true)) { // METHOD, or METHODURI
            r.action = true, r.method = m, r.uri = u;
        } else if (closed && open != std::string::npos && open) {
            std::string before = s.substr(0, open), in = s.substr(open + 1, s.size() - open - 2);
            bool name = before.find_first_of("()]") == std::string::npos && trim(before).size() && blank(before[before.size() - 1]);
            if (name && !in.empty() && in[0] == '/') r.resource = true, r.name = trim(before), r.uri = in;
            else if (name && endpoint(in, m, u, true, true)) r.resource = r.action = true, r.name = trim(before), r.method = m, r.uri = u;
        }
        if (!r.action && !r.resource) {
            size_t p = dependent(s, m, u);
            if (p != std::string::npos) r.action = true, r.name = trim(s.substr(0, p)), r.method = m, r.uri = u;
        }
        if (r.action && below) r.kind = Meaning::ActionBlock;
        else if (r.resource) r.kind = Meaning::ResourceBlock;
        else if (r.action) r.kind = Meaning::ActionBlock;
        else {
            size_t p = 0;
            if (word(s, p, "group") && p < s.size() && blank(s[p])) {
                std::string name = trim(s.substr(p));
                if (name.find_first_of("[]()") == std::string::npos) r.kind = Meaning::GroupBlock, r.name = name;
            }
            p = 0;
            if (word(s, p, "data") && p < s.size() && blank(s[p])) {
                while (p < s.size() && blank(s[p])) ++p;
                if (word(s, p, "structure")) {
                    if (p < s.size() && s[p] == 's') ++p;
                    if (p == s.size()) r.kind = Meaning::DataBlock;
                }
            }
        }
        return r;
    }
    void first(const std::string& text)
    {
        md::Doc d;
        d.header(1, text);
        d.parse(ExportSourcemapOption);
        At at = d.root.children().front().sourceMap;
        Meaning m = meaning(text, false);
        auto& es = d.bp.content.elements();
        sym_observe("elements", es.size());
        sym_assert(d.report.error.code == Error::OK, "a header is no error");
        if (m.kind == Meaning::Text || m.kind == Meaning::ActionBlock) {
            sym_reach("name of the API");
            sym_assert(es.empty(), "a header of no section is no section");
            sym_assert(ref::eq(d.bp.name, trim(text)), "the first header names the API");
            return;
        }
        sym_assert(d.bp.name.empty(), "the header of a section does not name the API");
        sym_assert(es.size() == 1, "one section");
        const Element& e = es[0];
        if (m.kind == Meaning::GroupBlock) {
            sym_reach("group");
            sym_assert(e.element == Element::CategoryElement && e.category == Element::ResourceGroupCategory, "a group");
            sym_assert(ref::eq(e.attributes.name, m.name), "name of a group");
        } else if (m.kind == Meaning::DataBlock) {
            sym_reach("data structures");
            sym_assert(e.element == Element::CategoryElement && e.category == Element::DataStructureGroupCategory, "data structures");
        } else {
            sym_assert(e.element == Element::ResourceElement, "a resource");
            const Resource& r = e.content.resource;
            sym_assert(ref::eq(r.uriTemplate, m.uri), "URI of a resource");
            sym_assert(ref::eq(r.name, m.name), "name of a resource");
            sym_assert(same(d.sm.content.elements().collection[0].content.resource.uriTemplate.sourceMap, at), "source map of a URI");
            sym_assert(r.actions.size() == (m.action ? 1 : 0), "an endpoint has one action");
            if (m.action) {
                sym_reach("endpoint");
                sym_assert(ref::eq(r.actions[0].method, m.method), "method of an endpoint");
            } else sym_reach("resource");
        }
    }
    void below(const std::string& text)
    {
        md::Doc d;
        d.header(1, "R [/r]");
        d.header(2, text);
        d.parse(ExportSourcemapOption);
        At at = d.root.children().back().sourceMap;
        Meaning m = meaning(text, true);
        auto& es = d.bp.content.elements();
        sym_observe("elements", es.size());
        sym_assert(d.report.error.code == Error::OK, "a header is no error");
        sym_assert(es.size() >= 1 && es[0].element == Element::ResourceElement, "the resource before");
        const Resource& r = es[0].content.resource;
        sym_assert(ref::eq(r.uriTemplate, "/r") && ref::eq(r.name, "R"), "the resource before is as it was");
        if (m.kind == Meaning::Text) {
            sym_reach("description");
            sym_assert(es.size() == 1 && r.actions.empty(), "a header of no section is no section");
            sym_assert(ref::eq(r.description, trim("## " + text)), "a header of no section is part of the description");
            return;
        }
        sym_assert(r.description.empty(), "the header of a section is not part of a description");
        if (m.kind == Meaning::ActionBlock) {
            sym_reach("action");
            sym_assert(es.size() == 1 && r.actions.size() == 1, "an action of the resource");
            sym_assert(ref::eq(r.actions[0].method, m.method), "method of an action");
            sym_assert(ref::eq(r.actions[0].name, m.name), "name of an action");
            if (!m.name.empty()) sym_assert(ref::eq(r.actions[0].uriTemplate, m.uri), "URI of an action");
            sym_assert(same(d.sm.content.elements().collection[0].content.resource.actions.collection[0].method.sourceMap, at), "source map of a method");
            return;
        }
        sym_assert(r.actions.empty(), "no action of the resource");
        sym_assert(es.size() == 2, "a section of its own");
        sym_reach("section");
        if (m.kind == Meaning::ResourceBlock) sym_assert(es[1].element == Element::ResourceElement && ref::eq(es[1].content.resource.uriTemplate, m.uri), "URI of a resource");
        else sym_assert(es[1].element == Element::CategoryElement, "a category");
    }
    void any(void (*check)(const std::string&), const char* const* mid, int n, const char* pre, const char* post, int before, int after)
    {
        std::string a = sym_str_from("before", 0, before, pre), x = mid[sym_range("middle", 0, n - 1)], b = sym_str_from("after", 0, after, post);
        std::string text = a + x + b;
        sym_assume(!text.empty());
        std::string s = trim(text), m, u;
        sym_assume(!s.empty());
        if (s[0] == '/' || endpoint(s, m, u, false, true)) sym_assume(dependent(s, m, u) == std::string::npos);
        if (endpoint(s, m, u, false, true)) sym_assume(u.empty() || blank(s[m.size()]));
        check(text);
    }
    const char* const brackets[] = { "", "[", "[/", "[GET", "[GET ", "[PUT /", "n [", "n [/a[", "n [GET /a[", "n [GET][" };
    const char* const keywords[] = { "GET", "POST /", "Group", "group ", "Data Structures", "data  structure", "Data", "/" };
}
HARNESS(bracket) { any(first, brackets, 10, "a [(/", "/a ]{", BOUND(1, 4), BOUND(3, 4)); }
HARNESS(keyword) { any(first, keywords, 8, "a ", "/a [s", BOUND(1, 3), BOUND(2, 4)); }
HARNESS(bracket_below) { any(below, brackets, 10, "a [(/", "/a ]{", BOUND(1, 4), BOUND(3, 4)); }
HARNESS(keyword_below) { any(below, keywords, 8, "a ", "/a [s", BOUND(1, 3), BOUND(2, 4)); }
HARNESS(methods)
{
    std::string m = methods[sym_range("method", 0, 15)];
    int form = (int)sym_range("form", 0, 3);
    std::string t = form == 0 ? m + " /x" : form == 1 ? "n [" + m + " /x]" : form == 2 ? m : "n [" + m + "]";
    if (sym_bool("below")) below(t);
    else first(t);
}
