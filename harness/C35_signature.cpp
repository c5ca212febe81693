//@ all: time=60
//@ bound: payload signatures: request, response and model followed by up to 4, of a model 2 (thorough 5) octets of the kinds the grammar tells apart, and by a name or code, a media type and up to 1 (thorough 4) octets more; signatures of two lines, and payloads without and with sections
//@ outside: blanks in front of the keyword (the Markdown parser removes them)
#include "pay.h"
using namespace bp;
namespace
{
    bool blank(char c) { return c == ' '; }
    std::string trim(const std::string& s)
    {
        size_t a = 0, b = s.size();
        while (a < b && blank(s[a])) ++a;
        while (b > a && blank(s[b - 1])) --b;
        return s.substr(a, b - a);
    }
    // blanks, then a text in parentheses: its end
    size_t media(const std::string& s, size_t p, std::string& text)
    {
        while (p < s.size() && blank(s[p])) ++p;
        if (p == s.size() || s[p] != '(') return std::string::npos;
        size_t e = s.find(')', p);
        if (e == std::string::npos) return e;
        text = trim(s.substr(p + 1, e - p - 1));
        return e + 1;
    }
    struct Signature { // what is written after a keyword
        bool good = false;
        std::string name, type;
    };
    Signature read(const std::string& s, bool request)
    {
        Signature r;
        size_t longest = 0, most = 0; // the longest name which leaves a media type, or nothing
        bool any = false;
        for (size_t n = 0; n <= s.size(); ++n) {
            if (n) { // s[n-1] may be a part of the name
                char c = s[n - 1];
                if (request ? c == '(' || c == ')' || c == '[' || c == ']' : !blank(c) && !(c >= '0' && c <= '9')) break;
                if (request && !blank(s[0])) break;
                if (request && n == 1) continue; // a blank and at least one character
            }
            std::string t;
            size_t e = media(s, n, t);
            bool with = e != std::string::npos;
            if (!with) e = n;
            while (e < s.size() && blank(s[e])) ++e;
            if (!any || e > longest || (e == longest && n >= most)) any = true, longest = e, most = n, r.name = trim(s.substr(0, n)), r.type = with ? t : "";
        }
        r.good = longest == s.size();
        return r;
    }
    void run(bool request, const std::string& rest, int form) // form: 0 nothing, 1 a body, 2 sections, 3 a second line, 4 a second line and sections
    {
        Signature x = read(rest, request);
        md::Doc d;
        d.header(1, "GET /a");
        std::string key = request ? "Request" : "Response";
        if (sym_bool("small")) key[0] = 'r';
        d.item(key + rest + (form >= 3 ? "\nmore" : ""));
        At at = d.top().children().back().sourceMap;
        if (form == 1) d.code("b");
        if (form == 2 || form == 4) {
            d.item("Body");
            d.code("b");
            d.end();
        }
        d.end();
        d.parse(ExportSourcemapOption);
        auto& es = d.bp.content.elements();
        sym_assert(d.report.error.code == Error::OK && es.size() == 1 && es[0].content.resource.actions.size() == 1, "one action");
        const Action& a = es[0].content.resource.actions[0];
        sym_assert(a.examples.size() == 1 && a.examples[0].requests.size() == request && a.examples[0].responses.size() == !request, "one payload");
        const Payload& p = request ? a.examples[0].requests[0] : a.examples[0].responses[0];
        auto& em = d.sm.content.elements().collection[0].content.resource.actions.collection[0].examples.collection[0];
        XPayload w;
        int format = 0, empty = 0, indent = 0;
        if (x.good) {
            sym_reach("signature");
            w.name = x.name, w.at = at;
            if (!x.type.empty()) w.headers.push_back({ "Content-Type", x.type }), w.headersAt.push_back(at);
        } else {
            sym_reach("no signature");
            format = 1;
        }
        if (!request && w.name.empty()) w.name = "200", w.at = At(), empty++;
        if (form == 1 || form == 2 || form == 4) w.body = "b\n";
        if (form == 3) w.body = "more\n\n", indent++, w.bodyAt = at;
        if (form == 4) w.desc.add("more", at);
        if (form == 1 || form == 2 || form == 4) w.bodyAt = (request ? em.requests.collection[0] : em.responses.collection[0]).body.sourceMap;
        int code = 0; // as in 0200, but not beyond what the texts can hold
        for (size_t i = 0; i < w.name.size() && w.name[i] >= '0' && w.name[i] <= '9'; ++i) code = code * 10 + (w.name[i] - '0');
        if (request && w.body.empty() && w.headers.empty()) empty++;
        if (!request && !w.body.empty() && (code == 204 || code == 304 || code / 100 == 1)) empty++;
        if (request) empty++; // no response
        compare(w, p, request ? em.requests.collection[0] : em.responses.collection[0], true);
        int got[20] = {};
        for (auto& v : d.report.warnings) got[v.code]++;
        sym_assert(got[FormattingWarning] == format, "a signature that is none is reported");
        sym_assert(got[EmptyDefinitionWarning] == empty, "missing and forbidden parts are reported");
        sym_assert(got[IndentationWarning] == indent, "misplaced content is reported");
        sym_assert((int)d.report.warnings.size() == format + empty + indent, "no other warnings");
    }
    void model(const std::string& front, const std::string& rest, bool body)
    {
        // [name] Model [(media type)]
        std::string text = front + "Model" + rest, name = trim(front), type;
        size_t e = media(rest, 0, type);
        bool with = e != std::string::npos;
        if (!with) e = 0;
        bool good = (front.empty() || (blank(front[front.size() - 1]) && front.find_first_of("()[]") == std::string::npos)) && trim(rest.substr(e)).empty();
        md::Doc d;
        d.header(1, "R [/a]");
        At named = d.root.children().back().sourceMap;
        d.item(text);
        At at = d.top().children().back().sourceMap;
        if (body) d.code("b");
        d.end();
        d.parse(ExportSourcemapOption);
        sym_assert(d.report.error.code == Error::OK, "no error");
        const Resource& r = d.bp.content.elements()[0].content.resource;
        auto& sm = d.sm.content.elements().collection[0].content.resource.model;
        if (!good) {
            sym_reach("no model");
            sym_assert(r.model.name.empty(), "no model");
            return;
        }
        sym_reach("model");
        XPayload w;
        w.name = name.empty() ? "R" : name;
        w.at = name.empty() ? named : at;
        if (with && !type.empty()) w.headers.push_back({ "Content-Type", type }), w.headersAt.push_back(at);
        if (body) w.body = "b\n", w.bodyAt = sm.body.sourceMap;
        compare(w, r.model, sm, true);
        sym_assert(d.report.warnings.empty(), "no warnings");
    }
}
HARNESS(request) { run(true, sym_str_from("rest", 0, BOUND(4, 5), " a1([)"), 0); }
HARNESS(response)
{
    std::string rest;
    for (size_t n = sym_range("len", 0, BOUND(4, 5)); n--;) rest += sym_bool("digit") ? std::string("1") : sym_str_from("other", 1, 1, " a([)");
    run(false, rest, 0);
}
HARNESS(parts)
{
    bool r = sym_bool("request");
    static const char* names[] = { "", " n", " 204", " 304", " 100", "2", " A long, long name  " };
    static const char* medias[] = { "", " (a/b)", "(a/b; c=d)", "()", "( )" };
    std::string n = names[sym_range("name", 0, r ? 6 : 5)], t = medias[sym_range("media type", 0, 4)];
    std::string rest = n + sym_str_from("between", 0, BOUND(0, 2), " a(") + t + sym_str_from("after", 0, BOUND(1, 2), " a)");
    run(r, rest, (int)sym_range("form", 0, BOUND(1, 4)));
}
HARNESS(lines)
{
    bool r = sym_bool("request");
    static const char* rests[] = { "", " 201", " 204 (a/b)", " 3 x [" };
    run(r, rests[sym_range("rest", 0, 3)], (int)sym_range("form", 0, 4));
}
HARNESS(model)
{
    std::string f = sym_str_from("front", 0, BOUND(1, 3), " a([");
    sym_assume(f.empty() || !blank(f[0]));
    model(f, sym_str_from("rest", 0, BOUND(2, 5), " a()"), sym_bool("body"));
}
