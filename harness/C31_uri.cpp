//@ all: time=60
//@ bound: templates of up to 5 characters of every kind the rules tell apart (quick; 6 thorough), expressions of up to 5 (6) characters, 2 (3) arbitrary octets and any well-formed or ill-formed multi-octet character in and out of an expression; schemes and hosts with paths of up to 3 characters
//@ outside: the wording of warnings apart from what they name
//@ stub: PEGTL is a stand-in written for this check (rt/PEGTL), tested with the grammar tests of the repository
#include "ref.h"
#include "UriTemplateParser.cc"
namespace ut = apib::parser::uritemplate;
namespace
{
    bool among(char c, const char* set)
    {
        int r = 0;
        for (; *set; ++set) r |= c == *set;
        return r;
    }
    bool digit(char c) { return (unsigned)(c - '0') <= 9u; }
    bool hex(char c) { return digit(c) | ((unsigned)((c | 32) - 'a') <= 5u); }
    bool plain(char c) { return digit(c) | ((unsigned)((c | 32) - 'a') <= 25u) | (c == '_'); }
    // length of the well formed UTF-8 sequence at p, and the character
    size_t utf8(const std::string& s, size_t p, unsigned& cp)
    {
        unsigned char c = s[p];
        size_t n = c < 0x80 ? 1 : c < 0xc2 ? 0 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf5 ? 4 : 0;
        if (!n || p + n > s.size()) return 0;
        cp = n == 1 ? c : c & (0xff >> (n + 1));
        for (size_t i = 1; i < n; ++i) {
            unsigned char d = s[p + i];
            if ((d & 0xc0) != 0x80) return 0;
            cp = cp << 6 | (d & 0x3f);
        }
        if ((n == 3 && (cp < 0x800 || (cp >= 0xd800 && cp <= 0xdfff))) || (n == 4 && (cp < 0x10000 || cp > 0x10ffff))) return 0;
        return n;
    }
    size_t triplet(const std::string& s, size_t p) { return p + 2 < s.size() && s[p] == '%' && hex(s[p + 1]) && hex(s[p + 2]) ? 3 : 0; }
    // length of the character at p when it may stand in a literal
    size_t literal(const std::string& s, size_t p)
    {
        if (size_t n = triplet(s, p)) return n;
        unsigned char c = s[p];
        if (c < 0x80) return (c > 0x20) & (c < 0x7b) & !among((char)c, "\"%'<>[\\]^`");
        unsigned cp;
        size_t n = utf8(s, p, cp);
        if (!n) return 0;
        bool ucs = (cp >= 0xa0 && cp <= 0xd7ff) || (cp >= 0xf900 && cp <= 0xfdcf) || (cp >= 0xfdf0 && cp <= 0xffef) || (cp >= 0x10000 && cp <= 0xefffd && (cp & 0xffff) <= 0xfffd && !(cp >= 0xe0000 && cp < 0xe1000));
        bool priv = (cp >= 0xe000 && cp <= 0xf8ff) || (cp >= 0xf0000 && (cp & 0xffff) <= 0xfffd);
        return ucs || priv ? n : 0;
    }
    size_t name(const std::string& s, size_t p)
    {
        size_t a = p;
        while (p < s.size()) {
            if (size_t n = triplet(s, p)) p += n;
            else if (plain(s[p])) ++p;
            else if (p > a && s[p] == '.' && !(p + 1 < s.size() && s[p + 1] == '.')) ++p; // single dots
            else break;
        }
        return p - a;
    }
    // RFC 6570, 2.3 and 2.4: how much of it is a variable
    struct Variable {
        std::string name;
        unsigned prefix = 0;
        bool explode = false;
        size_t length = 0;
    };
    Variable variable(const std::string& s)
    {
        Variable v;
        size_t p = name(s, 0);
        if (!p) return v;
        v.name = s.substr(0, p);
        if (p < s.size() && s[p] == '*') v.explode = true, ++p;
        else if (p + 1 < s.size() && s[p] == ':' && digit(s[p + 1]) && s[p + 1] != '0') {
            ++p;
            for (int n = 0; n < 4 && p < s.size() && digit(s[p]); ++n) v.prefix = v.prefix * 10 + (s[p++] - '0');
        }
        v.length = p;
        return v;
    }
    int warnings;
    std::string first; // what the first warning is about
    void warn(const std::string& what)
    {
        if (!warnings++) first = what;
    }
    bool has(const std::string& s, const std::string& what)
    {
        for (size_t i = 0; i + what.size() <= s.size(); ++i) {
            int ok = 1;
            for (size_t j = 0; j < what.size(); ++j) ok &= s[i + j] == what[j];
            if (ok) return true;
        }
        return false;
    }
    // the first thing which is wrong, as the report names it
    std::string culprit(const std::string& s, size_t p)
    {
        if (p + 2 < s.size() && s[p] == '%') return "percent encoded character '" + s.substr(p, 3) + "'"; // whatever follows
        if (p + 1 < s.size() && s[p] == '.' && s[p + 1] == '.') {
            size_t q = p;
            while (q < s.size() && s[q] == '.') ++q;
            return "continuous dots '" + s.substr(p, q - p) + "'";
        }
        unsigned cp;
        size_t n = p < s.size() ? utf8(s, p, cp) : 0;
        if (!n) return "";
        if (s[p] == '{') return "nested expression brace '{'";
        return "character '" + s.substr(p, n) + "'";
    }
    std::string encoded(const std::string& s, size_t p)
    {
        unsigned cp;
        size_t n = p < s.size() ? utf8(s, p, cp) : 0;
        if (!n || (s[p] == '%' && p + 2 < s.size()) || (s[p] == '.' && p + 1 < s.size() && s[p + 1] == '.')) return "";
        std::string r = "encoded as '";
        for (size_t i = 0; i < n; ++i) r += '%', r += "0123456789ABCDEF"[(unsigned char)s[p + i] >> 4], r += "0123456789ABCDEF"[s[p + i] & 15];
        return r + "'";
    }
    void check(const std::string& s)
    {
        ut::state::uritemplate parts;
        tao::pegtl::memory_input<> in(s, "");
        bool matched = tao::pegtl::parse<ut::match_grammar, ut::action>(in, parts);
        sym_assert(matched == !s.empty(), "whatever the text, it is a template with its faults");
        if (s.empty()) return;
        mdp::CharactersRangeSet where;
        ParsedURITemplate parsed;
        URITemplateParser::parse(s, where, parsed);
        sym_assert(parsed.report.error.code == Error::OK, "no template is an error");
        warnings = 0;
        size_t p = 0, i = 0, w = 0;
        auto next = [&](const std::string& what, const std::string& more) {
            sym_assert(w < parsed.report.warnings.size() && parsed.report.warnings[w].code == URIWarning, "whatever is wrong with a template is reported");
            if (w < parsed.report.warnings.size()) sym_assert(has(parsed.report.warnings[w].message, what) && has(parsed.report.warnings[w].message, more), "a warning names what is wrong");
            ++w;
        };
        while (p < s.size()) {
            sym_assert(i < parts.size(), "every part of a template is there");
            if (i >= parts.size()) return;
            auto& part = parts[i++];
            if (s[p] != '{') {
                size_t e = p, good;
                while (e < s.size() && s[e] != '{') ++e;
                std::string text = s.substr(p, e - p);
                for (good = 0; good < text.size();) {
                    size_t n = literal(text, good);
                    if (!n) break;
                    good += n;
                }
                if (good == text.size()) {
                    sym_reach("literal");
                    auto* l = mpark::get_if<ut::state::literals>(&part);
                    sym_assert(l && ref::eq(*l, text), "text of allowed characters is literal");
                } else {
                    sym_reach("invalid literal");
                    auto* v = mpark::get_if<ut::state::invalid>(&part);
                    sym_assert(v && ref::eq(v->content, text) && v->position == p, "text with other characters is invalid");
                    next("disallowed " + culprit(text, good), "");
                }
                p = e;
                continue;
            }
            ++p;
            auto* x = mpark::get_if<ut::state::expression>(&part);
            sym_assert(x, "a brace opens an expression");
            if (!x) return;
            typedef ut::state::expression_type T;
            T type = T::noop;
            const char* ops = "+#./;?&";
            const T types[] = { T::reserved_chars, T::fragment, T::label, T::path, T::path_param, T::query_param, T::query_continue };
            if (p < s.size()) {
                for (int k = 0; ops[k]; ++k)
                    if (s[p] == ops[k]) type = types[k];
                if (among(s[p], "=,!@|")) type = T::reserved;
                if (type != T::noop) ++p;
            }
            sym_assert(x->type == type, "the operator is the first character of the expression");
            if (type == T::label || type == T::path || type == T::path_param || type == T::reserved) next("expansion is not supported", "");
            size_t k = 0;
            while (true) {
                size_t e = p;
                while (e < s.size() && s[e] != ',' && s[e] != '}') ++e;
                std::string text = s.substr(p, e - p);
                Variable v = variable(text);
                sym_assert(k < x->variables.size(), "every variable is there");
                if (k >= x->variables.size()) return;
                auto& got = x->variables[k++];
                if (!text.empty() && v.length == text.size()) {
                    sym_reach("variable");
                    auto* g = mpark::get_if<ut::state::variable>(&got);
                    sym_assert(g && ref::eq(g->name, v.name) && g->prefix == v.prefix && g->explode == v.explode, "a variable has its name and modifier");
                } else {
                    sym_reach("invalid variable");
                    auto* g = mpark::get_if<ut::state::invalid>(&got);
                    sym_assert(g && ref::eq(g->content, text) && g->position == p, "anything else between commas is an invalid variable");
                    next("URI template variable '" + text + "' contains invalid " , "");
                    if (w <= parsed.report.warnings.size()) {
                        auto& m = parsed.report.warnings[w - 1].message;
                        sym_assert(has(m, culprit(text, v.length)), "a warning names what is wrong");
                        sym_assert(has(m, encoded(text, v.length)), "a warning tells how to encode what is wrong");
                    }
                }
                p = e;
                if (p >= s.size() || s[p] == '}') break;
                ++p;
            }
            sym_assert(k == x->variables.size(), "there are no other variables");
            bool closed = p < s.size();
            sym_assert(x->missing_expression_close == !closed, "an expression ends with a brace");
            if (closed) ++p;
            else next("missing closing bracket", "");
        }
        sym_assert(i == parts.size(), "there are no other parts");
        sym_assert(w == parsed.report.warnings.size(), "nothing else is reported");
    }
}
HARNESS(all)
{
    check(sym_str_from("text", 0, BOUND(4, 5), "a{},%:~"));
}
HARNESS(expression)
{
    check("{" + sym_str_from("text", 0, BOUND(4, 5), "a2.%,}:"));
}
HARNESS(modifier)
{
    check("{a" + sym_str_from("text", 0, BOUND(5, 6), ":01*") + "}");
}
HARNESS(operators)
{
    check("{" + sym_str("octet", 0, 2) + "b}");
}
HARNESS(octets)
{
    std::string s = sym_str("octets", 1, BOUND(2, 3));
    check(sym_bool("in") ? "{" + s + "}" : s);
}
HARNESS(wide) // characters of any length, and what is nearly one
{
    std::string s = sym_str("octets", 2, 4);
    for (size_t i = 0; i < s.size(); ++i) sym_assume(i ? ((unsigned char)s[i] & 0xc0) == 0x80 : (unsigned char)s[i] >= 0xc0);
    check(sym_bool("in") ? "{" + s + "}" : s);
}
HARNESS(parts) // scheme, host and path
{
    const char* schemes[] = { "", "http", "https", "ftp", "file" };
    size_t k = sym_range("scheme", 0, 4);
    bool slashes = sym_bool("slashes");
    std::string host = sym_str_from("host", 0, 2, "a."), path = sym_bool("path") ? "/" + sym_str_from("path", 0, 2, "/a") : "";
    std::string s = std::string(schemes[k]) + (slashes ? "://" : "") + host + path;
    if (s.empty()) return;
    mdp::CharactersRangeSet where;
    ParsedURITemplate p;
    URITemplateParser::parse(s, where, p);
    sym_reach("parts");
    sym_assert(ref::eq(p.scheme, schemes[k]), "the scheme comes first");
    sym_assert(ref::eq(p.host, host) && ref::eq(p.path, path), "the host is what comes before the path");
}
