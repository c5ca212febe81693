//@ all: time=60
//@ bound: texts of up to 5 characters of every kind the rules tell apart (quick; 6 thorough) and of 3 arbitrary octets, 2 (thorough 3) as the type or the name of a parameter, alone and after a type and subtype, with and without a suffix, and inside the parameters that follow them
//@ outside: names of more than 127 characters
//@ stub: PEGTL is a stand-in written for this check (rt/PEGTL), tested with the grammar tests of the repository
#include "ref.h"
#include "MediaTypeParser.cc"
#include <apib/syntax/MediaType.h>
using namespace apib::syntax;
namespace
{
    bool alnum(char c) { return ((unsigned)((c | 32) - 'a') <= 25u) | ((unsigned)(c - '0') <= 9u); }
    bool inname(char c) { return alnum(c) | (c == '!') | (c == '#') | (c == '$') | (c == '&') | (c == '^') | (c == '_') | (c == '-') | (c == '.'); }
    bool white(char c) { return (c == ' ') | (c == '\t'); }
    struct Reader {
        const std::string& s;
        size_t p;
        media_type m;
        bool name(std::string& to)
        {
            size_t a = p;
            if (p >= s.size() || !alnum(s[p])) return false;
            ++p;
            while (p < s.size() && inname(s[p])) ++p;
            to = s.substr(a, p - a);
            return true;
        }
        void blank() { while (p < s.size() && white(s[p])) ++p; }
        bool one(char c) { return p < s.size() && s[p] == c ? ++p, true : false; }
        bool quoted(std::string& to, bool& bad)
        {
            if (!one('"')) return false;
            size_t a = p;
            while (p < s.size() && s[p] != '"') {
                if (s[p] == '\\') {
                    ++p;
                    if (p >= s.size() || !(((unsigned char)(s[p] - 0x20) < 0x5f) | (s[p] == '\t') | ((unsigned char)s[p] >= 0x80))) return bad = true, false;
                }
                ++p;
            }
            if (p >= s.size()) return false;
            to = s.substr(a, p++ - a);
            return true;
        }
        void read()
        {
            blank();
            if (!name(m.type) || !one('/')) return;
            std::string first, last;
            if (!name(first)) return;
            m.subtype = first;
            size_t end = p, n = 0;
            std::string sub = first;
            while (true) {
                size_t at = p;
                if (!one('+')) break;
                if (!name(last)) { // nothing after the plus: no suffix
                    p = end;
                    return;
                }
                if (n++) sub = s.substr(end - first.size(), at - (end - first.size()));
            }
            if (n) m.subtype = sub, m.suffix = last;
            blank();
            if (!one(';')) return;
            blank();
            bool bad = false;
            while (true) {
                std::string key, value;
                if (!name(key) || !one('=')) return;
                if (!quoted(value, bad) && (bad || !name(value))) return;
                m.parameters.emplace_back(key, value);
                if (p >= s.size() || !white(s[p])) return;
                blank();
            }
        }
    };
    void check(const std::string& s)
    {
        Reader want = { s, 0, media_type() };
        want.read();
        media_type m = apib::parser::parseMediaType(s);
        sym_reach(m.subtype.empty() ? "malformed" : m.suffix.empty() ? "plain" : "suffix");
        sym_assert(ref::eq(m.type, want.m.type), "the type is the name before the slash");
        sym_assert(ref::eq(m.subtype, want.m.subtype), "the subtype is the name after the slash, up to the last plus");
        sym_assert(ref::eq(m.suffix, want.m.suffix), "the suffix is the name after the last plus");
        sym_assert(m.parameters.size() == want.m.parameters.size(), "well formed parameters are those up to the first which is not");
        for (size_t i = 0; i < m.parameters.size() && i < want.m.parameters.size(); ++i) {
            sym_assert(ref::eq(m.parameters[i].first, want.m.parameters[i].first), "the name of a parameter is what comes before its equals sign");
            sym_assert(ref::eq(m.parameters[i].second, want.m.parameters[i].second), "the value of a parameter is what comes after it, out of its quotes");
        }
        if (!m.parameters.empty()) sym_reach("parameters");
    }
}
HARNESS(all)
{
    check(sym_bool("octets") ? sym_str("text", 0, 3) : sym_str_from("text", 0, BOUND(5, 6), "a/+ ;-"));
}
HARNESS(subtype)
{
    check(std::string(sym_bool("blank") ? " " : "") + "a/" + (sym_bool("octets") ? sym_str("text", 0, 3) : sym_str_from("text", 0, BOUND(5, 6), "b+;. /")));
}
HARNESS(parameter)
{
    check(std::string("a/b") + (sym_bool("suffix") ? "+c" : "") + ";" + (sym_bool("octets") ? "d=" + sym_str("text", 0, 3) : sym_str_from("text", 0, BOUND(5, 6), "d= \"\\")));
}
HARNESS(name)
{
    bool type = sym_bool("type");
    check(type ? sym_str("text", 1, BOUND(2, 3)) + "/b" : "a/b;" + sym_str("text", 1, BOUND(2, 3)) + "=c" + (sym_bool("more") ? " f=g" : ""));
}
HARNESS(parameters)
{
    check("a/b ; c=d " + sym_str_from("text", 0, BOUND(4, 5), "e= \"\\;") + (sym_bool("more") ? "f=g" : ""));
}
HARNESS(kind) // what is JSON, and what is a JSON schema
{
    const char* types[] = { "application", "APPLICATION", "text", "application1" };
    const char* subs[] = { "json", "schema", "Json", "x.json", "a" };
    size_t t = sym_range("type", 0, 3), b = sym_range("subtype", 0, 4), x = sym_range("suffix", 0, 5);
    std::string s = std::string(types[t]) + "/" + subs[b] + (x < 5 ? std::string("+") + subs[x] : "") + (sym_bool("parameter") ? "; a=b" : "");
    media_type m = apib::parser::parseMediaType(s);
    size_t k = x < 5 ? x : b;
    sym_reach("kind");
    sym_assert(apib::isJSON(m) == (t < 2 && (k == 0 || k == 2)), "JSON is what ends in json");
    sym_assert(apib::isJSONSchema(m) == (t < 2 && b == 1 && (x == 0 || x == 2)), "a JSON schema is schema+json");
}
