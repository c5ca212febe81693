// Model of serializable values, independent readers of JSON (RFC 8259) and of the block style of YAML 1.2.
#pragma once
#include "ref.h"
#include <utils/so/Value.h>
#include <memory>
#include <utility>
namespace sov
{
    namespace so = drafter::utils::so;
    enum Kind { Null, True, False, String, Number, Object, Array };
    struct V {
        Kind k = Null;
        std::string s;
        std::vector<std::pair<std::string, V> > kids; // keys are empty for arrays
        V(Kind k = Null, std::string s = "") : k(k), s(s) {}
    };
    inline so::Value build(const V& v)
    {
        switch (v.k) {
            case Null: return so::Null{};
            case True: return so::True{};
            case False: return so::False{};
            case String: return so::String{ v.s };
            case Number: return so::Number{ v.s };
            case Object: {
                so::Object o;
                for (auto& e : v.kids) o.data.emplace_back(e.first, build(e.second));
                return std::move(o);
            }
            default: {
                so::Array a;
                for (auto& e : v.kids) a.data.emplace_back(build(e.second));
                return std::move(a);
            }
        }
    }
    inline V read(const so::Value& x)
    {
        V v((Kind)x.index());
        if (v.k == String) v.s = mpark::get<so::String>(x).data;
        if (v.k == Number) v.s = mpark::get<so::Number>(x).data;
        if (v.k == Object)
            for (auto& e : mpark::get<so::Object>(x).data) v.kids.emplace_back(e.first, read(e.second));
        if (v.k == Array)
            for (auto& e : mpark::get<so::Array>(x).data) v.kids.emplace_back("", read(e));
        return v;
    }
    inline int same(const V& a, const V& b)
    {
        if (a.k != b.k || a.kids.size() != b.kids.size()) return 0;
        int ok = ::ref::eq(a.s, b.s);
        for (size_t i = 0; i < a.kids.size(); ++i) ok &= ::ref::eq(a.kids[i].first, b.kids[i].first) & same(a.kids[i].second, b.kids[i].second);
        return ok;
    }
    // code point as well-formed UTF-8
    inline void utf8(uint32_t c, std::string& o)
    {
        if (c < 0x80) o += (char)c;
        else if (c < 0x800) o += (char)(0xC0 | c >> 6), o += (char)(0x80 | (c & 63));
        else if (c < 0x10000) o += (char)(0xE0 | c >> 12), o += (char)(0x80 | (c >> 6 & 63)), o += (char)(0x80 | (c & 63));
        else o += (char)(0xF0 | c >> 18), o += (char)(0x80 | (c >> 12 & 63)), o += (char)(0x80 | (c >> 6 & 63)), o += (char)(0x80 | (c & 63));
    }
    struct Reader {
        const std::string& t;
        size_t p = 0;
        bool ok = true;
        Reader(const std::string& t) : t(t) {}
        bool end() const { return p >= t.size(); }
        char peek() const { return end() ? '\0' : t[p]; }
        bool fail() { return ok = false; }
        bool eat(char c)
        {
            if (end() || t[p] != c) return fail();
            ++p;
            return true;
        }
        bool word(const char* w)
        {
            for (; *w; ++w)
                if (!eat(*w)) return false;
            return true;
        }
        uint32_t hex(int n)
        {
            uint32_t v = 0;
            while (n-- > 0) {
                char c = peek();
                int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
                if (d < 0) { fail(); return 0; }
                v = v * 16 + d;
                ++p;
            }
            return v;
        }
        std::string number()
        {
            size_t b = p;
            if (peek() == '-') ++p;
            auto digits = [&] {
                size_t q = p;
                while (!end() && t[p] >= '0' && t[p] <= '9') ++p;
                if (p == q) fail();
            };
            if (peek() == '0') ++p;
            else digits();
            if (peek() == '.') ++p, digits();
            if (peek() == 'e' || peek() == 'E') {
                ++p;
                if (peek() == '+' || peek() == '-') ++p;
                digits();
            }
            return t.substr(b, p - b);
        }
    };
    // ---- JSON
    struct Json : Reader {
        std::string bare; // the text without insignificant white space
        bool layout = true; // every entry on a line of its own, indented by two blanks per level
        Json(const std::string& t) : Reader(t) {}
        void space(int depth, bool line)
        {
            size_t b = p;
            while (!end() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\r' || t[p] == '\t')) ++p;
            size_t n = p - b;
            if (line) layout = layout && n == 1 + 2 * (size_t)depth && t[b] == '\n' && t.find_first_not_of(' ', b + 1) == p;
        }
        std::string string()
        {
            std::string r;
            if (!eat('"')) return r;
            while (ok) {
                if (end()) { fail(); break; }
                char c = t[p++];
                if (c == '"') break;
                if ((unsigned char)c < 0x20) { fail(); break; }
                if (c != '\\') { r += c; continue; }
                switch (peek()) {
                    case '"': r += '"'; ++p; break;
                    case '\\': r += '\\'; ++p; break;
                    case '/': r += '/'; ++p; break;
                    case 'b': r += '\b'; ++p; break;
                    case 'f': r += '\f'; ++p; break;
                    case 'n': r += '\n'; ++p; break;
                    case 'r': r += '\r'; ++p; break;
                    case 't': r += '\t'; ++p; break;
                    case 'u': ++p; utf8(hex(4), r); break;
                    default: fail();
                }
            }
            return r;
        }
        V value(int depth)
        {
            V v;
            size_t b = p;
            switch (peek()) {
                case 'n': word("null"); break;
                case 't': word("true"); v.k = True; break;
                case 'f': word("false"); v.k = False; break;
                case '"': v.k = String; v.s = string(); break;
                case '{':
                case '[': {
                    bool obj = peek() == '{';
                    char close = obj ? '}' : ']';
                    v.k = obj ? Object : Array;
                    bare += t[p++];
                    if (peek() == close) {
                        bare += t[p++];
                        return v;
                    }
                    do {
                        space(depth + 1, true);
                        std::string key;
                        if (obj) {
                            size_t kb = p;
                            key = string();
                            bare += t.substr(kb, p - kb);
                            if (!eat(':')) return v;
                            bare += ':';
                            if (peek() == ' ') ++p; else layout = false;
                        }
                        V k = value(depth + 1);
                        v.kids.emplace_back(key, k);
                        if (!ok) return v;
                        if (peek() == ',') {
                            bare += t[p++];
                            continue;
                        }
                        space(depth, true);
                        if (eat(close)) bare += close;
                        break;
                    } while (ok);
                    return v;
                }
                default: v.k = Number; v.s = number();
            }
            if (ok) bare += t.substr(b, p - b);
            return v;
        }
    };
    // ---- YAML block style, keys and strings in plain or double quoted style
    struct Yaml : Reader {
        Yaml(const std::string& t) : Reader(t) {}
        std::string quoted()
        {
            std::string r;
            if (!eat('"')) return r;
            while (ok) {
                if (end()) { fail(); break; }
                unsigned char c = t[p++];
                if (c == '"') break;
                if ((c < 0x20 && c != '\t') || c == 0x7F) { fail(); break; }
                if (c != '\\') { r += (char)c; continue; }
                char e = peek();
                ++p;
                switch (e) {
                    case '0': r += '\0'; break;
                    case 'a': r += '\a'; break;
                    case 'b': r += '\b'; break;
                    case 't': r += '\t'; break;
                    case 'n': r += '\n'; break;
                    case 'v': r += '\v'; break;
                    case 'f': r += '\f'; break;
                    case 'r': r += '\r'; break;
                    case 'e': r += '\x1B'; break;
                    case ' ': r += ' '; break;
                    case '"': r += '"'; break;
                    case '/': r += '/'; break;
                    case '\\': r += '\\'; break;
                    case 'N': utf8(0x85, r); break;
                    case '_': utf8(0xA0, r); break;
                    case 'L': utf8(0x2028, r); break;
                    case 'P': utf8(0x2029, r); break;
                    case 'x': utf8(hex(2), r); break;
                    case 'u': utf8(hex(4), r); break;
                    case 'U': utf8(hex(8), r); break;
                    default: fail();
                }
            }
            return r;
        }
        static bool indicator(char c)
        {
            for (const char* p = "-?:,[]{}#&*!|>'\"%@` \t"; *p; ++p)
                if (c == *p) return true;
            return false;
        }
        // a plain scalar up to ": ", the end of the line or the text; resolved by the core schema
        V plain()
        {
            size_t b = p;
            while (!end() && t[p] != '\n' && t[p] != '#' && !(t[p] == ':' && (p + 1 >= t.size() || t[p + 1] == ' ' || t[p + 1] == '\n'))) ++p;
            std::string w = t.substr(b, p - b);
            if (w == "" || w == "~" || w == "null" || w == "Null" || w == "NULL") return V(Null);
            if (w == "true" || w == "True" || w == "TRUE") return V(True);
            if (w == "false" || w == "False" || w == "FALSE") return V(False);
            if ((w[0] == '-' && w.size() > 1) || (w[0] >= '0' && w[0] <= '9')) {
                Reader r(w);
                r.number();
                if (r.ok && r.end()) return V(Number, w);
            }
            if (indicator(w[0])) fail();
            return V(String, w);
        }
        V scalar()
        {
            if (peek() == '"') return V(String, quoted());
            if (peek() == '[' || peek() == '{') {
                V v(peek() == '[' ? Array : Object);
                char c = peek() == '[' ? ']' : '}';
                ++p;
                eat(c); // only empty ones in flow style
                return v;
            }
            return plain();
        }
        int indentation() const
        {
            size_t q = p;
            while (q < t.size() && t[q] == ' ') ++q;
            return (int)(q - p);
        }
        // the node after an indicator or at the start; parent: indentation of the parent line
        V node(int parent, bool start)
        {
            if (!start && peek() == ' ') {
                ++p;
                return scalar();
            }
            if (!start && !eat('\n')) return V();
            int in = indentation();
            if (in <= parent) { fail(); return V(); }
            size_t at = p + in;
            if (at < t.size() && t[at] == '-' && (at + 1 >= t.size() || t[at + 1] == ' ' || t[at + 1] == '\n')) {
                V v(Array);
                while (ok) {
                    p += in;
                    if (!eat('-')) break;
                    v.kids.emplace_back("", node(in, false));
                    if (!more(in)) break;
                }
                return v;
            }
            if (start) { // a scalar document or a mapping
                V s = scalar();
                if (end()) return s;
                p = 0;
            }
            V v(Object);
            while (ok) {
                p += in;
                V k = scalar();
                if (k.k != String) fail();
                if (!eat(':')) break;
                v.kids.emplace_back(k.s, node(in, false));
                if (!more(in)) break;
            }
            return v;
        }
        bool more(int in)
        {
            if (!ok || end()) return false;
            size_t q = p;
            if (t[q] != '\n') return fail();
            ++q;
            size_t n = 0;
            while (q + n < t.size() && t[q + n] == ' ') ++n;
            if ((int)n != in) {
                if ((int)n > in) fail();
                return false;
            }
            p = q;
            return true;
        }
        V document()
        {
            V v = node(-1, true);
            if (!end()) fail();
            return v;
        }
    };
    // ---- generation
    inline V tree(int depth, size_t max, size_t text)
    {
        switch (sym_range("kind", 0, depth ? 6 : 4)) {
            case 0: return V(Null);
            case 1: return V(True);
            case 2: return V(False);
            case 3: return V(String, sym_str("text", 0, text));
            case 4: {
                static const char* n[] = { "0", "-12", "3.25", "1e-7" };
                return V(Number, n[sym_range("number", 0, 3)]);
            }
            case 5: {
                V v(Object);
                for (size_t i = sym_range("n", 0, max); i > 0; --i) v.kids.emplace_back(i == 1 ? "key" : i == 2 ? "other" : "third", tree(depth - 1, max, text));
                return v;
            }
            default: {
                V v(Array);
                for (size_t i = sym_range("n", 0, max); i > 0; --i) v.kids.emplace_back("", tree(depth - 1, max, text));
                return v;
            }
        }
    }
}
