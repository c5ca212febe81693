//@ all: time=60
//@ bound: signatures of up to 6 characters (quick; 7 thorough) of every kind the rules tell apart, with the traits of every kind of section (properties, values, named types, attributes, sections, parameters); 3 arbitrary octets
//@ outside: what follows brackets that are never closed; the value of a signature holding several values of which the outer ones are in backticks
#include "ref.h"
#include "snowcrash.h"
#include "SignatureSectionProcessor.h"
using namespace snowcrash;
using namespace scpl;
typedef SignatureSectionProcessorBase<Blueprint> P;
namespace
{
    bool space(char c) { return (c == ' ') | ((unsigned)(c - 9) <= 4u); }
    std::string trim(const std::string& s)
    {
        size_t a = 0, b = s.size();
        while (a < b && space(s[a])) ++a;
        while (b > a && space(s[b - 1])) --b;
        return s.substr(a, b - a);
    }
    size_t skip(const std::string& s, size_t p) { while (p < s.size() && space(s[p])) ++p; return p; }
    bool starts(const std::string& s, size_t p, const std::string& w)
    {
        if (p + w.size() > s.size()) return false;
        for (size_t i = 0; i < w.size(); ++i)
            if (s[p + i] != w[i]) return false;
        return true;
    }
    // past the text enclosed by the run of marks at p, or p when it is never closed
    size_t enclosed(const std::string& s, size_t p)
    {
        size_t n = 1;
        while (p + n < s.size() && s[p + n] == s[p]) ++n;
        for (size_t q = p + n; q + n <= s.size(); ++q) {
            bool same = true;
            for (size_t i = 0; same && i < n; ++i) same = s[q + i] == s[p];
            if (same) return q + n;
        }
        return p;
    }
    std::string strip(const std::string& s) // of the backticks around it
    {
        if (s.empty() || s[0] != '`' || s[s.size() - 1] != '`') return s;
        size_t e = enclosed(s, 0), n = 0;
        while (n < s.size() && s[n] == '`') ++n;
        if (e <= 2 * n) return s;
        return trim(s.substr(n, e - 2 * n));
    }
    // past the bracket that closes the one before p
    size_t closed(const std::string& s, size_t p, char end, bool& open)
    {
        while (p < s.size()) {
            if (s[p] == end) return p + 1;
            size_t q = s[p] == '`' ? enclosed(s, p) : p;
            if (q > p) p = q;
            else if (s[p] == '[') p = closed(s, p + 1, ']', open);
            else if (s[p] == '(') p = closed(s, p + 1, ')', open);
            else ++p;
        }
        open = true;
        return p;
    }
    struct Sig {
        std::string identifier, value, content;
        std::vector<std::string> values, attributes;
        bool noIdentifier = false, noValues = false, open = false, nested = false; // brackets never closed
    };
    Sig meant(const std::string& line, unsigned t, char colon, const std::string& dash)
    {
        Sig r;
        std::string s = trim(line);
        size_t p = 0;
        bool values = t & SignatureTraits::ValuesTrait, attributes = t & SignatureTraits::AttributesTrait, content = t & SignatureTraits::ContentTrait;
        if ((t & SignatureTraits::IdentifierTrait) && !s.empty()) {
            while (p < s.size()) {
                if ((s[p] == '*') | (s[p] == '_') | (s[p] == '`')) {
                    size_t q = enclosed(s, p);
                    p = q > p ? q : p + 1;
                } else if ((values && s[p] == colon) || (attributes && s[p] == '(') || (content && starts(s, p, dash))) break;
                else ++p;
            }
            r.identifier = trim(s.substr(0, p));
            r.noIdentifier = r.identifier.empty();
        }
        if (values && p < s.size() && s[p] != '(') {
            bool given = !(t & SignatureTraits::IdentifierTrait);
            if (!given && s[p] == colon) given = true, p = skip(s, p + 1);
            if (given) {
                size_t begin = p, from = p;
                while (p < s.size()) {
                    size_t q = s[p] == '`' ? enclosed(s, p) : p;
                    if (q > p) p = q;
                    else if (s[p] == ',') {
                        r.values.push_back(trim(s.substr(from, p - from)));
                        from = p = skip(s, p + 1);
                    } else if ((attributes && s[p] == '(') || (content && starts(s, p, dash))) break;
                    else ++p;
                }
                std::string last = trim(s.substr(from, p - from));
                if (!last.empty()) r.values.push_back(last);
                r.value = trim(s.substr(begin, p - begin));
                r.noValues = r.values.empty();
            }
        }
        if (attributes && p < s.size() && s[p] == '(') {
            size_t from = ++p;
            bool done = false;
            auto add = [&](size_t end) {
                std::string a = trim(s.substr(from, end - from));
                if (!a.empty()) r.attributes.push_back(a);
            };
            while (!done && p < s.size()) {
                size_t q = s[p] == '`' ? enclosed(s, p) : p;
                if (q > p) p = q;
                else if (s[p] == '[') p = closed(s, p + 1, ']', r.nested);
                else if (s[p] == '(') p = closed(s, p + 1, ')', r.nested);
                else if (s[p] == ',') add(p), from = ++p;
                else if (s[p] == ')') add(p), ++p, done = true;
                else ++p;
            }
            if (!done) r.open = true, add(p);
            p = skip(s, p);
        }
        if (content && p < s.size() && starts(s, p, dash)) r.content = trim(s.substr(p + dash.size()));
        return r;
    }
    bool same(const std::vector<std::string>& a, const std::vector<std::string>& b)
    {
        if (a.size() != b.size()) return false;
        int ok = 1;
        for (size_t i = 0; i < a.size(); ++i) ok &= ref::eq(a[i], b[i]);
        return ok;
    }
    void check(const std::string& text, unsigned t, bool parameter = false)
    {
        std::string src = text;
        Blueprint bp;
        SectionParserData pd(0, src, bp);
        mdp::MarkdownNodes nodes(1);
        nodes.front().text = text;
        Report report;
        SignatureTraits traits(t, parameter ? Delimiters('=', "...") : Delimiters());
        Signature g = P::parseSignature(nodes.begin(), pd, traits, report);
        size_t nl = text.find('\n');
        Sig m = meant(text.substr(0, nl), t, parameter ? '=' : ':', parameter ? "..." : "-");
        sym_reach("parsed");
        sym_assert(ref::eq(g.identifier, m.identifier), "the identifier runs up to the first delimiter outside of marks");
        bool vs = g.values.size() == m.values.size();
        for (size_t i = 0; vs && i < m.values.size(); ++i) vs = ref::eq(g.values[i], m.values[i]) || ref::eq(g.values[i], strip(m.values[i]));
        sym_assert(vs, "values are separated by commas outside of backticks");
        bool ticks = !m.value.empty() && m.value[0] == '`' && m.value[m.value.size() - 1] == '`';
        if (m.values.size() < 2 || !ticks) sym_assert(ref::eq(g.value, strip(m.value)), "the value runs from its delimiter to the attributes or the description");
        if (!m.nested) sym_assert(same(g.attributes, m.attributes), "attributes are separated by commas outside of nested brackets and backticks");
        if (!m.open) sym_assert(ref::eq(g.content, m.content), "the description follows its delimiter");
        sym_assert(ref::eq(g.remainingContent, nl == std::string::npos ? "" : text.substr(nl + 1)), "the remaining content follows the first line");
        size_t w = m.noIdentifier + m.noValues;
        sym_assert(report.warnings.size() == w && report.error.code == Error::OK, "a missing identifier or value is reported, and nothing else");
        for (auto& x : report.warnings) sym_assert(x.code == EmptyDefinitionWarning, "a missing identifier or value is an empty definition");
    }
    const unsigned I = SignatureTraits::IdentifierTrait, V = SignatureTraits::ValuesTrait, A = SignatureTraits::AttributesTrait, C = SignatureTraits::ContentTrait;
}
HARNESS(identifier)
{
    const unsigned t[] = { I | V | A | C, I | A, I | V };
    check(sym_str_from("signature", 0, BOUND(5, 6), "a `*:(-"), t[sym_range("traits", 0, 2)]);
}
HARNESS(values)
{
    std::string pre = sym_bool("property") ? "x:" : "";
    check(pre + sym_str_from("signature", 0, BOUND(5, 6), "a `,(-"), V | A | C | (pre.empty() ? 0 : I));
}
HARNESS(attributes)
{
    check("(" + sym_str_from("signature", 0, BOUND(5, 6), "a `,()[]"), V | A | C);
}
HARNESS(content)
{
    check("(a" + sym_str_from("signature", 0, BOUND(4, 5), "a),- `\n"), sym_bool("property") ? I | V | A | C : V | A | C);
}
HARNESS(parameter)
{
    check(sym_str_from("signature", 0, BOUND(5, 6), "a=.`( "), I | V | A | C, true);
}
HARNESS(octets)
{
    const unsigned t[] = { I | V | A | C, I | A, V | A | C };
    check(sym_str("signature", 0, BOUND(3, 4)), t[sym_range("traits", 0, 2)]);
}
