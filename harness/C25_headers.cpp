//@ all: time=60
//@ bound: header lines of up to 3 arbitrary octets but NUL (quick; 4 thorough) and of up to 5 (6) octets of every kind the rules tell apart, next to one header given before; content of up to 4 (5) octets in up to 2 source ranges
//@ outside: lines with NUL octets (POSIX regular expressions end there); the wording of warnings
//@ assume: source ranges lie anywhere; those past the end of the source hold no line
#include "ref.h"
#include "snowcrash.h"
#include "HeadersParser.h"
using namespace snowcrash;
typedef SectionProcessor<Headers> P;
namespace
{
    bool space(char c) { return (c == ' ') | ((unsigned)(c - 9) <= 4u); }
    std::string trim(const std::string& s)
    {
        size_t a = 0, b = s.size();
        while (a < b && space(s[a])) ++a;
        while (b > a && space(s[b - 1])) --b;
        return s.substr(a, b - a);
    }
    bool token(const std::string& s) // RFC 7230, 3.2.6
    {
        int ok = 1;
        for (unsigned char c : s) {
            int t = ((unsigned)(c - '0') <= 9u) | ((unsigned)(c - 'a') <= 25u) | ((unsigned)(c - 'A') <= 25u);
            for (const char* p = "!#$%&'*+-.^_`|~"; *p; ++p) t |= c == (unsigned char)*p;
            ok &= t;
        }
        return ok;
    }
    struct Line {
        bool header = false;
        std::string name, value;
        int formatting = 0, http = 0; // warnings
    };
    Line meant(const std::string& s, const Headers& before)
    {
        Line r;
        size_t p = 0;
        while (p < s.size() && s[p] == ' ') ++p;
        size_t q = p;
        while (q < s.size() && !((s[q] == ':') | (s[q] == ' ') | (s[q] == '\t'))) ++q;
        if (p == q) {
            r.formatting = 1;
            return r;
        }
        r.name = s.substr(p, q - p);
        while (q < s.size() && s[q] == ' ') ++q;
        bool colon = q < s.size() && s[q] == ':';
        r.value = trim(s.substr(q + colon));
        if (!token(r.name)) {
            r.http = 1;
            return r;
        }
        r.header = true;
        bool dup = false, many = ref::eqi(r.name, "set-cookie") || ref::eqi(r.name, "link");
        for (auto& h : before) {
            if (h.first.size() != r.name.size()) continue;
            int eq = 1;
            for (size_t i = 0; i < r.name.size(); ++i) eq &= ref::lower(h.first[i]) == ref::lower(r.name[i]);
            if (eq) dup = true;
        }
        r.http = !colon + (dup && !many) + r.value.empty();
        return r;
    }
    int count(const Warnings& w, int code)
    {
        int n = 0;
        for (auto& x : w) n += x.code == code;
        return n;
    }
    struct Doc {
        std::string src;
        Blueprint bp;
        SectionParserData pd;
        ParseResult<Headers> res;
        Doc(const std::string& s) : src(s), pd(ExportSourcemapOption, src, bp) { mdp::BuildCharacterIndex(pd.sourceCharacterIndex, src); }
    };
    void line(const std::string& s, const Headers& before)
    {
        Report report;
        Headers node = before;
        SourceMap<Headers> sm;
        ParseResultRef<Headers> out(report, node, sm);
        Header h;
        mdp::CharactersRangeSet at;
        at.push_back(mdp::CharactersRange(3, 4));
        bool ok = P::parseHeaderLine(s, h, out, at);
        Line m = meant(s, before);
        sym_reach(ok ? "header" : "not a header");
        sym_assert(ok == m.header, "a line is a header exactly when it starts with a token");
        if (ok) {
            sym_assert(ref::eq(h.first, m.name), "the name of a header is the token the line starts with");
            sym_assert(ref::eq(h.second, m.value), "the value of a header is the rest of the line, without blanks around it");
        }
        sym_assert(count(report.warnings, FormattingWarning) == m.formatting, "a line without a name is reported");
        sym_assert(count(report.warnings, HTTPWarning) == m.http, "illegal names, missing colons, duplicates and empty values are reported, each once");
        sym_assert((int)report.warnings.size() == m.formatting + m.http && report.error.code == Error::OK, "nothing else is reported");
        for (auto& w : report.warnings) sym_assert(w.location.size() == 1 && w.location[0].location == 3 && w.location[0].length == 4, "warnings name where the line is");
    }
}
HARNESS(line)
{
    std::string s = sym_str_from("line", 0, BOUND(5, 6), "aB!: \t(");
    Headers before;
    if (sym_bool("before")) before.push_back(Header(sym_bool("two") ? "aB" : "x", "1"));
    line(s, before);
}
HARNESS(octets)
{
    std::string s = sym_str("line", 0, BOUND(3, 4));
    for (char c : s) sym_assume(c != 0);
    line(s, Headers());
}
HARNESS(duplicate) // names that may be given more than once, in any case
{
    const char* names[] = { "Set-Cookie", "Link", "Linc", "Etag" };
    std::string n = names[sym_range("name", 0, 3)], o = names[sym_range("other", 0, 3)];
    auto flip = [](std::string& s) {
        uint32_t bits = sym_u32("case");
        for (size_t i = 0; i < s.size(); ++i)
            if (s[i] != '-') s[i] ^= (bits >> i & 1) << 5;
    };
    flip(n), flip(o);
    Headers before;
    before.push_back(Header("Etag", "1"));
    if (sym_bool("two")) before.push_back(Header(o, "2"));
    line(n + ": x", before);
}
HARNESS(content) // one line per source range
{
    Doc d(sym_str_from("source", 0, BOUND(4, 5), "a: \n`"));
    mdp::BytesRangeSet set;
    int n = (int)sym_range("ranges", 0, 2);
    for (int i = 0; i < n; ++i) {
        size_t at = sym_range("at", 0, d.src.size());
        size_t len = sym_range("length", 0, BOUND(3, 4));
        set.push_back(mdp::BytesRange(at, len));
    }
    mdp::MarkdownNodes nodes(1);
    nodes.front().sourceMap = set;
    ParseResultRef<Headers> out(d.res);
    P::headersFromContent(nodes.begin(), set.begin(), set.end(), d.pd, out);
    // reference
    Headers want;
    std::vector<mdp::CharactersRange> where;
    int formatting = 0, http = 0;
    bool fenced = false;
    for (int i = 0; i < n; ++i) {
        if (set[i].location + set[i].length > d.src.size()) continue;
        std::string raw = d.src.substr(set[i].location, set[i].length), l = trim(raw);
        if (l.empty()) continue;
        bool fence = l.compare(0, 3, "```") == 0 || l.compare(0, 3, "~~~") == 0;
        if (i == 0) fenced = fence;
        if (fenced && fence) continue;
        Line m = meant(l, want);
        formatting += m.formatting, http += m.http;
        if (!m.header) continue;
        want.push_back(Header(m.name, m.value));
        where.push_back(mdp::CharactersRange(set[i].location + raw.find(l), l.size()));
    }
    const Headers& got = d.res.node;
    sym_reach("content");
    sym_assert(got.size() == want.size(), "every line is one header, blank lines and code fences none");
    for (size_t i = 0; i < got.size() && i < want.size(); ++i) {
        sym_assert(ref::eq(got[i].first, want[i].first) && ref::eq(got[i].second, want[i].second), "headers keep the order of their lines");
        sym_assert(i < d.res.sourceMap.collection.size() && d.res.sourceMap.collection[i].sourceMap.size() == 1
                && d.res.sourceMap.collection[i].sourceMap[0].location == where[i].location && d.res.sourceMap.collection[i].sourceMap[0].length == where[i].length,
            "the source map of a header is its line without blanks around it");
    }
    sym_assert(d.res.sourceMap.collection.size() == got.size(), "every header has a source map");
    sym_assert(count(d.res.report.warnings, FormattingWarning) == formatting && count(d.res.report.warnings, HTTPWarning) == http, "each line is reported on by itself");
}
