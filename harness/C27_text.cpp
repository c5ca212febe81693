//@ all: time=60
//@ bound: texts of up to 5 arbitrary octets (quick; 6 thorough), any delimiter; Markdown links of up to 7 characters of every kind the rule tells apart; headers of level 1 to 6
//@ outside: the wording of warnings
#include "ref.h"
#include "snowcrash.h"
#include "SectionParserData.h"
#include "SectionProcessor.h"
#include "CodeBlockUtility.h"
using namespace snowcrash;
namespace
{
    int space(char c) { return (c == ' ') | ((unsigned)(c - 9) <= 4u); }
}
HARNESS(trim)
{
    std::string s = sym_str("text", 0, BOUND(5, 6));
    std::string t = s, a = s, b = s;
    TrimString(t), TrimStringStart(a), TrimStringEnd(b);
    auto part = [&](const std::string& p, size_t at) {
        int ok = at + p.size() <= s.size();
        for (size_t i = 0; ok && i < p.size(); ++i) ok &= s[at + i] == p[i];
        for (size_t i = 0; i < s.size(); ++i)
            if (i < at || i >= at + p.size()) ok &= space(s[i]);
        return ok;
    };
    size_t lead = s.size() - a.size();
    sym_assert(part(a, lead) && (a.empty() || !space(a[0])), "trimming the start drops exactly the spaces there");
    sym_assert(part(b, 0) && (b.empty() || !space(b[b.size() - 1])), "trimming the end drops exactly the spaces there");
    sym_assert(part(t, t.empty() ? 0 : lead) && (t.empty() || (!space(t[0]) && !space(t[t.size() - 1]))), "trimming drops exactly the spaces around");
    TrimRange r = GetTrimInfo(s.cbegin(), s.cend());
    sym_reach("trim");
    sym_assert((size_t)std::get<1>(r) == t.size() && (t.empty() || (size_t)std::get<0>(r) == lead), "the range left by trimming is where the trimmed text is");
}
HARNESS(split)
{
    std::string s = sym_str("text", 0, BOUND(5, 6));
    char d = (char)sym_u8("delimiter");
    size_t p = 0;
    while (p < s.size() && s[p] != d) ++p;
    auto f = SplitOnFirst(s, d);
    sym_reach("split");
    if (p == s.size()) sym_assert(f.size() == 1 && ref::eq(f[0], s), "a text without the delimiter is one part");
    else sym_assert(f.size() == 2 && ref::eq(f[0], s.substr(0, p)) && ref::eq(f[1], s.substr(p + 1)), "a text is split at the first delimiter");
    std::vector<std::string> want;
    size_t from = 0;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == d) want.push_back(s.substr(from, i - from)), from = i + 1;
    if (from < s.size()) want.push_back(s.substr(from));
    auto g = Split(s, d);
    bool ok = g.size() == want.size();
    for (size_t i = 0; ok && i < g.size(); ++i) ok = ref::eq(g[i], want[i]);
    sym_assert(ok, "a text is split at every delimiter");
}
HARNESS(line)
{
    std::string s = sym_str("text", 0, BOUND(5, 6)), r;
    size_t p = 0;
    while (p < s.size() && s[p] != '\n') ++p;
    std::string l = GetFirstLine(s, r);
    sym_reach("line");
    sym_assert(ref::eq(l, s.substr(0, p)) && ref::eq(r, p < s.size() ? s.substr(p + 1) : ""), "the first line ends at the first new line, the rest follows it");
    KeyValuePair kv;
    size_t q = 0;
    while (q < s.size() && s[q] != ':') ++q;
    std::string k = s.substr(0, q), v = q < s.size() ? s.substr(q + 1) : "";
    TrimString(k), TrimString(v);
    bool pair = CodeBlockUtility::keyValueFromLine(s, kv);
    sym_assert(pair == (!k.empty() && !v.empty()), "metadata is a key, a colon and a value");
    if (pair) sym_assert(ref::eq(kv.first, k) && ref::eq(kv.second, v), "the key of metadata ends at its first colon");
}
HARNESS(paragraph) // two new lines at the end
{
    std::string s = sym_str("text", 0, BOUND(5, 6)), t = s;
    TwoNewLines(t);
    size_t n = 0;
    while (n < 2 && n < s.size() && s[s.size() - 1 - n] == '\n') ++n;
    sym_reach("paragraph");
    sym_assert(ref::eq(t, s + std::string(2 - n, '\n')), "paragraphs are set apart by two new lines, added as far as missing");
}
HARNESS(asset) // code belonging to the section above it
{
    std::string s = sym_str_from("text", 0, BOUND(3, 4), "a\n "), src = sym_str_from("source", 0, 3, "b\n"), body = "x";
    Blueprint bp;
    SectionParserData pd(0, src, bp);
    mdp::BuildCharacterIndex(pd.sourceCharacterIndex, src);
    mdp::MarkdownNodes nodes(1);
    bool code = sym_bool("code");
    nodes.front().type = code ? mdp::CodeMarkdownNodeType : mdp::ParagraphMarkdownNodeType;
    nodes.front().text = s;
    nodes.front().sourceMap.push_back(mdp::BytesRange(0, src.size()));
    Report report;
    SectionType t[] = { ActionSectionType, ResponseBodySectionType, BodySectionType };
    size_t k = sym_range("section", 0, 2);
    std::string got = CodeBlockUtility::addDanglingAsset(nodes.begin(), pd, t[k], report, body);
    std::string want = code ? s : src;
    size_t n = 0;
    while (n < 2 && n < want.size() && want[want.size() - 1 - n] == '\n') ++n;
    want += std::string(2 - n, '\n');
    sym_reach("asset");
    sym_assert(ref::eq(got, want) && ref::eq(body, "x" + want), "what is left of a body is added to it as it stands");
    sym_assert(report.warnings.size() == (code && k == 0 ? 0 : 1), "code is reported when it is not indented as the section needs");
}
HARNESS(escape)
{
    std::string s = sym_str_from("text", 0, BOUND(6, 7), "a` b");
    std::string t = s, g = StripBackticks(t);
    sym_reach("escape");
    // the text between the first run of backticks and its next occurrence
    std::string want = s;
    if (!s.empty() && s[0] == '`' && s[s.size() - 1] == '`') {
        size_t n = 0, e;
        while (n < s.size() && s[n] == '`') ++n;
        for (e = n; e + n <= s.size(); ++e) {
            bool run = true;
            for (size_t i = 0; run && i < n; ++i) run = s[e + i] == '`';
            if (run) break;
        }
        if (e + n <= s.size() && e > n) {
            want = s.substr(n, e - n);
            TrimString(want);
        }
    }
    sym_assert(ref::eq(g, want), "backticks around a text are not part of it");
}
HARNESS(link)
{
    std::string s = sym_str_from("text", 0, BOUND(6, 7), "a[]()");
    std::string g = StripMarkdownLink(s);
    sym_reach("link");
    if (s.empty() || s[0] != '[') {
        sym_assert(ref::eq(g, s), "a text that is no link is left as it is");
        return;
    }
    // [text](target) or [text][reference], the longest text
    bool link = false;
    std::string want;
    for (size_t e = s.size(); e-- > 1 && !link;) {
        if (s[e] != ']' || e + 2 >= s.size()) continue;
        char o = s[e + 1], c = o == '[' ? ']' : o == '(' ? ')' : 0;
        if (!c || s[s.size() - 1] != c) continue;
        std::string in = s.substr(e + 2, s.size() - e - 3);
        bool plain = in.find_first_of("[]()") == std::string::npos;
        if (plain && (o == '[' || !in.empty())) link = true, want = s.substr(1, e - 1);
    }
    if (link) sym_assert(ref::eq(g, want), "the text of a link is what its first brackets hold");
}
HARNESS(same_name) // regardless of case
{
    std::string a = sym_str("left", 0, BOUND(3, 4)), b = sym_str("right", 0, BOUND(3, 4));
    int same = a.size() == b.size();
    for (size_t i = 0; same && i < a.size(); ++i) same &= ref::lower(a[i]) == ref::lower(b[i]);
    sym_reach("names");
    sym_assert(IEqual<std::string>()(a, b) == (bool)same, "names are equal regardless of the case of their letters");
    sym_assert(Equal<std::string>()(a, b) == ref::eq(a, b), "texts are equal when all their octets are");
}
HARNESS(header)
{
    mdp::MarkdownNode n;
    std::string s = sym_str("text", 0, 3);
    bool h = sym_bool("header");
    n.type = h ? mdp::HeaderMarkdownNodeType : mdp::ParagraphMarkdownNodeType;
    n.data = (int)sym_range("level", 1, 6);
    n.text = s;
    sym_reach("header");
    sym_assert(ref::eq(ReconstructMarkdownHeader(n), h ? std::string(n.data, '#') + s : ""), "a header in a description keeps its level and text");
}
