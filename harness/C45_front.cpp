//@ all: time=90
//@ bound: one paragraph of every text of up to 4 (thorough 6) characters of "ab: " and line ends, two of up to 2 (thorough 3), and one of up to 4 (thorough 5) lines of two keys, without a value or a colon; documents of up to 4 (thorough 5) blocks of metadata, malformed metadata, text, code, list, header and group, with and without a name being required; links of two actions with every octet (thorough every two) alone, at the start, in the middle and at the end of an identifier, and blanks around
//@ outside: control characters and octets above 127 in identifiers; more than one relation in one action; relations that go on after their first line
#include "pay.h"
using namespace bp;
namespace
{
    bool space(char c) { return (c == ' ') | ((unsigned char)(c - 9) <= 4); }
    std::string trim(std::string s)
    {
        while (!s.empty() && space(s.back())) s.pop_back();
        size_t i = 0;
        while (i < s.size() && space(s[i])) ++i;
        return s.substr(i);
    }
    struct Entries {
        Pairs pairs;
        std::vector<At> at;
        std::vector<int> warnings;
        // what one leading paragraph says; false if it is no metadata
        bool paragraph(std::string text, const At& where)
        {
            while (!text.empty() && space(text.back())) text.pop_back();
            Pairs found;
            bool all = true;
            for (size_t i = 0; i < text.size();) {
                size_t end = i;
                while (end < text.size() && text[end] != '\n') ++end;
                size_t colon = i;
                while (colon < end && text[colon] != ':') ++colon;
                std::string key = trim(text.substr(i, colon - i)), value;
                if (colon < end) value = trim(text.substr(colon + 1, end - colon - 1));
                if (key.empty() || value.empty()) all = false;
                else found.push_back({ key, value });
                i = end + 1;
            }
            if (found.empty()) return false;
            if (!all) warnings.push_back(FormattingWarning);
            else
                for (size_t i = 0; i < found.size(); ++i) { // one for every key that comes again
                    bool before = false, after = false;
                    for (size_t k = 0; k < found.size(); ++k)
                        if (k != i && ref::eq(found[k].first, found[i].first)) (k < i ? before : after) = true;
                    if (after && !before) warnings.push_back(DuplicateWarning);
                }
            for (auto& p : found) pairs.push_back(p), at.push_back(where);
            return true;
        }
        void check(const md::Doc& d, bool maps)
        {
            sym_observe("entries", d.bp.metadata.size());
            sym_assert(d.bp.metadata.size() == pairs.size(), "number of metadata");
            sym_assert(d.sm.metadata.collection.size() == (maps ? pairs.size() : 0), "number of source maps of metadata");
            for (size_t i = 0; i < pairs.size(); ++i) {
                sym_assert(ref::eq(d.bp.metadata[i].first, pairs[i].first), "key of metadata");
                sym_assert(ref::eq(d.bp.metadata[i].second, pairs[i].second), "value of metadata");
                if (maps) sym_assert(same(d.sm.metadata.collection[i].sourceMap, at[i]), "source map of metadata");
            }
        }
    };
    At last(md::Doc& d) { return d.root.children().back().sourceMap; }
    void describe(Text& t, const std::string& source, const At& at) { t.add(trim(source), at); }
    void texts(size_t least, size_t most, int count, bool maps)
    {
        md::Doc d;
        Expect x;
        Entries e;
        bool front = true;
        for (int i = 0; i < count; ++i) {
            std::string t = sym_str_from("paragraph", least, most, "ab: \n");
            sym_assume(!space(t[0]) && !space(t[t.size() - 1])); // as the Markdown parser gives them
            size_t from = d.src.size();
            d.text(t);
            if (front && e.paragraph(t, last(d))) continue;
            front = false;
            describe(x.desc, d.src.substr(from), last(d));
        }
        x.warnings = e.warnings;
        if (!x.desc.text.empty()) x.warnings.push_back(APINameWarning), sym_reach("description");
        if (!e.pairs.empty()) sym_reach("metadata");
        d.parse(maps ? ExportSourcemapOption : 0);
        e.check(d, maps);
        check(x, d, maps);
    }
    void lines(int count)
    {
        md::Doc d;
        Expect x;
        Entries e;
        const char* const some[] = { "a: 1", "b :2", "a:3", "b: 4 : 5", "c:", "x" };
        std::string t;
        for (int i = 0; i < count; ++i) t += std::string(i ? "\n" : "") + some[sym_range("line", 0, 5)];
        d.text(t);
        if (!e.paragraph(t, last(d))) describe(x.desc, d.src, last(d));
        x.warnings = e.warnings;
        if (!x.desc.text.empty()) x.warnings.push_back(APINameWarning);
        d.parse(ExportSourcemapOption);
        e.check(d, true);
        check(x, d, true);
        sym_reach("lines");
    }
    void blocks(char first, bool required, bool maps)
    {
        md::Doc d;
        Expect x;
        Entries e;
        bool front = true;
        XElement* group = nullptr;
        int count = (int)sym_range("more", 0, BOUND(3, 4));
        for (int i = 0; i <= count; ++i) {
            char k = i ? "MBDPCLHG"[sym_range("block", 0, 7)] : first;
            std::string n(1, (char)('0' + i)), t;
            size_t from = d.src.size();
            switch (k) {
                case 'M': d.text(t = "k" + n + ": v\nx : " + n); break;
                case 'B': d.text(t = "k: v\nrest"); break;
                case 'D': d.text(t = "k: " + n + "\nk:w\nk:w"); break;
                case 'P': d.text(t = "text " + n); break;
                case 'C': d.code("code: " + n); break;
                case 'L': d.item("item: " + n), d.end(); break;
                case 'H': d.header(2, " name " + n + " "); break;
                default: d.header(1, "Group g" + n);
            }
            if (k == 'G') {
                x.elements.emplace_back();
                group = &x.elements.back();
                group->group = true, group->name = "g" + n, group->at = last(d);
                front = false;
                continue;
            }
            if (front && !t.empty() && e.paragraph(t, last(d))) continue;
            bool name = front && k == 'H';
            front = false;
            if (name) x.name = "name " + n, x.nameAt = last(d);
            else if (group) describe(group->copy, d.src.substr(from), last(d)), group->copied = true;
            else describe(x.desc, d.src.substr(from), last(d));
        }
        x.warnings = e.warnings;
        sym_reach("document");
        d.parse((maps ? ExportSourcemapOption : 0) | (required ? RequireBlueprintNameOption : 0));
        e.check(d, maps);
        if (x.name.empty() && required) {
            sym_assert(d.report.error.code == BusinessError, "a document without the name that is required is an error");
            sym_assert(d.report.warnings.size() == x.warnings.size(), "warnings of a document without the name that is required");
            d.report.error = Error();
            sym_reach("required");
        } else if (x.name.empty() && !x.desc.text.empty()) x.warnings.push_back(APINameWarning);
        check(x, d, maps);
    }
    // the identifier of a link: nothing, or a lower case letter and lower case letters, digits, dots and hyphens
    bool legal(const std::string& s)
    {
        int ok = 1;
        for (size_t i = 0; i < s.size(); ++i) {
            unsigned char c = s[i];
            int letter = (unsigned char)(c - 'a') < 26, other = ((unsigned char)(c - '0') < 10) | (c == '.') | (c == '-');
            ok &= i ? letter | other : letter;
        }
        return ok;
    }
    void links(const std::string& one, const std::string& two, const std::string& lead, const std::string& tail, bool maps)
    {
        md::Doc d;
        std::vector<int> warnings;
        At at[2];
        std::string want[2];
        d.header(1, "R [/a]");
        for (int i = 0; i < 2; ++i) {
            d.header(2, i ? "Do [PUT]" : "GET");
            d.item((i ? "Relation:" : lead) + (i ? two : one) + (i ? "" : tail));
            at[i] = d.top().children().back().sourceMap;
            d.end();
            std::string id = trim(i ? two : one);
            if (legal(id)) want[i] = id;
            else warnings.push_back(FormattingWarning), sym_reach("illegal");
            warnings.push_back(EmptyDefinitionWarning); // no response
        }
        if (!want[0].empty() && ref::eq(want[0], want[1])) warnings.push_back(DuplicateWarning), sym_reach("twice");
        d.parse(maps ? ExportSourcemapOption : 0);
        sym_assert(d.report.error.code == Error::OK, "links are no errors");
        sym_assert(d.bp.content.elements().size() == 1 && d.bp.content.elements()[0].content.resource.actions.size() == 2, "two actions");
        const Resource& r = d.bp.content.elements()[0].content.resource;
        for (int i = 0; i < 2; ++i) {
            sym_assert(ref::eq(r.actions[i].relation.str, want[i]), "relation of an action");
            if (maps) sym_assert(same(d.sm.content.elements().collection[0].content.resource.actions.collection[i].relation.sourceMap, want[i].empty() ? At() : at[i]), "source map of a relation");
            sym_assert(r.actions[i].description.empty(), "a relation is no description");
        }
        int got[20] = {}, expected[20] = {};
        for (auto& w : d.report.warnings) got[w.code]++;
        for (int w : warnings) expected[w]++;
        for (int i = 0; i < 20; ++i) sym_assert(got[i] == expected[i], "warnings of links");
        if (!want[0].empty()) sym_reach("legal");
    }
    std::string octet(const char* before, const char* after, size_t count) // an identifier as it is written, on one line
    {
        std::string s = sym_str_n("octet", count);
        int ok = 1;
        for (char c : s) ok &= ((unsigned char)(c - 9) > 4) & (c != 0) & ((unsigned char)c < 0x80);
        sym_assume(ok);
        return before + s + after;
    }
    const char* const some[] = { "", "a", "b", "a-", "1" };
}
HARNESS(one_paragraph) { texts(1, BOUND(4, 6), 1, true); }
HARNESS(two_paragraphs) { texts(1, BOUND(2, 3), 2, true); }
HARNESS(some_lines) { lines((int)sym_range("lines", 2, BOUND(4, 5))); }
HARNESS(no_maps) { texts(3, BOUND(3, 5), 1, false); }
HARNESS(front) { blocks("MBDPCLHG"[sym_range("block", 0, 7)], false, true); }
HARNESS(required) { blocks("MBDPCLHG"[sym_range("block", 0, 7)], true, sym_bool("maps")); }
HARNESS(link) { links(octet(sym_bool("before") ? "a" : "", sym_bool("after") ? "b" : "", BOUND(1, 2)), " ab", "Relation:", "", true); }
HARNESS(blanks)
{
    links(some[sym_range("one", 0, 4)], some[sym_range("two", 0, 4)], sym_bool("lower") ? "relation: " : " Relation : ", sym_bool("blank") ? " " : "", sym_bool("maps"));
}
