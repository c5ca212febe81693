//@ all: time=260 instr=60000000
//@ bound: every document that begins in one of 10 ways and goes on with up to two blocks: headers, paragraphs, code and list items, quotes, rules and HTML, the first of any of the 60 forms of the language, the second of one of 15 (thorough any), items anywhere in the list before them
//@ outside: longer sequences of blocks, texts that are of none of these forms
//@ assume: sundown reports the blocks of the document in order, each followed by its source map
//@ stub: sd_markdown_new, sd_markdown_render: the events of the document
#include "elem.h"
#include "events.h"
#include "drafter.h"
#include <cstdlib>
using namespace model;
namespace
{
    const char* const headers[] = { "N", "Group G", "R [/r]", "/r/{id}", "GET", "GET /r/{id}", "A [PUT /r{?id}]", "Data Structures", "A", "A (object)", "B (A)", "A (array)", "A (enum)", "Items", "Properties", "Sample", "Members", "Default: 1", "Model" };
    const char* const items[] = { "Request", "Response 200", "Request (application/json)", "Response", "Model (text/plain)", "R Model", "Headers", "Body", "Schema", "Attributes", "Attributes (array)", "Attributes (A)", "Attributes (enum)", "Parameters", "id", "id: 1 (number, required) - d", "id (enum[A])", "Values", "Members", "Default: 1", "Default", "Sample: x", "Sample", "Properties", "Items", "One of", "Include A", "Relation: x", "(object)", "(array, required)", "Header: X: 1", "*_v_*", "id: a, *b* (array[A], fixed)" };
    const char* const texts[] = { "t", "K: v", "[R][]", "a\nb: c" };
    enum { HEADERS = sizeof headers / sizeof *headers, ITEMS = sizeof items / sizeof *items, TEXTS = sizeof texts / sizeof *texts };
    bool bare; // what has no text has no length
    void close(md::Doc& d, size_t depth)
    {
        while (d.open.size() > depth) d.end();
    }
    void begin(md::Doc& d, int how)
    {
        static const char* const in[] = { "Response 200 (application/json)", "Attributes" };
        if (how == 0) return;
        if (how == 1) {
            d.header(1, "Data Structures");
            d.header(2, "A (object)");
            return;
        }
        if (how == 2) {
            d.header(1, "Data Structures");
            d.header(2, "A (enum)");
            d.item("id: 1");
            return;
        }
        if (how == 8) { // choices
            d.header(1, "Data Structures");
            d.header(2, "A");
            d.item("One of");
            d.item("id: 1");
            return;
        }
        if (how == 9) { // a type that holds itself
            d.header(1, "Data Structures");
            d.header(2, "A (object)");
            d.item("a (A)");
            d.end();
            d.header(1, "GET /r");
            d.item(in[0]);
            d.item("Attributes (A)");
            return;
        }
        d.header(1, "R [/r/{id}]");
        if (how == 3) {
            d.item("Model (text/plain)");
            return;
        }
        if (how == 4) {
            d.item("Parameters");
            d.item("id: 1");
            return;
        }
        d.header(2, "GET");
        if (how == 5) return;
        d.item(in[0]);
        if (how == 6) return;
        d.item(in[1]);
        d.item("id: 1");
    }
    // one more block, anywhere it can be
    void block(md::Doc& d, bool any)
    {
        // those that any other can come before, for short
        static const unsigned char few[] = { 1, 3, 4, 9, HEADERS + 1, HEADERS + 4, HEADERS + 6, HEADERS + 9, HEADERS + 15, HEADERS + 17, HEADERS + 25, HEADERS + 26, HEADERS + ITEMS, HEADERS + ITEMS + 1, HEADERS + ITEMS + TEXTS + 4 };
        int b = any ? (int)sym_range("block", 0, HEADERS + ITEMS + TEXTS + 4) : few[sym_range("block", 0, sizeof few - 1)];
        if (b < HEADERS) {
            close(d, 0);
            d.header(b < 2 || b == 7 ? 1 : 2, headers[b]);
            return;
        }
        close(d, (size_t)sym_range("depth", 0, d.open.size()));
        b -= HEADERS;
        if (b < ITEMS) d.item(items[b]);
        else if (b < ITEMS + TEXTS) d.text(texts[b - ITEMS]);
        else switch (b - ITEMS - TEXTS) {
            case 0: d.bare(), bare = true; break;
            case 1: d.rule(); break;
            case 2: d.quote("t"); break;
            case 3: d.html("<b>"); break;
            default: d.code("{}");
        }
    }
    size_t chars;
    const Node* attribute(const Node& n, const std::string& key)
    {
        for (auto& a : n.attr)
            if (a.first == key) return &a.second;
        return nullptr;
    }
    size_t number(const std::string& s)
    {
        size_t n = 0;
        for (char c : s) n = n * 10 + (c - '0');
        return n;
    }
    // places are pairs of numbers within the source
    void places(const Node& n)
    {
        if (auto* m = attribute(n, "sourceMap"))
            for (auto& s : m->kids)
                for (auto& r : s.kids) {
                    sym_assert(r.kids.size() == 2, "a place has a start and a length");
                    size_t at = number(r.kids[0].s), length = number(r.kids[1].s);
                    sym_assert((length || (bare && n.name != "annotation")) && at + length <= chars, "a place is in the source");
                }
        for (auto& k : n.kids) places(k);
        for (auto& a : n.attr)
            if (a.first != "sourceMap") places(a.second);
    }
    void blocks(int most, int any)
    {
        md::Doc d;
        doc = &d;
        bare = false;
        begin(d, (int)sym_range("begin", 0, 9));
        int n = (int)sym_range("blocks", 0, most);
        for (int i = 0; i < n; ++i) block(d, i < any);
        chars = d.src.size();
        drafter_result* r = nullptr;
        int code = drafter_parse_blueprint(d.src.c_str(), &r, nullptr);
        sym_assert(r, "every source has a result");
        sym_assert(code != 1, "nothing ends as a failure of the program");
        Node have = read(r);
        size_t error = 0, parts = 0;
        for (auto& k : have.kids) {
            if (k.name == "category") ++parts;
            else {
                sym_assert(k.name == "annotation", "a result holds a description and annotations");
                sym_assert(!k.s.empty(), "an annotation has a message");
                auto *c = attribute(k, "code"), *m = attribute(k, "sourceMap");
                sym_assert(c && m && !m->kids.empty() && !m->kids[0].kids.empty(), "an annotation has a code and a place");
                if (!k.meta.empty() && k.meta[0].second.kids[0].s == "error") ++error, sym_assert(c->s == std::to_string(code), "the code returned is that of the error");
            }
        }
        sym_assert(error == (code != 0) && parts == (code == 0), "there is a description or an error");
        places(have);
        drafter_free_result(r);
        sym_reach(code ? "error" : "description");
    }
}
HARNESS(blocks)
{
    blocks(2, BOUND(1, 2));
}
