//@ all: time=60
//@ bound: documents of up to 2 blocks nested up to 2 deep (quick) in lists and quotes with any one-octet texts, any header level and flags; sources of up to 5 octets, source maps of up to 2 ranges anywhere in the source and one octet past its end
//@ assume: sundown reports blocks as it does: begin, contents, end, then the source map of the block, the last range reaching at most one octet past the source; nothing is known of lists but their items
//@ stub: sd_markdown_new, sd_markdown_render: any event sequence sundown can emit
#include "ref.h"
#include "MarkdownParser.h"
using namespace mdp;
namespace
{
    struct Map {
        size_t at, n;
    };
    struct Block {
        MarkdownNodeType type;
        std::string text;
        int data = 0;
        std::vector<Map> map;
        std::vector<Block> kids;
        bool list = false; // a list of items; reported, but no node
    };
    std::vector<Block>* doc;
    sd_callbacks cb;
    void* opaque;

    void render(const Block& b)
    {
        buf t = { (uint8_t*)b.text.data(), b.text.size(), 0, 0 };
        if (b.list) cb.list_begin(b.data, opaque);
        if (b.type == QuoteMarkdownNodeType) cb.blockquote_begin(opaque);
        if (b.type == ListItemMarkdownNodeType) cb.listitem_begin(0, opaque);
        for (auto& k : b.kids) render(k);
        if (b.list) cb.list(nullptr, &t, b.data, opaque);
        else switch (b.type) {
            case HeaderMarkdownNodeType: cb.header(nullptr, &t, b.data, opaque); break;
            case CodeMarkdownNodeType: cb.blockcode(nullptr, &t, nullptr, opaque); break;
            case HTMLMarkdownNodeType: cb.blockhtml(nullptr, &t, opaque); break;
            case HRuleMarkdownNodeType: cb.hrule(nullptr, opaque); break;
            case QuoteMarkdownNodeType: cb.blockquote(nullptr, &t, opaque); break;
            case ListItemMarkdownNodeType: cb.listitem(nullptr, &t, b.data, opaque); break;
            default: cb.paragraph(nullptr, &t, opaque);
        }
        range r[2];
        void* item[2];
        for (size_t i = 0; i < b.map.size(); ++i) {
            r[i].loc = b.map[i].at;
            r[i].len = b.map[i].n;
            item[i] = &r[i];
        }
        src_map m = { item, b.map.size(), 2 };
        cb.block_did_parse(&m, nullptr, 0, opaque);
    }

    // ---- the tree meant
    struct Node {
        MarkdownNodeType type;
        std::string text;
        int data = 0;
        std::vector<Map> map;
        std::vector<Node> kids;
    };
    std::vector<Map> cut(const std::vector<Map>& m, size_t size)
    {
        std::vector<Map> r;
        for (auto& x : m) {
            size_t n = x.at + x.n > size ? size - x.at : x.n;
            if (n || x.at + x.n <= size) r.push_back({ x.at, n });
        }
        return r;
    }
    void meant(std::vector<Node>& out, const Block& b, const std::string& src)
    {
        if (b.list) {
            for (auto& k : b.kids) meant(out, k, src);
            return;
        }
        Node n;
        n.type = b.type;
        n.text = b.type == HRuleMarkdownNodeType || b.type == ListItemMarkdownNodeType ? "" : b.text;
        n.data = b.type == HeaderMarkdownNodeType || b.type == ListItemMarkdownNodeType ? b.data : 0;
        n.map = cut(b.map, src.size());
        for (auto& k : b.kids) meant(n.kids, k, src);
        if (b.type == ListItemMarkdownNodeType && (n.kids.empty() || n.kids[0].type != ParagraphMarkdownNodeType)) { // its own text
            Node t;
            t.type = ParagraphMarkdownNodeType;
            t.text = b.text;
            n.kids.insert(n.kids.begin(), t);
        }
        if (b.type == ListItemMarkdownNodeType && n.kids[0].map.empty()) { // where the text is in the item, else the item
            std::string all;
            std::vector<size_t> at;
            for (auto& m : n.map)
                for (size_t i = 0; i < m.n; ++i) all += src[m.at + i], at.push_back(m.at + i);
            size_t p = all.find(n.kids[0].text), len = n.kids[0].text.size();
            auto& m = n.kids[0].map;
            if (p == all.npos || n.map.empty()) m = n.map;
            else if (!len) m.push_back({ n.map[0].at, 0 });
            else
                for (size_t i = p; i < p + len; ++i) {
                    bool cont = !m.empty() && i > 0 && at[i] == at[i - 1] + 1;
                    if (cont) ++m.back().n;
                    else m.push_back({ at[i], 1 });
                }
        }
        out.push_back(n);
    }
    void compare(const MarkdownNode& n, const Node& m, const MarkdownNode* parent, bool item = false)
    {
        sym_assert(n.type == m.type, "each block becomes a node of its type");
        sym_assert(ref::eq(n.text, m.text), "each node has the text of its block");
        sym_assert(n.data == m.data, "headers have their level and items their flags");
        if (parent) sym_assert(n.hasParent() && &n.parent() == parent, "the parent of a node is the node that holds it");
        else sym_assert(!n.hasParent(), "the root has no parent");
        bool same = n.sourceMap.size() == m.map.size();
        for (size_t i = 0; same && i < m.map.size(); ++i) same = n.sourceMap[i].location == m.map[i].at && n.sourceMap[i].length == m.map[i].n;
        if (item) sym_assert(same, "the source map of the text of an item is where the text is, or that of the item");
        else sym_assert(same, "the source map of a node is that of its block inside the source");
        sym_assert(n.children().size() == m.kids.size(), "each node holds the blocks inside its block, in order");
        for (size_t i = 0; i < m.kids.size() && i < n.children().size(); ++i) compare(n.children()[i], m.kids[i], &n, i == 0 && n.type == ListItemMarkdownNodeType);
    }
    void check(std::vector<Block>& blocks, const std::string& src)
    {
        doc = &blocks;
        MarkdownNode ast(CodeMarkdownNodeType, nullptr, "old", 7);
        ast.children().push_back(MarkdownNode());
        MarkdownParser p;
        p.parse(src, ast);
        Node root;
        root.type = RootMarkdownNodeType;
        root.map.push_back({ 0, src.size() });
        for (auto& b : blocks) meant(root.kids, b, src);
        compare(ast, root, nullptr);
        MarkdownNode copy(ast), assigned(ParagraphMarkdownNodeType, nullptr, "x");
        assigned = copy;
        sym_assert(assigned.type == ast.type && assigned.children().size() == ast.children().size() && &assigned.children() != &ast.children(), "a copy is a tree of its own");
        sym_reach(root.kids.empty() ? "empty" : "blocks");
    }
}
extern "C" {
sd_markdown* sd_markdown_new(unsigned int, size_t, const sd_callbacks* c, void* o)
{
    cb = *c;
    opaque = o;
    return nullptr;
}
void sd_markdown_render(buf*, const uint8_t*, size_t, sd_markdown*)
{
    for (auto& b : *doc) render(b);
}
void sd_markdown_free(sd_markdown*) {}
buf* bufnew(size_t) { return nullptr; }
void bufrelease(buf*) {}
}
// ---- structure
static Block block(int depth, size_t max)
{
    static const MarkdownNodeType leaves[] = { HeaderMarkdownNodeType, CodeMarkdownNodeType, HTMLMarkdownNodeType, HRuleMarkdownNodeType, ParagraphMarkdownNodeType };
    Block b;
    size_t k = sym_range("block", 0, depth ? 6 : 4);
    b.map.push_back({ 0, 1 });
    b.text = sym_str("text", 1, 1);
    if (k < 5) {
        b.type = leaves[k];
        if (k == 0) b.data = (int)sym_u8("level");
        return b;
    }
    if (k == 5) {
        b.type = QuoteMarkdownNodeType;
        for (size_t i = sym_range("n", 0, max); i > 0; --i) b.kids.push_back(block(depth - 1, max));
        return b;
    }
    b.type = UndefinedMarkdownNodeType;
    b.list = true;
    for (size_t i = sym_range("items", 1, 2); i > 0; --i) {
        Block e;
        e.type = ListItemMarkdownNodeType;
        e.data = (int)sym_u8("flags");
        e.text = i == 1 ? sym_str("item", 0, 1) : "i";
        e.map.push_back({ 0, 1 });
        for (size_t j = sym_range("n", 0, i == 1 ? max : 0); j > 0; --j) e.kids.push_back(block(depth - 1, j == 1 ? max : 0));
        b.kids.push_back(e);
    }
    return b;
}
HARNESS(structure)
{
    std::vector<Block> d;
    for (size_t i = sym_range("blocks", 0, 2); i > 0; --i) d.push_back(block(i == 1 ? BOUND(2, 2) : 0, BOUND(1, 2)));
    check(d, "x");
}
// ---- source maps
static std::vector<Map> maps(size_t size, size_t max)
{
    std::vector<Map> m;
    size_t from = 0;
    for (size_t i = sym_range("ranges", 1, max); i > 0; --i) {
        Map r;
        r.at = sym_range("at", from, size);
        r.n = sym_range("len", 1, size + 1 - r.at);
        from = r.at + r.n + 1;
        if (i > 1 && from > size) sym_assume(false);
        m.push_back(r);
    }
    return m;
}
HARNESS(blocks)
{
    std::string src = sym_str("source", 0, BOUND(4, 5));
    std::vector<Block> d;
    for (size_t i = sym_range("blocks", 1, 2); i > 0; --i) {
        Block b;
        b.type = i == 1 ? ParagraphMarkdownNodeType : HRuleMarkdownNodeType;
        b.text = "t";
        b.map = maps(src.size(), 2);
        d.push_back(b);
    }
    check(d, src);
}
HARNESS(item_text)
{
    std::string src = sym_str("source", 1, BOUND(4, 5));
    Block l, e;
    l.list = true;
    l.type = UndefinedMarkdownNodeType;
    e.type = ListItemMarkdownNodeType;
    l.map.push_back({ 0, 1 });
    e.map = maps(src.size(), 2);
    size_t n = 0; // the text of the item is a part of its source, or none of it
    std::string all;
    for (auto& m : e.map)
        for (size_t i = m.at; i < m.at + m.n && i < src.size(); ++i) all += src[i];
    if (sym_bool("part")) {
        size_t b = sym_range("begin", 0, all.size());
        e.text = all.substr(b, sym_range("length", 0, all.size() - b));
        n = 1;
    } else
        e.text = sym_str("text", 1, 2);
    if (sym_bool("nested")) {
        Block k;
        k.type = CodeMarkdownNodeType;
        k.map.push_back({ 0, 1 });
        e.kids.push_back(k);
    }
    l.kids.push_back(e);
    std::vector<Block> d(1, l);
    check(d, src);
}
