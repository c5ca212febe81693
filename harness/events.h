// The events sundown, which is not in the tree, sends for a document: every block, each followed by its source map.
#pragma once
#include "md.h"
#include "MarkdownParser.h"
namespace
{
    md::Doc* doc;
    sd_callbacks cb;
    void* opaque;
    void render(const mdp::MarkdownNode& n)
    {
        buf t = { (uint8_t*)n.text.data(), n.text.size(), 0, 0 };
        if (n.type == mdp::ListItemMarkdownNodeType) cb.listitem_begin(0, opaque);
        if (n.type == mdp::QuoteMarkdownNodeType) cb.blockquote_begin(opaque);
        for (auto& k : const_cast<mdp::MarkdownNode&>(n).children())
            if (k.data != -1) render(k); // the text of an item without one

        switch (n.type) {
            case mdp::HeaderMarkdownNodeType: cb.header(nullptr, &t, n.data, opaque); break;
            case mdp::HRuleMarkdownNodeType: cb.hrule(nullptr, opaque); break;
            case mdp::HTMLMarkdownNodeType: cb.blockhtml(nullptr, &t, opaque); break;
            case mdp::QuoteMarkdownNodeType: cb.blockquote(nullptr, &t, opaque); break;
            case mdp::CodeMarkdownNodeType: cb.blockcode(nullptr, &t, nullptr, opaque); break;
            case mdp::ListItemMarkdownNodeType: cb.listitem(nullptr, &t, n.data, opaque); break;
            default: cb.paragraph(nullptr, &t, opaque);
        }
        range r = { (size_t)n.sourceMap[0].location, (size_t)n.sourceMap[0].length };
        void* item = &r;
        src_map m = { &item, 1, 1 };
        cb.block_did_parse(&m, nullptr, 0, opaque);
    }
}
extern "C" {
sd_markdown* sd_markdown_new(unsigned int, size_t, const sd_callbacks* c, void* o)
{
    cb = *c;
    opaque = o;
    return nullptr;
}
void sd_markdown_render(buf*, const uint8_t*, size_t, sd_markdown*)
{
    for (auto& n : doc->root.children()) render(n);
}
void sd_markdown_free(sd_markdown*) {}
buf* bufnew(size_t) { return nullptr; }
void bufrelease(buf*) {}
}
