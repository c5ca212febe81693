// Markdown trees as the Markdown parser builds them, together with the source they come from.
#pragma once
#include "ref.h"
#include "snowcrash.h"
#include "BlueprintParser.h"
namespace md
{
    struct Doc {
        std::string src;
        mdp::MarkdownNode root;
        snowcrash::Blueprint bp;
        snowcrash::SourceMap<snowcrash::Blueprint> sm;
        snowcrash::Report report;
        std::vector<mdp::MarkdownNode*> open; // list items being filled
        Doc() : root(mdp::RootMarkdownNodeType) {}
        mdp::MarkdownNode& top() { return open.empty() ? root : *open.back(); }
        mdp::MarkdownNode& add(mdp::MarkdownNodeType type, const std::string& text, const std::string& source, int data = 0)
        {
            mdp::MarkdownNode& p = top();
            p.children().push_back(mdp::MarkdownNode(type, &p, text, data));
            mdp::MarkdownNode& n = p.children().back();
            size_t at = src.size();
            src += source;
            n.sourceMap.push_back(mdp::BytesRange(at, source.size()));
            for (auto* o : open) o->sourceMap[0].length = src.size() - o->sourceMap[0].location;
            return n;
        }
        std::string indent() const { return std::string(4 * open.size(), ' '); }
        void header(int level, const std::string& text) { add(mdp::HeaderMarkdownNodeType, text, std::string(level, '#') + " " + text + "\n\n", level); }
        void text(const std::string& t) { add(mdp::ParagraphMarkdownNodeType, t, indent() + t + "\n\n"); }
        void code(const std::string& t) { add(mdp::CodeMarkdownNodeType, t + "\n", indent() + "    " + t + "\n\n"); }
        void item(const std::string& t) // begin a list item
        {
            mdp::MarkdownNode& n = add(mdp::ListItemMarkdownNodeType, "", "");
            std::string lead = indent() + "+ ";
            src += lead;
            n.sourceMap[0] = mdp::BytesRange(src.size() - lead.size(), lead.size());
            open.push_back(&n);
            add(mdp::ParagraphMarkdownNodeType, t, t + "\n");
        }
        void bare() // begin a list item without a text
        {
            item("");
            auto& p = top().children().back();
            p.data = -1;
            p.sourceMap[0].length = 0;
        }
        void rule() { add(mdp::HRuleMarkdownNodeType, "", indent() + "---\n\n"); }
        void html(const std::string& t) { add(mdp::HTMLMarkdownNodeType, t + "\n", indent() + t + "\n\n"); }
        void quote(const std::string& t) // a paragraph in a quote
        {
            mdp::MarkdownNode& n = add(mdp::QuoteMarkdownNodeType, "", "");
            size_t at = src.size();
            open.push_back(&n);
            n.sourceMap[0] = mdp::BytesRange(at, 0);
            add(mdp::ParagraphMarkdownNodeType, t, std::string(4 * (open.size() - 1), ' ') + "> " + t + "\n\n");
            open.pop_back();
        }
        void end() { open.pop_back(); }
        void parse(snowcrash::BlueprintParserOptions options = 0)
        {
            snowcrash::SectionParserData pd(options, src, bp);
            mdp::BuildCharacterIndex(pd.sourceCharacterIndex, src);
            snowcrash::ParseResultRef<snowcrash::Blueprint> out(report, bp, sm);
            try {
                snowcrash::BlueprintParser::parse(root.children().begin(), root.children(), pd, out);
            } catch (const snowcrash::Error& e) {
                report.error = e;
            }
        }
    };
    inline std::string join(const std::string& a, const std::string& b) { return a + b; }
}
