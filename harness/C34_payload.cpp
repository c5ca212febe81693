//@ all: time=60
//@ bound: actions of every kind of method with up to 3 requests and responses (thorough 4) in every order, with and without name, media type and content; one payload of every signature and every sequence of up to 3 (thorough 4) parts: description, headers, body, schema, stray text; deprecated headers of actions and resources; code blocks holding what looks like a section or a reference to a model, with any bullet
//@ outside: lists nested deeper than their sections; attributes and parameters of payloads, which have checks of their own; lines of signatures, see the check of signatures
#include "pay.h"
using namespace bp;
namespace
{
    struct XTransaction {
        std::deque<XPayload> requests, responses;
    };
    struct Machine {
        md::Doc d;
        std::string method;
        std::deque<XTransaction> examples;
        XPayload* last = nullptr;
        bool body = false; // the last part of the payload is its body
        std::vector<int> warnings;
        int n = 0;
        std::vector<std::pair<std::string, std::string> > shared; // deprecated headers
        std::vector<At> sharedAt;
        Machine(const std::string& m, int above = -1) : method(m) // above: deprecated headers of the resource
        {
            if (above < 0) d.header(1, m + " /a");
            else {
                d.header(1, "R [/a]");
                while (above--) deprecated();
                d.header(2, m);
            }
        }
        std::string id() { return std::string(1, (char)('0' + n++)); }
        At last_at() { return d.top().children().back().sourceMap; }
        void warn(int code) { warnings.push_back(code); }
        void open(const std::string& text)
        {
            d.item(text);
        }
        void begin(bool request, const std::string& name, const std::string& media)
        {
            open(std::string(request ? "Request" : "Response") + (name.empty() ? "" : " " + name) + (media.empty() ? "" : " (" + media + ")"));
            if (examples.empty() || (request && !examples.back().responses.empty())) examples.emplace_back();
            auto& l = request ? examples.back().requests : examples.back().responses;
            l.emplace_back();
            last = &l.back();
            last->request = request;
            last->name = name;
            last->at = last_at();
            if (!media.empty()) last->headers.push_back({ "Content-Type", media }), last->headersAt.push_back(last->at);
            body = false;
            if (!request && name.empty()) warn(EmptyDefinitionWarning), last->name = "200", last->at = At();
        }
        std::string block(bool code, const std::string& text = "") // a code block, or a paragraph where one is expected
        {
            std::string t = text.empty() ? "b" + id() : text;
            if (code) {
                d.code(t);
                return t + "\n";
            }
            d.text(t);
            mdp::BytesRange r = last_at()[0];
            return d.src.substr(r.location, r.length);
        }
        void content(bool code, const std::string& text = "") // of a payload without sections
        {
            last->body += block(code, text);
            join(last->bodyAt, last_at());
            if (!code) warn(IndentationWarning);
            if (!text.empty()) warn(IgnoringWarning); // a reference is to be the only content
        }
        void part(char k)
        {
            switch (k) {
                case 'd': { // text: the description before all sections, a stray part of the body after it
                    std::string t = "d" + id();
                    d.text(t);
                    if (!last->full) last->desc.add(t, last_at());
                    else if (body) {
                        mdp::BytesRange r = last_at()[0];
                        std::string s = d.src.substr(r.location, r.length);
                        last->body += s;
                        join(last->bodyAt, last_at());
                        warn(IndentationWarning);
                    } else warn(IgnoringWarning);
                    return;
                }
                case 'h': {
                    std::string v = id();
                    open("Headers");
                    d.code("X-" + v + ": " + v);
                    At at = last_at();
                    size_t p = d.src.find("X-" + v, at[0].location);
                    last->headers.push_back({ "X-" + v, v });
                    last->headersAt.push_back(one(p, 6));
                    body = false;
                    break;
                }
                default: {
                    bool b = k == 'b';
                    open(b ? "Body" : "Schema");
                    std::string& text = b ? last->body : last->schema;
                    bool again = !text.empty();
                    std::string t = block(true);
                    if (again) warn(RedefinitionWarning);
                    else text = t, join(b ? last->bodyAt : last->schemaAt, last_at());
                    body = b;
                    break;
                }
            }
            d.end();
            last->full = true;
        }
        bool duplicate()
        {
            auto type = [](const XPayload& p) {
                for (auto& h : p.headers)
                    if (h.first == "Content-Type") return h.second;
                return std::string();
            };
            if (!last->full) return false;
            for (auto& p : last->request ? examples.back().requests : examples.back().responses)
                if (&p != last && p.name == last->name && type(p) == type(*last)) return true;
            return false;
        }
        void close()
        {
            d.end();
            if (last->request) {
                if (last->body.empty() && last->headers.empty()) warn(EmptyDefinitionWarning);
            } else if (!last->body.empty()) {
                if (last->name == "204") warn(EmptyDefinitionWarning);
                if (method == "HEAD" || (method == "CONNECT" && last->name[0] == '2')) warn(EmptyDefinitionWarning);
            }
            if (duplicate()) warn(DuplicateWarning);
        }
        void stray(bool code) // a block after the list of payloads, part of the last body
        {
            std::string t = "s" + id();
            if (code) d.code(t);
            else d.text(t);
            mdp::BytesRange r = last_at()[0];
            last->body += code ? t + "\n\n" : d.src.substr(r.location, r.length);
            join(last->bodyAt, last_at());
            warn(IndentationWarning);
        }
        void deprecated()
        {
            std::string v = id();
            open("Headers");
            d.code("X-" + v + ": " + v);
            At at = last_at();
            size_t p = d.src.find("X-" + v, at[0].location);
            shared.push_back({ "X-" + v, v });
            sharedAt.push_back(one(p, 6));
            d.end();
            warn(DeprecatedWarning);
        }
        void finish(bool maps)
        {
            if (examples.empty() || examples.back().responses.empty()) warn(EmptyDefinitionWarning);
            d.parse(maps ? ExportSourcemapOption : 0);
            sym_observe("warnings", d.report.warnings.size());
            sym_assert(d.report.error.code == Error::OK, "payloads are no errors");
            auto& es = d.bp.content.elements();
            sym_assert(es.size() == 1 && es[0].element == Element::ResourceElement && es[0].content.resource.actions.size() == 1, "one action");
            const Action& a = es[0].content.resource.actions[0];
            SourceMap<Element> none;
            SourceMap<Action> nothing;
            const SourceMap<Action>& m = maps ? d.sm.content.elements().collection[0].content.resource.actions.collection[0] : nothing;
            sym_assert(a.examples.size() == examples.size(), "transactions of an action");
            sym_assert(m.examples.collection.size() == (maps ? examples.size() : 0), "source maps of transactions");
            sym_assert(a.headers.empty() && es[0].content.resource.headers.empty(), "deprecated headers are moved to the payloads");
            SourceMap<Payload> no;
            for (size_t i = 0; i < examples.size(); ++i) {
                sym_assert(a.examples[i].requests.size() == examples[i].requests.size(), "requests of a transaction");
                sym_assert(a.examples[i].responses.size() == examples[i].responses.size(), "responses of a transaction");
                for (size_t k = 0; k < examples[i].requests.size(); ++k) compare(examples[i].requests[k], a.examples[i].requests[k], maps ? m.examples.collection[i].requests.collection[k] : no, maps, shared, sharedAt);
                for (size_t k = 0; k < examples[i].responses.size(); ++k) compare(examples[i].responses[k], a.examples[i].responses[k], maps ? m.examples.collection[i].responses.collection[k] : no, maps, shared, sharedAt);
            }
            int got[20] = {}, want[20] = {};
            for (auto& w : d.report.warnings) got[w.code]++;
            for (int w : warnings) want[w]++;
            for (int i = 0; i < 20; ++i) {
                sym_observe("code", i);
                sym_observe("got", got[i]);
                sym_observe("want", want[i]);
                sym_assert(got[i] == want[i], "warnings");
            }
            sym_reach("action");
        }
    };
    const char* pick(const char* what, int n, const char* const* list) { return list[sym_range(what, 0, n - 1)]; }
    const char* const methods[] = { "GET", "HEAD", "CONNECT" };
    const char* const codes[] = { "200", "204", "", "404" };
    const char* const names[] = { "", "n", "o p" };
    const char* const medias[] = { "", "text/plain" };
}
HARNESS(grouping) // requests and responses in every order
{
    Machine m("GET");
    int count = (int)sym_range("payloads", 0, BOUND(3, 5));
    for (int i = 0; i < count; ++i) {
        bool r = sym_bool("request");
        m.begin(r, r ? pick("name", 2, names) : pick("code", 3, codes), "");
        m.content(true);
        m.close();
    }
    m.finish(true);
}
HARNESS(duplicates)
{
    Machine m("GET");
    bool r = sym_bool("request");
    for (int i = 0; i < BOUND(2, 3); ++i) {
        m.begin(r, r ? pick("name", 2, names) : pick("code", 2, codes), pick("media", 2, medias));
        if (sym_bool("full")) m.part('b');
        else m.content(true);
        m.close();
    }
    m.finish(false);
}
HARNESS(content) // what an abbreviated payload holds
{
    Machine m(pick("method", 3, methods));
    bool r = sym_bool("request");
    m.begin(r, r ? pick("name", 3, names) : pick("code", 4, codes), pick("media", 2, medias));
    int count = (int)sym_range("blocks", 0, 2);
    for (int i = 0; i < count; ++i) m.content(sym_bool("code block"), i && sym_bool("like a reference") ? "[M][]" : "");
    m.close();
    m.finish(sym_bool("maps"));
}
HARNESS(sections) // what a payload with sections holds
{
    Machine m(pick("method", BOUND(1, 3), methods));
    bool r = sym_bool("request");
    m.begin(r, r ? pick("name", 2, names) : pick("code", BOUND(2, 4), codes), pick("media", 2, medias));
    int count = (int)sym_range("parts", 1, BOUND(3, 4));
    for (int i = 0; i < count; ++i) m.part("dhbs"[sym_range("part", 0, 3)]);
    sym_assume(m.last->full);
    m.close();
    m.finish(true);
}
HARNESS(strays)
{
    Machine m("GET");
    bool r = sym_bool("request");
    m.begin(r, r ? "n" : "404", "");
    if (sym_bool("full")) m.part("hb"[sym_range("part", 0, 1)]);
    else if (sym_bool("content")) m.content(true);
    m.close();
    int count = (int)sym_range("strays", 1, 2);
    for (int i = 0; i < count; ++i) m.stray(sym_bool("code block"));
    m.finish(sym_bool("maps"));
}
HARNESS(deprecated)
{
    Machine m("GET", (int)sym_range("of the resource", 0, 3) - 1);
    int count = (int)sym_range("parts", 0, BOUND(3, 4));
    for (int i = 0; i < count; ++i)
        switch (sym_range("part", 0, 2)) {
            case 0: m.deprecated(); break;
            case 1: m.begin(true, "n", pick("media", 2, medias)); m.content(true); m.close(); break;
            default: m.begin(false, "200", ""); m.part('h'); m.close();
        }
    m.finish(sym_bool("maps"));
}
HARNESS(nested) // sections hidden in a code block, indented too much
{
    static const char* const words[] = { "Body", "headers", " Schema ", "Bodyx", "Response 200", "Headers: a" };
    static const char* const starts[] = { "", "\n", "- ", " " };
    unsigned char bullet = sym_u8("bullet");
    sym_assume((bullet > 32) & (bullet < 127) & (bullet != '`') & (bullet != '['));
    int w = (int)sym_range("word", 0, 5), s = (int)sym_range("start", 0, 3);
    bool blank = sym_bool("blank");
    std::string t = std::string(starts[s]) + (char)bullet + (blank ? " " : "") + words[w];
    if (sym_bool("more")) t += "\nmore";
    Machine m("GET");
    m.begin(true, "n", "");
    m.d.code(t);
    m.last->body = t + "\n";
    m.last->bodyAt = m.last_at();
    bool first = s == 1 ? false : s == 2 ? false : true; // the first line is the one with the bullet
    bool listed = (bullet == '-') | (bullet == '+') | (bullet == '*');
    if (first && listed && w < 3) m.warn(IndentationWarning), sym_reach("hidden section");
    m.close();
    m.finish(sym_bool("maps"));
}
HARNESS(references) // a model named where none is looked for
{
    static const char* const texts[] = { "[M][]", " [ M ][] ", "[M]", "[M][]x", "[][]", "[M M][]" };
    int k = (int)sym_range("text", 0, 5);
    Machine m("GET");
    m.begin(true, "n", "");
    m.open("Body");
    if (sym_bool("first")) m.d.code("x"), m.last->body = "x\n", m.last->bodyAt = m.last_at();
    m.d.code(texts[k]);
    m.last->body += std::string(texts[k]) + "\n";
    join(m.last->bodyAt, m.last_at());
    if (k < 2 || k == 5) m.warn(IgnoringWarning), sym_reach("reference");
    m.d.end();
    m.last->full = true;
    m.close();
    m.finish(sym_bool("maps"));
}
