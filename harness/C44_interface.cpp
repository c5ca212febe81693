//@ all: time=60 instr=40000000
//@ bound: documents with or without a name, an attribute or a body to answer with, a fault that is a warning, a fault that is an error; every combination of parse options and of formats, and no options at all; sources of up to 3 (thorough 4) octets without any block or of one paragraph
//@ outside: octets after the first zero octet, which a C string cannot have; main.cc
//@ assume: sundown reports the blocks of the document in order, each followed by its source map
//@ stub: sd_markdown_new, sd_markdown_render: the events of the document
#include "elem.h"
#include "events.h"
#include "ConversionContext.h"
#include "SerializeResult.h"
#include "drafter.h"
#include "options.h"
#include "refract/SerializeSo.h"
#include "utils/so/JsonIo.h"
#include "utils/so/YamlIo.h"
#include <cstdlib>
#include <sstream>
using namespace model;
namespace sc = snowcrash;
namespace
{
    enum { NAMED = 1, WARNING = 2, ERROR = 4, ATTRIBUTES = 8, BODY = 16 };
    std::string letter(const char* name)
    {
        std::string s = sym_str_n(name, 1);
        sym_assume((s[0] >= 'a') & (s[0] <= 'z'));
        return s;
    }
    void write(md::Doc& d, int parts)
    {
        if (parts & NAMED) d.header(1, parts == NAMED ? letter("name") : "N");
        if (parts & (ATTRIBUTES | BODY | WARNING)) {
            d.header(1, "GET /r");
            d.item("Response 200 (application/json)");
            if (parts & ATTRIBUTES) {
                d.item("Attributes");
                d.item("k: " + letter("value"));
                d.end();
                d.end();
            }
            if (parts & BODY) {
                d.item("Body");
                d.code(parts & ATTRIBUTES ? "b" : letter("body"));
                d.end();
            }
            d.end();
            if (parts & WARNING) {
                d.item("odd");
                d.end();
            }
        }
        if (parts & ERROR) {
            d.header(1, "Data Structures");
            d.header(2, "A (A)");
        }
        doc = &d;
    }
    drafter_parse_options* options(int bits)
    {
        if (bits < 0) return nullptr;
        auto* o = drafter_init_parse_options();
        if (bits & 1) drafter_set_name_required(o);
        if (bits & 2) drafter_set_skip_gen_bodies(o);
        if (bits & 4) drafter_set_skip_gen_body_schemas(o);
        return o;
    }
    // what the parts of the library make of the source
    Node library(const std::string& src, const drafter_parse_options* o, bool name, int* code)
    {
        sc::ParseResult<sc::Blueprint> bp;
        sc::parse(src, name ? sc::ExportSourcemapOption | sc::RequireBlueprintNameOption : sc::ExportSourcemapOption, bp);
        drafter::ConversionContext ctx(src.c_str(), o);
        auto r = drafter::WrapRefract(bp, ctx);
        *code = bp.report.error.code;
        return read(r.get());
    }
    const Node* attribute(const Node& n, const std::string& key)
    {
        for (auto& a : n.attr)
            if (a.first == key) return &a.second;
        return nullptr;
    }
    bool classified(const Node& n, const std::string& as)
    {
        for (auto& m : n.meta)
            if (m.first == "classes")
                for (auto& k : m.second.kids)
                    if (k.s == as) return true;
        return false;
    }
    // without the assets that were generated
    Node without(Node n, bool bodies, bool schemas)
    {
        std::vector<Node> kids;
        for (auto& k : n.kids) {
            bool generated = k.name == "asset" && !attribute(k, "sourceMap");
            if (generated && ((bodies && classified(k, "messageBody")) || (schemas && classified(k, "messageBodySchema")))) continue;
            kids.push_back(without(k, bodies, schemas));
        }
        n.kids = kids;
        return n;
    }
    int generated(const Node& n, const char* what)
    {
        int c = n.name == "asset" && classified(n, what) && !attribute(n, "sourceMap");
        for (auto& k : n.kids) c += generated(k, what);
        return c;
    }
    std::string text(const drafter_result& r, bool maps, drafter_format f)
    {
        std::ostringstream out;
        auto so = refract::serialize::renderSo(r, maps);
        if (f == DRAFTER_SERIALIZE_JSON) drafter::utils::so::serialize_json(out, so);
        else drafter::utils::so::serialize_yaml(out, so);
        return out.str();
    }
    const int fixtures[] = { 0, NAMED | ATTRIBUTES, WARNING | ATTRIBUTES | BODY, ERROR | NAMED, ERROR | WARNING | ATTRIBUTES, NAMED | WARNING | BODY, ATTRIBUTES | ERROR };
}
HARNESS(parse)
{
    int parts = (int)sym_range("parts", 0, 31);
    int bits = (int)sym_range("options", 0, 8) - 1;
    md::Doc d;
    write(d, parts);
    if (d.src.empty()) d.text("text");
    drafter_parse_options* o = options(bits);
    drafter_result* r = nullptr;
    int code = drafter_parse_blueprint(d.src.c_str(), &r, o);
    sym_assert(r, "a source is always answered with a result");
    Node have = read(r);
    int c0;
    Node want = library(d.src, nullptr, bits > 0 && (bits & 1), &c0);
    if (bits > 0) want = without(want, bits & 2, bits & 4);
    sym_assert(code == c0, "the code returned is that of the error, or none");
    sym_assert(same(have, want), "the result holds what was parsed, without what the options leave out");
    if (bits > 0 && (bits & 1) && !(parts & NAMED)) {
        sym_assert(code != 0, "a description without a name is rejected where one is required");
        sym_reach("no name");
    } else
        sym_assert((code != 0) == ((parts & ERROR) != 0), "an error is reported where there is one");
    if (!code && (parts & ATTRIBUTES)) {
        sym_assert(generated(have, "messageBody") == (!(parts & BODY) && (bits < 0 || !(bits & 2))), "a body is generated unless there is one, or options leave it out");
        sym_assert(generated(have, "messageBodySchema") == (bits < 0 || !(bits & 4)), "a schema is generated unless options leave it out");
        sym_reach("generated");
    }
    int errors = 0;
    for (auto& k : have.kids)
        if (k.name == "annotation" && classified(k, "error")) {
            ++errors;
            auto* a = attribute(k, "code");
            sym_assert(a && a->s == std::to_string(code), "the error of the result has the code returned");
        }
    sym_assert(errors == (code != 0), "there is one error, or none");
    drafter_free_result(r);
    uint64_t heap = sym_live_heap();
    drafter_parse_blueprint(d.src.c_str(), &r, o);
    drafter_free_result(r);
    sym_assert(sym_live_heap() == heap, "freeing a result frees all of it");
    drafter_free_parse_options(o);
}
HARNESS(serialize)
{
    int parts = BOUND(fixtures[sym_range("parts", 0, 5)], (int)sym_range("parts", 0, 31));
    md::Doc d;
    write(d, parts);
    if (d.src.empty()) d.text("text");
    int bits = (int)sym_range("options", 0, 4) - 1;
    bool maps = bits > 0 && (bits & 1), json = bits > 0 && (bits & 2), set = BOUND(false, sym_bool("set"));
    drafter_serialize_options* s = bits < 0 ? nullptr : drafter_init_serialize_options();
    if (maps) drafter_set_sourcemaps_included(s);
    if (json) drafter_set_format(s, DRAFTER_SERIALIZE_JSON);
    else if (s && set) drafter_set_format(s, DRAFTER_SERIALIZE_YAML);
    drafter_result* r = nullptr;
    int code = drafter_parse_blueprint(d.src.c_str(), &r, nullptr);
    std::string want = text(*r, maps, json ? DRAFTER_SERIALIZE_JSON : DRAFTER_SERIALIZE_YAML);
    char* have = drafter_serialize(r, s);
    sym_assert(have && ref::eq(std::string(have), want), "a result is written in the format asked for, with source maps where asked for");
    char* at_once = nullptr;
    int code2 = drafter_parse_blueprint_to(d.src.c_str(), &at_once, nullptr, s);
    sym_assert(code2 == code, "the code returned is that of the error, or none");
    sym_assert(at_once && ref::eq(std::string(at_once), want), "parsing and writing at once is parsing, then writing");
    sym_assert(drafter_parse_blueprint_to(d.src.c_str(), nullptr, nullptr, s) == code, "nothing need be asked for");
    free(have);
    free(at_once);
    drafter_free_result(r);
    uint64_t heap = sym_live_heap();
    drafter_parse_blueprint_to(d.src.c_str(), &at_once, nullptr, s);
    free(at_once);
    sym_assert(sym_live_heap() == heap, "freeing a text frees all of it");
    drafter_free_serialize_options(s);
    sym_reach(json ? "json" : "yaml");
}
HARNESS(check)
{
    int parts = BOUND(fixtures[sym_range("parts", 0, 6)], (int)sym_range("parts", 0, 31));
    int bits = (int)sym_range("options", 0, 2) - 1;
    md::Doc d;
    write(d, parts);
    if (d.src.empty()) d.text("text");
    drafter_parse_options* o = options(bits);
    drafter_result *r = nullptr, *only = nullptr;
    int code = drafter_parse_blueprint(d.src.c_str(), &r, o);
    Node want = read(r);
    drafter_free_result(r);
    sym_assert(drafter_check_blueprint(d.src.c_str(), &only, o) == code, "checking finds the errors that parsing finds");
    std::vector<Node> kids;
    for (auto& k : want.kids)
        if (k.name == "annotation") kids.push_back(k);
    sym_assert((only != nullptr) == !kids.empty(), "checking gives a result exactly when there is something to report");
    if (only) {
        want.kids = kids;
        sym_assert(same(read(only), want), "checking reports every annotation, in order, and nothing else");
        sym_reach("annotations");
        drafter_free_result(only);
    }
    sym_assert(drafter_check_blueprint(d.src.c_str(), nullptr, o) == code, "nothing need be asked for");
    uint64_t heap = sym_live_heap();
    drafter_check_blueprint(d.src.c_str(), &only, o);
    drafter_free_result(only);
    sym_assert(sym_live_heap() == heap, "freeing a result frees all of it");
    drafter_free_parse_options(o);
}
HARNESS(nothing)
{
    auto* mark = (drafter_result*)&doc;
    drafter_result* r = mark;
    char* out = (char*)&doc;
    drafter_parse_options* o = options((int)sym_range("options", 0, 2) - 1);
    sym_assert(drafter_parse_blueprint(nullptr, &r, o) == DRAFTER_EINVALID_INPUT && r == mark, "no source is invalid input");
    sym_assert(drafter_check_blueprint(nullptr, &r, o) == DRAFTER_EINVALID_INPUT && r == mark, "no source is invalid input");
    sym_assert(drafter_parse_blueprint_to(nullptr, &out, o, nullptr) == DRAFTER_EINVALID_INPUT && out == (char*)&doc, "no source is invalid input");
    sym_assert(!drafter_serialize(nullptr, nullptr), "no result has no text");
    drafter_free_result(nullptr);
    drafter_free_parse_options(o);
    drafter_free_parse_options(nullptr);
    drafter_free_serialize_options(nullptr);
    sym_reach("nothing");
}
// any source at all
HARNESS(source)
{
    md::Doc d;
    doc = &d;
    std::string src = sym_str("source", 0, BOUND(3, 4));
    for (char c : src) sym_assume(c != 0);
    int kind = sym_range("kind", 0, 2); // only blanks; one paragraph; characters that are not allowed
    size_t tab = src.find('\t'), cr = src.find('\r'), bad = tab != src.npos ? tab : cr;
    bool blank = true;
    for (char c : src) blank &= (c == ' ') | (c == '\n');
    if (bad != src.npos) sym_assume(kind == 2);
    else if (blank) sym_assume(kind == 0);
    else {
        sym_assume(kind == 1);
        for (char c : src) sym_assume((c >= 'a') & (c <= 'z'));
        d.add(mdp::ParagraphMarkdownNodeType, src, src);
    }
    int bits = (int)sym_range("options", 0, 2) - 1;
    drafter_parse_options* o = options(bits);
    drafter_result* r = nullptr;
    int code = drafter_parse_blueprint(src.c_str(), &r, o);
    Node have = read(r);
    if (kind == 2) {
        sym_assert(code == sc::BusinessError && have.kids.size() == 1, "a source with tabs or carriage returns is rejected");
        auto* m = attribute(have.kids[0], "sourceMap");
        sym_assert(m && m->kids.size() == 1 && m->kids[0].kids.size() == 1 && m->kids[0].kids[0].kids.size() == 2, "the character that is not allowed is named");
        size_t chars = 0;
        for (size_t i = 0; i < bad; ++i) chars += (src[i] & 0xC0) != 0x80;
        bool ascii = true;
        for (char c : src) ascii &= !(c & 0x80);
        if (ascii) sym_assert(m->kids[0].kids[0].kids[0].s == std::to_string(chars) && m->kids[0].kids[0].kids[1].s == "1", "the character that is not allowed is named");
        sym_reach("not allowed");
    } else if (bits > 0) {
        sym_assert(src.empty() || code == sc::BusinessError || kind == 0, "a description without a name is rejected where one is required");
    } else {
        sym_assert(code == 0, "any other source is no error");
        if (kind == 0) sym_assert(have.kids.size() <= 1, "an empty description is no fault");
        sym_reach(kind ? "text" : "blank");
    }
    drafter_free_result(r);
    drafter_free_parse_options(o);
}
