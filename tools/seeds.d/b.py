REFR = dict(srcs=["drafter/src/refract/ElementUtils.cc", "drafter/src/refract/JsonUtils.cc", "drafter/src/refract/JsonValue.cc", "drafter/src/refract/JsonSchema.cc", "drafter/src/refract/SerializeSo.cc", "drafter/src/utils/so/*.cc"], shim=True, files={"markdown.h": open(HERE + "/../rt/shim/markdown.h").read()})
BODY = r'''
#include <refract/Element.h>
#include <refract/JsonValue.h>
#include <refract/JsonSchema.h>
#include <refract/SerializeSo.h>
#include <utils/so/JsonIo.h>
using namespace refract;
using drafter::utils::so::serialize_json;
std::string text(const drafter::utils::so::Value& v)
{
    std::ostringstream s;
    serialize_json(s, v, drafter::utils::so::packed{});
    return s.str();
}
template <typename E>
E& typed(E& e, std::initializer_list<const char*> ts)
{
    auto a = make_element<ArrayElement>();
    for (auto t : ts) a->get().push_back(from_primitive(std::string(t)));
    e.attributes().set("typeAttributes", std::move(a));
    return e;
}
'''
seed("serialize-nested-sourcemap", "C21", [(R + "SerializeSo.cc", "serialize(e.attributes(), renderSourceMaps || e.element() == \"annotation\")", "serialize(e.attributes(), renderSourceMaps || (e.element() == \"annotation\" && e.meta().empty()))")],
     "an annotation with meta (classes, as every warning has) serialized without source maps", "annotations lose their source map and so their location", BODY + r'''
int main()
{
    for (int meta = 0; meta < 2; ++meta) {
        StringElement a("annotation", dsd::String("m"));
        if (meta) a.meta().set("classes", make_element<ArrayElement>(from_primitive(std::string("warning"))));
        a.attributes().set("sourceMap", make_element<ArrayElement>());
        CHECK(text(serialize::renderSo(a, false)).find("sourceMap") != std::string::npos);
    }
}''', **REFR)
seed("serialize-member-null", "C21", [(R + "SerializeSo.cc", "if (const auto v = value.value())\n            result", "const auto v = value.value();\n        if (v && !(v->empty() && v->attributes().empty() && v->meta().empty()))\n            result")],
     "a member whose value has neither content nor attributes nor meta", "the type of properties without a value is lost", BODY + r'''
int main()
{
    MemberElement m(dsd::Member{ std::unique_ptr<IElement>(from_primitive(std::string("k"))), std::unique_ptr<IElement>(make_empty<NumberElement>()) });
    CHECK(text(serialize::renderSo(m, false)).find("\"number\"") != std::string::npos);
    
}''', **REFR)
seed("value-optional-sample", "C22", [(R + "JsonValue.cc", "if (!definesValue(*elementValue)) {", "if (elementValue->empty() && (!hasDefault(*elementValue) || hasNullableTypeAttr(*elementValue))) {")],
     "an optional property whose value is only given as a sample", "optional properties with a sample are left out of bodies", BODY + r'''
int main()
{
    auto v = make_empty<StringElement>();
    v->attributes().set("samples", make_element<ArrayElement>(from_primitive(std::string("s"))));
    MemberElement m(dsd::Member{ from_primitive(std::string("k")), std::move(v) });
    typed(m, { "optional" });
    ObjectElement o(dsd::Object{});
    o.get().push_back(m.clone());
    CHECK(text(generateJsonValue(o)) == "{\"k\":\"s\"}");
}''', **REFR)
seed("value-select-skip", "C22", [(R + "JsonValue.cc", "if (option->get().size() < 1) {\n                LOG(warning) << \"empty option element in backend; skipping\";\n                continue;", "if (option->get().size() < 1) {\n                LOG(warning) << \"empty option element in backend; skipping\";\n                if (&option != &*element.get().begin())\n                    continue;\n                return;")],
     "a select whose first option holds an empty list", "the first non-empty option is not taken", BODY + r'''
int main()
{
    auto empty = make_element<OptionElement>();
    auto full = make_element<OptionElement>();
    full->get().push_back(make_element<MemberElement>(from_primitive(std::string("k")), from_primitive(std::string("v"))));
    auto s = make_element<SelectElement>();
    s->get().push_back(std::unique_ptr<OptionElement>(static_cast<OptionElement*>(empty.release())));
    s->get().push_back(std::unique_ptr<OptionElement>(static_cast<OptionElement*>(full.release())));
    ObjectElement o(dsd::Object{});
    o.get().push_back(std::move(s));
    CHECK(text(generateJsonValue(o)) == "{\"k\":\"v\"}");
}''', **REFR)
seed("value-enum-fixed-null", "C22", [(R + "JsonValue.cc", "return renderValue(*element.get().value(), inheritFlags(options));", "return renderValue(*element.get().value(), passFlags(options));")],
     "a nullable enum holding an entry without a value", "null is generated where the entry's empty value is meant", BODY + r'''
int main()
{
    EnumElement e(dsd::Enum{ make_empty<StringElement>() });
    CHECK(text(generateJsonValue(e)) == "\"\"");
    typed(e, { "nullable" });
    CHECK(text(generateJsonValue(e)) == "\"\"");
}''', **REFR)
seed("schema-optional-member", "C23", [(R + "JsonSchema.cc", "if (hasOptionalTypeAttr(e))\n            options.reset(REQUIRED_FLAG);", "if (hasOptionalTypeAttr(e) && !options.test(FIXED_FLAG))\n            options.reset(REQUIRED_FLAG);")],
     "an optional property with a value in a fixed object", "the schema rejects objects without the optional property", BODY + r'''
int main()
{
    for (auto t : { "fixed-type", "fixed" }) {
        MemberElement m(dsd::Member{ from_primitive(std::string("k")), from_primitive(std::string("v")) });
        typed(m, { "optional" });
        ObjectElement o(dsd::Object{});
        o.get().push_back(m.clone());
        typed(o, { t });
        CHECK(text(schema::generateJsonSchema(o)).find("required") == std::string::npos);
    }
}''', **REFR)
seed("schema-pattern-hat", "C23", [(R + "JsonSchema.cc", "case '|':\n                            result += \"\\\\|\";\n                            break;", "case '|':\n                            result += result.empty() ? \"[|]\" : \"|\";\n                            break;")],
     "a fixed variable key with a | that is not its first character", "the pattern matches other names than those of the key", BODY + r'''
int main()
{
    auto k = from_primitive(std::string("a|b"));
    typed(*k, { "fixed" });
    auto m = make_element<MemberElement>(std::move(k), make_empty<StringElement>());
    m->attributes().set("variable", from_primitive(true));
    ObjectElement o(dsd::Object{});
    o.get().push_back(std::move(m));
    typed(o, { "fixed" });
    auto s = text(schema::generateJsonSchema(o));
    CHECK(s.find("a\\\\|b") != std::string::npos || s.find("a[|]b") != std::string::npos);
}''', **REFR)
seed("schema-enum-any", "C23", [(R + "JsonSchema.cc", "if (!enm.data.empty()) {\n                so::Object enms;", "if (enm.data.size() > 1 || (anyOf.data.size() > 1 && !enm.data.empty())) {\n                so::Object enms;")],
     "an enum of one type and one single value", "the single value next to a type is rejected by the schema", BODY + r'''
int main()
{
    EnumElement e;
    auto fixed = from_primitive(std::string("v"));
    typed(*fixed, { "fixed" });
    e.attributes().set("enumerations", make_element<ArrayElement>(std::move(fixed), make_empty<NumberElement>()));
    CHECK(text(schema::generateJsonSchema(e)).find("\"v\"") != std::string::npos);
}''', **REFR)
MD = dict(srcs=["apib-parser/src/markdown-parser/MarkdownParser.cc"], files={"markdown.h": open(HERE + "/../rt/shim/markdown.h").read()})
MDH = r'''
#include <MarkdownParser.h>
#include <functional>
using namespace mdp;
static sd_callbacks cb;
static void* op;
static std::function<void()> events;
struct sd_markdown {};
extern "C" {
struct sd_markdown* sd_markdown_new(unsigned int, size_t, const struct sd_callbacks* c, void* o) { cb = *c; op = o; return nullptr; }
void sd_markdown_render(struct buf*, const uint8_t*, size_t, struct sd_markdown*) { events(); }
void sd_markdown_free(struct sd_markdown*) {}
struct buf* bufnew(size_t) { return nullptr; }
void bufrelease(struct buf*) {}
}
static void text(void (*f)(struct buf*, const struct buf*, void*), std::string s)
{
    buf b = { (uint8_t*)&s[0], s.size(), 0, 0 };
    f(nullptr, &b, op);
}
static void parsed(std::vector<range> rs)
{
    std::vector<void*> ps;
    for (auto& r : rs) ps.push_back(&r);
    src_map m = { ps.data(), ps.size(), ps.size() };
    cb.block_did_parse(&m, nullptr, 0, op);
}
static void item(std::string s, int flags)
{
    buf b = { (uint8_t*)&s[0], s.size(), 0, 0 };
    cb.listitem(nullptr, &b, flags, op);
}
'''
seed("markdown-nested-paragraph", "C24", [(P + "apib-parser/src/markdown-parser/MarkdownParser.cc", "m_workingNode->children().front().type != ParagraphMarkdownNodeType) {", "(m_workingNode->children().front().type != ParagraphMarkdownNodeType && m_workingNode->children().front().type != HTMLMarkdownNodeType)) {")],
     "a list item which starts with a block of HTML", "the text of a list item before HTML is lost", MDH + r'''
int main()
{
    events = [] {
        cb.list_begin(0, op);
        cb.listitem_begin(0, op);
        text(cb.blockhtml, "<p>");
        parsed({ { 2, 3 } });
        item("t", 2);
        parsed({ { 0, 5 } });
    };
    MarkdownNode n;
    MarkdownParser().parse("- t<p>", n);
    CHECK(n.children().size() == 1 && n.children()[0].children().size() == 2);
    CHECK(n.children()[0].children()[0].type == ParagraphMarkdownNodeType);
}''', **MD)
seed("markdown-second-list", "C24", [(P + "apib-parser/src/markdown-parser/MarkdownParser.cc", "m_workingNode->text = text;\n\n    // Pop context\n    m_workingNode = &m_workingNode->parent();", "m_workingNode->text = text;\n    m_listBlockContext = false;\n\n    // Pop context\n    m_workingNode = &m_workingNode->parent();\n    if (!m_workingNode->children().empty() && m_workingNode->children().front().type == HeaderMarkdownNodeType)\n        m_workingNode->data = m_workingNode->children().front().data;")],
     "a quote after a header in the same block", "the block holding a quote after a header takes over the level of the header", MDH + r'''
int main()
{
    events = [] {
        std::string h = "h";
        buf b = { (uint8_t*)&h[0], 1, 0, 0 };
        cb.header(nullptr, &b, 3, op);
        parsed({ { 0, 2 } });
        cb.blockquote_begin(op);
        text(cb.paragraph, "q");
        parsed({ { 2, 2 } });
        text(cb.blockquote, "q");
        parsed({ { 2, 2 } });
    };
    MarkdownNode n;
    MarkdownParser().parse("#h>q", n);
    CHECK(n.children().size() == 2 && n.children()[1].children().size() == 1);
    CHECK(n.data == 0);
}''', **MD)
