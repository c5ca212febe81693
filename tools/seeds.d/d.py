APIE = dict(srcs=PARSE["srcs"] + ["drafter/src/%s.cc" % x for x in "RefractAPI RefractDataStructure RefractElementFactory NamedTypesRegistry MsonTypeSectionToApie MsonOneOfSectionToApie ConversionContext RefractSourceMap Serialize SerializeResult Render".split()]
            + ["drafter/src/refract/%s.cc" % x for x in "JsonUtils JsonSchema JsonValue ElementUtils SerializeSo".split()] + ["drafter/src/utils/so/*.cc"], files=SNOWF, par=True)
AP = SC + r'''
#include "SerializeResult.h"
#include "ConversionContext.h"
#include "refract/SerializeSo.h"
#include "utils/so/JsonIo.h"
// the parse result as JSON, without blanks
static std::string apie(Doc& d, bool maps = false)
{
    ParseResult<Blueprint> r;
    r.report = d.report;
    r.node = d.bp;
    r.sourceMap = d.sm;
    drafter::ConversionContext context(d.src.c_str(), nullptr);
    auto e = drafter::WrapRefract(r, context);
    std::ostringstream out;
    drafter::utils::so::serialize_json(out, refract::serialize::renderSo(*e, maps));
    std::string s;
    for (char c : out.str())
        if (c != ' ' && c != '\n') s += c;
    return s;
}
static size_t times(const std::string& s, const std::string& t)
{
    size_t n = 0;
    for (size_t p = 0; (p = s.find(t, p)) != std::string::npos; ++p) ++n;
    return n;
}
'''
seed("uri-astral-range", "C31", [(P + "apib-parser/src/grammar/Uritemplate.h", "0x10000,0x1FFFD", "0x10000,0x1F5FF")],
     "a literal with a character from U+1F600 to U+1FFFD", "URIs with some characters are reported as malformed", SC + r'''
#include "UriTemplateParser.h"
int main()
{
    for (auto s : { "/\xF0\x9F\x98\x80", "/\xF0\x9F\x97\xBF", "/\xF0\x9F\xA6\x80x" }) {
        ParsedURITemplate r;
        URITemplateParser::parse(s, mdp::CharactersRangeSet(), r);
        CHECK(r.report.warnings.empty());
    }
}''', **PARSE)
seed("group-duplicate-later", "C32", [(S + "ResourceGroupParser.h", "if (element.element == Element::CategoryElement\n                    && SectionProcessor<Resource>::isResourceDuplicate(element.content.elements(), uri)) {\n\n                    return true;\n                }", "if (element.element == Element::CategoryElement) {\n                    return SectionProcessor<Resource>::isResourceDuplicate(element.content.elements(), uri);\n                }")],
     "a resource of the second group defined again in the third", "resources defined twice are not reported", SC + r'''
int main()
{
    Doc d;
    int i = 0;
    for (auto uri : { "/a", "/b", "/b" }) {
        d.header(1, std::string("Group ") + char('A' + i++));
        d.header(2, uri);
        d.header(3, "GET");
        d.item("Response 200");
        d.end();
    }
    d.parse();
    CHECK(count(d, DuplicateWarning) == 1);
}''', **PARSE)
seed("endpoint-bracket", "C33", [(S + "ResourceParser.h", '"[[:blank:]]+\\\\[" HTTP_REQUEST_METHOD "[[:blank:]]+" URI_TEMPLATE "]$"', '"[[:blank:]]+\\\\[" HTTP_REQUEST_METHOD "[[:blank:]]+(/[^]]*)]$"')],
     "a named endpoint whose URI has a bracket", "endpoints are taken for text", SC + r'''
int main()
{
    Doc d;
    d.header(1, "List [GET /a[0]]");
    d.item("Response 200");
    d.end();
    d.parse();
    CHECK(d.bp.content.elements().size() == 1);
    CHECK(resource(d).uriTemplate == "/a[0]" && resource(d).actions.size() == 1 && resource(d).actions[0].method == "GET");
}''', **PARSE)
seed("payload-reference-after-body", "C34", [(S + "PayloadParser.h", "if (!out.node.body.empty() || node->type != mdp::ParagraphMarkdownNodeType", "if (node->type != mdp::ParagraphMarkdownNodeType")],
     "a body of several blocks where a later one looks like a reference to a model", "the text of a body is taken for a reference", SC + r'''
int main()
{
    Doc d;
    d.header(1, "M [/m]");
    d.item("Model (text/plain)");
    d.code("model");
    d.end();
    d.header(2, "GET");
    d.item("Response 200 (text/plain)");
    d.code("one");
    d.text("[M][]");
    d.end();
    d.parse();
    auto& p = resource(d).actions[0].examples[0].responses[0];
    CHECK(p.reference.id.empty());
    CHECK(p.body.find("one") != std::string::npos && p.body.find("[M][]") != std::string::npos);
}''', **PARSE)
seed("members-after-sample", "C43", [(S + "MSONValueMemberParser.cc", "if (sections.node.empty()\n            || (!sections.node.empty() && sections.node.back().klass != mson::TypeSection::MemberTypeClass)) {", "if (sections.node.empty()) {")],
     "members written after a sample or default section", "members become part of a sample", SC + r'''
int main()
{
    Doc d;
    d.header(1, "R [/a]");
    d.item("Attributes (array)");
    d.item("Sample");
    d.item("s");
    d.end();
    d.end();
    d.item("m");
    d.end();
    d.end();
    d.header(2, "GET");
    d.item("Response 200");
    d.end();
    d.parse();
    auto& s = resource(d).attributes.sections;
    CHECK(s.size() == 2);
    CHECK(s[0].klass == mson::TypeSection::SampleClass && s[0].content.elements().size() == 1);
    CHECK(s[1].klass == mson::TypeSection::MemberTypeClass && s[1].content.elements().size() == 1);
}''', **PARSE)
seed("number-exponent-plus", "C38", [(D + "Serialize.cc", "[](char c) { return c == '+' || c == '-'; }", "[](char c) { return c == '-'; }")],
     "a number with an exponent that has a plus sign", "numbers lose their value", AP + r'''
int main()
{
    for (auto s : { "1e5", "1e-5", "1e+5", "1.5E+10" }) {
        auto r = drafter::LiteralTo<refract::dsd::Number>(s);
        CHECK(r.first && r.second.get() == s);
    }
}''', **APIE)
seed("enum-default-first", "C39", [(D + "RefractDataStructure.cc", "dsd::Enum{ std::move(info.value.back()) }", "dsd::Enum{ std::move(info.value.front()) }")],
     "an enumeration with two defaults", "another default than the last is taken", AP + r'''
int main()
{
    Doc d;
    d.header(1, "R [/a]");
    d.item("Attributes");
    d.item("e (enum)");
    d.item("Default");
    d.item("first");
    d.end();
    d.item("last");
    d.end();
    d.end();
    d.end();
    d.end();
    d.header(2, "GET");
    d.item("Response 200");
    d.end();
    d.parse();
    std::string s = apie(d);
    size_t at = s.find("\"default\":");
    CHECK(at != std::string::npos);
    size_t first = s.find("\"first\"", at), last = s.find("\"last\"", at);
    CHECK(last != std::string::npos && last < first);
}''', **APIE)
seed("variable-of-type", "C40", [(D + "RefractDataStructure.cc", "if (!property.node->name.variable.empty()) {\n            element->attributes()", "if (!property.node->name.variable.values.empty()) {\n            element->attributes()")],
     "a property with a variable name that has a type but no value", "the property is no longer said to be variable", AP + r'''
int main()
{
    Doc d;
    d.header(1, "S [/s]");
    d.item("Attributes (string)");
    d.end();
    d.header(1, "R [/a]");
    d.item("Attributes");
    d.item("*(S)*: v");
    d.end();
    d.item("*k (S)*: v");
    d.end();
    d.end();
    d.header(2, "GET");
    d.item("Response 200");
    d.end();
    d.parse();
    CHECK(times(apie(d), "\"variable\"") == 2);
}''', **APIE)
seed("parameter-single-choice", "C41", [(D + "RefractAPI.cc", "if (parameter.node->values.empty()) {", "if (parameter.node->values.size() < 2) {")],
     "a parameter with exactly one permitted value", "the permitted value is lost", AP + r'''
int main()
{
    Doc d;
    d.header(1, "GET /{a}");
    d.item("Parameters");
    d.item("a: x (enum)");
    d.item("Members");
    d.item("only");
    d.end();
    d.end();
    d.end();
    d.end();
    d.item("Response 200");
    d.end();
    d.parse();
    CHECK(times(apie(d), "\"only\"") == 1);
}''', **APIE)
seed("types-of-groups", "C42", [(D + "NamedTypesRegistry.cc", "} else if (i->node->element == snowcrash::Element::CategoryElement) {", "} else if (i->node->category == snowcrash::Element::DataStructureGroupCategory) {")],
     "a named type defined by the attributes of a resource within a group", "the type is not known to what uses it", AP + r'''
int main()
{
    Doc d;
    d.header(1, "Group G");
    d.header(2, "T [/t]");
    d.item("Attributes (array)");
    d.item("one");
    d.end();
    d.end();
    d.header(2, "U [/u]");
    d.item("Attributes (T)");
    d.end();
    d.header(3, "GET");
    d.item("Response 200 (application/json)");
    d.item("Attributes (T)");
    d.end();
    d.end();
    d.parse();
    CHECK(times(apie(d), "messageBody\"") == 1);
    CHECK(times(apie(d), "\"[\\n\\\"one\\\"\\n]\"") == 1);
}''', **APIE)
seed("name-required-maps", "C44", [(D + "drafter.cc", "scOptions |= sc::RequireBlueprintNameOption;", "scOptions = sc::RequireBlueprintNameOption;")],
     "a name being required and source maps being written", "source maps are lost", r'''
#include <dlfcn.h>
#include "drafter.cc"
const int snowcrash::SourceAnnotation::OK = 0;
static snowcrash::BlueprintParserOptions seen;
namespace snowcrash
{
    int parse(const mdp::ByteBuffer&, BlueprintParserOptions options, const ParseResultRef<Blueprint>&)
    {
        seen = options;
        return 0;
    }
}
int main()
{
    for (int name = 0; name < 2; ++name) {
        auto* o = drafter_init_parse_options();
        if (name) drafter_set_name_required(o);
        drafter_result* r = nullptr;
        drafter_parse_blueprint("# A\n", &r, o);
        drafter_free_result(r);
        drafter_free_parse_options(o);
        CHECK(seen & snowcrash::ExportSourcemapOption);
        CHECK(!(seen & snowcrash::RequireBlueprintNameOption) == !name);
    }
}''', **APIE)
