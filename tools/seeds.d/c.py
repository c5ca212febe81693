RT = HERE + "/../rt/"
_f = lambda p: open(p).read()
SNOWF = {"doc.h": _f(HERE + "/../harness/md.h").replace('#include "ref.h"\n', "#include <string>\n"), "pegtl.hpp": _f(RT + "PEGTL/include/tao/pegtl.hpp"), "abnf.hpp": _f(RT + "PEGTL/include/tao/pegtl/contrib/abnf.hpp"), "markdown.h": _f(RT + "shim/markdown.h")}
PARSE = dict(srcs=["apib-parser/src/snowcrash/[BHMSU]*.cc", "apib-parser/src/MediaTypeParser.cc"], files=SNOWF, par=True)
S = P + "apib-parser/src/snowcrash/"
D = P + "drafter/src/"
SC = r'''
#include "doc.h"
const int snowcrash::SourceAnnotation::OK = 0;
using namespace snowcrash;
using md::Doc;
static const Resource& resource(const Doc& d, size_t i = 0) { return d.bp.content.elements().at(i).content.resource; }
static int count(const Doc& d, int code)
{
    int n = 0;
    for (auto& w : d.report.warnings) n += w.code == code;
    return n;
}
'''
seed("header-value-colon", "C25", [(S + "HeadersParser.h", "header = std::make_pair(parts[1], parts[4]);\n            TrimString(header.second);", "header = std::make_pair(parts[1], parts[4]);\n            TrimString(header.second);\n            if (!header.second.empty() && *header.second.rbegin() == ':')\n                header.second.erase(header.second.size() - 1);")],
     "a header whose value ends with a colon", "the colon at the end of a value is lost", SC + r'''
int main()
{
    Doc d;
    d.header(1, "GET /a");
    d.item("Response 200");
    d.item("Headers");
    d.code("A: b:");
    d.end();
    d.end();
    d.parse();
    auto& h = resource(d).actions[0].examples[0].responses[0].headers;
    CHECK(h.size() == 1 && h[0].second == "b:");
}''', **PARSE)
MSON = SC + r'''
static const mson::NamedType& type(const Doc& d, size_t i) { return d.bp.content.elements().at(0).content.elements().at(i).content.dataStructure; }
'''
seed("signature-short-attribute", "C26", [(S + "SignatureSectionProcessor.h", "if (!attribute.empty()) {\n                    out.attributes.push_back(attribute);", "if (attribute.length() > 1) {\n                    out.attributes.push_back(attribute);")],
     "an attribute of one character, such as a type named A", "types of one letter are lost as base types", MSON + r'''
int main()
{
    Doc d;
    d.header(1, "Data Structures");
    d.header(2, "A");
    d.header(2, "B (A)");
    d.parse();
    CHECK(type(d, 1).typeDefinition.typeSpecification.name.symbol.literal == "A");
}''', **PARSE)
seed("two-new-lines-short", "C27", [(S + "StringUtility.h", "if (s.length() < 2 || s[s.length() - 2] != '\\n') {", "if (s.length() > 2 && s[s.length() - 2] != '\\n') {")],
     "a description that starts with a paragraph of one character", "paragraphs run together", SC + r'''
int main()
{
    Doc d;
    d.header(1, "N");
    d.text("a");
    d.text("b");
    d.parse();
    CHECK(d.bp.description == "a\n\nb");
}''', **PARSE)
seed("nested-types-second-link", "C28", [(S + "MSONUtility.h", "if (alreadyParsedLink) {\n                    alreadyParsedLink = false;\n                } else {", "if (alreadyParsedLink) {\n                    alreadyParsedLink = typeSpecification.nestedTypes.size() > 1;\n                } else {")],
     "an array of two links to types and a third type", "the types after the second link are lost", MSON + r'''
int main()
{
    Doc d;
    d.header(1, "Data Structures");
    d.header(2, "A");
    d.header(2, "B");
    d.header(2, "C (array[[A][], [B][], string])");
    d.parse();
    auto& n = type(d, 2).typeDefinition.typeSpecification.nestedTypes;
    CHECK(n.size() == 3);
    CHECK(n[0].symbol.literal == "A" && n[1].symbol.literal == "B" && n[2].base == mson::StringTypeName);
}''', **PARSE)
seed("dependency-transitive", "C29", [(S + "MSONUtility.h", "it->second.insert(dependency);\n                it->second.insert(dependencyDeps.begin(), dependencyDeps.end());", "it->second.insert(dependency);\n                if (it->first == dependent || dependencyDeps.size() < 2)\n                    it->second.insert(dependencyDeps.begin(), dependencyDeps.end());")],
     "a cycle over four types and more, met in a certain order", "types referencing themselves in a circle are not reported", MSON + r'''
static int circle(const std::string& order)
{
    Doc d;
    d.header(1, "Data Structures");
    for (char c : order) {
        d.header(2, std::string(1, c));
        d.item(std::string("p (") + (c == 'E' ? 'A' : (char)(c + 1)) + ")");
        d.end();
    }
    (void)d;
    Blueprint bp;
    std::string src = "x";
    SectionParserData pd(0, src, bp);
    for (char c : order) pd.namedTypeDependencyTable[std::string(1, c)];
    mdp::MarkdownNodes nodes(1);
    Report report;
    // each type is derived from the next: found on the way round
    mson::addDependency(nodes.begin(), pd, "D", "C", report, true);
    mson::addDependency(nodes.begin(), pd, "E", "D", report, true);
    mson::addDependency(nodes.begin(), pd, "B", "A", report, true);
    mson::addDependency(nodes.begin(), pd, "F", "E", report, true);
    mson::addDependency(nodes.begin(), pd, "C", "B", report, true);
    CHECK(report.error.code == Error::OK);
    mson::addDependency(nodes.begin(), pd, "A", "F", report, true);
    return report.error.code;
}
int main() { CHECK(circle("ABCDEF") == MSONError); }''', **PARSE)
seed("mime-parameter-name", "C30", [(P + "apib-parser/src/grammar/Mediatype.h", "struct attribute : name {};", "struct attribute : pegtl::seq<pegtl::ascii::alpha, pegtl::opt<name> > {};")],
     "a parameter whose name starts with a digit or whose second character is no letter or digit", "parameters of media types are lost", SC + r'''
#include <apib/syntax/MediaType.h>
namespace apib { namespace parser { apib::syntax::media_type parseMediaType(const std::string&); } }
int main()
{
    for (auto n : { "a", "ab", "a-b", "x-y" }) {
        auto m = apib::parser::parseMediaType(std::string("t/s; ") + n + "=1");
        CHECK(m.type == "t" && m.parameters.size() == 1 && m.parameters[0].first == n && m.parameters[0].second == "1");
    }
}''', **PARSE)
seed("payload-name-blank", "C35", [(S + "PayloadParser.h", "out.node.name = captureGroups[1];\n                    mediaType = captureGroups[3];\n                }\n\n                TrimString(out.node.name);", "out.node.name = captureGroups[1];\n                    mediaType = captureGroups[3];\n                }\n\n                if (out.node.name.length() < 8)\n                    TrimString(out.node.name);")],
     "a request with a name of more than seven characters followed by a media type", "names of requests keep the blank before the media type", SC + r'''
int main()
{
    Doc d;
    d.header(1, "GET /a");
    d.item("Request Long Name (text/plain)");
    d.code("x");
    d.end();
    d.item("Response 200");
    d.end();
    d.parse();
    CHECK(resource(d).actions[0].examples[0].requests[0].name == "Long Name");
}''', **PARSE)
seed("parameter-redefined-map", "C36", [(S + "ParametersParser.h", "size_t parameterIndex = parameter - out.node.begin();\n                out.sourceMap", "size_t parameterIndex = out.node.end() - parameter;\n                out.sourceMap")],
     "a parameter that is not in the middle of the list defined again, with source maps", "the source maps of parameters no longer belong to their parameters", SC + r'''
int main()
{
    Doc d;
    d.header(1, "GET /{a}{b}{c}");
    d.item("Parameters");
    for (auto n : { "a", "b", "c", "a" }) {
        d.item(n);
        d.end();
    }
    d.end();
    d.item("Response 200");
    d.end();
    d.parse(ExportSourcemapOption);
    auto& r = d.bp.content.elements()[0].content.resource;
    auto& m = d.sm.content.elements().collection[0].content.resource;
    auto& ps = r.actions[0].parameters.empty() ? r.parameters : r.actions[0].parameters;
    auto& ms = r.actions[0].parameters.empty() ? m.parameters : m.actions.collection[0].parameters;
    CHECK(ps.size() == 3 && ms.collection.size() == 3);
    for (size_t i = 0; i < 3; ++i) CHECK(d.src.substr(ms.collection[i].name.sourceMap[0].location, ms.collection[i].name.sourceMap[0].length).find(ps[i].name) != std::string::npos);
}''', **PARSE)
seed("model-headers-order", "C37", [(S + "PayloadParser.h", "modelSM.headers.collection.begin(),\n                        modelSM.headers.collection.end());", "modelSM.headers.collection.begin(),\n                        modelSM.headers.collection.begin() + std::min<size_t>(1, modelSM.headers.collection.size()));")],
     "a payload with a media type referring to a model with several headers and no media type, with source maps", "headers of a model lose their source maps", SC + r'''
int main()
{
    Doc d;
    d.header(1, "M [/a]");
    d.item("Model");
    d.item("Headers");
    d.src += "            A: 1\n            B: 2\n\n";
    {
        auto& n = d.add(mdp::CodeMarkdownNodeType, "A: 1\nB: 2\n", "");
        n.sourceMap.clear();
        n.sourceMap.push_back(mdp::BytesRange(d.src.size() - 35 + 12 + 0, 5));
        n.sourceMap.push_back(mdp::BytesRange(d.src.size() - 6, 5));
    }
    d.end();
    d.item("Body");
    d.code("b");
    d.end();
    d.end();
    d.header(2, "GET");
    d.item("Response 200 (text/plain)");
    d.text("[M][]");
    d.end();
    d.parse(ExportSourcemapOption);
    auto& p = resource(d).actions[0].examples[0].responses[0];
    auto& m = d.sm.content.elements().collection[0].content.resource.actions.collection[0].examples.collection[0].responses.collection[0];
    CHECK(p.headers.size() == 3);
    CHECK(m.headers.collection.size() == 3);
}''', **PARSE)
seed("metadata-empty-line-duplicates", "C45", [(S + "BlueprintParser.h", "MetadataCollectionIterator duplicate\n                        = std::find_if(from, out.node.end(), std::bind2nd(MatchFirsts<Metadata>(), *it));", "MetadataCollectionIterator duplicate\n                        = std::find_if(from, from + 1, std::bind2nd(MatchFirsts<Metadata>(), *it));\n                    if (duplicate == from + 1)\n                        continue;")],
     "a key given twice with another line between", "metadata given twice is not reported", SC + r'''
int main()
{
    Doc d;
    d.text("A: 1\nB: 2\nA: 3");
    d.parse();
    CHECK(d.bp.metadata.size() == 3 && count(d, DuplicateWarning) == 1);
}''', **PARSE)
seed("relation-twice", "C45", [(S + "BlueprintUtility.h", "return !first.relation.str.empty() && !second.str.empty() && first.relation.str == second.str;", "return !first.relation.str.empty() && !second.str.empty() && first.relation.str == second.str && first.method != \"GET\";")],
     "a link used by a GET and by another action of a resource", "links used twice in a resource are not reported", SC + r'''
int main()
{
    Doc d;
    d.header(1, "R [/a]");
    for (auto m : { "GET", "PUT" }) {
        d.header(2, m);
        d.item("Relation: next");
        d.end();
        d.item("Response 200");
        d.end();
    }
    d.parse();
    CHECK(count(d, DuplicateWarning) == 1);
}''', **PARSE)
