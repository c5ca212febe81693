seed("type-name-cached", "C47", [(D + "MsonTypeSectionToApie.cc", """        const IElement* base = FindRootAncestor(parent, context.typeRegistry());
        if (base) {
            nameType = NamedTypeFromElement(*base);
        }""", """        static std::map<std::string, mson::BaseTypeName> known;
        auto& type = known.emplace(parent, mson::UndefinedTypeName).first->second;
        const IElement* base = FindRootAncestor(parent, context.typeRegistry());
        if (base && type == mson::UndefinedTypeName) {
            type = NamedTypeFromElement(*base);
        }
        nameType = type;"""), (D + "MsonTypeSectionToApie.cc", '#include "MsonTypeSectionToApie.h"', '#include "MsonTypeSectionToApie.h"\n#include <map>')],
     "two documents, one after the other, with types of the same name but of another kind", "members of the second are of the type of the first", AP + r'''
static std::string value(const char* type)
{
    Doc d;
    d.header(1, "Data Structures");
    d.header(2, std::string("T (") + type + ")");
    d.header(2, "O");
    d.item("p: 1 (T)");
    d.end();
    d.parse();
    return apie(d);
}
int main()
{
    auto text = [](const std::string& s) { return times(s, "\"content\":\"1\""); };
    auto number = [](const std::string& s) { return times(s, "\"content\":1"); };
    for (int i = 0; i < 3; ++i) {
        std::string s = value("string"), n = value("number");
        CHECK(text(s) == 1 && number(s) == 0);
        CHECK(text(n) == 0 && number(n) == 1);
    }
}''', **APIE)
seed("report-lines-kept", "C47", [(D + "ConversionContext.cc", """    : newline_indices_(GetLinesEndIndex(src)),""", """    : newline_indices_([src] {
          static std::map<const char*, NewLinesIndex> lines;
          auto it = lines.find(src);
          return it != lines.end() && it->second.size() > 2 ? it->second : (lines[src] = GetLinesEndIndex(src));
      }()),"""), (D + "ConversionContext.cc", '#include "ConversionContext.h"', '#include "ConversionContext.h"\n#include <map>')],
     "a source of more than one line parsed from where another source was before", "annotations have the lines of another source", AP + r'''
int main()
{
    static char buffer[16];
    for (auto s : { "a\nb\nc\n", "aa\nb\nc\n", "a\nbb\n\nc\n" }) {
        std::snprintf(buffer, sizeof buffer, "%s", s);
        drafter::ConversionContext c(buffer);
        CHECK(c.newlineIndices() == drafter::GetLinesEndIndex(s));
    }
}''', **APIE)
seed("model-nowhere", "C48", [(S + "ResourceParser.h", """                    out.report.error = Error(ss.str(), ModelError, sourceMap);
                }
            }""", """                    out.report.error = Error(ss.str(), ModelError);
                }
            }""")],
     "a model of a resource without a name", "the error has no place", SC + r'''
int main()
{
    for (auto uri : { "/r", "R [/r]" }) {
        Doc d;
        d.header(1, uri);
        d.item("Model (text/plain)");
        d.code("b");
        d.end();
        d.header(2, "GET");
        d.item("Response 200");
        d.end();
        d.parse();
        CHECK((d.report.error.code == ModelError) == (*uri == '/'));
        CHECK(d.report.error.location.empty() == (*uri != '/'));
    }
}''', **PARSE)
seed("content-kept-parts", "C49", [(S + "Blueprint.cc", """    m_elements.reset(::new Elements(*rhs.m_elements.get()));

    return *this;""", """    if (!rhs.m_elements->empty())
        m_elements.reset(::new Elements(*rhs.m_elements.get()));

    return *this;""")],
     "an element without parts assigned over one that has some", "the parts of the old one stay", SC + r'''
int main()
{
    Element whole(Element::CategoryElement), none(Element::CopyElement), to(Element::CategoryElement);
    whole.content.elements().push_back(none);
    to = whole;
    CHECK(to.content.elements().size() == 1);
    to = none;
    CHECK(to.element == Element::CopyElement && to.content.elements().empty());
}''', **PARSE)
seed("map-assigned-mixin", "C49", [(S + "MSONSourcemap.cc", """    this->property = rhs.property;
    this->value = rhs.value;
    this->mixin = rhs.mixin;
    m_elements.reset(::new SourceMap<mson::Elements>(*rhs.m_elements.get()));

    return *this;""", """    this->property = rhs.property;
    this->value = rhs.value;
    if (!rhs.mixin.sourceMap.empty())
        this->mixin = rhs.mixin;
    m_elements.reset(::new SourceMap<mson::Elements>(*rhs.m_elements.get()));

    return *this;""")],
     "the map of a member assigned over that of a mixin", "the member has the place of the mixin too", SC + r'''
int main()
{
    SourceMap<mson::Element> mixin, member, to;
    mixin.mixin.sourceMap.push_back(mdp::BytesRange(1, 2));
    to = mixin;
    CHECK(to.mixin.sourceMap.size() == 1);
    to = member;
    CHECK(to.mixin.sourceMap.empty());
}''', **PARSE)
seed("section-value-first", "C49", [(S + "MSON.cc", """    this->description = rhs.description;
    this->value = rhs.value;
    m_elements.reset(::new Elements(*rhs.m_elements.get()));
}""", """    this->description = rhs.description;
    this->value = rhs.value.empty() ? rhs.description : rhs.value;
    m_elements.reset(::new Elements(*rhs.m_elements.get()));
}""")],
     "a type section with a description and no value, copied", "the copy has a value, the original none", SC + r'''
int main()
{
    mson::TypeSection s(mson::TypeSection::BlockDescriptionClass);
    s.content.description = "d";
    mson::TypeSection c(s);
    CHECK(c.content.description == "d" && c.content.value.empty());
}''', **PARSE)
