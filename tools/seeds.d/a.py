seed("utf8-last-surrogate", "C01", [(P + "drafter/src/utils/Utf8.h", "result <= 0xDFFF) // surrogates", "result < 0xDFFF) // surrogates")],
     "the octets ED BF BF, i.e. the last low surrogate", "an encoded surrogate is decoded to a code point that is no character instead of U+FFFD", r'''
#include <utils/Utf8.h>
int main()
{
    using namespace drafter::utils::utf8;
    std::string a = "\xED\xA0\x80", b = "\xED\xBF\xBF", c = "\xEE\x80\x80";
    CHECK(decode_one(a.begin(), a.end()).first == 0xFFFD);
    CHECK(decode_one(b.begin(), b.end()).first == 0xFFFD);
    CHECK(decode_one(c.begin(), c.end()).first == 0xE000);
}''')
seed("line-index-separator", "C02", [(P + "drafter/src/SourceMapUtils.cc", "if (*it == '\\n')", "if (*it == '\\n' || *it == 0x2028)")],
     "a source with U+2028", "the line separator, which is a character within a line, is counted as an end of a line", r"""
#include <SourceMapUtils.h>
int main()
{
    auto ix = drafter::GetLinesEndIndex("a\xE2\x82\xAC\nb\n");
    CHECK(ix.size() == 3 && ix[1] == 3 && ix[2] == 5);
    ix = drafter::GetLinesEndIndex("a\xE2\x80\xA8\nb\n");
    CHECK(ix.size() == 3 && ix[1] == 3 && ix[2] == 5);
}""")
seed("char-range-tail", "C03", [(P + "apib-parser/src/markdown-parser/ByteBuffer.cc", "charLength = index[index.size() - 1];\n            charLength -= charLocation - 1;", "charLength = index[index.size() - 1] + (index.size() - workRange.location == workRange.length ? 1 : 0);\n            charLength -= workRange.location ? charLocation : 0;\n            if (pos - workRange.location > 1 && index[workRange.location] == index[pos - 1])\n                charLength = workRange.length - 1;")],
     "a range that ends with the text and covers a single character of three octets or more", "the length in characters of a range ending at the end of the text is counted in octets when it is one multi-byte character", r'''
#include <ByteBuffer.h>
using namespace mdp;
static size_t len(const std::string& s, size_t loc, size_t n)
{
    ByteBufferCharacterIndex ix;
    BuildCharacterIndex(ix, s);
    BytesRangeSet r;
    r.push_back(BytesRange(loc, n));
    return BytesRangeSetToCharactersRangeSet(r, ix)[0].length;
}
int main()
{
    CHECK(len("abc", 1, 2) == 2);
    CHECK(len("ab\xC3\xA9", 2, 2) == 1);
    CHECK(len("ab\xE2\x82\xAC", 2, 3) == 1);
    CHECK(len("\xE2\x82\xAC", 0, 3) == 1);
}''')
seed("rangeset-merge-rest", "C04", [(P + "apib-parser/src/markdown-parser/ByteBuffer.h", "if (val.size() > 1) {\n                    this->insert(this->end(), ++val.begin(), val.end());", "if (val.size() > 1) {\n                    this->insert(this->end(), val.end() - (val.size() > 3 ? 2 : val.size() - 1), val.end());")],
     "appending four or more ranges of which the first touches the last one there", "ranges in the middle of an appended set are lost", r'''
#include <ByteBuffer.h>
using namespace mdp;
int main()
{
    BytesRangeSet a, b;
    a.push_back(BytesRange(0, 5));
    for (int i = 0; i < 4; ++i) b.push_back(BytesRange(5 + 10 * i, 3));
    a.append(b);
    CHECK(a.size() == 4);
    CHECK(a[0].length == 8 && a[1].location == 15 && a[2].location == 25 && a[3].location == 35);
}''')
seed("mediatype-suffix-schema", "C05", [(P + "apib/src/MediaType.cc", "if (t.suffix.empty())\n            return t.subtype;\n        return t.suffix;", "if (t.suffix.size() < 2)\n            return t.subtype;\n        return t.suffix;")],
     "a media type with a suffix of a single letter", "application/json+x is taken for JSON", r'''
#include <apib/syntax/MediaType.h>
int main()
{
    apib::syntax::media_type t;
    t.type = "application"; t.subtype = "json";
    CHECK(apib::isJSON(t));
    t.suffix = "xml";
    CHECK(!apib::isJSON(t));
    t.suffix = "x";
    CHECK(!apib::isJSON(t));
}''')
seed("mediatype-quote-high", "C06", [(P + "drafter/src/backend/MediaTypeS11n.cc", "return is_tspecial(c) || std::isspace(c) || std::iscntrl(c);", "return is_tspecial(c) || c == ' ' || std::iscntrl(c);"),
     (P + "drafter/src/backend/MediaTypeS11n.cc", "'[', ']', '?', '=' }", "'[', ']', '=' }")],
     "a parameter value with a question mark and no other special character", "the value is written unquoted although it is no token", r'''
#include <backend/MediaTypeS11n.h>
#include <apib/syntax/MediaType.h>
int main()
{
    apib::syntax::media_type t;
    t.type = "text"; t.subtype = "plain";
    t.parameters.emplace_back("a", "b?c");
    std::ostringstream s;
    apib::backend::operator<<(s, t);
    CHECK(s.str() == "text/plain; a=\"b?c\"");
}''')
seed("enum-fixed-size", "C08", [(R + "ElementSize.cc", "const auto baseSize = sizeOfSum(enums->get().begin(), enums->get().end(), inheritsFixed);", "const auto baseSize = e.empty() ? sizeOfSum(enums->get().begin(), enums->get().end(), inheritsFixed) : sizeOfSum(enums->get().begin(), enums->get().end(), true);")],
     "an enum that is not fixed, has content and unfixed enumerations", "the enum is taken to have as many values as enumerations although they are not fixed", r'''
#include <refract/Element.h>
#include <refract/ElementSize.h>
#include <refract/ElementUtils.h>
using namespace refract;
int main()
{
    EnumElement e(dsd::Enum{ from_primitive(std::string("a")) });
    e.attributes().set("enumerations", make_element<ArrayElement>(from_primitive(std::string("a")), from_primitive(std::string("b"))));
    CHECK(sizeOf(e, false) == cardinal::open());
    CHECK(sizeOf(e, true) == cardinal{ 2 });
}''', srcs=["drafter/src/refract/ElementUtils.cc", "drafter/src/refract/JsonUtils.cc", "drafter/src/utils/so/*.cc"], shim=True)
seed("clone-no-id", "C09", [(R + "Element.h", "if (flags & IElement::cNoMetaId)\n                    el->meta_.erase(\"id\");", "if ((flags & IElement::cNoMetaId) && !el->meta_.empty() && el->meta_.begin()->first == \"id\")\n                    el->meta_.erase(el->meta_.begin());")],
     "cloning without id an element whose meta has an entry set before the id", "the clone keeps the id it was to lose", r'''
#include <refract/Element.h>
using namespace refract;
int main()
{
    StringElement e;
    e.meta().set("title", from_primitive(std::string("t")));
    e.meta().set("id", from_primitive(std::string("A")));
    auto c = e.clone(IElement::cAll | IElement::cNoMetaId);
    CHECK(c->meta().find("id") == c->meta().end());
    CHECK(c->meta().find("title") != c->meta().end());
}''')
seed("select-equal-prefix", "C10", [(R + "dsd/Select.cc", "return lhs.size() == rhs.size()\n        && std::equal( //", "return (lhs.size() == rhs.size() || (lhs.size() == 1 && rhs.size() > 1))\n        && std::equal( //")],
     "a select of one option compared with one that has further options", "selects of different numbers of options are equal", r'''
#include <refract/Element.h>
using namespace refract;
static std::unique_ptr<OptionElement> opt(const char* s) { return make_element<OptionElement>(from_primitive(std::string(s))); }
int main()
{
    dsd::Select a, b;
    a.push_back(opt("x"));
    b.push_back(opt("x"));
    CHECK(a == b);
    b.push_back(opt("y"));
    CHECK(a != b && b != a);
}''')
seed("info-erase-first", "C11", [(R + "InfoElements.cc", "auto it = find(key);\n        if (it == end())\n            elements.emplace_back(key, std::move(value));\n        else\n            it->second = std::move(value);", "auto it = find(key);\n        if (it == end())\n            elements.emplace_back(key, std::move(value));\n        else if (it->second->empty()) {\n            elements.erase(it);\n            elements.emplace_back(key, std::move(value));\n        } else\n            it->second = std::move(value);")],
     "setting an entry which is there with an empty element and is not the last", "the entry moves to the end of the collection", r'''
#include <refract/Element.h>
using namespace refract;
int main()
{
    InfoElements i;
    i.set("a", make_empty<StringElement>());
    i.set("b", from_primitive(std::string("x")));
    i.set("a", from_primitive(std::string("y")));
    CHECK(i.size() == 2 && i.begin()->first == "a");
}''')
seed("object-single-dup", "C12", [(R + "dsd/Object.cc", "if (!empty())\n        if (auto mbr", "if (size() > 1)\n        if (auto mbr")],
     "pushing a member onto an object whose only member has the same key", "the object holds the key twice", r'''
#include <refract/Element.h>
using namespace refract;
int main()
{
    dsd::Object o;
    o.push_back(make_element<MemberElement>(std::string("k"), from_primitive(std::string("1"))));
    o.push_back(make_element<MemberElement>(std::string("k"), from_primitive(std::string("2"))));
    CHECK(o.size() == 1);
}''')
seed("merge-position", "C13", [(R + "dsd/Extend.cc", "value.get().insert(value.get().erase(valueMatch), clone(*m));", "value.get().erase(valueMatch);\n                        value.get().insert(value.get().end(), clone(*m));")],
     "overriding a member that is not the last of its base type", "the overridden member moves to the end of the object", r'''
#include <refract/Element.h>
using namespace refract;
static std::unique_ptr<IElement> mem(const char* k, const char* v) { return make_element<MemberElement>(std::string(k), from_primitive(std::string(v))); }
int main()
{
    auto a = make_element<ObjectElement>(), b = make_element<ObjectElement>();
    a->get().push_back(mem("x", "1")); a->get().push_back(mem("y", "2"));
    b->get().push_back(mem("x", "3"));
    ExtendElement e{ dsd::Extend{ std::move(a), std::move(b) } };
    auto m = e.get().merge();
    auto& o = static_cast<ObjectElement&>(*m).get();
    CHECK(o.size() == 2);
    auto key = [](const IElement& el) { return static_cast<const StringElement&>(*static_cast<const MemberElement&>(el).get().key()).get().get(); };
    CHECK(key(*o.begin()[0]) == "x" && key(*o.begin()[1]) == "y");
}''')
seed("merge-enum-dup", "C13", [(R + "dsd/Extend.cc", "if (target_enums->get().end() != it) {\n                                target_enums->get().erase(it);\n                            }", "if (target_enums->get().end() != it && target_enums->get().begin() != it) {\n                                target_enums->get().erase(it);\n                            }")],
     "an enumeration repeated by an heir which is the first of its base type", "the merged enum holds an enumeration twice", r'''
#include <refract/Element.h>
using namespace refract;
static std::unique_ptr<EnumElement> en(std::initializer_list<const char*> l)
{
    auto e = make_empty<EnumElement>();
    auto a = make_element<ArrayElement>();
    for (auto s : l) a->get().push_back(from_primitive(std::string(s)));
    e->attributes().set("enumerations", std::move(a));
    return e;
}
int main()
{
    ExtendElement e{ dsd::Extend{ en({ "a", "b" }), en({ "a", "c" }) } };
    auto m = e.get().merge();
    CHECK(static_cast<ArrayElement&>(*m->attributes().find("enumerations")->second).get().size() == 3);
}''')
seed("registry-dangling-root", "C14", [(R + "Registry.cc", "if (!next || (next == parent)) {\n            return parent;", "if (!next || (next == parent)) {\n            return next;")],
     "looking for the root of a type whose base type is not registered", "no root ancestor is found", r'''
#include <refract/Element.h>
#include <refract/Registry.h>
using namespace refract;
int main()
{
    Registry r;
    auto e = make_element<ObjectElement>();
    e->element("Missing");
    e->meta().set("id", from_primitive(std::string("A")));
    auto p = e.get();
    CHECK(r.add(std::move(e)));
    CHECK(FindRootAncestor("A", r) == p);
}''')
seed("expand-select-attr", "C15", [(R + "ExpandVisitor.cc", "auto expanded = clone(e, IElement::cAll ^ IElement::cValue);", "auto expanded = clone(e, IElement::cAll ^ IElement::cValue ^ (e.get().value() && e.get().value()->empty() ? IElement::cAttributes : 0));")],
     "expanding a member of a named type without own content", "the member loses its attributes, such as that it is required", r'''
#include <refract/Element.h>
#include <refract/Registry.h>
#include <refract/ExpandVisitor.h>
using namespace refract;
int main()
{
    Registry r;
    auto t = make_element<ObjectElement>();
    t->meta().set("id", from_primitive(std::string("A")));
    CHECK(r.add(std::move(t)));
    auto v = make_empty<ObjectElement>();
    v->element("A");
    auto m = make_element<MemberElement>(std::string("k"), std::move(v));
    m->attributes().set("typeAttributes", make_element<ArrayElement>(from_primitive(std::string("required"))));
    ExpandVisitor x(r);
    VisitBy(*m, x);
    auto e = x.get();
    CHECK(e && e->attributes().find("typeAttributes") != e->attributes().end());
}''')
seed("expand-inherit-order", "C15", [(R + "ExpandVisitor.cc", "make_reverse(inheritance.end()),\n                make_reverse(inheritance.begin()),\n                [&content](inheritance_map::value_type& entry) { content.push_back(std::move(entry.second)); });",
      "make_reverse(inheritance.end()),\n                make_reverse(inheritance.begin() + 1),\n                [&content](inheritance_map::value_type& entry) { content.push_back(std::move(entry.second)); });\n            if (content.size() > 1 && content.begin()[0]->empty())\n                content.insert(content.end() - 1, std::move(inheritance.front().second));\n            else\n                content.push_back(std::move(inheritance.front().second));")],
     "a type three levels below a basic type whose outermost ancestor has no content", "ancestors are laid over one another in the wrong order", r'''
#include <refract/Element.h>
#include <refract/Registry.h>
#include <refract/ExpandVisitor.h>
using namespace refract;
static std::unique_ptr<IElement> type(const char* id, const char* base, const char* key)
{
    auto t = key ? make_element<ObjectElement>() : make_empty<ObjectElement>();
    if (key) t->get().push_back(make_element<MemberElement>(std::string(key), from_primitive(std::string("v"))));
    t->element(base);
    t->meta().set("id", from_primitive(std::string(id)));
    return std::move(t);
}
int main()
{
    Registry r;
    r.add(type("A", "object", nullptr));
    r.add(type("B", "A", "b"));
    r.add(type("C", "B", "c"));
    auto e = make_element<ObjectElement>();
    e->element("C");
    e->get().push_back(make_element<MemberElement>(std::string("k"), [] { auto v = make_empty<ObjectElement>(); v->element("A"); return v; }()));
    ExpandVisitor x(r);
    VisitBy(*e, x);
    auto g = x.get();
    CHECK(g);
    std::vector<std::string> names;
    for (auto& c : static_cast<ExtendElement&>(*g).get())
        if (c->meta().find("ref") != c->meta().end())
            names.push_back(static_cast<const StringElement&>(*c->meta().find("ref")->second).get().get());
    CHECK((names == std::vector<std::string>{ "A", "B", "C" }));
}''')
seed("iterate-pair-key", "C16", [(R + "Iterate.h", "if (auto key = e.key()) {\n                        key->content(v);\n                    }", "if (auto key = e.key()) {\n                        if (e.value() || key->empty())\n                            key->content(v);\n                    }")],
     "iterating over a member that has a key with content and no value", "the key of the member is not visited", r'''
#include <refract/Element.h>
#include <refract/Iterate.h>
#include <refract/FilterVisitor.h>
#include <refract/Query.h>
using namespace refract;
static size_t strings(const IElement& e)
{
    FilterVisitor f(query::Element("string"));
    Iterate<Recursive> it(f);
    it(e);
    return f.elements().size();
}
int main()
{
    MemberElement a(dsd::Member{ std::string("k"), from_primitive(std::string("v")) }), b(dsd::Member{ std::string("k"), nullptr });
    CHECK(strings(a) == 2);
    CHECK(strings(b) == 1);
}''')
seed("value-nullable-sample", "C17", [(R + "VisitorUtils.h", "if (const T* s = GetSample(element)) {\n                return s;\n            }\n\n            if (const T* d = GetDefault(element)) {\n                return d;\n            }\n\n            if (element.empty() && HasTypeAttribute(element, \"nullable\")) {",
      "if (const T* s = GetSample(element)) {\n                if (!s->empty() || !GetDefault(element))\n                    return s;\n            }\n\n            if (const T* d = GetDefault(element)) {\n                return d;\n            }\n\n            if (element.empty() && HasTypeAttribute(element, \"nullable\")) {")],
     "an element with an empty sample and a default", "the default is taken although there is a sample", r'''
#include <refract/Element.h>
#include <refract/VisitorUtils.h>
using namespace refract;
int main()
{
    StringElement e;
    e.attributes().set("samples", make_element<ArrayElement>(make_empty<StringElement>()));
    e.attributes().set("default", from_primitive(std::string("d")));
    auto s = GetSample(e);
    CHECK(s && GetValue<StringElement>()(e) == s);
}''')
seed("json-key-escape", "C18", [(SO + "JsonIo.cc", "out << '\"';\n            escape_json_string(m.first.begin(), m.first.end(), std::ostream_iterator<char>(out));\n            out << \"\\\":\";", "out << '\"';\n            if (m.first.find_first_of(\"\\\"\\\\\\n\\r\\t\") == std::string::npos)\n                out << m.first; // nothing to escape\n            else\n                escape_json_string(m.first.begin(), m.first.end(), std::ostream_iterator<char>(out));\n            out << \"\\\":\";")],
     "a key with a control character other than a line break or tab", "control characters are written into JSON keys as they are", r'''
#include <utils/so/JsonIo.h>
#include <utils/so/Value.h>
using namespace drafter::utils;
int main()
{
    so::Object o;
    o.data.emplace_back(std::string("a\x01"), so::Null{});
    std::ostringstream s;
    so::serialize_json(s, o, so::packed{});
    CHECK(s.str() == "{\"a\\u0001\":null}");
}''', srcs=["drafter/src/utils/so/*.cc"], shim=True)
seed("yaml-del-printable", "C19", [(SO + "YamlIo.cc", "|| (0x20 <= c && c <= 0x7E)                    //\n            || (c == 0x85)                                 //\n            || (0xA0", "|| (0x20 <= c && c < 0x80)                     //\n            || (c == 0x85)                                 //\n            || (0xA0")],
     "a string with U+007F", "the delete character, which YAML forbids, is written as it is", r'''
#include <utils/so/YamlIo.h>
#include <utils/so/Value.h>
using namespace drafter::utils;
int main()
{
    std::ostringstream s;
    so::serialize_yaml(s, so::String{ "a\x7F" });
    CHECK(s.str() == "\"a\\x7F\"");
}''', srcs=["drafter/src/utils/so/*.cc"], shim=True)
seed("so-equal-objects", "C20", [(SO + "Value.cc", "return lhs.data.size() == rhs.data.size() && hasEqualMembers(lhs, rhs);", "return lhs.data.size() == rhs.data.size()\n        && (lhs.data.size() > 1 ? hasEqualMembers(lhs, rhs) : lhs.data.empty() || lhs.data.front().second == rhs.data.front().second);")],
     "two objects of a single entry each with the same value and different keys", "objects with different keys are equal and so one is dropped as a duplicate", r'''
#include <utils/so/Value.h>
using namespace drafter::utils;
int main()
{
    so::Array a;
    for (auto k : { "x", "y" }) {
        so::Object o;
        o.data.emplace_back(std::string(k), so::True{});
        so::emplace_unique(a, std::move(o));
    }
    CHECK(a.data.size() == 2);
}''', srcs=["drafter/src/utils/so/*.cc"], shim=True)
