//@ bound: literals of up to 6 characters of every kind the number grammar tells apart (thorough 7) and of up to 3 arbitrary octets (thorough 4); the literals true and false with up to 2 characters changed or added; every type and way of creation
//@ assume: literals of numbers may be followed by blanks
#include "elem.h"
#include "Serialize.h"
#include "RefractElementFactory.h"
#include "RefractSourceMap.h"
using namespace model;
namespace
{
    // ECMA-404: -? (0 | [1-9] digit*) (. digit+)? ([eE] [+-]? digit+)?, as an automaton; written without branches on the text
    int number(const std::string& s)
    {
        enum { START, MINUS, ZERO, INT, DOT, FRAC, E, SIGN, EXP, BLANK, N };
        int in[N] = { 1 }; // which states the automaton may be in
        for (unsigned char c : s) {
            int zero = c == '0', nz = (unsigned)(c - '1') <= 8u, digit = zero | nz, e = (c == 'e') | (c == 'E'), sign = (c == '+') | (c == '-');
            int blank = (c == ' ') | ((unsigned)(c - 9) <= 4u);
            int to[N] = {};
            to[MINUS] = in[START] & (c == '-');
            to[ZERO] = (in[START] | in[MINUS]) & zero;
            to[INT] = ((in[START] | in[MINUS]) & nz) | (in[INT] & digit);
            to[DOT] = (in[ZERO] | in[INT]) & (c == '.');
            to[FRAC] = (in[DOT] | in[FRAC]) & digit;
            to[E] = (in[ZERO] | in[INT] | in[FRAC]) & e;
            to[SIGN] = in[E] & sign;
            to[EXP] = (in[E] | in[SIGN] | in[EXP]) & digit;
            to[BLANK] = (in[ZERO] | in[INT] | in[FRAC] | in[EXP] | in[BLANK]) & blank;
            for (int i = 0; i < N; ++i) in[i] = to[i];
        }
        return in[ZERO] | in[INT] | in[FRAC] | in[EXP] | in[BLANK];
    }
    size_t unblanked(const std::string& s)
    {
        size_t n = 0;
        for (size_t i = 0; i < s.size(); ++i) {
            unsigned char c = s[i];
            int blank = (c == ' ') | ((unsigned)(c - 9) <= 4u);
            n = blank ? n : i + 1;
        }
        return n;
    }
    int decimal(const std::string& s, uint64_t v) // is s the decimal representation of v?
    {
        uint64_t n = 0;
        int ok = !s.empty();
        for (unsigned char c : s) ok &= (unsigned)(c - '0') <= 9u, n = n * 10 + (c - '0');
        return ok & (n == v) & (s.size() == 1 || s[0] != '0');
    }
    void checkNumber(const std::string& s)
    {
        auto r = drafter::LiteralTo<refract::dsd::Number>(s);
        sym_assert(r.first == (number(s) != 0), "a literal is a number exactly when it is one of JSON");
        if (r.first) {
            sym_assert(ref::eq(r.second.get(), s.substr(0, unblanked(s))), "a number keeps its digits");
            sym_reach("number");
        } else
            sym_reach("no number");
    }
    Kind kinds[] = { Object, Bool, String, Number, Array, Enum, Object }; // by mson::BaseTypeName
}
HARNESS(numbers) { checkNumber(sym_str_from("text", 0, BOUND(6, 7), "-0190eE+. ")); }
HARNESS(octets) { checkNumber(sym_str("text", 0, BOUND(3, 4))); }
HARNESS(booleans)
{
    std::string s = sym_bool("true") ? "true" : "false";
    for (int i = 0; i < 2; ++i) {
        size_t at = sym_range("at", 0, s.size() + 1);
        if (at < s.size()) s[at] = sym_u8("octet");
        else if (at == s.size()) s.push_back(sym_u8("octet"));
    }
    if (sym_bool("cut")) s.pop_back();
    auto r = drafter::LiteralTo<refract::dsd::Boolean>(s);
    int yes = ref::eq(s, "true"), no = ref::eq(s, "false");
    sym_assert(r.first == ((yes | no) != 0), "exactly true and false are boolean");
    if (r.first) {
        sym_assert((bool)r.second == (yes != 0), "true is true and false is false");
        sym_reach("boolean");
    }
}
HARNESS(strings)
{
    std::string s = sym_str("text", 0, 2);
    auto r = drafter::LiteralTo<refract::dsd::String>(s);
    sym_assert(r.first == !s.empty() && ref::eq(r.second.get(), s), "a literal is its own text");
    mdp::CharactersRangeSet at;
    for (int n = sym_range("ranges", 0, 2); n; --n) at.push_back(mdp::CharactersRange(n == 1 ? sym_u8("location") * 256u + sym_u8("location") : 7, sym_u8("length")));
    snowcrash::SourceMap<std::string> sm;
    sm.sourceMap = at;
    Node x = s.empty() ? node(String) : str(s);
    drafter::ConversionContext* none = nullptr;
    auto e = drafter::LiteralToRefract(drafter::MakeNodeInfo(s, sm), *none);
    auto p = drafter::PrimitiveToRefract(drafter::MakeNodeInfo(s, sm));
    for (auto* el : { (const refract::IElement*)e.get(), (const refract::IElement*)p.get() }) {
        auto& attr = el->attributes();
        sym_assert(attr.size() == (at.empty() ? 0u : 1u), "a source map is attached when there is one");
        Node got = read(el);
        if (!at.empty()) {
            auto* m = refract::get<const refract::ArrayElement>(attr.find("sourceMap")->second.get());
            sym_assert(m && m->get().size() == 1 && m->element() == "array", "one source map");
            auto* in = refract::get<const refract::ArrayElement>(m->get().begin()->get());
            sym_assert(in && in->element() == "sourceMap" && in->get().size() == at.size(), "a source map holds the ranges");
            for (size_t i = 0; i < at.size(); ++i) {
                auto* r = refract::get<const refract::ArrayElement>((in->get().begin() + i)->get());
                sym_assert(r && r->get().size() == 2, "a range is a location and a length");
                for (int k = 0; k < 2; ++k) {
                    auto* n = refract::get<const refract::NumberElement>((r->get().begin() + k)->get());
                    sym_assert(n && n->element() == "number" && !n->empty(), "locations and lengths are numbers");
                    sym_assert(decimal(n->get().get(), k ? at[i].length : at[i].location), "the numbers of a range");
                }
                sym_reach("range");
            }
        }
        got.attr.clear();
        sym_assert(same(got, el == p.get() ? str(s) : x), "an element holds its literal");
    }
}
HARNESS(factory)
{
    int type = sym_range("type", 0, 6);
    auto method = (drafter::FactoryCreateMethod)sym_range("method", 0, 2);
    Kind k = kinds[type];
    std::string s = k == Bool && sym_bool("boolean") ? (sym_bool("true") ? "true" : "false") : sym_str("text", 0, 3);
    auto e = drafter::FactoryFromType((mson::BaseTypeName)type).Create(s, method);
    Node x = node(k);
    bool primitive = k == Bool || k == String || k == Number;
    if (!primitive) {
        if (method == drafter::eSample) {
            x = str(s);
            x.name = "generic";
        } else
            x.name = s;
    } else if (method == drafter::eElement)
        x.name = s;
    else if (!s.empty()) {
        Node v = node(k);
        bool ok = k == String ? true : k == Number ? number(s) : ref::eq(s, "true") | ref::eq(s, "false");
        if (ok) {
            v.has = true;
            if (k == Bool) v.b = s.size() == 4;
            else v.s = k == Number ? s.substr(0, unblanked(s)) : s;
            sym_reach("value");
        }
        if (method == drafter::eSample) {
            Node a = node(Array);
            if (ok) a = list(Array, v);
            x.attr.emplace_back("samples", a);
        } else
            x = v;
    }
    Node got = read(e.get());
    if (x.name == defaultName(x.k)) x.name.clear();
    sym_assert(same(got, x), "what is created holds the literal as value, sample or type");
}
