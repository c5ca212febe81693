//@ all: time=60
//@ bound: parameters in the old and the new syntax: every combination of example or default in the signature, required/optional, type, description, and up to 2 nested sections (default, sample, members, values), values and examples among two texts (thorough three); up to 3 (thorough 4) parameters of three names against a URI template with two; a resource and an action defining them
//@ outside: signatures not of this shape, see the check of signatures; nested sections of several paragraphs
#include "bp.h"
using namespace bp;
namespace
{
    struct XParameter {
        std::string name, desc, type, example, def;
        ParameterUse use = UndefinedParameterUse;
        std::vector<std::string> values;
        At at;
    };
    struct Machine {
        md::Doc d;
        std::vector<XParameter> xs;
        int got[20] = {}, want[20] = {};
        bool plain = false; // no variations of types, names and quotes
        At last_at() { return d.top().children().back().sourceMap; }
        std::string value(const char* what)
        {
            static const char* v[] = { "1", "x y", "2" };
            return v[sym_range(what, 0, BOUND(1, 2))];
        }
        void finish(const XParameter& x)
        {
            if (x.use != OptionalParameterUse && !x.def.empty()) want[LogicalErrorWarning]++;
            bool e = x.example.empty(), f = x.def.empty();
            for (auto& v : x.values) e |= v == x.example, f |= v == x.def;
            if (!x.values.empty() && (!e || !f)) want[LogicalErrorWarning]++;
            for (size_t i = 0; i < xs.size(); ++i)
                if (xs[i].name == x.name) {
                    xs.erase(xs.begin() + i);
                    want[RedefinitionWarning]++;
                    break;
                }
            xs.push_back(x);
        }
        // attributes in parentheses; an example in the old syntax
        std::string attributes(XParameter& x, bool old, const std::string& example)
        {
            std::string s;
            auto add = [&](const std::string& a) { s += (s.empty() ? "" : ", ") + a; };
            int use = (int)sym_range("use", 0, 2);
            if (use) add(use == 1 ? "required" : "Optional"), x.use = use == 1 ? RequiredParameterUse : OptionalParameterUse;
            int type = plain ? 0 : (int)sym_range("type", 0, 2);
            if (type) add(type == 1 || old ? "number" : "enum[number]"), x.type = "number";
            if (!example.empty()) add("`" + example + "`"), x.example = example;
            if (!plain && sym_bool("one more")) {
                add("extra");
                if (x.type.empty()) x.type = "extra";
                else want[FormattingWarning]++, x.type.clear(), x.use = UndefinedParameterUse, old ? x.example.clear() : (void)0;
            }
            return s.empty() ? "" : " (" + s + ")";
        }
        void old(const std::string& name, bool rich, int sections)
        {
            XParameter x;
            x.name = name;
            std::string t = name;
            if (rich) {
                if (sym_bool("default")) x.def = value("default"), t += " = `" + x.def + "`";
                std::string e = sym_bool("example") ? value("example") : "";
                t += attributes(x, true, e);
            }
            x.desc = "text";
            d.item(t + " ... text");
            x.at = last_at();
            while (sections--) {
                d.item("Values");
                if (!x.values.empty()) want[RedefinitionWarning]++, x.values.clear();
                for (int n = (int)sym_range("values", 0, 2); n--;) {
                    std::string v = value("value");
                    bool good = plain || sym_bool("in backticks");
                    d.item(good ? "`" + v + "`" : v);
                    d.end();
                    if (good) x.values.push_back(v);
                    else want[IgnoringWarning]++;
                }
                if (x.values.empty()) want[EmptyDefinitionWarning]++;
                d.end();
            }
            d.end();
            finish(x);
        }
        void mson(const std::string& name, bool rich, int sections)
        {
            XParameter x;
            x.name = name;
            std::string t = !plain && sym_bool("name in backticks") ? "`" + name + "`" : name;
            if (rich) {
                if (sym_bool("example")) x.example = value("example"), t += ": " + x.example;
                t += attributes(x, false, "");
                if (sym_bool("description")) x.desc = "text", t += " - text";
            }
            d.item(t);
            x.at = last_at();
            while (sections--) {
                switch (sym_range("section", 0, 2)) {
                    case 0:
                        x.def = value("default");
                        d.item("Default: " + x.def);
                        break;
                    case 1:
                        x.example = value("sample");
                        d.item("Sample: " + x.example);
                        break;
                    default:
                        d.item("Members");
                        x.values.clear();
                        for (int n = (int)sym_range("values", 1, 2); n--;) {
                            std::string v = value("value");
                            d.item(plain || sym_bool("in backticks") ? "`" + v + "`" : v);
                            d.end();
                            x.values.push_back(v);
                        }
                }
                d.end();
            }
            d.end();
            finish(x);
        }
        void parse(bool maps, bool resource, bool known)
        {
            d.parse(maps ? ExportSourcemapOption : 0);
            sym_assert(d.report.error.code == Error::OK, "no error");
            auto& es = d.bp.content.elements();
            sym_assert(es.size() == 1 && es[0].element == Element::ResourceElement, "one resource");
            const Resource& r = es[0].content.resource;
            sym_assert(resource || r.actions.size() == 1, "one action");
            const Parameters& ps = resource ? r.parameters : r.actions[0].parameters;
            SourceMap<Parameters> none;
            const SourceMap<Parameters>* sm = &none;
            if (maps) {
                auto& m = d.sm.content.elements().collection[0].content.resource;
                sm = resource ? &m.parameters : &m.actions.collection[0].parameters;
            }
            sym_assert(ps.size() == xs.size(), "number of parameters");
            sym_assert(sm->collection.size() == (maps ? xs.size() : 0), "source maps of parameters");
            SourceMap<Parameter> no;
            for (size_t i = 0; i < xs.size(); ++i) {
                auto& x = xs[i];
                auto& p = ps[i];
                auto& m = maps ? sm->collection[i] : no;
                named(x.name, x.at, p.name, m.name.sourceMap, maps, "name of a parameter");
                named(x.desc, x.at, p.description, m.description.sourceMap, maps, "description of a parameter");
                named(x.type, x.at, p.type, m.type.sourceMap, maps, "type of a parameter");
                sym_assert(ref::eq(p.exampleValue, x.example), "example of a parameter");
                sym_assert(ref::eq(p.defaultValue, x.def), "default of a parameter");
                sym_assert(m.exampleValue.sourceMap.empty() == (!maps || x.example.empty()), "source map of an example");
                sym_assert(m.defaultValue.sourceMap.empty() == (!maps || x.def.empty()), "source map of a default");
                sym_assert(p.use == x.use, "use of a parameter");
                sym_assert(same(m.use.sourceMap, maps && x.use != UndefinedParameterUse ? x.at : At()), "source map of a use");
                sym_assert(p.values.size() == x.values.size(), "number of values");
                sym_assert(m.values.collection.size() == (maps ? x.values.size() : 0), "source maps of values");
                for (size_t k = 0; k < x.values.size(); ++k) sym_assert(ref::eq(p.values[k], x.values[k]), "a value");
                if (!known && x.name != "a" && x.name != "b") want[LogicalErrorWarning]++;
            }
            for (auto& w : d.report.warnings) got[w.code]++;
            for (int i = 0; i < 20; ++i) {
                if (got[i] != want[i]) sym_observe("code", i), sym_observe("got", got[i]), sym_observe("want", want[i]);
                sym_assert(got[i] == want[i], "warnings");
            }
            sym_reach("parameters");
        }
        void one(bool old_, bool rich, int sections)
        {
            d.header(1, "R [/{a,b}]");
            d.item("Parameters");
            if (old_) old("a", rich, sections);
            else mson("a", rich, sections);
            d.end();
            parse(true, true, false);
        }
    };
}
HARNESS(old_signature) { Machine().one(true, true, 0); }
HARNESS(old_values) { Machine().one(true, BOUND(0, 1), BOUND(1, 2)); }
HARNESS(signature) { Machine().one(false, true, 0); }
HARNESS(sections) { Machine().one(false, BOUND(0, 1), 2); }
HARNESS(values) // a value, what is in the signature, and what may be chosen
{
    Machine m;
    m.d.header(1, "R [/{a,b}]");
    m.d.item("Parameters");
    m.plain = BOUND(true, false);
    if (sym_bool("old")) m.old("a", true, 1);
    else m.mson("a", true, 1);
    m.d.end();
    m.parse(false, true, false);
}
HARNESS(several)
{
    Machine m;
    int where = (int)sym_range("place", 0, 3); // a resource, an action, an endpoint, a named endpoint
    m.d.header(1, where == 2 ? "GET /{a,b}" : where == 3 ? "N [GET /{a}/{?b}]" : "R [/x{a}{?b*}]");
    if (where == 1) m.d.header(2, "GET");
    m.d.item("Parameters");
    int count = (int)sym_range("parameters", 0, BOUND(3, 4));
    for (int i = 0; i < count; ++i) {
        static const char* names[] = { "a", "b", "c" };
        std::string n = names[sym_range("name", 0, 2)];
        if (sym_bool("old")) m.old(n, false, 0);
        else m.mson(n, false, 0);
    }
    m.d.end();
    if (!count) m.want[FormattingWarning]++;
    if (where) m.want[EmptyDefinitionWarning]++;
    m.parse(sym_bool("maps"), where == 0, false);
}
