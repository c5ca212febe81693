//@ all: time=60
//@ bound: up to 2 named types of any name (quick; 3 thorough), each with no type, a primitive, object, array or enum one, or that of any other name, whether it is defined or not; or 4 types and 4 (thorough 5) dependencies one after the other, with and without the check for circles
//@ outside: types sub-typed from emphasized (variable) names; what is left in the tables after an error
#include "ref.h"
#include "snowcrash.h"
#include "BlueprintParser.h"
using namespace snowcrash;
typedef SectionProcessor<Blueprint> P;
namespace
{
    enum { NONE, STRING, OBJECT, ARRAY, ENUM, OF };
    const char* specs[] = { "", "string", "object", "array", "enum", "" };
    const int MAX = 4;
    struct Doc {
        std::string src;
        Blueprint bp;
        SectionParserData pd;
        mdp::MarkdownNodes nodes;
        Report report;
        Doc() : pd(0, src, bp), nodes(1) {}
    };
    struct World {
        int n = 0;
        char name[MAX], ref[MAX];
        int kind[MAX];
        int def(char c) const
        {
            for (int i = 0; i < n; ++i)
                if (name[i] == c) return i;
            return -1;
        }
        bool reach[MAX][MAX]; // through types and what they nest
        void close()
        {
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j) reach[i][j] = ref[i] == name[j];
            for (int k = 0; k < n; ++k)
                for (int i = 0; i < n; ++i)
                    for (int j = 0; j < n; ++j) reach[i][j] |= reach[i][k] & reach[k][j];
        }
        bool wrong() const
        {
            for (int i = 0; i < n; ++i)
                if (kind[i] == OF && (reach[i][i] || def(ref[i]) < 0)) return true;
            return false;
        }
        mson::BaseType base(int i) const
        {
            for (int steps = 0; steps < n && kind[i] == OF; ++steps) i = def(ref[i]);
            switch (kind[i]) {
                case NONE: return mson::ImplicitObjectBaseType;
                case STRING: return mson::PrimitiveBaseType;
                case OBJECT: return mson::ObjectBaseType;
                default: return mson::ValueBaseType;
            }
        }
        bool depends(int i, char c) const
        {
            if (ref[i] == c) return true;
            for (int j = 0; j < n; ++j)
                if (reach[i][j] && ref[j] == c) return true;
            return false;
        }
    };
    std::string str(char c) { return std::string(1, c); }
    // the definition as it is written
    char one(const char* of)
    {
        return sym_str_from("letter", 1, 1, of)[0];
    }
    void define(World& w, Doc& d, const char* letters)
    {
        int i = w.n++;
        w.name[i] = one("ABC");
        w.kind[i] = (int)sym_range("kind", 0, 5);
        w.ref[i] = w.kind[i] >= ARRAY && (w.kind[i] == OF || sym_bool("nests")) ? one(letters) : 0;
        std::string s = str(w.name[i]);
        if (w.kind[i] == OF) s += " (" + str(w.ref[i]) + ")";
        else if (w.kind[i] != NONE) s += std::string(" (") + specs[w.kind[i]] + (w.ref[i] ? "[" + str(w.ref[i]) + "]" : "") + ")";
        if (sym_bool("resource")) { // a named resource with its attributes
            size_t at = s.find('(');
            P::fillNamedTypeTables(d.nodes.begin(), d.pd, "Attributes" + (at == std::string::npos ? "" : " " + s.substr(at)), d.report, str(w.name[i]));
        } else P::fillNamedTypeTables(d.nodes.begin(), d.pd, s, d.report);
    }
    bool twice(const World& w)
    {
        for (int i = 0; i < w.n; ++i)
            for (int j = 0; j < i; ++j)
                if (w.name[i] == w.name[j]) return true;
        return false;
    }
    bool in(const std::set<mson::Literal>& s, char c) { return s.find(str(c)) != s.end(); }
    void resolve(int n, const char* letters)
    {
        World w;
        Doc d;
        for (int i = 0; i < n; ++i) define(w, d, letters);
        w.close();
        bool dup = twice(w);
        sym_assert((d.report.error.code != Error::OK) == dup, "a named type is defined once");
        if (dup) {
            sym_assert(d.report.error.code == MSONError, "a second definition is an error of the document");
            return;
        }
        P::resolveNamedTypeTables(d.pd, d.report);
        bool wrong = w.wrong();
        sym_reach(wrong ? "wrong" : "resolved");
        sym_assert((d.report.error.code != Error::OK) == wrong, "an error is a type made of itself or of one that is not there");
        if (wrong) return;
        for (int i = 0; i < n; ++i) {
            auto b = d.pd.namedTypeBaseTable.find(str(w.name[i]));
            sym_assert(b != d.pd.namedTypeBaseTable.end() && b->second == w.base(i), "the base type is that of the type it is made of");
            auto t = d.pd.namedTypeDependencyTable.find(str(w.name[i]));
            sym_assert(t != d.pd.namedTypeDependencyTable.end(), "every named type is known");
            for (const char* c = letters; *c; ++c) sym_assert(in(t->second, *c) == w.depends(i, *c), "a type depends on what it is made of, and on what that depends on");
        }
        for (const char* c = letters; *c; ++c) {
            bool there = d.pd.namedTypeDependencyTable.find(str(*c)) != d.pd.namedTypeDependencyTable.end();
            sym_assert(there == (w.def(*c) >= 0), "only the types of the document are known");
        }
    }
}
HARNESS(resolve)
{
    resolve((int)sym_range("types", 0, 2), "ABU");
}
HARNESS(chain) // longer chains of types made of one another
{
    World w;
    Doc d;
    int n = BOUND(3, 4);
    for (int i = 0; i < n; ++i) {
        w.name[i] = one(n == 3 ? "ABC" : "ABCD");
        for (int j = 0; j < i; ++j) sym_assume(w.name[i] != w.name[j]);
        w.kind[i] = i == 0 ? (int)sym_range("kind", 1, 3) : (int)sym_range("kind", 4, 5);
        w.ref[i] = i == 0 ? 0 : one(n == 3 ? "ABC" : "ABCD");
        ++w.n;
        std::string s = str(w.name[i]) + " (" + (w.kind[i] == OF ? str(w.ref[i]) : specs[w.kind[i]] + (w.ref[i] ? "[" + str(w.ref[i]) + "]" : std::string())) + ")";
        P::fillNamedTypeTables(d.nodes.begin(), d.pd, s, d.report);
    }
    w.close();
    sym_assert(d.report.error.code == Error::OK, "different types are no error");
    P::resolveNamedTypeTables(d.pd, d.report);
    bool wrong = w.wrong();
    sym_reach(wrong ? "wrong" : "resolved");
    sym_assert((d.report.error.code != Error::OK) == wrong, "an error is a type made of itself or of one that is not there");
    if (wrong) return;
    for (int i = 0; i < n; ++i) {
        sym_assert(d.pd.namedTypeBaseTable[str(w.name[i])] == w.base(i), "the base type is that of the type it is made of");
        for (char c = 'A'; c < 'A' + n; ++c) sym_assert(in(d.pd.namedTypeDependencyTable[str(w.name[i])], c) == w.depends(i, c), "a type depends on what it is made of, and on what that depends on");
    }
}
HARNESS(depend) // dependencies met while the types are read
{
    const char* all = "ABCDU";
    Doc d;
    bool want[4][5] = {};
    for (int i = 0; i < 4; ++i) d.pd.namedTypeDependencyTable[str(all[i])];
    int n = BOUND(4, 5);
    for (int k = 0; k < n; ++k) {
        // the first two are any two; the last may be of itself, or of one that is not there
        bool last = k == n - 1;
        int from = k ? (int)sym_range("dependent", 0, 3) : 0, to = k ? (int)sym_range("dependency", 0, last ? 4 : 3) : 1;
        if (!last) sym_assume(from != to);
        bool check = last && sym_bool("check");
        Report r;
        mson::addDependency(d.nodes.begin(), d.pd, str(all[to]), str(all[from]), r, check);
        bool circle = check && to < 4 && (to == from || want[to][from]);
        sym_reach("depend");
        sym_assert((r.error.code != Error::OK) == (to == 4 || circle), "an error is a type that is not there, or one made of itself");
        if (to == 4 || circle) continue;
        if (!want[from][to]) {
            bool was[5];
            for (int j = 0; j < 5; ++j) was[j] = want[to][j];
            bool has[4];
            for (int i = 0; i < 4; ++i) has[i] = i == from || want[i][from];
            for (int i = 0; i < 4; ++i)
                if (has[i]) {
                    want[i][to] = true;
                    for (int j = 0; j < 5; ++j) want[i][j] |= was[j];
                }
        }
    }
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 5; ++j) sym_assert(in(d.pd.namedTypeDependencyTable[str(all[i])], all[j]) == want[i][j], "dependencies are those of the dependencies too");
    sym_assert(d.pd.namedTypeDependencyTable.find("U") == d.pd.namedTypeDependencyTable.end(), "only the types of the document are known");
}
