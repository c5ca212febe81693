//@ all: time=60
//@ bound: pairs of values up to depth 2 with up to 2 entries and symbolic one-octet texts and keys; collections of up to 3 entries and one insertion
//@ assume: objects hold each key once
#include "sov.h"
using namespace sov;

static V small(int depth)
{
    switch (sym_range("kind", 0, depth ? 6 : 4)) {
        case 0: return V(Null);
        case 1: return V(True);
        case 2: return V(False);
        case 3: return V(String, sym_str_n("s", 1));
        case 4: return V(Number, sym_str_n("n", 1));
        case 5: {
            V v(Object);
            for (size_t i = sym_range("entries", 0, 2); i > 0; --i) {
                std::string k = sym_str_n("key", 1);
                for (auto& e : v.kids) sym_assume(!::ref::eq(e.first, k));
                v.kids.emplace_back(k, i == 1 ? small(depth - 1) : V(String, sym_str_n("s", 1)));
            }
            return v;
        }
        default: {
            V v(Array);
            for (size_t i = sym_range("entries", 0, 2); i > 0; --i) v.kids.emplace_back("", i == 1 ? small(depth - 1) : V(String, sym_str_n("s", 1)));
            return v;
        }
    }
}
// equal as data: the order of an object's entries does not matter
static int equal(const V& a, const V& b)
{
    if (a.k != b.k || a.kids.size() != b.kids.size()) return 0;
    if (a.k == Object) {
        int all = 1;
        for (auto& x : a.kids) {
            int found = 0;
            for (auto& y : b.kids) found |= ::ref::eq(x.first, y.first) & equal(x.second, y.second);
            all &= found;
        }
        return all;
    }
    int ok = ::ref::eq(a.s, b.s);
    for (size_t i = 0; i < a.kids.size(); ++i) ok &= equal(a.kids[i].second, b.kids[i].second);
    return ok;
}
HARNESS(equality)
{
    V a = small(1), b = small(1);
    auto x = build(a), y = build(b);
    bool got = x == y;
    sym_assert(got == (equal(a, b) != 0), "values are equal exactly when they hold the same data");
    sym_assert((y == x) == got && x == x, "equality is symmetric and reflexive");
    auto z = x;
    sym_assert(same(read(z), a), "a copy holds the same data in the same order");
    sym_reach(got ? "equal" : "different");
}
HARNESS(deep)
{
    V a(sym_bool("object") ? Object : Array), b(a.k);
    std::string k = sym_str_n("key", 1);
    a.kids.emplace_back(a.k == Object ? k : "", small(1));
    b.kids.emplace_back(a.k == Object ? k : "", sym_bool("alike") ? a.kids[0].second : V(Null));
    if (b.kids[0].second.k == Object && b.kids[0].second.kids.size() == 2) std::swap(b.kids[0].second.kids[0], b.kids[0].second.kids[1]);
    auto x = build(a), y = build(b);
    sym_assert((x == y) == (equal(a, b) != 0), "values are equal exactly when they hold the same data, at any depth");
    sym_reach(equal(a, b) ? "equal" : "different");
}
HARNESS(objects)
{
    V o(Object);
    for (size_t i = sym_range("n", 0, 3); i > 0; --i) {
        std::string k = sym_str_n("key", 1);
        for (auto& e : o.kids) sym_assume(!::ref::eq(e.first, k));
        o.kids.emplace_back(k, V(String, sym_str_n("s", 1)));
    }
    std::string k = sym_str("wanted", 0, 1);
    V v = sym_bool("text") ? V(String, sym_str_n("v", 1)) : V(True), want = o;
    size_t i = 0;
    while (i < o.kids.size() && !(k.size() && ::ref::eq(o.kids[i].first, k))) ++i;
    auto x = build(o);
    auto& real = mpark::get<so::Object>(x);
    auto f = so::find(real, k);
    sym_assert((f != nullptr) == (i < o.kids.size()), "an entry is found exactly when its key is there");
    if (f && i < o.kids.size()) sym_assert(f == &real.data[i].second, "the entry found is the one of that key");
    if (i < o.kids.size()) want.kids[i].second = v;
    else want.kids.emplace_back(k, v);
    if (sym_bool("pair")) so::emplace_unique(real, std::make_pair(k, build(v)));
    else so::emplace_unique(real, k, build(v));
    sym_assert(same(read(x), want), "an entry replaces the one of its key in place or is appended");
    sym_reach(f ? "replaced" : "appended");
}
HARNESS(arrays)
{
    V a(Array);
    for (size_t i = sym_range("n", 0, 3); i > 0; --i) a.kids.emplace_back("", i == 1 ? small(1) : V(String, sym_str_n("s", 1)));
    V v = small(1), want = a;
    bool had = false;
    for (auto& e : a.kids) had = had || equal(e.second, v);
    if (!had) want.kids.emplace_back("", v);
    auto x = build(a);
    so::emplace_unique(mpark::get<so::Array>(x), build(v));
    sym_assert(same(read(x), want), "a value is appended exactly when no equal one is there");
    sym_reach(had ? "kept" : "appended");
}
HARNESS(construction)
{
    std::string s = sym_str("s", 0, 2), k = sym_str("k", 0, 2);
    so::Value o = so::Object(so::from_list{}, std::make_pair(k, so::Value(so::String{ s })), std::make_pair(std::string("b"), so::Value(so::Null{})));
    V want(Object);
    want.kids.emplace_back(k, V(String, s));
    want.kids.emplace_back("b", V(Null));
    sym_assert(same(read(o), want), "an object built from a list holds its entries in order");
    so::Value a = so::Array(so::from_list{}, so::Value(so::String{ s }), so::Value(so::True{}), so::Value(so::False{}));
    V w(Array);
    w.kids.emplace_back("", V(String, s));
    w.kids.emplace_back("", V(True));
    w.kids.emplace_back("", V(False));
    sym_assert(same(read(a), w), "an array built from a list holds its values in order");
    int n = (int)sym_range("n", 0, 120) - 60;
    sym_assert(so::Number(n).data == std::to_string(n) && so::Number().data == "0", "a number built from an integer reads as its decimal text");
    sym_reach("built");
}
