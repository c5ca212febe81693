//@ bound: containers of 0..3 children with symbolic one-byte contents and one operation at any position; objects of 0..3 members, references and keyless members with symbolic one-byte keys
#include "elem.h"
#include <refract/VisitorUtils.h>
using namespace model;

template <typename D>
static int holds(const D& d, const std::vector<Node>& m)
{
    if (d.size() != m.size() || d.empty() != m.empty() || (size_t)(d.end() - d.begin()) != m.size()) return 0;
    int ok = 1;
    for (size_t i = 0; i < m.size(); ++i) ok &= is(d.begin()[i].get(), m[i]);
    return ok;
}
template <typename D>
static auto child(const Node& n) -> typename D::value_type { return typename D::value_type(static_cast<typename D::value_type::pointer>(build(n).release())); }
template <typename D>
static void step(Kind k, bool option)
{
    (void)k;
    auto item = [&]() { Node v = value(String); return option ? list(Option, v) : v; };
    D d;
    std::vector<Node> m;
    for (size_t i = sym_range("n", 0, BOUND(3, 4)); i > 0; --i) {
        m.push_back(item());
        d.insert(d.end(), child<D>(m.back()));
    }
    sym_assert(holds(d, m), "children keep the order of insertion");
    Node x = item();
    switch (sym_range("op", 0, 5)) {
        case 0: {
            size_t i = sym_range("at", 0, m.size());
            auto c = child<D>(x);
            auto p = c.get();
            auto it = d.insert(d.begin() + i, std::move(c));
            m.insert(m.begin() + i, x);
            sym_assert((size_t)(it - d.begin()) == i && it->get() == p, "insert returns the position of the new child");
            sym_assert(holds(d, m), "insert keeps the other children");
            sym_reach("insert");
            break;
        }
        case 1: {
            if (m.empty()) return;
            size_t i = sym_range("at", 0, m.size() - 1);
            auto it = d.erase(d.begin() + i);
            m.erase(m.begin() + i);
            sym_assert((size_t)(it - d.begin()) == i && holds(d, m), "erase removes exactly one child");
            sym_reach("erase");
            break;
        }
        case 2: {
            size_t i = sym_range("from", 0, m.size()), j = sym_range("to", 0, m.size());
            if (i > j) return;
            auto it = d.erase(d.begin() + i, d.begin() + j);
            m.erase(m.begin() + i, m.begin() + j);
            sym_assert((size_t)(it - d.begin()) == i && holds(d, m), "erase removes exactly the range");
            sym_reach("erase range");
            break;
        }
        case 3:
            d.push_back(child<D>(x));
            m.push_back(x);
            sym_assert(holds(d, m), "push_back appends");
            break;
        case 4: {
            D c(d), a;
            a.push_back(child<D>(x));
            a = d;
            sym_assert(holds(c, m) && holds(a, m) && holds(d, m) && c == d && d == a, "copies hold equal children");
            for (size_t i = 0; i < m.size(); ++i) sym_assert(c.begin()[i].get() != d.begin()[i].get() && a.begin()[i].get() != d.begin()[i].get(), "copies hold children of their own");
            d.push_back(child<D>(x));
            sym_assert(holds(c, m) && holds(a, m) && !(c == d), "copies are not affected by changes");
            D t(std::move(c)), u;
            u = std::move(a);
            sym_assert(holds(t, m) && holds(u, m), "moving keeps the children");
            break;
        }
        case 5:
            d.clear();
            sym_assert(holds(d, {}), "clear removes all children");
            d.push_back(child<D>(x));
            sym_assert(holds(d, { x }), "a cleared container can be filled again");
            break;
    }
}
HARNESS(arrays) { step<dsd::Array>(Array, false); }
HARNESS(objects) { step<dsd::Object>(Object, false); }
HARNESS(extends) { step<dsd::Extend>(Extend, false); }
HARNESS(options) { step<dsd::Option>(Option, false); }
HARNESS(selects) { step<dsd::Select>(Select, true); }
HARNESS(variadic)
{
    Node a = value(String), b = value(Number), c = value(Bool);
    sym_assert(holds(dsd::Array(build(a), build(b), build(c)), { a, b, c }), "array from elements");
    sym_assert(holds(dsd::Object(build(a), build(b)), { a, b }), "object from elements");
    sym_assert(holds(dsd::Option(build(a), build(b)), { a, b }), "option from elements");
    sym_assert(holds(dsd::Extend(build(a), build(a)), { a, a }), "extend from elements");
    Node oa = list(Option, a), ob = list(Option, b, c);
    sym_assert(holds(dsd::Select(buildOption(oa), buildOption(ob)), { oa, ob }), "select from options");
    auto e = make_element<ArrayElement>(build(c), build(a));
    sym_assert(is(*e, list(Array, c, a)), "array element from elements");
    dsd::Member m(a.s, build(b));
    sym_assert(is(m.key(), a) && is(m.value(), b), "member from key and value");
    m.value(build(c));
    sym_assert(is(m.key(), a) && is(m.value(), c), "replacing the value of a member keeps its key");
    auto v = m.claim();
    sym_assert(is(v.get(), c) && !m.value() && is(m.key(), a), "claiming the value of a member leaves the key");
    dsd::Enum en(build(a));
    auto ev = en.claim();
    sym_assert(is(ev.get(), a) && !en.value(), "claiming the value of an enum");
    dsd::Holder h(build(list(Array, b)));
    auto hv = h.claim();
    sym_assert(is(hv.get(), list(Array, b)) && !h.data(), "claiming the content of a holder");
    sym_reach("variadic");
}
// ---- properties of objects
static bool keyIs(const Node& n, const std::string& k) { return n.k == Member && n.has && n.kids.size() == 2 && n.kids[0].k == String && n.kids[0].has && n.kids[0].s == k; }
HARNESS(properties)
{
    dsd::Object d;
    std::vector<Node> m;
    for (size_t i = sym_range("n", 0, BOUND(3, 3)); i > 0; --i) {
        Node c;
        switch (sym_range("child", 0, 4)) {
            case 0: c = member(sym1("key"), value(Bool)); break;
            case 1: c = refTo("T"); break;
            case 2: c = member(node(String), null()); break;
            case 3: c = node(Member); break;
            default: c = list(Select, list(Option, member("a", null())));
        }
        m.push_back(c);
        d.insert(d.end(), build(c));
    }
    std::string k = sym1("k");
    size_t at = 0;
    while (at < m.size() && !keyIs(m[at], k)) ++at;
    sym_assert((size_t)(d.find(k) - d.begin()) == at, "find gives the first member with the key, or the end");
    Node v = value(Number);
    switch (sym_range("op", 0, 2)) {
        case 0: {
            auto it = d.addMember(k, build(v));
            if (at < m.size()) m.erase(m.begin() + at);
            m.push_back(member(k, v));
            sym_assert(holds(d, m), "adding a property replaces the member of the same key and appends the new one");
            sym_assert(it + 1 == d.end(), "adding a property returns the new member");
            break;
        }
        case 1: {
            Node x = member(k, v);
            d.push_back(build(x));
            if (at < m.size()) {
                sym_reach("replaced");
                m.erase(m.begin() + at);
            }
            m.push_back(x);
            sym_assert(holds(d, m), "pushing a member replaces the member of the same key");
            break;
        }
        case 2: {
            Node x = sym_bool("ref") ? refTo(k) : member(node(String), v);
            d.push_back(build(x));
            m.push_back(x);
            sym_assert(holds(d, m), "pushing anything else keeps all children");
            break;
        }
    }
}
