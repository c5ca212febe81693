//@ bound: collections of 0..3 entries with symbolic one-byte keys (duplicates included) and one operation with any key; sequences of 3 operations over two keys
#include "elem.h"
#include <refract/InfoElementsUtils.h>
using namespace model;
typedef std::vector<std::pair<std::string, Node> > Model;

static int is(const InfoElements& ie, const Model& m)
{
    if (ie.size() != m.size() || ie.empty() != m.empty()) return 0;
    int ok = 1;
    size_t i = 0;
    for (auto& e : ie) {
        if (i >= m.size()) return 0;
        ok &= ::ref::eq(e.first, m[i].first) & model::is(e.second.get(), m[i].second);
        ++i;
    }
    return ok & (i == m.size());
}
static std::unique_ptr<IElement> mk(const Node& n) { return build(n); }
static Model state(InfoElements& ie, size_t max, bool dups)
{
    Model m;
    for (size_t i = sym_range("n", 0, max); i > 0; --i) {
        std::string k = sym1("key");
        Node v = leaf(String);
        if (!dups)
            for (auto& o : m) sym_assume(!::ref::eq(o.first, k));
        m.emplace_back(k, v);
        InfoElements one;
        one.set(k, mk(v));
        ie.clone(one); // appends, also under a key already present
    }
    return m;
}
static size_t firstOf(const Model& m, const std::string& k)
{
    for (size_t i = 0; i < m.size(); ++i)
        if (m[i].first == k) return i;
    return m.size();
}
HARNESS(step)
{
    InfoElements ie;
    Model m = state(ie, BOUND(3, 4), true);
    sym_assert(is(ie, m), "entries keep their order");
    std::string k = sym1("k");
    Node v = sym_bool("list") ? list(Array, value(Bool)) : node(String);
    size_t at = firstOf(m, k);
    const InfoElements& ce = ie;
    sym_assert((size_t)(ie.find(k) - ie.begin()) == at && (size_t)(ce.find(k) - ce.begin()) == at, "find gives the first entry of the key, or the end");
    if (at < m.size()) sym_reach("present");
    else sym_reach("absent");
    switch (sym_range("op", 0, 6)) {
        case 0:
        case 1: {
            auto e = mk(v);
            IElement* p = e.get();
            IElement* r;
            if (sym_bool("copy")) {
                r = &ie.set(k, *e);
                sym_assert(r != p && model::is(p, v), "setting from a reference stores a clone");
            } else {
                r = &ie.set(k, std::move(e));
                sym_assert(r == p, "setting from a pointer stores that element");
            }
            if (at < m.size()) m[at].second = v;
            else m.emplace_back(k, v);
            sym_assert(is(ie, m), "set replaces the entry of the key in place or appends a new one");
            sym_assert(r == ie.find(k)->second.get(), "set returns the stored element");
            break;
        }
        case 2: {
            ie.erase(k);
            Model w;
            for (auto& e : m)
                if (!(e.first == k)) w.push_back(e);
            sym_assert(is(ie, w), "erasing a key removes exactly its entries");
            break;
        }
        case 3: {
            auto c = ie.claim(k);
            if (at < m.size()) {
                sym_assert(c && model::is(c.get(), m[at].second), "claim hands out the element of the key");
                m.erase(m.begin() + at);
            } else
                sym_assert(!c, "claiming an absent key gives nothing");
            sym_assert(is(ie, m), "claim removes exactly the claimed entry");
            break;
        }
        case 4: {
            if (m.empty()) return;
            size_t i = sym_range("i", 0, m.size() - 1);
            if (sym_bool("claim")) {
                auto c = ie.claim(ie.begin() + i);
                sym_assert(model::is(c.get(), m[i].second), "claim hands out the element of the entry");
            } else
                ie.erase(ie.begin() + i);
            m.erase(m.begin() + i);
            sym_assert(is(ie, m), "removing an entry removes exactly that entry");
            break;
        }
        case 5: {
            InfoElements copy(ie), assigned, moved;
            assigned = ie;
            sym_assert(is(copy, m) && is(assigned, m) && (copy == ie) && !(copy != ie), "a copy has equal entries");
            for (size_t i = 0; i < m.size(); ++i)
                sym_assert((copy.begin() + i)->second.get() != (ie.begin() + i)->second.get(), "a copy has elements of its own");
            ie.set(k, mk(v));
            sym_assert(is(copy, m) && is(assigned, m), "a copy is not affected by changes");
            InfoElements taken(std::move(copy));
            moved = std::move(assigned);
            sym_assert(is(taken, m) && is(moved, m), "moving keeps the entries");
            break;
        }
        case 6: {
            InfoElements other;
            Model o = state(other, 1, true);
            ie.clone(other);
            sym_assert(is(other, o), "the source of appended clones is unchanged");
            m.insert(m.end(), o.begin(), o.end());
            sym_assert(is(ie, m), "appending clones keeps existing entries and adds all others in order");
            ie.clear();
            sym_assert(is(ie, Model()), "clear removes everything");
            break;
        }
    }
}
HARNESS(append)
{
    InfoElements ie;
    Model m = state(ie, 1, false);
    std::string k = sym1("k");
    for (auto& o : m) sym_assume(!::ref::eq(o.first, k));
    Node arr = node(Array);
    bool there = sym_bool("there");
    if (there) {
        arr.has = sym_bool("filled");
        if (arr.has)
            for (size_t i = sym_range("n", 0, BOUND(2, 3)); i > 0; --i)
                arr.kids.push_back(sym_bool("str") ? value(String) : value(Number));
        ie.set(k, build(arr));
    }
    std::string v = sym_str("v", 0, 2);
    AppendInfoElement<ArrayElement>(ie, k, dsd::String{ v });
    bool had = false;
    for (auto& e : arr.kids) had = had || (e.k == String && e.s == v);
    arr.has = true;
    if (!had) arr.kids.push_back(str(v));
    m.emplace_back(k, arr);
    sym_assert(is(ie, m), "appending adds the value once and keeps everything else");
    if (had) sym_reach("already there");
    else if (there) sym_reach("added");
    else sym_reach("created");
    AppendInfoElement<ArrayElement>(ie, k, dsd::String{ v });
    sym_assert(is(ie, m), "appending a value again changes nothing");
}
