//@ all: time=60
//@ bound: names of up to 10 octets against the reserved names; registries of up to 3 types with symbolic one-byte parents; sequences of 1 operation on a fresh and 2 on an emptied registry with symbolic one-byte names
//@ assume: type names hold no NUL octet
#include "elem.h"
#include <refract/Exception.h>
#include <refract/Registry.h>
using namespace model;

static const char* const RESERVED[] = { "array", "boolean", "enum", "extend", "generic", "member", "null", "number", "object", "option", "ref", "select", "string" };

HARNESS(reserved)
{
    std::string w = sym_str("name", 0, 10);
    for (char c : w) sym_assume(c != 0);
    int want = 0;
    for (auto r : RESERVED) want |= ::ref::eq(w, r);
    bool got = refract::isReserved(w);
    sym_observe("reserved", got);
    sym_assert(got == (want != 0), "exactly the names of the basic elements are reserved");
    sym_assert(refract::isReserved(w.c_str()) == got, "both spellings agree");
    if (got) sym_reach("reserved");
    else sym_reach("free");
}

struct Type {
    std::string name, parent; // parent empty: a basic element
    Node n;
};
static bool sameName(const std::string& a, const std::string& b) { return ::ref::eq(a, b) != 0; }
static Node typeNode(const Type& t)
{
    Node n = t.n;
    n.name = t.parent;
    n.meta.insert(n.meta.begin(), { "id", str(t.name) });
    return n;
}

static const std::pair<const char*, Kind> base[] = { { "boolean", Bool }, { "number", Number }, { "string", String }, { "array", Array }, { "object", Object }, { "enum", Enum }, { "null", Null } };
static void operations(bool cleared, int steps)
{
    Registry r;
    std::vector<std::pair<std::string, Node> > ref;
    for (auto& b : base) ref.emplace_back(b.first, node(b.second));
    if (cleared) {
        r.clear();
        ref.clear();
        sym_reach("cleared");
    }
    auto find = [&](const std::string& n) {
        size_t i = 0;
        while (i < ref.size() && !sameName(ref[i].first, n)) ++i;
        return i;
    };
    auto some = [&](const char* what) {
        if (!cleared && sym_bool("builtin")) return std::string(base[sym_range("which", 0, 6)].first);
        std::string n = sym1(what);
        sym_assume(n[0] != 0);
        return n;
    };
    for (int step = 0; step < steps; ++step) {
        std::string name = some("name");
        size_t at = find(name);
        if (sym_bool("add")) {
            Node n = value(String);
            int form = (int)sym_range("id", 0, step ? 0 : 2);
            if (form == 0) n.meta.emplace_back("id", str(name));
            if (form == 1) n.meta.emplace_back("id", boolean(true));
            if (form == 2) n.meta.emplace_back("name", str(name));
            bool error = false, added = false, reserved = name.size() > 1;
            auto e = build(n);
            auto p = e.get();
            try {
                added = r.add(std::move(e));
            } catch (const LogicError&) {
                error = true;
            }
            sym_assert(error == (form || reserved), "an element without a string id and a basic element are refused");
            if (!error) {
                sym_assert(added == (at == ref.size()), "a type is added exactly when its name is free");
                if (at == ref.size()) {
                    ref.emplace_back(name, n);
                    sym_assert(r.find(name) == p, "the registered type is the one added");
                    sym_reach("added");
                } else
                    sym_reach("duplicate");
            } else
                sym_reach("refused");
        } else {
            bool removed = r.remove(name);
            sym_assert(removed == (at != ref.size()), "removal succeeds exactly for a known name");
            if (removed) ref.erase(ref.begin() + at), sym_reach("removed");
        }
    }
    std::string probe = some("probe");
    size_t i = find(probe);
    auto e = r.find(probe);
    sym_assert(!e == (i == ref.size()), "a name is found exactly when registered");
    if (e && i < ref.size()) sym_assert(is(*e, ref[i].second), "the type found is the one of that name");
    for (auto& t : ref) {
        auto e = r.find(t.first);
        sym_assert(e && is(*e, t.second), "every registered type is found");
    }
}
HARNESS(fresh) { operations(false, 1); }
HARNESS(emptied) { operations(true, BOUND(2, 3)); }

// the root of a chain of inheritance
HARNESS(ancestors)
{
    size_t n = (size_t)sym_range("types", 0, BOUND(3, 4));
    std::vector<Type> ts;
    Registry r;
    for (size_t i = 0; i < n; ++i) {
        Type t;
        static const char* names[] = { "M", "K", "X", "C" };
        t.name = names[i];
        t.n = node(pick({ String, Object }));
        if (sym_bool("inherits")) {
            t.parent = sym1("parent");
            sym_assume(t.parent[0] != 0);
        }
        ts.push_back(t);
        r.add(build(typeNode(t)));
    }
    std::string name = sym1("start");
    sym_assume(name[0] != 0);
    auto find = [&](const std::string& k) {
        size_t i = 0;
        while (i < ts.size() && !sameName(ts[i].name, k)) ++i;
        return i;
    };
    size_t i = find(name);
    const IElement* got = FindRootAncestor(name, r);
    if (i == ts.size()) {
        sym_assert(!got, "an unknown type has no ancestor");
        sym_reach("unknown");
        return;
    }
    std::vector<bool> seen(n);
    const IElement* want = nullptr;
    bool cycle = false;
    while (true) {
        if (seen[i]) {
            cycle = true;
            break;
        }
        seen[i] = true;
        want = r.find(ts[i].name);
        if (ts[i].parent.empty()) { // the basic element the chain ends in
            sym_reach("chain");
            break;
        }
        size_t p = find(ts[i].parent);
        if (p == ts.size()) {
            sym_reach("unresolved");
            break;
        }
        i = p;
    }
    if (cycle) {
        sym_reach("cycle");
        size_t on = n;
        for (size_t k = 0; k < n; ++k)
            if (seen[k] && got == r.find(ts[k].name)) on = k;
        sym_assert(on < n, "an ancestor in a circle is one of its types");
    } else {
        sym_assert(got == want, "the root ancestor is the last type of the chain before a basic element or an unknown name");
    }
}
HARNESS(ancestor_of_basic)
{
    static const char* names[] = { "boolean", "number", "string", "array", "object", "enum", "null" };
    Registry r;
    const char* b = names[sym_range("base", 0, 6)];
    sym_assert(FindRootAncestor(b, r) == r.find(b) && r.find(b), "a basic element is its own root");
    sym_reach("basic");
}
