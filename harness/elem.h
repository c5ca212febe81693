// Model of a Refract element tree: generated first, built through the public constructors, and compared with what the code returns.
#pragma once
#include "ref.h"
#include <refract/Element.h>
#include <refract/InfoElements.h>
#include <refract/ElementUtils.h>
#include <initializer_list>
#include <memory>
#include <utility>
namespace model
{
    using namespace refract;
    enum Kind { Null, String, Number, Bool, Ref, Array, Object, Extend, Option, Enum, Holder, Member, Select, None };
    struct Node {
        Kind k = None;
        bool has = false;      // whether the element has content
        std::string name;      // element name; empty means the default of its kind
        std::string s;         // string, number or symbol
        bool b = false;
        std::vector<Node> kids; // children; Enum and Holder: 0 or 1; Member: key, value (None when absent)
        std::vector<std::pair<std::string, Node> > meta, attr;
        explicit operator bool() const { return k != None; }
    };
    inline const char* defaultName(Kind k)
    {
        static const char* n[] = { "null", "string", "number", "boolean", "ref", "array", "object", "extend", "option", "enum", "", "member", "select" };
        return n[k];
    }
    inline Node node(Kind k) { Node n; n.k = k; return n; }
    inline Node str(const std::string& s) { Node n; n.k = String; n.has = true; n.s = s; return n; }
    inline Node num(const std::string& s) { Node n = str(s); n.k = Number; return n; }
    inline Node boolean(bool b) { Node n; n.k = Bool; n.has = true; n.b = b; return n; }
    inline Node null() { Node n; n.k = Null; n.has = true; return n; }
    inline Node refTo(const std::string& s) { Node n = str(s); n.k = Ref; return n; }
    template <typename... N>
    Node list(Kind k, N... kids) { Node n; n.k = k; n.has = true; (void)std::initializer_list<int>{ (n.kids.push_back(kids), 0)... }; return n; }
    inline Node member(Node key, Node value) { return list(Member, key, value); }
    inline Node member(const std::string& key, Node value) { return list(Member, str(key), value); }

    std::unique_ptr<IElement> build(const Node& n);

    template <typename E>
    std::unique_ptr<E> wrap(const Node& n, typename E::ValueType d)
    {
        std::unique_ptr<E> e;
        if (n.has) e.reset(new E(std::move(d)));
        else e.reset(new E);
        if (!n.name.empty()) e->element(n.name);
        for (auto& m : n.meta) e->meta().set(m.first, build(m.second));
        for (auto& m : n.attr) e->attributes().set(m.first, build(m.second));
        return e;
    }
    template <typename D>
    D seq(const Node& n)
    {
        D d;
        for (auto& k : n.kids) d.insert(d.end(), build(k));
        return d;
    }
    inline std::unique_ptr<OptionElement> buildOption(const Node& n) { return wrap<OptionElement>(n, seq<dsd::Option>(n)); }
    inline std::unique_ptr<IElement> build(const Node& n)
    {
        switch (n.k) {
            case Null: return wrap<NullElement>(n, dsd::Null{});
            case String: return wrap<StringElement>(n, dsd::String{ n.s });
            case Number: return wrap<NumberElement>(n, dsd::Number{ n.s });
            case Bool: return wrap<BooleanElement>(n, dsd::Boolean{ n.b });
            case Ref: return wrap<RefElement>(n, dsd::Ref{ n.s });
            case Array: return wrap<ArrayElement>(n, seq<dsd::Array>(n));
            case Object: return wrap<ObjectElement>(n, seq<dsd::Object>(n));
            case Extend: return wrap<ExtendElement>(n, seq<dsd::Extend>(n));
            case Option: return buildOption(n);
            case Enum: return wrap<EnumElement>(n, n.kids.empty() ? dsd::Enum{} : dsd::Enum{ build(n.kids[0]) });
            case Holder: return wrap<HolderElement>(n, n.kids.empty() ? dsd::Holder{} : dsd::Holder{ build(n.kids[0]) });
            case Member: {
                dsd::Member m;
                if (n.kids.size() == 2) {
                    if (n.kids[0]) m = dsd::Member{ build(n.kids[0]), nullptr };
                    if (n.kids[1]) m.value(build(n.kids[1]));
                }
                return wrap<MemberElement>(n, std::move(m));
            }
            case Select: {
                dsd::Select s;
                for (auto& k : n.kids) s.insert(s.end(), buildOption(k));
                return wrap<SelectElement>(n, std::move(s));
            }
            default: return nullptr;
        }
    }
    inline Kind kindOf(const IElement& e)
    {
        if (refract::get<const NullElement>(&e)) return Null;
        if (refract::get<const StringElement>(&e)) return String;
        if (refract::get<const NumberElement>(&e)) return Number;
        if (refract::get<const BooleanElement>(&e)) return Bool;
        if (refract::get<const RefElement>(&e)) return Ref;
        if (refract::get<const ArrayElement>(&e)) return Array;
        if (refract::get<const ObjectElement>(&e)) return Object;
        if (refract::get<const ExtendElement>(&e)) return Extend;
        if (refract::get<const OptionElement>(&e)) return Option;
        if (refract::get<const EnumElement>(&e)) return Enum;
        if (refract::get<const HolderElement>(&e)) return Holder;
        if (refract::get<const MemberElement>(&e)) return Member;
        if (refract::get<const SelectElement>(&e)) return Select;
        return None;
    }
    // the tree as it is, read back through the public accessors
    Node read(const IElement* e);
    template <typename E>
    void kids(Node& n, const IElement& e)
    {
        for (auto& c : static_cast<const E&>(e).get()) n.kids.push_back(read(c.get()));
    }
    inline Node read(const IElement* e)
    {
        Node n;
        if (!e) return n;
        n.k = kindOf(*e);
        n.has = !e->empty();
        n.name = e->element();
        if (n.name == defaultName(n.k)) n.name.clear();
        for (auto& m : e->meta()) n.meta.emplace_back(m.first, read(m.second.get()));
        for (auto& m : e->attributes()) n.attr.emplace_back(m.first, read(m.second.get()));
        if (!n.has) return n;
        switch (n.k) {
            case String: n.s = static_cast<const StringElement&>(*e).get().get(); break;
            case Number: n.s = static_cast<const NumberElement&>(*e).get().get(); break;
            case Bool: n.b = static_cast<const BooleanElement&>(*e).get().get(); break;
            case Ref: n.s = static_cast<const RefElement&>(*e).get().symbol(); break;
            case Array: kids<ArrayElement>(n, *e); break;
            case Object: kids<ObjectElement>(n, *e); break;
            case Extend: kids<ExtendElement>(n, *e); break;
            case Option: kids<OptionElement>(n, *e); break;
            case Select: kids<SelectElement>(n, *e); break;
            case Enum:
                if (auto v = static_cast<const EnumElement&>(*e).get().value()) n.kids.push_back(read(v));
                break;
            case Holder:
                if (auto v = static_cast<const HolderElement&>(*e).get().data()) n.kids.push_back(read(v));
                break;
            case Member: {
                auto& m = static_cast<const MemberElement&>(*e).get();
                n.kids.push_back(read(m.key()));
                n.kids.push_back(read(m.value()));
                break;
            }
            default: break;
        }
        return n;
    }
    // structural equality; branch-free over the symbolic parts. flags: compare element names
    inline int same(const Node& a, const Node& b, bool names = true)
    {
        if (a.k != b.k) return 0;
        if (a.k == None) return 1;
        if (a.has != b.has || a.meta.size() != b.meta.size() || a.attr.size() != b.attr.size()) return 0;
        int ok = names ? ::ref::eq(a.name, b.name) : 1;
        for (size_t i = 0; i < a.meta.size(); ++i) ok &= ::ref::eq(a.meta[i].first, b.meta[i].first) & same(a.meta[i].second, b.meta[i].second, names);
        for (size_t i = 0; i < a.attr.size(); ++i) ok &= ::ref::eq(a.attr[i].first, b.attr[i].first) & same(a.attr[i].second, b.attr[i].second, names);
        if (!a.has) return ok;
        if (a.k == Member && a.kids.size() != b.kids.size()) { // an absent pair reads back as two absent elements
            auto& m = a.kids.size() ? a : b;
            return ok & (m.kids.size() == 2 && !m.kids[0] && !m.kids[1]);
        }
        if (a.kids.size() != b.kids.size()) return 0;
        ok &= (a.b == b.b) & ::ref::eq(a.s, b.s);
        for (size_t i = 0; i < a.kids.size(); ++i) ok &= same(a.kids[i], b.kids[i], names);
        return ok;
    }
    inline int is(const IElement* e, const Node& n) { return same(read(e), n); }
    inline int is(const IElement& e, const Node& n) { return same(read(&e), n); }

    // ---- every element of a tree, by address
    inline void addresses(const IElement* e, std::vector<const IElement*>& out);
    template <typename E>
    void kidAddresses(const IElement& e, std::vector<const IElement*>& out)
    {
        for (auto& c : static_cast<const E&>(e).get()) addresses(c.get(), out);
    }
    inline void addresses(const IElement* e, std::vector<const IElement*>& out)
    {
        if (!e) return;
        out.push_back(e);
        for (auto& m : e->meta()) addresses(m.second.get(), out);
        for (auto& m : e->attributes()) addresses(m.second.get(), out);
        if (e->empty()) return;
        switch (kindOf(*e)) {
            case Array: kidAddresses<ArrayElement>(*e, out); break;
            case Object: kidAddresses<ObjectElement>(*e, out); break;
            case Extend: kidAddresses<ExtendElement>(*e, out); break;
            case Option: kidAddresses<OptionElement>(*e, out); break;
            case Select: kidAddresses<SelectElement>(*e, out); break;
            case Enum: addresses(static_cast<const EnumElement&>(*e).get().value(), out); break;
            case Holder: addresses(static_cast<const HolderElement&>(*e).get().data(), out); break;
            case Member:
                addresses(static_cast<const MemberElement&>(*e).get().key(), out);
                addresses(static_cast<const MemberElement&>(*e).get().value(), out);
                break;
            default: break;
        }
    }
    inline bool disjoint(const IElement* a, const IElement* b)
    {
        std::vector<const IElement*> x, y;
        addresses(a, x);
        addresses(b, y);
        for (auto p : x)
            for (auto q : y)
                if (p == q) return false;
        return true;
    }

    // ---- generation
    inline Kind pick(std::initializer_list<Kind> ks)
    {
        return ks.begin()[sym_range("kind", 0, ks.size() - 1)];
    }
    inline std::string sym1(const char* name, size_t n = 1) { return sym_str_n(name, n); }
    // a leaf of the given kind with symbolic content (string values of 1 byte)
    inline Node leaf(Kind k)
    {
        Node n = node(k);
        n.has = sym_bool("has");
        if (k == Null || !n.has) return n;
        if (k == Bool) n.b = sym_sbool("b");
        else n.s = sym1("s");
        return n;
    }
    inline Node value(Kind k) // a leaf with content
    {
        Node n = node(k);
        n.has = true;
        if (k == Bool) n.b = sym_sbool("b");
        else if (k != Null) n.s = sym1("s");
        return n;
    }
    // any tree: kinds at this level, at most maxKids children, depth levels below
    inline Node any(std::initializer_list<Kind> ks, std::initializer_list<Kind> inner, int depth, size_t maxKids)
    {
        Kind k = pick(ks);
        if (k <= Ref) return leaf(k);
        Node n = node(k);
        n.has = sym_bool("has");
        if (!n.has) return n;
        auto kid = [&]() {
            if (depth > 0) return any(inner, inner, depth - 1, maxKids);
            return value(String);
        };
        switch (k) {
            case Enum:
            case Holder:
                if (sym_bool("set")) n.kids.push_back(kid());
                break;
            case Member:
                n.kids.push_back(sym_bool("key") ? kid() : Node());
                n.kids.push_back(sym_bool("value") ? kid() : Node());
                break;
            case Select:
                for (size_t i = sym_range("n", 0, maxKids); i > 0; --i) n.kids.push_back(list(Option, kid()));
                break;
            default:
                for (size_t i = sym_range("n", 0, maxKids); i > 0; --i) n.kids.push_back(kid());
        }
        return n;
    }
}
