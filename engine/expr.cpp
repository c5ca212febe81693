#include "expr.h"
#include <chrono>
#include <map>

std::vector<VarInfo> gVars;
static std::unordered_set<E, EHash, EEq> gTab;
static uint32_t gNextId = 1;
static const VarSet gEmpty;
static uint64_t gStamp = 1;

Model::Model() : stamp(++gStamp) {}
Model::Model(const Model& o) : v(o.v), stamp(++gStamp) {}

static const VarSet* unionVars(const VarSet* x, const VarSet* y)
{
    if (x == y || y->empty()) return x;
    if (x->empty()) return y;
    if (std::includes(x->begin(), x->end(), y->begin(), y->end())) return x;
    if (std::includes(y->begin(), y->end(), x->begin(), x->end())) return y;
    static std::map<std::pair<const VarSet*, const VarSet*>, const VarSet*> cache;
    static std::map<VarSet, const VarSet*> intern;
    auto key = std::make_pair(x, y);
    auto it = cache.find(key);
    if (it != cache.end()) return it->second;
    VarSet r;
    std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(r));
    auto it2 = intern.find(r);
    if (it2 == intern.end()) it2 = intern.emplace(r, new VarSet(r)).first;
    cache[key] = it2->second;
    return it2->second;
}

static void interval(Expr& e)
{
    u128 M = maskw(e.w);
    e.lo = 0;
    e.hi = M;
    switch (e.op) {
        case OConst: e.lo = e.hi = e.k; break;
        case OZExt: e.lo = e.a->lo; e.hi = e.a->hi; break;
        case OIte: e.lo = std::min(e.b->lo, e.c->lo); e.hi = std::max(e.b->hi, e.c->hi); break;
        case OAdd:
            if (e.w < 128 && e.a->hi + e.b->hi <= M) { e.lo = e.a->lo + e.b->lo; e.hi = e.a->hi + e.b->hi; }
            break;
        case OMul:
            if (e.w <= 64 && (e.a->hi == 0 || e.b->hi <= M / e.a->hi)) { e.lo = e.a->lo * e.b->lo; e.hi = e.a->hi * e.b->hi; }
            break;
        case OSub:
            if (e.a->lo >= e.b->hi) { e.lo = e.a->lo - e.b->hi; e.hi = e.a->hi - e.b->lo; }
            break;
        case OAnd: e.hi = std::min(e.a->hi, e.b->hi); break;
        case OOr: case OXor: {
            u128 h = e.a->hi | e.b->hi;
            for (int s = 1; s < 128; s <<= 1) h |= h >> s;
            e.hi = h;
            if (e.op == OOr) e.lo = std::max(e.a->lo, e.b->lo);
            break;
        }
        case OShl:
            if (e.b->isC() && e.b->k < e.w && (e.a->hi <= (M >> (unsigned)e.b->k))) {
                e.lo = e.a->lo << (unsigned)e.b->k;
                e.hi = e.a->hi << (unsigned)e.b->k;
            }
            break;
        case OLShr:
            if (e.b->isC() && e.b->k < e.w) { e.lo = e.a->lo >> (unsigned)e.b->k; e.hi = e.a->hi >> (unsigned)e.b->k; }
            else e.hi = e.a->hi;
            break;
        case OUDiv:
            if (e.b->isC() && e.b->k) { e.lo = e.a->lo / e.b->k; e.hi = e.a->hi / e.b->k; }
            break;
        case OURem:
            if (e.b->isC() && e.b->k) e.hi = std::min(e.a->hi, e.b->k - 1);
            break;
        case OExtract:
            if (e.k == 0 && e.a->hi <= M) { e.lo = e.a->lo; e.hi = e.a->hi; }
            break;
        case OConcat:
            e.lo = (e.a->lo << e.b->w) | e.b->lo;
            e.hi = (e.a->hi << e.b->w) | e.b->hi;
            break;
        default: break;
    }
}

static E intern(Op op, unsigned w, E a, E b, E c, u128 k)
{
    Expr t;
    t.op = op;
    t.w = w;
    t.a = a;
    t.b = b;
    t.c = c;
    t.k = k;
    auto it = gTab.find(&t);
    if (it != gTab.end()) return *it;
    Expr* e = new Expr(t);
    e->id = gNextId++;
    e->stamp = 0;
    e->z = nullptr;
    e->vars = &gEmpty;
    e->undef = false;
    for (E x : { a, b, c })
        if (x) {
            e->vars = unionVars(e->vars, x->vars);
            e->undef |= x->undef;
        }
    if (op == OVar) {
        e->vars = new VarSet{ (uint32_t)k };
        e->undef = gVars[(uint32_t)k].undef;
    }
    interval(*e);
    gTab.insert(e);
    return e;
}

E mkConst(u128 v, unsigned w) { return intern(OConst, w, nullptr, nullptr, nullptr, v & maskw(w)); }
E mkVar(const std::string& name, unsigned w, bool undef)
{
    gVars.push_back({ name, (uint16_t)w, undef });
    return intern(OVar, w, nullptr, nullptr, nullptr, gVars.size() - 1);
}

u128 evalBin(Op op, u128 a, u128 b, unsigned w)
{
    u128 M = maskw(w);
    switch (op) {
        case OAdd: return (a + b) & M;
        case OSub: return (a - b) & M;
        case OMul: return (a * b) & M;
        case OUDiv: return b ? a / b : M;
        case OURem: return b ? a % b : a;
        case OSDiv: {
            s128 x = sx(a, w), y = sx(b, w);
            if (y == 0) return x < 0 ? 1 : M;
            if (y == -1) return (u128)(-x) & M;
            return (u128)(x / y) & M;
        }
        case OSRem: {
            s128 x = sx(a, w), y = sx(b, w);
            if (y == 0) return a;
            if (y == -1) return 0;
            return (u128)(x % y) & M;
        }
        case OAnd: return a & b;
        case OOr: return a | b;
        case OXor: return a ^ b;
        case OShl: return b >= w ? 0 : (a << (unsigned)b) & M;
        case OLShr: return b >= w ? 0 : a >> (unsigned)b;
        case OAShr: {
            s128 x = sx(a, w);
            unsigned s = b >= w ? w - 1 : (unsigned)b;
            return (u128)(x >> s) & M;
        }
        case OEq: return a == b;
        case OUlt: return a < b;
        case OUle: return a <= b;
        case OSlt: return sx(a, w) < sx(b, w);
        case OSle: return sx(a, w) <= sx(b, w);
        default: abort();
    }
}

static bool isCmp(Op op) { return op >= OEq && op <= OSle; }
static bool isComm(Op op) { return op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor || op == OEq; }

E mkNot(E a)
{
    if (a->isC()) return mkConst(!a->k, 1);
    if (a->op == OXor && a->w == 1 && a->b->isC()) return a->a;
    return intern(OXor, 1, a, mkConst(1, 1), nullptr, 0);
}

static bool constLeafIte(E e, int depth)
{
    if (e->isC()) return true;
    return e->op == OIte && depth > 0 && constLeafIte(e->b, depth - 1) && constLeafIte(e->c, depth - 1);
}

E mkBin(Op op, E a, E b)
{
    unsigned w = a->w;
    if (a->w != b->w) {
        fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->w, b->w);
        abort();
    }
    unsigned rw = isCmp(op) ? 1 : w;
    if (a->isC() && b->isC()) return mkConst(evalBin(op, a->k, b->k, w), rw);
    if (isComm(op) && (a->isC() || (!b->isC() && a->id > b->id))) std::swap(a, b);
    u128 M = maskw(w);
    // distribute over ite trees with constant leaves
    if (b->isC() && a->op == OIte && constLeafIte(a, 12))
        return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    if (a->isC() && b->op == OIte && constLeafIte(b, 12))
        return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
    switch (op) {
        case OAdd:
            if (b->isC()) {
                if (b->k == 0) return a;
                if (a->op == OAdd && a->b->isC()) return mkBin(OAdd, a->a, mkConst(a->b->k + b->k, w));
            }
            if (a->op == OAdd && a->b->isC()) return mkBin(OAdd, mkBin(OAdd, a->a, b), a->b);
            if (!b->isC() && b->op == OAdd && b->b->isC()) return mkBin(OAdd, mkBin(OAdd, a, b->a), b->b);
            if (a->op == OSub && a->b == b) return a->a;
            if (b->op == OSub && b->b == a) return b->a;
            break;
        case OSub:
            if (b->isC()) return mkBin(OAdd, a, mkConst((~b->k + 1) & M, w));
            if (a == b) return mkConst(0, w);
            if (a->op == OAdd && a->b->isC()) {
                if (b->op == OAdd && b->b->isC())
                    return mkBin(OAdd, mkBin(OSub, a->a, b->a), mkConst((a->b->k - b->b->k) & M, w));
                return mkBin(OAdd, mkBin(OSub, a->a, b), a->b);
            }
            if (a->op == OAdd && a->a == b) return a->b;
            if (a->op == OAdd && a->b == b) return a->a;
            if (b->op == OAdd && b->b->isC())
                return mkBin(OAdd, mkBin(OSub, a, b->a), mkConst((~b->b->k + 1) & M, w));
            break;
        case OMul:
            if (b->isC()) {
                if (b->k == 0) return b;
                if (b->k == 1) return a;
                for (unsigned i = 1; i < w && i < 64; ++i)
                    if (b->k == ((u128)1 << i)) return mkBin(OShl, a, mkConst(i, w));
            }
            break;
        case OUDiv:
            if (b->isC() && b->k == 1) return a;
            if (b->isC() && b->k && !(b->k & (b->k - 1))) {
                unsigned i = 0;
                while (((u128)1 << i) != b->k) ++i;
                return mkBin(OLShr, a, mkConst(i, w));
            }
            break;
        case OURem:
            if (b->isC() && b->k && !(b->k & (b->k - 1))) return mkBin(OAnd, a, mkConst(b->k - 1, w));
            break;
        case OAnd:
            if (a == b) return a;
            if (b->isC()) {
                if (b->k == 0) return b;
                if (b->k == M) return a;
                if (a->op == OAnd && a->b->isC()) return mkBin(OAnd, a->a, mkConst(a->b->k & b->k, w));
                // low mask -> zext(extract)
                if (!((b->k + 1) & b->k)) {
                    unsigned n = 0;
                    while (((u128)1 << n) - 1 != b->k) ++n;
                    return mkZExt(mkExtract(a, 0, n), w);
                }
                if (a->op == OZExt) {
                    return mkZExt(mkBin(OAnd, a->a, mkConst(b->k & maskw(a->a->w), a->a->w)), w);
                }
            }
            if (w == 1) {
                if (a == mkNot(b) || b == mkNot(a)) return mkConst(0, 1);
                if (a->op == OAnd && (a->a == b || a->b == b)) return a;
                if (b->op == OAnd && (b->a == a || b->b == a)) return b;
            }
            break;
        case OOr:
            if (a == b) return a;
            if (b->isC()) {
                if (b->k == 0) return a;
                if (b->k == M) return b;
            }
            if (w == 1) {
                if (a == mkNot(b) || b == mkNot(a)) return mkConst(1, 1);
            } else {
                // (zext a) | (x << n) with disjoint bits -> concat
                for (int sw = 0; sw < 2; ++sw) {
                    E x = sw ? b : a, y = sw ? a : b;
                    if (y->op == OConcat && y->b->isC() && y->b->k == 0 && x->op == OZExt && x->a->w <= y->b->w)
                        return mkConcat(y->a, mkZExt(x->a, y->b->w));
                    if (y->op == OConcat && y->b->isC() && y->b->k == 0 && x->op == OConcat && x->a->isC()
                        && x->a->k == 0 && x->b->w <= y->b->w)
                        return mkConcat(y->a, mkZExt(x->b, y->b->w));
                    if (y->op == OZExt && x->op == OZExt) {
                        unsigned mw = std::max(x->a->w, y->a->w);
                        if (mw < w) return mkZExt(mkBin(OOr, mkZExt(x->a, mw), mkZExt(y->a, mw)), w);
                    }
                }
            }
            break;
        case OXor:
            if (a == b) return mkConst(0, w);
            if (b->isC() && b->k == 0) return a;
            if (b->isC() && a->op == OXor && a->b->isC()) return mkBin(OXor, a->a, mkConst(a->b->k ^ b->k, w));
            break;
        case OShl:
            if (b->isC()) {
                if (b->k == 0) return a;
                if (b->k >= w) return mkConst(0, w);
                unsigned s = (unsigned)b->k;
                return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
            }
            break;
        case OLShr:
            if (b->isC()) {
                if (b->k == 0) return a;
                if (b->k >= w) return mkConst(0, w);
                unsigned s = (unsigned)b->k;
                return mkZExt(mkExtract(a, s, w - s), w);
            }
            break;
        case OAShr:
            if (b->isC()) {
                if (b->k == 0) return a;
                unsigned s = b->k >= w ? w - 1 : (unsigned)b->k;
                return mkSExt(mkExtract(a, s, w - s), w);
            }
            break;
        case OEq:
            if (a == b) return mkConst(1, 1);
            if (b->isC()) {
                if (b->k < a->lo || b->k > a->hi) return mkConst(0, 1);
                if (w == 1) return b->k ? a : mkNot(a);
                if (a->op == OZExt) return mkBin(OEq, a->a, mkConst(b->k, a->a->w));
                if (a->op == OSExt) {
                    u128 t = b->k & maskw(a->a->w);
                    if (((u128)sx(t, a->a->w) & M) != b->k) return mkConst(0, 1);
                    return mkBin(OEq, a->a, mkConst(t, a->a->w));
                }
                if (a->op == OConcat)
                    return mkBin(OAnd, mkBin(OEq, a->a, mkConst(b->k >> a->b->w, a->a->w)),
                        mkBin(OEq, a->b, mkConst(b->k, a->b->w)));
                if (a->op == OAdd && a->b->isC()) return mkBin(OEq, a->a, mkConst((b->k - a->b->k) & M, w));
                if (a->op == OXor && a->b->isC()) return mkBin(OEq, a->a, mkConst(b->k ^ a->b->k, w));
                if (a->op == OSub && b->k == 0) return mkBin(OEq, a->a, a->b);
                if (a->op == OSub && a->a->isC()) return mkBin(OEq, a->b, mkConst((a->a->k - b->k) & M, w));
                if (a->op == OIte) {
                    if (a->b->isC() || a->c->isC()) return mkIte(a->a, mkBin(OEq, a->b, b), mkBin(OEq, a->c, b));
                }
            } else {
                if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1);
                if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkBin(OEq, a->a, b->a);
                if (a->op == OAdd && b->op == OAdd && a->b == b->b) return mkBin(OEq, a->a, b->a);
            }
            break;
        case OUlt:
            if (a == b) return mkConst(0, 1);
            if (a->hi < b->lo) return mkConst(1, 1);
            if (a->lo >= b->hi) return mkConst(0, 1);
            if (a->op == OZExt && b->op == OZExt && a->a->w == b->a->w) return mkBin(OUlt, a->a, b->a);
            if (a->op == OZExt && b->isC()) return mkBin(OUlt, a->a, mkConst(b->k, a->a->w));
            if (b->op == OZExt && a->isC()) return mkBin(OUlt, mkConst(a->k, b->a->w), b->a);
            if (b->isC() && b->k == 1) return mkBin(OEq, a, mkConst(0, w));
            break;
        case OUle:
            return mkNot(mkBin(OUlt, b, a));
        case OSlt:
            if (a == b) return mkConst(0, 1);
            {
                u128 S = (u128)1 << (w - 1);
                if (a->hi < S && b->hi < S) return mkBin(OUlt, a, b);
                if (a->op == OSExt && b->op == OSExt && a->a->w == b->a->w) return mkBin(OSlt, a->a, b->a);
                if (a->op == OSExt && b->isC()) {
                    s128 v = sx(b->k, w);
                    unsigned n = a->a->w;
                    s128 mx = sx(maskw(n - 1), n), mn = -mx - 1;
                    if (n == 1) { mx = 0; mn = -1; }
                    if (v > mx) return mkConst(1, 1);
                    if (v <= mn) return mkConst(0, 1);
                    return mkBin(OSlt, a->a, mkConst((u128)v, n));
                }
                if (b->op == OSExt && a->isC()) {
                    s128 v = sx(a->k, w);
                    unsigned n = b->a->w;
                    s128 mx = sx(maskw(n - 1), n), mn = -mx - 1;
                    if (n == 1) { mx = 0; mn = -1; }
                    if (v >= mx) return mkConst(0, 1);
                    if (v < mn) return mkConst(1, 1);
                    return mkBin(OSlt, mkConst((u128)v, n), b->a);
                }
                if (a->hi < S && b->isC()) return mkConst(0, 1); // b negative const
                if (b->hi < S && a->isC()) return mkConst(1, 1);
            }
            break;
        case OSle:
            return mkNot(mkBin(OSlt, b, a));
        default: break;
    }
    return intern(op, rw, a, b, nullptr, 0);
}

E mkIte(E c, E a, E b)
{
    if (c->isC()) return c->k ? a : b;
    if (a == b) return a;
    if (c->op == OXor && c->w == 1 && c->b->isC()) return mkIte(c->a, b, a);
    if (a->w == 1) {
        if (a->isC() && b->isC()) return a->k ? c : mkNot(c);
        if (a->isC()) return a->k ? mkBin(OOr, c, b) : mkBin(OAnd, mkNot(c), b);
        if (b->isC()) return b->k ? mkBin(OOr, mkNot(c), a) : mkBin(OAnd, c, a);
    }
    if (b->op == OIte && b->a == c) b = b->c;
    if (a->op == OIte && a->a == c) a = a->b;
    if (a == b) return a;
    if (b->op == OIte && b->b == a) return mkIte(mkBin(OOr, c, b->a), a, b->c);
    return intern(OIte, a->w, c, a, b, 0);
}

E mkZExt(E a, unsigned w)
{
    if (w == a->w) return a;
    if (a->isC()) return mkConst(a->k, w);
    if (a->op == OZExt) return mkZExt(a->a, w);
    if (a->op == OIte && constLeafIte(a, 12)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
    return intern(OZExt, w, a, nullptr, nullptr, 0);
}
E mkSExt(E a, unsigned w)
{
    if (w == a->w) return a;
    if (a->isC()) return mkConst((u128)sx(a->k, a->w), w);
    if (a->hi < ((u128)1 << (a->w - 1))) return mkZExt(a, w);
    if (a->op == OSExt) return mkSExt(a->a, w);
    if (a->op == OIte && constLeafIte(a, 12)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
    return intern(OSExt, w, a, nullptr, nullptr, 0);
}
E mkExtract(E a, unsigned low, unsigned w)
{
    if (low == 0 && w == a->w) return a;
    if (a->isC()) return mkConst(a->k >> low, w);
    switch (a->op) {
        case OExtract: return mkExtract(a->a, low + (unsigned)a->k, w);
        case OConcat:
            if (low >= a->b->w) return mkExtract(a->a, low - a->b->w, w);
            if (low + w <= a->b->w) return mkExtract(a->b, low, w);
            return mkConcat(mkExtract(a->a, 0, low + w - a->b->w), mkExtract(a->b, low, a->b->w - low));
        case OZExt:
            if (low >= a->a->w) return mkConst(0, w);
            if (low + w <= a->a->w) return mkExtract(a->a, low, w);
            return mkZExt(mkExtract(a->a, low, a->a->w - low), w);
        case OSExt:
            if (low + w <= a->a->w) return mkExtract(a->a, low, w);
            if (low == 0) return mkSExt(a->a, w);
            break;
        case OIte:
            if (a->b->isC() || a->c->isC() || a->b->op == OConcat || a->c->op == OConcat || a->b->op == OZExt || a->c->op == OZExt)
                return mkIte(a->a, mkExtract(a->b, low, w), mkExtract(a->c, low, w));
            break;
        case OAnd: case OOr: case OXor: return mkBin(a->op, mkExtract(a->a, low, w), mkExtract(a->b, low, w));
        case OAdd: case OSub: case OMul:
            if (low == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
            break;
        default: break;
    }
    return intern(OExtract, w, a, nullptr, nullptr, low);
}
E mkConcat(E h, E l)
{
    unsigned w = h->w + l->w;
    if (h->isC() && l->isC()) return mkConst((h->k << l->w) | l->k, w);
    if (h->isC() && h->k == 0) return mkZExt(l, w);
    if (h->op == OExtract && l->op == OExtract && h->a == l->a && h->k == l->k + l->w)
        return mkExtract(h->a, (unsigned)l->k, w);
    if (h->op == OExtract && h->a == l && h->k == l->w) return mkExtract(h->a, 0, w);
    if (l->op == OConcat) return mkConcat(mkConcat(h, l->a), l->b);
    if (h->op == OConcat && h->b->op == OExtract && l->op == OExtract && h->b->a == l->a && h->b->k == l->k + l->w)
        return mkConcat(h->a, mkExtract(l->a, (unsigned)l->k, h->b->w + l->w));
    if (h->op == OConcat && h->b->isC() && l->isC())
        return mkConcat(h->a, mkConst((h->b->k << l->w) | l->k, h->b->w + l->w));
    if (h->op == OIte && l->op == OIte && h->a == l->a)
        return mkIte(h->a, mkConcat(h->b, l->b), mkConcat(h->c, l->c));
    return intern(OConcat, w, h, l, nullptr, 0);
}

u128 evalE(E e, const Model& m)
{
    if (e->op == OConst) return e->k;
    if (e->stamp == m.stamp) return e->val;
    u128 r;
    switch (e->op) {
        case OVar: r = m.get((uint32_t)e->k) & maskw(e->w); break;
        case OIte: r = evalE(e->a, m) ? evalE(e->b, m) : evalE(e->c, m); break;
        case OZExt: r = evalE(e->a, m); break;
        case OSExt: r = (u128)sx(evalE(e->a, m), e->a->w) & maskw(e->w); break;
        case OExtract: r = (evalE(e->a, m) >> (unsigned)e->k) & maskw(e->w); break;
        case OConcat: r = (evalE(e->a, m) << e->b->w) | evalE(e->b, m); break;
        default: r = evalBin(e->op, evalE(e->a, m), evalE(e->b, m), e->a->w); break;
    }
    e->stamp = m.stamp;
    e->val = r;
    return r;
}

// ---------------------------------------------------------------- Z3
static Z3_context zc;
static Z3_solver zs;
static void zerr(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    abort();
}
void solverInit(unsigned timeoutMs)
{
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    zc = Z3_mk_context(cfg);
    Z3_set_error_handler(zc, zerr);
    zs = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
    Z3_solver_inc_ref(zc, zs);
    Z3_params p = Z3_mk_params(zc);
    Z3_params_inc_ref(zc, p);
    Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), timeoutMs);
    Z3_solver_set_params(zc, zs, p);
}
static Z3_ast toZ(E e);
static Z3_ast b2v(Z3_ast b)
{
    Z3_sort s = Z3_mk_bv_sort(zc, 1);
    return Z3_mk_ite(zc, b, Z3_mk_unsigned_int64(zc, 1, s), Z3_mk_unsigned_int64(zc, 0, s));
}
// boolean translation for width-1 expressions
static Z3_ast toZBool(E e)
{
    if (e->isC()) return e->k ? Z3_mk_true(zc) : Z3_mk_false(zc);
    switch (e->op) {
        case OEq: return Z3_mk_eq(zc, toZ(e->a), toZ(e->b));
        case OUlt: return Z3_mk_bvult(zc, toZ(e->a), toZ(e->b));
        case OSlt: return Z3_mk_bvslt(zc, toZ(e->a), toZ(e->b));
        default: {
            Z3_sort s = Z3_mk_bv_sort(zc, 1);
            return Z3_mk_eq(zc, toZ(e), Z3_mk_unsigned_int64(zc, 1, s));
        }
    }
}
static Z3_ast toZ(E e)
{
    if (e->z) return e->z;
    Z3_ast r = nullptr;
    switch (e->op) {
        case OConst: {
            if (e->w <= 64) r = Z3_mk_unsigned_int64(zc, (uint64_t)e->k, Z3_mk_bv_sort(zc, e->w));
            else
                r = Z3_mk_concat(zc, Z3_mk_unsigned_int64(zc, (uint64_t)(e->k >> 64), Z3_mk_bv_sort(zc, e->w - 64)),
                    Z3_mk_unsigned_int64(zc, (uint64_t)e->k, Z3_mk_bv_sort(zc, 64)));
            break;
        }
        case OVar: r = Z3_mk_const(zc, Z3_mk_int_symbol(zc, (int)e->k), Z3_mk_bv_sort(zc, e->w)); break;
        case OAdd: r = Z3_mk_bvadd(zc, toZ(e->a), toZ(e->b)); break;
        case OSub: r = Z3_mk_bvsub(zc, toZ(e->a), toZ(e->b)); break;
        case OMul: r = Z3_mk_bvmul(zc, toZ(e->a), toZ(e->b)); break;
        case OUDiv: r = Z3_mk_bvudiv(zc, toZ(e->a), toZ(e->b)); break;
        case OSDiv: r = Z3_mk_bvsdiv(zc, toZ(e->a), toZ(e->b)); break;
        case OURem: r = Z3_mk_bvurem(zc, toZ(e->a), toZ(e->b)); break;
        case OSRem: r = Z3_mk_bvsrem(zc, toZ(e->a), toZ(e->b)); break;
        case OAnd: r = Z3_mk_bvand(zc, toZ(e->a), toZ(e->b)); break;
        case OOr: r = Z3_mk_bvor(zc, toZ(e->a), toZ(e->b)); break;
        case OXor: r = Z3_mk_bvxor(zc, toZ(e->a), toZ(e->b)); break;
        case OShl: r = Z3_mk_bvshl(zc, toZ(e->a), toZ(e->b)); break;
        case OLShr: r = Z3_mk_bvlshr(zc, toZ(e->a), toZ(e->b)); break;
        case OAShr: r = Z3_mk_bvashr(zc, toZ(e->a), toZ(e->b)); break;
        case OEq: case OUlt: case OSlt: r = b2v(toZBool(e)); break;
        case OIte: r = Z3_mk_ite(zc, toZBool(e->a), toZ(e->b), toZ(e->c)); break;
        case OZExt: r = Z3_mk_zero_ext(zc, e->w - e->a->w, toZ(e->a)); break;
        case OSExt: r = Z3_mk_sign_ext(zc, e->w - e->a->w, toZ(e->a)); break;
        case OExtract: r = Z3_mk_extract(zc, (unsigned)e->k + e->w - 1, (unsigned)e->k, toZ(e->a)); break;
        case OConcat: r = Z3_mk_concat(zc, toZ(e->a), toZ(e->b)); break;
        default: abort();
    }
    Z3_inc_ref(zc, r);
    e->z = r;
    return r;
}

struct VecHash {
    size_t operator()(const std::vector<uint32_t>& v) const
    {
        uint64_t h = 1469598103934665603ull;
        for (auto x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; }
        return h;
    }
};
struct CacheEnt {
    int res;
    std::vector<std::pair<uint32_t, u128>> asg;
};
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> gCache;

int solveQuery(const std::vector<E>& cons, E q, const Model& base, MP& out, SolverStats& st)
{
    if (q->isC()) {
        if (!q->k) return 0;
        out = std::make_shared<Model>(base);
        return 1;
    }
    // independence slicing
    std::vector<char> in(cons.size(), 0);
    std::vector<uint32_t> vs(*q->vars);
    bool ch = true;
    std::vector<E> slice;
    std::vector<char> have(gVars.size(), 0);
    for (auto v : vs) have[v] = 1;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < cons.size(); ++i) {
            if (in[i]) continue;
            bool hit = false;
            for (auto v : *cons[i]->vars)
                if (have[v]) { hit = true; break; }
            if (hit) {
                in[i] = 1;
                slice.push_back(cons[i]);
                for (auto v : *cons[i]->vars)
                    if (!have[v]) { have[v] = 1; vs.push_back(v); ch = true; }
            }
        }
    }
    std::vector<uint32_t> key;
    for (auto e : slice) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(q->id);
    auto it = gCache.find(key);
    if (it == gCache.end()) {
        auto t0 = std::chrono::steady_clock::now();
        st.queries++;
        Z3_solver_push(zc, zs);
        for (auto e : slice) Z3_solver_assert(zc, zs, toZBool(e));
        Z3_solver_assert(zc, zs, toZBool(q));
        Z3_lbool r = Z3_solver_check(zc, zs);
        CacheEnt ent;
        ent.res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        if (r == Z3_L_TRUE) {
            st.sat++;
            Z3_model m = Z3_solver_get_model(zc, zs);
            Z3_model_inc_ref(zc, m);
            for (auto v : vs) {
                unsigned w = gVars[v].w;
                Z3_ast a = Z3_mk_const(zc, Z3_mk_int_symbol(zc, (int)v), Z3_mk_bv_sort(zc, w)), res;
                uint64_t x = 0;
                if (Z3_model_eval(zc, m, a, true, &res)) {
                    Z3_inc_ref(zc, res);
                    if (!Z3_get_numeral_uint64(zc, res, &x)) { fprintf(stderr, "z3 model value not numeral\n"); abort(); }
                    Z3_dec_ref(zc, res);
                }
                ent.asg.push_back({ v, x });
            }
            Z3_model_dec_ref(zc, m);
        } else if (r == Z3_L_FALSE)
            st.unsat++;
        else
            st.unknown++;
        Z3_solver_pop(zc, zs, 1);
        st.ns += std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - t0).count();
        it = gCache.emplace(std::move(key), std::move(ent)).first;
    } else
        st.cacheHits++;
    if (it->second.res == 1) {
        out = std::make_shared<Model>(base);
        for (auto& p : it->second.asg) out->set(p.first, p.second);
        // self-check of the encoding: the model must satisfy what was asked
        if (!evalE(q, *out)) { fprintf(stderr, "solver model does not satisfy query\n"); abort(); }
        for (auto e : slice)
            if (!evalE(e, *out)) { fprintf(stderr, "solver model does not satisfy constraint\n"); abort(); }
    }
    return it->second.res;
}
