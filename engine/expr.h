// Hash-consed bit-vector expression DAG with simplification, concrete evaluation and Z3 translation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
    OConst, OVar, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
    OEq, OUlt, OUle, OSlt, OSle, OIte, OZExt, OSExt, OExtract, OConcat
};

typedef std::vector<uint32_t> VarSet;

struct Expr {
    Op op;
    uint16_t w;
    uint32_t id;
    const Expr *a, *b, *c;
    u128 k; // constant value, variable id, extract low bit
    const VarSet* vars;
    bool undef; // depends on uninitialised memory
    u128 lo, hi; // unsigned interval
    mutable uint64_t stamp;
    mutable u128 val;
    mutable Z3_ast z;
    bool isC() const { return op == OConst; }
};
typedef const Expr* E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sx(u128 v, unsigned w)
{
    if (w >= 128) return (s128)v;
    u128 s = (u128)1 << (w - 1);
    v &= maskw(w);
    return (s128)((v ^ s) - s);
}

struct VarInfo {
    std::string name;
    uint16_t w;
    bool undef;
};
extern std::vector<VarInfo> gVars;

struct EHash {
    size_t operator()(E e) const
    {
        uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w;
        auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
        mix((uint64_t)(uintptr_t)e->a);
        mix((uint64_t)(uintptr_t)e->b);
        mix((uint64_t)(uintptr_t)e->c);
        mix((uint64_t)e->k);
        mix((uint64_t)(e->k >> 64));
        return h ^ (h >> 31);
    }
};
struct EEq {
    bool operator()(E x, E y) const
    {
        return x->op == y->op && x->w == y->w && x->a == y->a && x->b == y->b && x->c == y->c && x->k == y->k;
    }
};

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w, bool undef);
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned low, unsigned w);
E mkConcat(E hi, E lo);
E mkNot(E a);
u128 evalBin(Op op, u128 a, u128 b, unsigned w);

struct Model {
    std::vector<u128> v;
    uint64_t stamp;
    Model();
    Model(const Model& o);
    u128 get(uint32_t id) const { return id < v.size() ? v[id] : 0; }
    void set(uint32_t id, u128 x)
    {
        if (id >= v.size()) v.resize(id + 1, 0);
        v[id] = x;
    }
};
typedef std::shared_ptr<Model> MP;
u128 evalE(E e, const Model& m);

struct SolverStats {
    uint64_t queries, cacheHits, unknown, sat, unsat, ns, modelHits;
};
// result: 1 sat, 0 unsat, -1 unknown
int solveQuery(const std::vector<E>& cons, E q, const Model& base, MP& out, SolverStats& st);
void solverInit(unsigned timeoutMs);
