#pragma once
// POSIX extended regular expressions in the "C" locale, for regcomp/regexec under the symbolic engine: a program of
// character classes, and splits. Without captures the subject decides one symbolic truth value (no branch per
// octet, built by the engine); with captures the program backtracks and the longest, greediest match at the leftmost start is reported.
// Validated against glibc by the native replays and by tools/eretest.sh.
#include <cctype>
#include <cstdlib>
#include <cstring>
#include <regex.h>
namespace ere
{
    enum Op : unsigned char { CLASS, SPLIT, JMP, SAVE, BOL, EOL, MATCH };
    struct Range { unsigned char lo, hi; };
    struct Inst {
        Op op;
        int x, y;        // SPLIT: first choice x, then y; JMP: x; SAVE: slot x
        int from, count; // CLASS: ranges
    };
    struct Node { // concrete syntax tree
        char t;   // c class, . concatenation (a then b), | alternation, * + ? of a, ( group n of a, ^ $, e empty, { repetition
        int a, b, n, lo, hi;
        unsigned char set[32];
    };
    struct Regex {
        Inst* prog;
        int n, cap;
        Range* ranges;
        int nr, capr;
        int groups;
        Node* nodes;
        int nn, capn;
        const char* p;
        bool bad;
    };
    template <typename T>
    inline void room(T*& v, int n, int& cap)
    {
        if (n < cap) return;
        int c = cap ? cap * 2 : 32;
        T* w = (T*)malloc(sizeof(T) * c);
        if (n) memcpy((void*)w, (void*)v, sizeof(T) * n);
        free(v);
        v = w;
        cap = c;
    }
    inline int node(Regex& r, char t, int a = -1, int b = -1, int n = 0)
    {
        room(r.nodes, r.nn, r.capn);
        Node& x = r.nodes[r.nn];
        x.t = t, x.a = a, x.b = b, x.n = n, x.lo = x.hi = 0;
        memset(x.set, 0, 32);
        return r.nn++;
    }
    inline void put(Node& n, int c) { n.set[c >> 3] |= 1 << (c & 7); }
    int alt(Regex& r);
    inline int bracket(Regex& r)
    {
        int k = node(r, 'c');
        bool neg = false;
        if (*r.p == '^') neg = true, ++r.p;
        bool first = true;
        for (;; first = false) {
            if (!*r.p) {
                r.bad = true;
                return k;
            }
            if (*r.p == ']' && !first) {
                ++r.p;
                break;
            }
            if (r.p[0] == '[' && r.p[1] == ':') {
                const char* e = strstr(r.p, ":]");
                if (!e) {
                    r.bad = true;
                    return k;
                }
                struct { const char* n; int (*f)(int); } const cs[] = { { "alnum", isalnum }, { "alpha", isalpha }, { "blank", isblank }, { "cntrl", iscntrl }, { "digit", isdigit }, { "graph", isgraph }, { "lower", islower }, { "print", isprint }, { "punct", ispunct }, { "space", isspace }, { "upper", isupper }, { "xdigit", isxdigit } };
                bool known = false;
                for (auto& c : cs)
                    if (strlen(c.n) == size_t(e - r.p - 2) && !memcmp(c.n, r.p + 2, e - r.p - 2)) {
                        known = true;
                        for (int i = 0; i < 128; ++i)
                            if (c.f(i)) put(r.nodes[k], i);
                    }
                if (!known) r.bad = true;
                r.p = e + 2;
                continue;
            }
            unsigned char lo = *r.p++, hi = lo;
            if (*r.p == '-' && r.p[1] && r.p[1] != ']') {
                hi = r.p[1];
                r.p += 2;
                if (hi < lo) r.bad = true;
            }
            for (int i = lo; i <= hi; ++i) put(r.nodes[k], i);
        }
        if (neg)
            for (int i = 0; i < 32; ++i) r.nodes[k].set[i] = ~r.nodes[k].set[i];
        return k;
    }
    inline int atom(Regex& r)
    {
        char c = *r.p;
        if (c == '(') {
            ++r.p;
            int n = ++r.groups;
            int a = alt(r);
            if (*r.p == ')') ++r.p;
            else r.bad = true;
            return node(r, '(', a, -1, n);
        }
        if (c == '[') {
            ++r.p;
            return bracket(r);
        }
        ++r.p;
        if (c == '^' || c == '$') return node(r, c);
        int k = node(r, 'c');
        if (c == '.') {
            for (int i = 0; i < 256; ++i) put(r.nodes[k], i);
            return k;
        }
        if (c == '\\') {
            c = *r.p;
            if (!c) {
                r.bad = true;
                return k;
            }
            ++r.p;
        }
        put(r.nodes[k], (unsigned char)c);
        return k;
    }
    inline int seq(Regex& r)
    {
        int l = node(r, 'e');
        while (*r.p && *r.p != '|' && *r.p != ')' && !r.bad) {
            if (*r.p == '*' || *r.p == '+' || *r.p == '?') {
                r.bad = true; // nothing to repeat
                break;
            }
            int a = atom(r);
            for (;;) {
                if (*r.p == '*' || *r.p == '+' || *r.p == '?') a = node(r, *r.p++, a);
                else if (*r.p == '{' && isdigit(r.p[1])) {
                    int lo = 0, hi;
                    ++r.p;
                    while (isdigit(*r.p)) lo = lo * 10 + *r.p++ - '0';
                    hi = lo;
                    if (*r.p == ',') {
                        ++r.p;
                        hi = -1;
                        if (isdigit(*r.p))
                            for (hi = 0; isdigit(*r.p);) hi = hi * 10 + *r.p++ - '0';
                    }
                    if (*r.p == '}') ++r.p;
                    else r.bad = true;
                    a = node(r, '{', a);
                    r.nodes[a].lo = lo, r.nodes[a].hi = hi;
                } else break;
            }
            l = node(r, '.', l, a);
        }
        return l;
    }
    inline int alt(Regex& r)
    {
        int l = seq(r);
        while (*r.p == '|') {
            ++r.p;
            int b = seq(r);
            l = node(r, '|', l, b);
        }
        return l;
    }
    inline int emit(Regex& r, Op op, int x = 0, int y = 0)
    {
        room(r.prog, r.n, r.cap);
        Inst& i = r.prog[r.n];
        i.op = op, i.x = x, i.y = y, i.from = i.count = 0;
        return r.n++;
    }
    void gen(Regex& r, int k);
    inline void star(Regex& r, int a)
    {
        int s = emit(r, SPLIT);
        gen(r, a);
        emit(r, JMP, s);
        r.prog[s].x = s + 1;
        r.prog[s].y = r.n;
    }
    inline void opt(Regex& r, int a)
    {
        int s = emit(r, SPLIT);
        gen(r, a);
        r.prog[s].x = s + 1;
        r.prog[s].y = r.n;
    }
    inline void gen(Regex& r, int k)
    {
        Node n = r.nodes[k];
        switch (n.t) {
            case 'e': return;
            case '.': gen(r, n.a); gen(r, n.b); return;
            case '^': emit(r, BOL); return;
            case '$': emit(r, EOL); return;
            case '(':
                emit(r, SAVE, 2 * n.n);
                gen(r, n.a);
                emit(r, SAVE, 2 * n.n + 1);
                return;
            case '*': star(r, n.a); return;
            case '+': gen(r, n.a); star(r, n.a); return;
            case '?': opt(r, n.a); return;
            case '{':
                for (int i = 0; i < n.lo; ++i) gen(r, n.a);
                if (n.hi < 0) star(r, n.a);
                for (int i = n.lo; i < n.hi; ++i) opt(r, n.a);
                return;
            case '|': {
                int s = emit(r, SPLIT);
                gen(r, n.a);
                int j = emit(r, JMP);
                r.prog[s].x = s + 1;
                r.prog[s].y = r.n;
                gen(r, n.b);
                r.prog[j].x = r.n;
                return;
            }
            default: {
                int i = emit(r, CLASS), from = r.nr;
                for (int c = 0; c < 256;)
                    if (n.set[c >> 3] >> (c & 7) & 1) {
                        int e = c;
                        while (e < 255 && (n.set[(e + 1) >> 3] >> ((e + 1) & 7) & 1)) ++e;
                        room(r.ranges, r.nr, r.capr);
                        r.ranges[r.nr].lo = c, r.ranges[r.nr].hi = e;
                        ++r.nr;
                        c = e + 1;
                    } else ++c;
                r.prog[i].from = from, r.prog[i].count = r.nr - from;
            }
        }
    }
    __attribute__((noinline)) unsigned char in(const Regex& r, const Inst& i, unsigned char c) // 0 or 1, no branch on c
    {
        unsigned char v = 0;
        for (int k = 0; k < i.count; ++k) {
            unsigned char lo = r.ranges[i.from + k].lo, w = r.ranges[i.from + k].hi - lo;
            v |= (unsigned char)((unsigned char)(c - lo) <= w);
        }
        return v;
    }
    // the classes and MATCH reachable without consuming
    inline void close(const Regex& r, int pc, bool bol, bool eol, bool* seen, bool* out)
    {
        for (;;) {
            if (seen[pc]) return;
            seen[pc] = true;
            const Inst& i = r.prog[pc];
            switch (i.op) {
                case CLASS:
                case MATCH: out[pc] = true; return;
                case SPLIT: close(r, i.x, bol, eol, seen, out); pc = i.y; continue;
                case JMP: pc = i.x; continue;
                case BOL: if (!bol) return; break;
                case EOL: if (!eol) return; break;
                default: break;
            }
            ++pc;
        }
    }
    inline unsigned char test(const Regex& r, const char* s, int n)
    {
        unsigned char *cur = (unsigned char*)calloc(r.n, 1), *nxt = (unsigned char*)calloc(r.n, 1), found = 0;
        bool *on = (bool*)calloc(r.n, 1), *non = (bool*)calloc(r.n, 1); // possibly set
        bool *seen = (bool*)malloc(r.n), *out = (bool*)malloc(r.n);
        for (int p = 0; p <= n; ++p) {
            memset(seen, 0, r.n), memset(out, 0, r.n);
            close(r, 0, p == 0, p == n, seen, out);
            for (int k = 0; k < r.n; ++k)
                if (out[k]) cur[k] = 1, on[k] = true;
            if (on[r.n - 1]) found |= cur[r.n - 1];
            memset(nxt, 0, r.n), memset(non, 0, r.n);
            if (p < n)
                for (int k = 0; k < r.n; ++k)
                    if (on[k] && r.prog[k].op == CLASS) {
                        unsigned char v = cur[k] & in(r, r.prog[k], s[p]);
                        memset(seen, 0, r.n), memset(out, 0, r.n);
                        close(r, k + 1, false, p + 1 == n, seen, out);
                        for (int q = 0; q < r.n; ++q)
                            if (out[q]) nxt[q] |= v, non[q] = true;
                    }
            unsigned char* t = cur;
            cur = nxt, nxt = t;
            bool* u = on;
            on = non, non = u;
        }
        free(cur), free(nxt), free(on), free(non), free(seen), free(out);
        return found;
    }
    struct Run {
        const Regex& r;
        const char* s;
        int n, best;
        int *save, *keep;
        bool* seen; // (instruction, position): whatever follows has been tried
        bool go(int pc, int p) // true: no longer match is possible
        {
            for (;;) {
                const Inst& i = r.prog[pc];
                if (seen[pc * (n + 1) + p]) return false;
                seen[pc * (n + 1) + p] = true;
                switch (i.op) {
                    case CLASS:
                        if (p == n || !in(r, i, s[p])) return false;
                        ++p;
                        break;
                    case SPLIT:
                        if (go(i.x, p)) return true;
                        pc = i.y;
                        continue;
                    case JMP: pc = i.x; continue;
                    case BOL: if (p) return false; break;
                    case EOL: if (p != n) return false; break;
                    case SAVE: {
                        int& x = save[i.x];
                        int old = x;
                        x = p;
                        if (go(pc + 1, p)) return true;
                        x = old;
                        return false;
                    }
                    case MATCH:
                        if (p > best) {
                            best = p;
                            memcpy(keep, save, sizeof(int) * 2 * (r.groups + 1));
                        }
                        return p == n;
                }
                ++pc;
            }
        }
    };
}
