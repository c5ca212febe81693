// regcomp and regexec for the encoded code. The engine compiles the pattern (rt/ere.h); a subject without symbolic
// octets is matched by glibc itself, any other one by the model.
#include "ere.h"
extern "C" {
void __sym_ere_load(const char* pattern, ere::Regex* r);                              // the program, into r
int __sym_ere_exec(const char* pattern, const char* s, int n, int nm, regmatch_t* m); // -1: the subject is symbolic
int __sym_ere_test(const char* pattern, const char* s, int n);                        // one truth value
int regcomp(regex_t* out, const char* pattern, int flags)
{
    ere::Regex* r = (ere::Regex*)calloc(1, sizeof *r);
    size_t n = strlen(pattern) + 1;
    char* p = (char*)malloc(n);
    memcpy(p, pattern, n);
    __sym_ere_load(p, r);
    if (r->bad) return REG_BADPAT;
    r->p = p;
    out->__REPB_PREFIX(buffer) = (re_dfa_t*)r;
    out->re_nsub = r->groups;
    out->__REPB_PREFIX(no_sub) = (flags & REG_NOSUB) != 0;
    return 0;
}
int regexec(const regex_t* re, const char* s, size_t nm, regmatch_t* m, int)
{
    const ere::Regex& r = *(const ere::Regex*)re->__REPB_PREFIX(buffer);
    int n = (int)strlen(s);
    if (re->__REPB_PREFIX(no_sub)) nm = 0;
    int concrete = __sym_ere_exec(r.p, s, n, (int)nm, m);
    if (concrete >= 0) return concrete ? 0 : REG_NOMATCH;
    if (!nm) return __sym_ere_test(r.p, s, n) ? 0 : REG_NOMATCH;
    size_t size = sizeof(int) * 2 * (r.groups + 1);
    int *save = (int*)malloc(size), *keep = (int*)malloc(size);
    bool* seen = (bool*)malloc(r.n * (n + 1));
    int rc = REG_NOMATCH;
    for (int p = 0; p <= n; ++p) {
        for (int i = 0; i < 2 * (r.groups + 1); ++i) save[i] = keep[i] = -1;
        memset(seen, 0, r.n * (n + 1));
        ere::Run run = { r, s, n, -1, save, keep, seen };
        run.go(0, p);
        if (run.best < 0) continue;
        for (size_t i = 0; i < nm; ++i) {
            m[i].rm_so = (int)i <= r.groups ? keep[2 * i] : -1;
            m[i].rm_eo = (int)i <= r.groups ? keep[2 * i + 1] : -1;
        }
        m[0].rm_so = p, m[0].rm_eo = run.best;
        rc = 0;
        break;
    }
    free(save), free(keep), free(seen);
    return rc;
}
void regfree(regex_t* re)
{
    ere::Regex* r = (ere::Regex*)re->__REPB_PREFIX(buffer);
    free((void*)r->p), free(r->prog), free(r->ranges), free(r);
}
size_t regerror(int, const regex_t*, char* b, size_t n)
{
    if (n) *b = 0;
    return 1;
}
}
