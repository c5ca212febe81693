// libc entry points for the symbolic engine, "C" locale (plain C so that no libc header interferes).
typedef unsigned long size_t;
#define LONG_MAX 0x7fffffffffffffffL
#define LONG_MIN (-LONG_MAX - 1)
void* malloc(size_t);
static int symErrno;
int* __errno_location(void) { return &symErrno; }
unsigned long pthread_self(void) { return 1; }

// ctype, "C" locale, branch-free; arguments outside EOF..255 are undefined behaviour and reported by the wrapper
#define CT(c) ((unsigned)(c))
#define IN(c, a, b) ((CT(c) - (a)) <= (unsigned)((b) - (a)))
// glibc's tables cover -128..255; values -128..-2 yield the same result as their unsigned counterparts minus 256,
// none of which is classified in the "C" locale
int isdigit(int c) { return IN(c, '0', '9') ? 1 : 0; }
int isupper(int c) { return IN(c, 'A', 'Z') ? 1 : 0; }
int islower(int c) { return IN(c, 'a', 'z') ? 1 : 0; }
int isalpha(int c) { return (IN(c, 'A', 'Z') | IN(c, 'a', 'z')) ? 1 : 0; }
int isalnum(int c) { return (IN(c, 'A', 'Z') | IN(c, 'a', 'z') | IN(c, '0', '9')) ? 1 : 0; }
int isspace(int c) { return (IN(c, 9, 13) | (CT(c) == 32)) ? 1 : 0; }
int isblank(int c) { return ((CT(c) == 9) | (CT(c) == 32)) ? 1 : 0; }
int iscntrl(int c) { return ((CT(c) < 32) | (CT(c) == 127)) ? 1 : 0; }
int isprint(int c) { return IN(c, 32, 126) ? 1 : 0; }
int isgraph(int c) { return IN(c, 33, 126) ? 1 : 0; }
int ispunct(int c) { return (IN(c, 33, 47) | IN(c, 58, 64) | IN(c, 91, 96) | IN(c, 123, 126)) ? 1 : 0; }
int isxdigit(int c) { return (IN(c, '0', '9') | IN(c, 'A', 'F') | IN(c, 'a', 'f')) ? 1 : 0; }
int tolower(int c) { return IN(c, 'A', 'Z') ? c + 32 : c; }
int toupper(int c) { return IN(c, 'a', 'z') ? c - 32 : c; }

__attribute__((optnone)) size_t strlen(const char* s)
{
    size_t n = 0;
    while (s[n]) ++n;
    return n;
}
__attribute__((optnone)) int strcmp(const char* a, const char* b)
{
    while (*a && *a == *b) { ++a; ++b; }
    return (unsigned char)*a - (unsigned char)*b;
}
__attribute__((optnone)) int strncmp(const char* a, const char* b, size_t n)
{
    if (!n) return 0;
    while (--n && *a && *a == *b) { ++a; ++b; }
    return (unsigned char)*a - (unsigned char)*b;
}
__attribute__((optnone)) void* memchr(const void* s, int c, size_t n)
{
    const unsigned char* p = (const unsigned char*)s;
    for (size_t i = 0; i < n; ++i)
        if (p[i] == (unsigned char)c) return (void*)(p + i);
    return 0;
}
__attribute__((optnone)) char* strchr(const char* s, int c)
{
    while (*s != (char)c) {
        if (!*s) return 0;
        ++s;
    }
    return (char*)s;
}
__attribute__((optnone)) char* strstr(const char* s, const char* t)
{
    for (;; ++s) {
        size_t i = 0;
        while (t[i] && s[i] == t[i]) ++i;
        if (!t[i]) return (char*)s;
        if (!*s) return 0;
    }
}
__attribute__((optnone)) char* strdup(const char* s)
{
    size_t n = strlen(s);
    char* r = (char*)malloc(n + 1);
    for (size_t i = 0; i <= n; ++i) r[i] = s[i];
    return r;
}
static long symStrtol(const char* s, char** end, int base)
{
    const char* p = s;
    while (isspace((unsigned char)*p)) ++p;
    int neg = 0;
    if (*p == '+' || *p == '-') neg = *p++ == '-';
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = p[0] == '0' ? 8 : 10;
    unsigned long v = 0;
    int any = 0, ovf = 0;
    unsigned long lim = neg ? (unsigned long)LONG_MAX + 1 : LONG_MAX;
    for (;; ++p) {
        int d;
        unsigned char c = *p;
        if (isdigit(c)) d = c - '0';
        else if (isalpha(c)) d = tolower(c) - 'a' + 10;
        else break;
        if (d >= base) break;
        any = 1;
        if (v > (lim - d) / base) ovf = 1;
        if (!ovf) v = v * base + d;
    }
    if (end) *end = (char*)(any ? p : s);
    if (ovf) {
        symErrno = 34;
        return neg ? LONG_MIN : LONG_MAX;
    }
    return neg ? -(long)v : (long)v;
}
long strtol(const char* s, char** e, int b) { return symStrtol(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return symStrtol(s, e, b); }
long long strtoll(const char* s, char** e, int b) { return symStrtol(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return symStrtol(s, e, b); }
int atoi(const char* s) { return (int)symStrtol(s, 0, 10); }
