// Native side of the harness API: replays recorded inputs. usage: prog INPUTS OUT  -- one record per line:
//   name=hex;name=hex;...
// Each record runs in its own process; its observations and outcome are written to OUT, one line per record.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <csignal>
#include <exception>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <typeinfo>
#include <cxxabi.h>

static std::vector<std::pair<std::string, std::string>> gIn;
static size_t gPos;
static std::string gObs, gReach;
static int gFd = -1;

static std::string esc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\' || c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static void finish(const char* how, const std::string& msg)
{
    std::string l = std::string("{\"how\":\"") + how + "\",\"msg\":\"" + esc(msg) + "\",\"obs\":[" + gObs + "],\"reach\":[" + gReach + "]}\n";
    size_t o = 0;
    while (o < l.size()) {
        ssize_t n = write(gFd, l.data() + o, l.size() - o);
        if (n <= 0) break;
        o += n;
    }
    _exit(0);
}
static std::string take(const char* name, size_t n)
{
    if (gPos >= gIn.size()) finish("desync", std::string("no more inputs at ") + name);
    auto& r = gIn[gPos++];
    if (r.first != name || r.second.size() != n) finish("desync", "expected " + r.first + " got " + name);
    return r.second;
}
extern "C" {
void sym_bytes(void* p, size_t n, const char* name)
{
    std::string s = take(name, n);
    if (n) memcpy(p, s.data(), n);
}
uint64_t sym_u64(const char* name) { uint64_t v = 0; memcpy(&v, take(name, 8).data(), 8); return v; }
uint32_t sym_u32(const char* name) { uint32_t v = 0; memcpy(&v, take(name, 4).data(), 4); return v; }
uint8_t sym_u8(const char* name) { return (uint8_t)take(name, 1)[0]; }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_assume_(int c) { if (!c) finish("assume", ""); }
void sym_assert_(int c, const char* id) { if (!c) finish("assert", id); }
void sym_reach(const char* t) { gReach += (gReach.empty() ? "\"" : ",\"") + esc(t) + "\""; }
void sym_observe_bytes(const char* name, const void* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    std::string h;
    for (size_t i = 0; i < n; ++i) { unsigned char c = ((const unsigned char*)p)[i]; h += d[c >> 4]; h += d[c & 15]; }
    if (!gObs.empty()) gObs += ",";
    gObs += "[\"" + esc(name) + "\",\"" + h + "\"]";
}
void sym_observe_u64(const char* name, uint64_t v) { sym_observe_bytes(name, &v, 8); }
int sym_is_symbolic_run() { return 0; }
size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
uint64_t sym_live_heap() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
void sym_debug(const char* n, uint64_t v) { fprintf(stderr, "[debug] %s %llu\n", n, (unsigned long long)v); }
}
static void onTerminate()
{
    std::string n = "terminate";
    if (auto* t = abi::__cxa_current_exception_type()) { int st; char* d = abi::__cxa_demangle(t->name(), 0, 0, &st); n = std::string("terminate: ") + (d ? d : t->name()); }
    finish("terminate", n);
}
static unsigned hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
extern "C" { const char* gUnit = getenv("SYM_UNIT") ? getenv("SYM_UNIT") : ""; }
int main(int argc, char** argv)
{
    FILE* f = fopen(argv[1], "r");
    FILE* out = fopen(argv[2], "w");
    int tmo = argc > 3 ? atoi(argv[3]) : 10;
    if (!f || !out) return 3;
    char* line = nullptr;
    size_t cap = 0;
    ssize_t n;
    while ((n = getline(&line, &cap, f)) >= 0) {
        gIn.clear();
        gPos = 0;
        std::string l(line, n);
        while (!l.empty() && (l.back() == '\n')) l.pop_back();
        size_t p = 0;
        while (p < l.size()) {
            size_t e = l.find('=', p), q = l.find(';', p);
            std::string nm = l.substr(p, e - p), hx = l.substr(e + 1, q - e - 1), b;
            for (size_t i = 0; i + 1 < hx.size(); i += 2) b += (char)(hexv(hx[i]) << 4 | hexv(hx[i + 1]));
            gIn.push_back({ nm, b });
            p = q + 1;
        }
        int fds[2];
        if (pipe(fds)) return 3;
        char errf[64];
        snprintf(errf, sizeof errf, "%s.err", argv[2]);
        fflush(out);
        pid_t k = fork();
        if (!k) {
            close(fds[0]);
            gFd = fds[1];
            if (!freopen(errf, "w", stderr)) _exit(9);
            rlimit rl = { (rlim_t)tmo, (rlim_t)tmo + 1 };
            setrlimit(RLIMIT_CPU, &rl);
            rlimit nc = { 0, 0 };
            setrlimit(RLIMIT_CORE, &nc);
            alarm(tmo + 20);
            std::set_terminate(onTerminate);
            try {
                harness_main();
            } catch (std::exception& e) {
                finish("uncaught", std::string(typeid(e).name()) + ": " + e.what());
            } catch (...) {
                finish("uncaught", "exception");
            }
            finish("done", "");
        }
        close(fds[1]);
        std::string res;
        char b[65536];
        ssize_t g;
        while ((g = read(fds[0], b, sizeof b)) > 0) res.append(b, g);
        close(fds[0]);
        int st;
        waitpid(k, &st, 0);
        if (res.empty()) {
            std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL ? "hang" : "signal " + std::to_string(WTERMSIG(st))) : "exit " + std::to_string(WEXITSTATUS(st));
            std::string e;
            if (FILE* ef = fopen(errf, "r")) {
                size_t r = fread(b, 1, 6000, ef);
                e.assign(b, r);
                fclose(ef);
            }
            res = "{\"how\":\"" + std::string(why == "hang" ? "hang" : "crash") + "\",\"msg\":\"" + why + "\",\"err\":\"" + esc(e) + "\",\"obs\":[],\"reach\":[]}\n";
        }
        fputs(res.c_str(), out);
    }
    fclose(out);
    return 0;
}
#include "sundown.inc"
