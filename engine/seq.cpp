// Exhaustive enumeration of the choices of sequential scenarios, run on the real code under ASan/UBSan.
// Same harness interface and command line as mcrt; linked instead of it.
#include "mc.h"
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <new>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <malloc.h>
#include <sanitizer/asan_interface.h>
static mc_scenario* g_scn = nullptr;
mc_scenario::mc_scenario(const char* p, const char* n, void (*f)(), mc_options o) : props(p), name(n), fn(f), opt(o), next(g_scn) { g_scn = this; }
constexpr int MAXC = 4096;
struct Shared {
    int n; unsigned char ch[MAXC], alt[MAXC];
    long execs, states, trans, pruned; int maxdepth, done, capped;
    char kind[32], msg[2048]; int failed; char outbuf[1 << 16]; int outn;
};
static Shared* S; static int g_pos, g_prefix; static bool g_replay, g_live; static std::vector<std::pair<int, int>> g_rep;
static long g_cnt[1024]; static long g_blocks, g_blocks0; static std::string* g_out; static unsigned long g_log; static bool g_ignoreleak;
static std::map<std::string, long>* g_outcomes; static std::unordered_set<uint64_t>* g_seen;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static long g_bytes; static void grow(size_t n);
void* operator new(size_t n) { ++g_blocks; grow(n); void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::align_val_t a) { ++g_blocks; grow(n); return aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { if (p) --g_blocks; free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { operator delete(p); }
static void die_with(const char* kind, const char* msg) {
    S->failed = 1; snprintf(S->kind, sizeof S->kind, "%s", kind); snprintf(S->msg, sizeof S->msg, "%s", msg); fflush(stdout); _exit(3);
}
static void grow(size_t n) { if (g_live && (g_bytes += (long)n) > (1L << 30)) die_with("hang", "execution allocates without end"); }
extern "C" {
int mc_choose(int n) {
    if (!g_live || n <= 1) return 0;
    if (g_pos >= MAXC) die_with("hang", "too many choices");
    int c = 0;
    if (g_replay) { if (g_pos < (int)g_rep.size()) { if (g_rep[g_pos].second != n) _exit(71); c = g_rep[g_pos].first; } }
    else if (g_pos < g_prefix) { if (S->alt[g_pos] != n) _exit(72); c = S->ch[g_pos]; if (g_pos == g_prefix - 1) { ++S->trans; } }
    else { ++S->states; ++S->trans; }
    S->ch[g_pos] = c; S->alt[g_pos] = n; S->n = ++g_pos;
    return c;
}
unsigned long mc_log(int) { return g_log++; }
void mc_visible(const void*, int) {}
void mc_fail(const char* fmt, ...) { char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); die_with("property", b); }
long mc_count(int k, long d) { return g_cnt[k] += d; }
long mc_get(int k) { return g_cnt[k]; }
void mc_outcome(const char* fmt, ...) { if (!g_live) return; char b[512]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); long k = g_blocks; *g_out = b; g_blocks = k; }
long long mc_now() { return 0; }
int mc_tid() { return 0; }
int mc_threads_created() { return 1; }
int mc_threads_alive() { return 1; }
long mc_live_blocks() { return g_blocks - g_blocks0; }
int mc_tracing() { return g_replay; }
void mc_trace(const char* fmt, ...) { if (!g_replay) return; va_list a; va_start(a, fmt); vfprintf(stderr, fmt, a); va_end(a); fputc('\n', stderr); }
void mc_ignore_leaks(int on) { g_ignoreleak = on; }
void mc_quiesce() {}
void mc_await(const int*) {}
void mc_set(int* p, int v) { *p = v; }
int mc_seen(uint64_t h) { if (g_replay || g_pos < g_prefix) return 0; long k = g_blocks; bool fresh = g_seen->insert(h).second; g_blocks = k; if (!fresh) ++S->pruned; return !fresh; }
}
static void on_alarm(int) { die_with("hang", "execution does not end"); }
static void on_abort(int) { if (!S->failed) { S->failed = 1; snprintf(S->kind, sizeof S->kind, "abort"); snprintf(S->msg, sizeof S->msg, "abort() or failed assertion"); } _exit(3); }
static void on_terminate() {
    const char* w = "terminate";
    if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception& x) { static char b[300]; snprintf(b, sizeof b, "uncaught exception: %s", x.what()); w = b; } catch (...) { w = "uncaught exception"; } }
    die_with("terminate", w);
}
static void asan_report(const char* r) {
    // e.g. "==1==ERROR: AddressSanitizer: heap-use-after-free on address ..."
    const char* p = strstr(r, "Sanitizer: "); char k[64] = "asan"; if (p) { p += 11; int i = 0; while (*p && *p != ' ' && *p != '\n' && i < 60) k[i++] = *p++; k[i] = 0; }
    S->failed = 1; snprintf(S->kind, sizeof S->kind, "memory"); snprintf(S->msg, sizeof S->msg, "%s", k);
}
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=3:abort_on_error=0:handle_abort=0:symbolize=0:print_legend=0:allocator_may_return_null=1"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:exitcode=3:halt_on_error=1"; }
static const mc_options* O;
static void once(void (*fn)(), bool check) {
    memset(g_cnt, 0, sizeof g_cnt); g_pos = 0; S->n = 0; g_log = 0; g_ignoreleak = false; g_out->clear();
    g_bytes = 0; long b0 = g_blocks; g_blocks0 = b0; long n0;
    itimerval it{{0, 0}, {20, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr);
    g_live = true; fn(); g_live = false; n0 = g_blocks - b0;
    if (check && O->leaks && !g_ignoreleak && n0 != 0) { char b[100]; snprintf(b, sizeof b, "%ld block(s) not released", n0); die_with("leak", b); }
}
static bool advance() { int n = S->n; while (n > 0 && S->ch[n - 1] + 1 >= S->alt[n - 1]) --n; if (n == 0) return false; ++S->ch[n - 1]; g_prefix = n; S->n = n; return true; }
static void js(std::string& o, const std::string& s) { o += '"'; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } o += '"'; }
int main(int argc, char** argv) {
    std::string name, rep, ro; double budget = -1; bool list = false, thorough = false; std::set<std::string> ign;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--list") list = true; else if (a == "--run") name = nx(); else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--replay") rep = nx(); else if (a == "--replay-out") ro = nx();
        else if (a == "--thorough") thorough = true; else if (a == "--ignore") ign.insert(nx()); else if (a == "--mode") nx(); }
    if (list) { for (auto s = g_scn; s; s = s->next) printf("%s %s %d %g %d %d\n", s->name, s->props, s->opt.thorough_only, s->opt.budget, s->opt.mode, s->opt.mode_thorough); return 0; }
    mc_scenario* sc = nullptr; for (auto s = g_scn; s; s = s->next) if (name == s->name) sc = s; if (!sc) return 70;
    O = &sc->opt; if (budget < 0) budget = sc->opt.budget > 0 ? sc->opt.budget : 20;
    setenv("MC_THOROUGH", thorough ? "1" : "0", 1);
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_out = new std::string; g_outcomes = new std::map<std::string, long>; g_seen = new std::unordered_set<uint64_t>;
    if (!rep.empty()) { FILE* f = fopen(rep.c_str(), "r"); if (!f) return 70; char* l = nullptr; size_t n = 0; while (getline(&l, &n, f) > 0) if (!strncmp(l, "choices", 7)) { char* p = l + 7; int c, a, k; while (sscanf(p, " %d/%d%n", &c, &a, &k) == 2) { g_rep.push_back({c, a}); p += k; } } fclose(f); g_replay = true; }
    double t0 = now(); std::map<std::string, long> ignored, outcomes; std::string vkind, vmsg; bool viol = false, internal = false; int restarts = 0;
    for (;;) {
        S->failed = 0; S->done = 0; fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            signal(SIGVTALRM, on_alarm); signal(SIGABRT, on_abort); std::set_terminate(on_terminate); __asan_set_error_report_callback(asan_report);
            if (g_replay) { once(sc->fn, false); g_rep.resize(S->n); g_rep.clear(); for (int i = 0; i < S->n; ++i) g_rep.push_back({S->ch[i], S->alt[i]}); once(sc->fn, true); S->done = 1; _exit(0); }
            bool first = true;
            if (restarts) { if (!advance()) { S->done = 1; _exit(0); } }
            else g_prefix = 0;
            for (;;) {
                if (first) { // warm up: lazily allocated statics are not leaks
                    first = false; long s = S->states, t = S->trans, p = S->pruned; once(sc->fn, false); S->states = s; S->trans = t; S->pruned = p; g_seen->clear();
                }
                once(sc->fn, true); ++S->execs; if (S->n > S->maxdepth) S->maxdepth = S->n; if (!g_out->empty() && (g_outcomes->size() < 5000 || g_outcomes->count(*g_out))) ++(*g_outcomes)[*g_out];
                if (!advance()) { S->done = 1; break; }
                if ((S->execs & 63) == 0 && now() - t0 > budget) { S->capped = 1; S->done = 1; break; }
            }
            std::string o; int k = 0; S->outn = (int)g_outcomes->size(); for (auto& x : *g_outcomes) { if (k++ > 40) break; o += x.first + "\t" + std::to_string(x.second) + "\n"; } snprintf(S->outbuf, sizeof S->outbuf, "%s", o.c_str());
            _exit(0);
        }
        int st = 0; waitpid(pid, &st, 0);
        if (g_replay) {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 71) { printf("DIVERGED\n"); return 71; }
            if (S->failed || !WIFEXITED(st) || WEXITSTATUS(st)) { printf("REPRODUCED %s: %s\n", S->kind, S->msg); return 1; }
            printf("NOT REPRODUCED\n"); return 0;
        }
        if (S->done && WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 72) { internal = true; vmsg = "nondeterministic choices"; break; }
        if (!S->failed) { snprintf(S->kind, sizeof S->kind, "crash"); snprintf(S->msg, sizeof S->msg, WIFSIGNALED(st) ? "killed by signal %d" : "exit status %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); }
        std::string m = std::string(S->kind) + ": " + S->msg; bool ig = false; for (auto& x : ign) if (m.find(x) != std::string::npos) ig = true;
        ++S->execs;
        if (ig && ++restarts < 20000 && now() - t0 < budget) { ++ignored[m]; continue; }
        if (ig) { ++ignored[m]; S->capped = 1; break; }
        viol = true; vkind = S->kind; vmsg = S->msg;
        if (!ro.empty()) { FILE* f = fopen(ro.c_str(), "w"); if (f) { fprintf(f, "scenario %s\nkind %s\nmessage %s\nchoices", sc->name, S->kind, S->msg); for (int i = 0; i < S->n; ++i) fprintf(f, " %d/%d", S->ch[i], S->alt[i]); fprintf(f, "\n"); fclose(f); } }
        break;
    }
    std::string o = "{\"scenario\":"; js(o, sc->name); char b[400];
    snprintf(b, sizeof b, ",\"mode\":\"enumeration\",\"complete\":%s,\"capped\":%s,\"executions\":%ld,\"states\":%ld,\"transitions\":%ld,\"pruned\":%ld,\"max_depth\":%d,\"threads\":1,\"n_outcomes\":%d,\"outcomes\":{", !viol && !S->capped && !internal ? "true" : "false", S->capped ? "true" : "false", S->execs, S->states, S->trans, S->pruned, S->maxdepth, S->outn); o += b;
    bool f1 = true; for (char* p = S->outbuf; *p;) { char* t = strchr(p, '\t'); char* e = t ? strchr(t, '\n') : nullptr; if (!e) break; if (!f1) o += ","; f1 = false; js(o, std::string(p, t)); o += ":" + std::string(t + 1, e); p = e + 1; }
    o += "},\"ignored\":{"; f1 = true; for (auto& x : ignored) { if (!f1) o += ","; f1 = false; js(o, x.first); o += ":" + std::to_string(x.second); }
    o += "},\"violations\":["; if (viol) { o += "{\"kind\":"; js(o, vkind); o += ",\"message\":"; js(o, vmsg); snprintf(b, sizeof b, ",\"execution\":%ld}", S->execs); o += b; } o += "]}";
    printf("%s\n", o.c_str()); if (internal) { fprintf(stderr, "%s\n", vmsg.c_str()); return 72; }
    return viol ? 1 : 0;
}
