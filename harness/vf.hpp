// Exhaustive exploration driver shared by all checks.
//
// A check defines finite spaces; every index of every space is executed, by 8
// worker processes that share one chunk counter. A case that fails, crashes or
// exceeds its time limit is replayed alone (then, if that does not reproduce
// it, with the history of its worker) before it is reported.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cinttypes>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <functional>
#include <memory>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));

namespace vf {

enum Tier { QUICK, THOROUGH };

// ---------------------------------------------------------------- accounting
inline int g_in_lib = 0;          // > 0 while library code runs on behalf of a case
inline long g_live = 0;           // blocks allocated minus blocks freed by library calls
inline bool g_track = false;
inline void on_malloc(const volatile void* p, size_t) { if (g_in_lib && p) g_live++; }
inline void on_free(const volatile void* p) { if (g_in_lib && p) g_live--; }

// the library starts with whatever errno earlier calls of the program left
struct InLib { InLib() { if (!g_in_lib++) errno = ERANGE; } ~InLib() { g_in_lib--; } };
// evaluates an expression as library code
#define LIB(...) ([&]() { vf::InLib in_lib_guard_; return __VA_ARGS__; }())
// runs statements as library code
#define LIBV(...) do { vf::InLib in_lib_guard_; __VA_ARGS__; } while (0)

// A block the library will own and free.
inline char* lib_strdup(const std::string& s) {
    InLib g;
    char* p = (char*)malloc(s.size() + 1);
    memcpy(p, s.c_str(), s.size() + 1);
    return p;
}

inline std::string quote(const char* s, size_t n) {
    std::string r = "\"";
    for (size_t i = 0; i < n; i++) {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
inline std::string quote(const char* s) { return s ? quote(s, strlen(s)) : std::string("NULL"); }
inline std::string quote(const std::string& s) { return quote(s.data(), s.size()); }

__attribute__((format(printf, 1, 2))) inline std::string strf(const char* fmt, ...) {
    va_list a;
    va_start(a, fmt);
    char* p = nullptr;
    int n = vasprintf(&p, fmt, a);
    va_end(a);
    std::string r = n >= 0 ? std::string(p, (size_t)n) : std::string();
    free(p);
    return r;
}

// --------------------------------------------------------------------- cases
struct Case {
    uint64_t h = 1469598103934665603ull;  // hash of what was observed
    uint64_t steps = 0;                   // library calls made
    bool failed = false;
    bool leak_ok = false;                 // do not require live allocations to return to zero
    std::string msg;
    std::string* trace = nullptr;         // filled during replay
    void mix(const void* p, size_t n) {
        const unsigned char* q = (const unsigned char*)p;
        for (size_t i = 0; i < n; i++) { h ^= q[i]; h *= 1099511628211ull; }
    }
    void mix(uint64_t v) { mix(&v, sizeof v); }
    void mix(int v) { mix(&v, sizeof v); }
    void mix(unsigned v) { mix(&v, sizeof v); }
    void mix(const std::string& s) { mix(s.data(), s.size()); mix((uint64_t)s.size()); }
    void mixz(const char* s) { if (s) { mix(s, strlen(s)); mix(1); } else mix(0); }
    void fail(const std::string& m) { if (!failed) { failed = true; msg = m; } }
    void log(const std::string& m) { if (trace) { *trace += m; *trace += "\n"; } }
};

struct Space {
    std::string name;
    uint64_t n;
    std::function<void(uint64_t, Case&)> run;
    std::function<std::string(uint64_t)> desc;
    uint64_t chunk = 0;  // 0: choose
};

struct Check {
    const char* property;
    const char* level = "model_checking";
    std::vector<std::string> assumptions;
    std::string rule;
    std::function<void(Tier, std::vector<Space>&)> define;
    bool leaks = true;                 // every case must leave no live library allocation
    bool silent = true;                // no case may write to stdout or stderr
    double case_limit_s = 10;          // per case, before it is retried alone
    const char* traces_note = "";
};

// -------------------------------------------------------------------- shared
struct Failure { uint32_t space; uint64_t idx; uint32_t worker; uint64_t hist; int kind; char msg[4000]; };
enum { F_FAIL = 1, F_CRASH = 2, F_HANG = 3, F_OUTPUT = 4 };
struct Slot {
    std::atomic<uint32_t> space; std::atomic<uint64_t> idx; std::atomic<uint64_t> begin; std::atomic<uint64_t> end; std::atomic<uint64_t> start_ns;
    std::atomic<uint32_t> active; std::atomic<uint32_t> hist_n;
};
static const size_t SEEN_BITS = 24, SEEN_N = size_t(1) << SEEN_BITS, HIST_MAX = 1 << 18;
static const int MAXW = 16, MAXF = 24;
struct Shared {
    std::atomic<uint64_t> next_chunk, cases, steps, distinct, seen_full;
    std::atomic<uint32_t> nfail, stop;
    Slot slot[MAXW];
    Failure fail[MAXF];
    std::atomic<uint64_t> seen[SEEN_N];
    uint32_t hist[MAXW][HIST_MAX];
};
struct Chunk { uint32_t space; uint64_t b, e; };

inline uint64_t now_ns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000000000ull + (uint64_t)t.tv_nsec; }

inline pid_t spawn() {  // a child that does not outlive this process
    pid_t me = getpid(), p = fork();
    if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != me) _exit(0); }
    return p;
}
struct Engine {
    Check& c;
    Tier tier;
    std::vector<Space> spaces;
    std::vector<Chunk> chunks;
    Shared* sh = nullptr;
    FILE* digest = nullptr;
    int outfd = -1;
    Engine(Check& c, Tier t) : c(c), tier(t) {
        c.define(t, spaces);
        sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        for (uint32_t s = 0; s < spaces.size(); s++) {
            uint64_t cs = spaces[s].chunk;
            if (!cs) { cs = spaces[s].n / 256; if (cs < 1) cs = 1; if (cs > 2048) cs = 2048; }
            for (uint64_t b = 0; b < spaces[s].n; b += cs) chunks.push_back({s, b, std::min(spaces[s].n, b + cs)});
        }
    }
    void see(uint64_t h) {
        if (!h) h = 1;
        if (sh->seen_full) return;
        size_t i = (size_t)((h * 0x9E3779B97F4A7C15ull) >> (64 - SEEN_BITS));
        for (size_t k = 0; k < 256; k++, i = (i + 1) & (SEEN_N - 1)) {
            uint64_t cur = sh->seen[i].load(std::memory_order_relaxed);
            if (cur == h) return;
            if (!cur) {
                uint64_t z = 0;
                if (sh->seen[i].compare_exchange_strong(z, h)) {
                    if (++sh->distinct > SEEN_N * 7 / 10) sh->seen_full = 1;
                    return;
                }
                if (z == h) return;
            }
        }
        sh->seen_full = 1;
    }
    // runs one case in this process
    bool one(uint32_t s, uint64_t i, Case& k) {
        g_in_lib = 0;
        long live0 = g_live;
        spaces[s].run(i, k);
        if (c.leaks && !k.failed && !k.leak_ok && g_live != live0)
            k.fail(strf("%ld block(s) allocated by the library are still allocated after everything was released", g_live - live0));
        g_live = 0;
        return !k.failed;
    }
    void redirect() {
        outfd = memfd_create("out", 0);
        fflush(stdout); fflush(stderr);
        dup2(outfd, 1); dup2(outfd, 2);
    }
    bool output_seen() {
        fflush(stdout);
        struct stat st;
        fstat(outfd, &st);
        if (st.st_size == 0) return false;
        return true;
    }
    std::string take_output() {
        fflush(stdout);
        struct stat st; fstat(outfd, &st);
        std::string r((size_t)st.st_size, 0);
        if (pread(outfd, &r[0], r.size(), 0) < 0) r.clear();
        if (ftruncate(outfd, 0)) {}
        lseek(outfd, 0, SEEK_SET);
        return r;
    }
    void record(uint32_t s, uint64_t i, int w, int kind, const std::string& m) {
        uint32_t n = sh->nfail++;
        if (n < (uint32_t)MAXF) {
            Failure& f = sh->fail[n];
            f.space = s; f.idx = i; f.worker = (uint32_t)w; f.kind = kind;
            f.hist = sh->slot[w].hist_n;
            snprintf(f.msg, sizeof f.msg, "%s", m.c_str());
        }
        if (n + 1 >= 6) sh->stop = 1;
    }
    void worker(int w, Chunk resume, bool has_resume) {
        redirect();
        if (&__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
        Slot& sl = sh->slot[w];
        for (;;) {
            Chunk ch;
            if (has_resume) { ch = resume; has_resume = false; }
            else {
                uint64_t n = sh->next_chunk++;
                if (n >= chunks.size() || sh->stop) break;
                ch = chunks[n];
                uint32_t hn = sl.hist_n;
                if (hn < HIST_MAX) { sh->hist[w][hn] = (uint32_t)n; sl.hist_n = hn + 1; }
            }
            sl.space = ch.space; sl.begin = ch.b; sl.end = ch.e;
            uint64_t st = 0;
            for (uint64_t i = ch.b; i < ch.e; i++) {
                sl.idx = i; sl.start_ns = now_ns(); sl.active = 1;
                Case k;
                one(ch.space, i, k);
                st += k.steps;
                if (k.failed) { record(ch.space, i, w, F_FAIL, k.msg); if (sh->stop) break; }
                else see(k.h);
            }
            sl.active = 0;
            sh->cases += ch.e - ch.b;
            sh->steps += st;
            if (!c.silent && output_seen()) { if (ftruncate(outfd, 0)) {} lseek(outfd, 0, SEEK_SET); }
            if (c.silent && output_seen()) {
                take_output();
                for (uint64_t i = ch.b; i < ch.e; i++) {
                    sl.idx = i; sl.start_ns = now_ns(); sl.active = 1;
                    Case k;
                    one(ch.space, i, k);
                    if (output_seen()) { record(ch.space, i, w, F_OUTPUT, "unexpected output: " + quote(take_output())); break; }
                }
                sl.active = 0;
            }
        }
        _exit(0);
    }
    // replays a case (with the given earlier cases first) in a child; true if it misbehaves
    bool replay(uint32_t s, uint64_t i, const std::vector<Chunk>& before, std::string& out, double limit) {
        int fd = memfd_create("replay", 0);
        pid_t p = spawn();
        if (!p) {
            alarm((unsigned)limit + 1);
            signal(SIGALRM, SIG_DFL);
            redirect();
            if (&__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
            dup2(fd, 2);
            for (auto& ch : before)
                for (uint64_t j = ch.b; j < ch.e; j++) { Case k; one(ch.space, j, k); }
            if (ftruncate(outfd, 0)) {}
            if (ftruncate(fd, 0)) {}
            lseek(fd, 0, SEEK_SET);
            std::string tr;
            Case k;
            k.trace = &tr;
            one(s, i, k);
            fflush(stdout); fflush(stderr);
            struct stat a, b;
            fstat(outfd, &a); fstat(fd, &b);
            bool noisy = c.silent && (a.st_size || b.st_size);
            dprintf(fd, "%s", tr.c_str());
            if (k.failed) { dprintf(fd, "FAILED: %s\n", k.msg.c_str()); _exit(1); }
            if (noisy) { dprintf(fd, "FAILED: unexpected output\n"); _exit(1); }
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        struct stat b; fstat(fd, &b);
        out.assign((size_t)std::min<off_t>(b.st_size, 20000), 0);
        if (pread(fd, &out[0], out.size(), 0) < 0) out.clear();
        close(fd);
        if (WIFSIGNALED(st)) out += strf("\n[terminated by signal %d%s]\n", WTERMSIG(st), WTERMSIG(st) == SIGALRM ? ": no result within the time limit" : "");
        else if (WEXITSTATUS(st) > 1) out += strf("\n[process ended with status %d]\n", WEXITSTATUS(st));
        return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    }
    std::string describe(uint32_t s, uint64_t i) { return spaces[s].desc ? spaces[s].desc(i) : std::string(); }
    std::string jstr(const std::string& s) {
        std::string r = "\"";
        for (unsigned char ch : s) {
            if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
            else if (ch < 32 || ch > 126) r += strf("\\u%04x", ch);
            else r += (char)ch;
        }
        return r + "\"";
    }

    int explore(const std::string& evdir, const std::string& self) {
        uint64_t t0 = now_ns();
        int W = (int)sysconf(_SC_NPROCESSORS_ONLN);
        if (W < 1) W = 1;
        if (W > 8) W = 8;
        pid_t pid[MAXW];
        fflush(stdout); fflush(stderr);
        for (int w = 0; w < W; w++) { pid[w] = spawn(); if (!pid[w]) worker(w, {}, false); }
        int alive = W;
        uint64_t hangs_retried = 0, stop_ns = 0;
        while (alive) {
            int st;
            pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0) {
                int w = -1;
                for (int k = 0; k < W; k++) if (pid[k] == p) w = k;
                if (w < 0) continue;
                Slot& sl = sh->slot[w];
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; pid[w] = -1; continue; }
                if (sl.active) {
                    record(sl.space, sl.idx, w, F_CRASH, WIFSIGNALED(st) ? strf("process terminated by signal %d", WTERMSIG(st)) : strf("process ended with status %d", WEXITSTATUS(st)));
                }
                if (sh->stop || !sl.active) { alive--; pid[w] = -1; continue; }
                Chunk r{sl.space, sl.idx + 1, sl.end};
                sh->cases += sl.idx + 1 - sl.begin;
                sl.active = 0;
                pid[w] = spawn();
                if (!pid[w]) worker(w, r, true);
                continue;
            }
            uint64_t t = now_ns();
            if (sh->stop && !stop_ns) stop_ns = t;
            for (int w = 0; w < W; w++) {
                Slot& sl = sh->slot[w];
                uint64_t st0 = sl.start_ns;
                if (pid[w] <= 0 || !sl.active || t <= st0) continue;
                double busy = (double)(t - st0) / 1e9;
                if (stop_ns && busy > 1 && t - stop_ns > 1000000000ull) {  // the run is over: do not wait for a case that does not end
                    kill(pid[w], SIGKILL);
                    waitpid(pid[w], &st, 0);
                    alive--; pid[w] = -1;
                    continue;
                }
                if (sh->stop || busy <= c.case_limit_s) continue;
                uint32_t s = sl.space; uint64_t i = sl.idx, e = sl.end, b = sl.begin;
                kill(pid[w], SIGKILL);
                waitpid(pid[w], &st, 0);
                hangs_retried++;
                sh->cases += i + 1 - sl.begin;
                std::string out;
                sl.active = 0;
                if (replay(s, i, {}, out, c.case_limit_s * 6) || replay(s, i, {{s, b, i}}, out, c.case_limit_s * 6)) {
                    record(s, i, w, F_HANG, strf("no result within %g s", c.case_limit_s * 6));
                    sh->stop = 1;
                    alive--; pid[w] = -1;
                    break;
                }
                pid[w] = spawn();
                if (!pid[w]) worker(w, Chunk{s, i + 1, e}, true);
            }
            usleep(2000);
        }
        // confirm and report
        int reported = 0, unreproduced = 0;
        std::string vio;
        uint32_t nf = std::min<uint32_t>(sh->nfail, MAXF);
        for (uint32_t f = 0; f < nf && reported < 3; f++) {
            Failure& F = sh->fail[f];
            std::string out, how = "alone";
            std::string arg = strf("%s:%" PRIu64, spaces[F.space].name.c_str(), F.idx);
            bool bad = F.kind == F_HANG || replay(F.space, F.idx, {}, out, c.case_limit_s * 2);
            if (!bad) {
                std::vector<Chunk> pre;
                uint64_t b = F.idx;
                if (F.hist && F.hist <= HIST_MAX) b = chunks[sh->hist[F.worker][F.hist - 1]].b;
                pre.push_back({F.space, std::min(b, F.idx), F.idx});
                bad = replay(F.space, F.idx, pre, out, 120);
                if (bad) { how = "after the earlier cases of its chunk"; arg += strf(" --after %" PRIu64, std::min(b, F.idx)); }
                else if (F.hist && F.hist <= HIST_MAX) {
                    std::vector<Chunk> all;
                    for (uint64_t k = 0; k + 1 < F.hist; k++) all.push_back(chunks[sh->hist[F.worker][k]]);
                    all.push_back(pre[0]);
                    bad = replay(F.space, F.idx, all, out, 200);
                    if (bad) how = "after the earlier cases of its worker (history dependent)";
                }
            }
            if (!bad && F.kind != F_FAIL && !(F.kind == F_CRASH && !strstr(F.msg, "signal 9"))) { unreproduced++; continue; }
            if (!bad) { how = "no (seen once, in the exploration itself)"; unreproduced++; }
            mkdir((evdir + "/replay").c_str(), 0777);
            std::string rp = strf("%s/replay/%s-%s-%" PRIu64 ".txt", evdir.c_str(), c.property, spaces[F.space].name.c_str(), F.idx);
            for (auto& ch : rp) if (ch == ' ') ch = '_';
            FILE* fp = fopen(rp.c_str(), "w");
            if (fp) {
                fprintf(fp, "property: %s\nspace: %s\nindex: %" PRIu64 "\ncase: %s\nobserved: %s\nreproduced: %s\nreplay: sh /verif/check.sh %s %s --replay %s\n\n%s\n", c.property, spaces[F.space].name.c_str(), F.idx,
                        describe(F.space, F.idx).c_str(), F.msg, how.c_str(), c.property, tier == QUICK ? "quick" : "thorough", arg.c_str(), out.c_str());
                fclose(fp);
            }
            printf("case: %s\nobserved: %s\n", describe(F.space, F.idx).c_str(), F.msg);
            printf("VIOLATION property=%s replay=%s\n", c.property, rp.c_str());
            reported++;
        }
        (void)self;
        // evidence
        uint64_t total = 0;
        for (auto& s : spaces) total += s.n;
        double wall = (double)(now_ns() - t0) / 1e9;
        bool exhaustive = sh->cases == total && !nf;
        FILE* ev = fopen((evdir + "/" + c.property + ".json").c_str(), "w");
        if (!ev) { perror("evidence"); return 2; }
        const char* seed = getenv("VERIF_SEED");
        fprintf(ev, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %d,\n \"level\": \"%s\",\n \"coverage\": {\n", c.property, tier == QUICK ? "quick" : "thorough", seed ? atoi(seed) : 0, c.level);
        bool fe = !strcmp(c.level, "fault_enumeration") || !strcmp(c.level, "exploration");
        if (fe)
            fprintf(ev, "  \"evaluations\": %" PRIu64 ",\n  \"distinct_nontrivial\": %" PRIu64 ",\n", (uint64_t)sh->cases, (uint64_t)sh->distinct);
        else
            fprintf(ev, "  \"states\": %" PRIu64 ",\n  \"transitions\": %" PRIu64 ",\n  \"traces_validated_against_impl\": %" PRIu64 ",\n", (uint64_t)sh->distinct, (uint64_t)sh->steps, (uint64_t)sh->cases);
        fprintf(ev, "  \"rule\": %s,\n  \"distinct_is_lower_bound\": %s,\n  \"exhaustive\": %s,\n  \"retried_slow_cases\": %" PRIu64 ",\n  \"unreproduced\": %d,\n  \"spaces\": [\n", jstr(c.rule).c_str(), sh->seen_full ? "true" : "false", exhaustive ? "true" : "false", hangs_retried, unreproduced);
        for (size_t s = 0; s < spaces.size(); s++) fprintf(ev, "   {\"name\": %s, \"cases\": %" PRIu64 "}%s\n", jstr(spaces[s].name).c_str(), spaces[s].n, s + 1 < spaces.size() ? "," : "");
        fprintf(ev, "  ],\n  \"samples\": [\n");
        for (size_t s = 0; s < spaces.size(); s++) {
            uint64_t i = spaces[s].n ? (spaces[s].n * 5 / 8) : 0;
            fprintf(ev, "   %s%s\n", jstr(spaces[s].name + "[" + std::to_string(i) + "]: " + (spaces[s].n ? describe((uint32_t)s, i) : "")).c_str(), s + 1 < spaces.size() ? "," : "");
        }
        fprintf(ev, "  ]\n },\n \"assumptions\": [");
        for (size_t a = 0; a < c.assumptions.size(); a++) fprintf(ev, "%s%s", a ? ", " : "", jstr(c.assumptions[a]).c_str());
        fprintf(ev, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, reported);
        fclose(ev);
        printf("%s %s: %" PRIu64 " of %" PRIu64 " cases, %" PRIu64 "%s distinct outcomes, %" PRIu64 " library calls, %.1f s, %d violation(s)\n", c.property, tier == QUICK ? "quick" : "thorough", (uint64_t)sh->cases, total,
               (uint64_t)sh->distinct, sh->seen_full ? "+" : "", (uint64_t)sh->steps, wall, reported);
        if (unreproduced) printf("note: %d failure(s) could not be reproduced\n", unreproduced);
        if (!reported && sh->cases != total) { printf("error: not all cases were run\n"); return 2; }
        return reported ? 1 : 0;
    }
    // writes the outcome hash of every case to a file, in index order (for comparing builds)
    int digests(const char* path) {
        uint64_t total = 0;
        std::vector<uint64_t> base;
        for (auto& s : spaces) { base.push_back(total); total += s.n; }
        int fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0666);
        if (fd < 0 || ftruncate(fd, (off_t)(total * 8 + 8))) return 2;
        uint64_t* d = (uint64_t*)mmap(nullptr, total * 8 + 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        int W = (int)sysconf(_SC_NPROCESSORS_ONLN);
        if (W < 1) W = 1;
        if (W > 8) W = 8;
        pid_t pid[MAXW];
        auto work = [&](int w, Chunk ch, bool resume) {
            redirect();
            if (&__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
            Slot& sl = sh->slot[w];
            for (;; resume = false) {
                if (!resume) {
                    uint64_t n = sh->next_chunk++;
                    if (n >= chunks.size()) break;
                    ch = chunks[n];
                }
                sl.space = ch.space; sl.end = ch.e;
                uint64_t st = 0;
                for (uint64_t i = ch.b; i < ch.e; i++) {
                    sl.idx = i; sl.start_ns = now_ns(); sl.active = 1;
                    Case k;
                    one(ch.space, i, k);
                    st += k.steps;
                    if (k.failed) k.mix(k.msg);
                    see(k.h);
                    d[base[ch.space] + i] = k.h | 8;
                }
                sl.active = 0;
                sh->steps += st;
                if (ftruncate(outfd, 0)) {}
                lseek(outfd, 0, SEEK_SET);
            }
            _exit(0);
        };
        for (int w = 0; w < W; w++) { pid[w] = spawn(); if (!pid[w]) work(w, {}, false); }
        int alive = W, crashes = 0;
        while (alive) {
            int st;
            pid_t p = waitpid(-1, &st, WNOHANG);
            int w = -1;
            bool hung = false;
            if (p > 0) { for (int k = 0; k < W; k++) if (pid[k] == p) w = k; }
            else {
                uint64_t t = now_ns();
                for (int k = 0; k < W && w < 0; k++) {
                    Slot& sl = sh->slot[k];
                    uint64_t st0 = sl.start_ns;
                    if (pid[k] > 0 && sl.active && t > st0 && (double)(t - st0) > c.case_limit_s * 3e9) { kill(pid[k], SIGKILL); waitpid(pid[k], &st, 0); w = k; hung = true; }
                }
                if (w < 0) { usleep(2000); continue; }
            }
            if (w < 0) continue;
            if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive--; pid[w] = -1; continue; }
            Slot& sl = sh->slot[w];
            if (!sl.active) return 2;
            d[base[sl.space] + sl.idx] = hung ? 2 : 1;  // did not end; ended the process
            if (++crashes > 2000) return 2;
            Chunk r{sl.space, sl.idx + 1, sl.end};
            sl.active = 0;
            pid[w] = spawn();
            if (!pid[w]) work(w, r, true);
        }
        printf("%" PRIu64 " %" PRIu64 " %" PRIu64 "\n", total, (uint64_t)sh->distinct, (uint64_t)sh->steps);
        return 0;
    }
};

inline int watch(Check& c, Tier t, const std::string& evdir, pid_t p, std::atomic<int>* ready) {
    uint64_t t0 = now_ns();
    int st = 0;
    bool hung = false;
    while (waitpid(p, &st, WNOHANG) == 0) {
        if (!*ready && now_ns() - t0 > 200 * 1000000000ull) { hung = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
        usleep(5000);
    }
    std::string how;
    if (hung) how = "a library call made while laying out the spaces does not return";
    else if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78)) how = strf("a library call outside the explored cases ended the process with a sanitizer report (status %d)", WEXITSTATUS(st));
    else if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL && WTERMSIG(st) != SIGTERM && WTERMSIG(st) != SIGINT) how = strf("a library call outside the explored cases ended the process with signal %d", WTERMSIG(st));
    else if (!*ready && WIFEXITED(st)) how = strf("a library call made while laying out the spaces ended the process with status %d", WEXITSTATUS(st));
    else return WIFEXITED(st) ? WEXITSTATUS(st) : 2;
    mkdir((evdir + "/replay").c_str(), 0777);
    std::string rp = evdir + "/replay/" + c.property + "-layout.txt";
    const char* tn = t == QUICK ? "quick" : "thorough";
    if (FILE* f = fopen(rp.c_str(), "w")) { fprintf(f, "property: %s\nobserved: %s\nreplay: sh /verif/check.sh %s %s\n", c.property, how.c_str(), c.property, tn); fclose(f); }
    if (FILE* f = fopen((evdir + "/" + c.property + ".json").c_str(), "w")) {
        const char* seed = getenv("VERIF_SEED");
        bool fe = !strcmp(c.level, "fault_enumeration") || !strcmp(c.level, "exploration");
        fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %d,\n \"level\": \"%s\",\n \"coverage\": {%s, \"rule\": \"stopped before the exploration\", \"samples\": [\"%s\"]},\n \"assumptions\": [],\n \"wall_s\": %.2f,\n \"violations\": 1\n}\n", c.property, tn, seed ? atoi(seed) : 0, c.level,
                fe ? "\"evaluations\": 1, \"distinct_nontrivial\": 1" : "\"states\": 1, \"transitions\": 1, \"traces_validated_against_impl\": 1", how.c_str(), (double)(now_ns() - t0) / 1e9);
        fclose(f);
    }
    printf("observed: %s\nVIOLATION property=%s replay=%s\n", how.c_str(), c.property, rp.c_str());
    return 1;
}

inline int run(Check c, int argc, char** argv) {
    Tier t = QUICK;
    const char* ev = getenv("VF_EVIDENCE");
    std::string evdir = ev ? ev : "/verif/evidence";
    if (argc > 1 && !strcmp(argv[1], "thorough")) t = THOROUGH;
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    bool exploring = argc <= 2;
    // The exploration runs in a child: a library call that ends the process while the
    // spaces are being laid out, or that does not return, is a violation too.
    std::atomic<int>* ready = (std::atomic<int>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (exploring) {
        pid_t p = spawn();
        if (p > 0) return watch(c, t, evdir, p, ready);
        if (p < 0) return 2;
        prctl(PR_SET_PDEATHSIG, SIGKILL);
    }
    Engine e(c, t);
    *ready = 1;
    if (argc > 3 && !strcmp(argv[2], "--digest")) return e.digests(argv[3]);
    if (argc > 2 && !strcmp(argv[2], "--list")) {
        uint64_t tot = 0;
        for (auto& s : e.spaces) { printf("%-40s %12" PRIu64 "\n", s.name.c_str(), s.n); tot += s.n; }
        printf("%-40s %12" PRIu64 "\n", "total", tot);
        return 0;
    }
    if (argc > 3 && !strcmp(argv[2], "--replay")) {
        std::string a = argv[3];
        size_t p = a.rfind(':');
        if (p == std::string::npos) return 2;
        uint64_t i = strtoull(a.c_str() + p + 1, nullptr, 10);
        uint64_t after = UINT64_MAX;
        if (argc > 5 && !strcmp(argv[4], "--after")) after = strtoull(argv[5], nullptr, 10);
        for (uint32_t s = 0; s < e.spaces.size(); s++)
            if (e.spaces[s].name == a.substr(0, p) && i < e.spaces[s].n) {
                std::string out;
                std::vector<Chunk> pre;
                if (after != UINT64_MAX) pre.push_back({s, after, i});
                bool bad = e.replay(s, i, pre, out, 600);
                printf("case: %s\n%s\n%s\n", e.describe(s, i).c_str(), out.c_str(), bad ? "REPRODUCED" : "passes");
                return bad ? 1 : 0;
            }
        fprintf(stderr, "no such case\n");
        return 2;
    }
    return e.explore(evdir, argv[0]);
}

// ------------------------------------------------------------------- helpers
// digits of i in base b, least significant first
inline void digits(uint64_t i, uint64_t b, size_t n, int* out) {
    for (size_t k = 0; k < n; k++) { out[k] = (int)(i % b); i /= b; }
}
inline uint64_t ipow(uint64_t b, unsigned e) { uint64_t r = 1; while (e--) r *= b; return r; }
// 1..dense, then the neighbourhood of every power of two up to max
inline std::vector<int> points(int dense, int max) {
    std::vector<int> r;
    for (int i = 1; i <= dense; i++) r.push_back(i);
    for (int p = 2; p <= max; p *= 2) for (int d = -1; d <= 1; d++) if (p + d > dense) r.push_back(p + d);
    return r;
}
// all sequences over an alphabet of size b with length 0..maxlen, shortest first
inline uint64_t seq_count(uint64_t b, unsigned maxlen) { uint64_t r = 0; for (unsigned l = 0; l <= maxlen; l++) r += ipow(b, l); return r; }
inline std::vector<int> seq_at(uint64_t i, uint64_t b, unsigned maxlen) {
    for (unsigned l = 0; l <= maxlen; l++) {
        uint64_t n = ipow(b, l);
        if (i < n) { std::vector<int> r(l); for (unsigned k = 0; k < l; k++) { r[l - 1 - k] = (int)(i % b); i /= b; } return r; }
        i -= n;
    }
    return {};
}
// an exact-size heap copy of a string, so that reading or writing past it is trapped
struct Str {
    char* p;
    size_t n;
    explicit Str(const std::string& s) : n(s.size()) { p = (char*)malloc(n + 1); memcpy(p, s.c_str(), n + 1); }
    Str(const Str& o) : n(o.n) { p = (char*)malloc(n + 1); memcpy(p, o.p, n + 1); }
    Str(Str&& o) : p(o.p), n(o.n) { o.p = nullptr; }
    Str& operator=(const Str&) = delete;
    ~Str() { free(p); }
};

}  // namespace vf
