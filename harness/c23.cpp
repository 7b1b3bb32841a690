// C23: memory exhaustion at any allocation ends in the orderly panic path.
#include "rd.hpp"
extern "C" {
#include "argtable3_private.h"
#undef xmalloc
#undef xcalloc
#undef xrealloc
#undef xfree
}
using namespace rd;

// ------------------------------------------------------------ fault injection
static long g_count, g_fail_at;   // allocations made while armed; the one that fails (0: none)
static bool g_from_on, g_armed;
static bool fault() {
    if (!g_armed || !vf::g_in_lib) return false;
    g_count++;
    return g_fail_at && (g_from_on ? g_count >= g_fail_at : g_count == g_fail_at);
}
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
char* __real_strdup(const char*);
char* __real_strndup(const char*, size_t);
void* __real_reallocarray(void*, size_t, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
void* __wrap_malloc(size_t n) { return fault() ? nullptr : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return fault() ? nullptr : __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { return fault() ? nullptr : __real_realloc(p, n); }
char* __wrap_strdup(const char* s) { return fault() ? nullptr : __real_strdup(s); }
char* __wrap_strndup(const char* s, size_t n) { return fault() ? nullptr : __real_strndup(s, n); }
void* __wrap_reallocarray(void* p, size_t a, size_t b) { return fault() ? nullptr : __real_reallocarray(p, a, b); }
void* __wrap_aligned_alloc(size_t a, size_t b) { return fault() ? nullptr : __real_aligned_alloc(a, b); }
int __wrap_posix_memalign(void** p, size_t a, size_t b) { return fault() ? ENOMEM : __real_posix_memalign(p, a, b); }
}

// ------------------------------------------------------------------ scenarios
struct Scn { string name; std::function<void()> op; };
static std::vector<Scn> g_scn;
static std::vector<long> g_allocs;
static std::vector<string> g_quiet;   // what each scenario prints when nothing fails (diagnostics of invalid patterns)
// the part between these runs with faults; `LIB`-style accounting marks library code
struct Armed { Armed() { g_armed = true; } ~Armed() { g_armed = false; } };
#define OP(...) do { Armed a_; vf::InLib l_; __VA_ARGS__; } while (0)

static unsigned hid(const void* k) { return *(const unsigned*)k; }
static int heq(const void* a, const void* b) { return *(const unsigned*)a == *(const unsigned*)b; }
static int noproc(int, char**, arg_dstr_t, void*) { return 0; }
static int cmpb(const void* a, const void* b) { return *(const char*)a - *(const char*)b; }
static void* raw(unsigned v) { unsigned* p = (unsigned*)__real_malloc(sizeof v); *p = v; return p; }
static void* rawmem(size_t n) { void* p = __real_malloc(n); memset(p, 'x', n); ((char*)p)[n - 1] = 0; return p; }

static void define_scenarios(bool thorough) {
    auto add = [](const string& n, std::function<void()> f) { g_scn.push_back({n, f}); };
    using namespace pm;
    // constructors
    for (int k = 0; k < 8; k++) {
        Entry e{(Kind)k, "k", "kind", 0, 3, false, nullptr, "g"};
        if (k == REM) { e.sh = e.lo = nullptr; e.dt = "r"; }
        add(strf("construct %s", KN[k]), [e] { OP(build_entry(e)); });
    }
    add("construct end", [] { OP(arg_end(20)); });
    add("construct the one and none forms", [] { OP(arg_lit0("a", nullptr, ""); arg_lit1("a", nullptr, ""); arg_int0("a", nullptr, nullptr, ""); arg_int1("a", nullptr, nullptr, ""); arg_dbl0("a", nullptr, nullptr, ""); arg_dbl1("a", nullptr, nullptr, ""); arg_str0("a", nullptr, nullptr, ""); arg_str1("a", nullptr, nullptr, ""); arg_rex0("a", nullptr, "x*", nullptr, 0, ""); arg_rex1("a", nullptr, "x*", nullptr, 0, ""); arg_file0("a", nullptr, nullptr, ""); arg_file1("a", nullptr, nullptr, ""); arg_date0("a", nullptr, "%Y", nullptr, ""); arg_date1("a", nullptr, "%Y", nullptr, "")); });
    static const char* PAT[] = {"", "a", "(a|b)*c", "[a-z]{2,3}", "((((a))))+", "a*b*c*d*e*f*g*h*i*j*k*l*m*", "(?:x|y|[^z])\\d+", "^a$", "(", "[", "a{", "\\w\\W\\s\\S", ".*"};
    for (auto p : PAT) add(strf("construct a regular expression %s", p), [p] { OP(arg_rexn("r", "rex", p, nullptr, 0, 2, ARG_REX_ICASE, "")); });
    // parses
    struct PL { const char* n; std::vector<Entry> e; std::vector<const char*> l; };
    static std::vector<PL> P = {
        {"an empty line", {{LIT, "a", nullptr, 0, 1}}, {}},
        {"switches", {{LIT, "ab", "alpha,beta", 0, 9}}, {"-a", "-ba", "--alpha", "--be"}},
        {"values", {{INT, "i", "int", 0, 9}, {DBL, "d", nullptr, 0, 9}, {STR, nullptr, "str,string", 0, 9}}, {"-i5", "-d", "2.5", "--str=x", "--int", "7"}},
        {"operands", {{STR, nullptr, nullptr, 0, 9}, {LIT, "a", nullptr, 0, 1}}, {"x", "-a", "y", "--", "-z"}},
        {"regular expressions", {{REX, "r", nullptr, 0, 9}, {REX, nullptr, nullptr, 0, 9}}, {"-rab", "cc", "zz", "-r", "q"}},
        {"files and dates", {{FIL, "f", nullptr, 0, 9}, {DATE, "d", nullptr, 0, 9}}, {"-f", "a/b.c", "-d2001-02-03", "-dxx"}},
        {"errors", {{INT, "i", "int", 1, 1}, {LIT, "a", "ab,ac", 0, 1}}, {"-z", "--zz", "--a", "-ix", "-i99999999999", "op", "-i"}},
        {"missing", {{INT, "i", "int", 1, 1}, {STR, nullptr, nullptr, 1, 1}, {REX, "r", nullptr, 2, 2}}, {}},
        {"many options", {{LIT, "abcdefghij", "a1,b1,c1,d1,e1,f1,g1,h1", 0, 9}, {STR, "klmnop", "k1,l1,m1", 0, 9}, {INT, nullptr, nullptr, 0, 9}}, {"-abk", "v", "--m1=2", "1", "2", "3"}},
    };
    for (auto& p : P) {
        Table t;
        t.e = p.e;
        t.cap = 5;
        auto tp = std::make_shared<Table>(t);
        auto run = [tp, &p](std::function<void(Real&)> after, bool arm_parse) {
            Real* R = new Real(*tp);
            static char prog[] = "prog";
            std::vector<char*>* av = new std::vector<char*>{prog};
            for (auto x : p.l) av->push_back((char*)x);
            av->push_back(nullptr);
            int n = (int)av->size() - 1;
            char** v = av->data();
            if (arm_parse) OP(arg_parse(n, v, R->at.data())); else LIBV(arg_parse(n, v, R->at.data()));
            if (after) after(*R);
        };
        add(strf("parse %s", p.n), [run] { run(nullptr, true); });
        add(strf("parse %s twice", p.n), [run] { run([&](Real& R) { static char prog[] = "prog"; char* av[] = {prog, nullptr}; char** v = av; OP(arg_parse(1, v, R.at.data())); }, false); });
        add(strf("print the errors of parsing %s", p.n), [run] { run([](Real& R) { FILE* f = stream().f; OP(arg_print_errors(f, R.end, "prog")); }, false); });
        add(strf("error screen of parsing %s", p.n), [run] { LIBV(arg_cmd_init()); run([](Real& R) { arg_dstr_t d = LIB(arg_dstr_create()); int code; OP(arg_make_syntax_err_help_msg(d, "cmd", 0, 1, R.at.data(), R.end, &code)); }, false); });
        add(strf("usage, glossaries for %s", p.n), [run] { run([](Real& R) { FILE* f = stream().f; void** a = R.at.data(); OP(arg_print_syntax(f, a, "\n"); arg_print_syntaxv(f, a, "\n"); arg_print_glossary(f, a, nullptr); arg_print_glossary_gnu(f, a)); }, false); });
        add(strf("help screen for %s", p.n), [run] { LIBV(arg_cmd_init(); arg_cmd_register("cmd", noproc, "description", nullptr)); run([](Real& R) { arg_dstr_t d = LIB(arg_dstr_create()); OP(arg_make_help_msg(d, "cmd", R.at.data())); }, false); });
    }
    add("parse without arguments", [] { static Table t; t.e = {{pm::INT, "i", nullptr, 1, 1}}; Real* R = new Real(t); char* av[] = {nullptr}; char** v = av; OP(arg_parse(0, v, R->at.data())); });
    add("print one option", [] { FILE* f = stream().f; OP(arg_print_option(f, "a", "alpha", "<v>", "\n")); });
    add("print wrapped text", [] { FILE* f = stream().f; OP(arg_print_formatted(f, 3, 20, "a text that is somewhat longer than the column and goes on over several lines until the buffer of the dynamic string has to grow, which takes more than two hundred characters, and then some more of them")); });
    // dynamic strings
    static string big(700, 'x');
    for (unsigned n : {0u, 3u, 15u, 16u, 17u, 199u, 200u, 201u, 600u}) {
        add(strf("set a copy of %u characters", n), [n] { arg_dstr_t d = LIB(arg_dstr_create()); static string s; s = big.substr(0, n); char* p = (char*)s.c_str(); OP(arg_dstr_set(d, p, ARG_DSTR_VOLATILE)); });
        add(strf("append %u characters", n), [n] { arg_dstr_t d = LIB(arg_dstr_create()); static string s; s = big.substr(0, n); const char* p = s.c_str(); OP(arg_dstr_cat(d, p); arg_dstr_cat(d, p); arg_dstr_catc(d, 'c')); });
        add(strf("append formatted %u characters", n), [n] { arg_dstr_t d = LIB(arg_dstr_create()); static string s; s = big.substr(0, n); const char* p = s.c_str(); OP(arg_dstr_catf(d, "%s", p); arg_dstr_catf(d, "%s%d", p, 5)); });
    }
    add("create a dynamic string", [] { OP(arg_dstr_create()); });
    // hash table
    for (unsigned m : {0u, 60u, 200u}) add(strf("create a hash table for %u", m), [m] { OP(arg_hashtable_create(m, hid, heq)); });
    for (unsigned n : {0u, 1u, 34u, 35u, 36u, 64u, 130u}) {
        add(strf("store entry %u of a hash table", n + 1), [n] { arg_hashtable_t* h = LIB(arg_hashtable_create(1, hid, heq)); for (unsigned k = 0; k < n; k++) { void* a = raw(k); void* b = raw(k); LIBV(arg_hashtable_insert(h, a, b)); } void* a = raw(n); void* b = raw(n); OP(arg_hashtable_insert(h, a, b)); });
        add(strf("iterate over a hash table of %u", n), [n] { arg_hashtable_t* h = LIB(arg_hashtable_create(1, hid, heq)); for (unsigned k = 0; k < n; k++) { void* a = raw(k); void* b = raw(k); LIBV(arg_hashtable_insert(h, a, b)); } OP(arg_hashtable_itr_create(h)); });
    }
    // registry and identity
    add("initialize the registry", [] { OP(arg_cmd_init()); });
    for (unsigned n : {0u, 34u, 36u}) add(strf("register sub-command %u and replace it", n + 1), [n] { LIBV(arg_cmd_init()); for (unsigned k = 0; k < n; k++) LIBV(arg_cmd_register(strf("c%u", k).c_str(), noproc, "d", nullptr)); OP(arg_cmd_register("new", noproc, "description", nullptr); arg_cmd_register("new", noproc, "other", nullptr); arg_cmd_itr_create()); });
    add("set the module name", [] { OP(arg_set_module_name("name"); arg_set_module_name("another name")); });
    add("set the module version", [] { OP(arg_set_module_version(1, 2, 3, "tag"); arg_set_module_version(10, 20, 30, "a longer tag that needs more room than the first buffer of a formatted append has")); });
    add("make the hint", [] { arg_dstr_t d = LIB(arg_dstr_create()); OP(arg_make_get_help_msg(d)); });
    // sort, allocation functions
    for (int n = 2; n <= (thorough ? 40 : 9); n++) add(strf("sort %d elements", n), [n] { string s(big, 0, (size_t)n); char* p = &s[0]; OP(arg_mgsort(p, n, 1, 0, n - 1, cmpb)); });
    for (size_t n : {(size_t)1, (size_t)100, (size_t)100000}) {
        add(strf("allocate %zu", n), [n] { OP(argtable3_xmalloc(n)); });
        add(strf("allocate cleared %zu", n), [n] { OP(argtable3_xcalloc(n, 3)); });
        add(strf("reallocate %zu", n), [n] { void* p = rawmem(5); OP(argtable3_xrealloc(p, n)); });
        add(strf("allocate by reallocation %zu", n), [n] { OP(argtable3_xrealloc(nullptr, n)); });
    }
    add("allocate no elements", [] { OP(argtable3_xcalloc(0, 5)); });
    add("allocate elements of no size", [] { OP(argtable3_xcalloc(5, 0)); });
    add("reallocate to nothing", [] { void* p = rawmem(5); OP(argtable3_xrealloc(p, 0)); });
}
// a whole run (construct, parse, print the errors and the screens) for tables of every type with every short line
static size_t g_first_line;
static void define_lines(unsigned len) {
    using namespace pm;
    g_first_line = g_scn.size();
    static std::vector<Table> tb;
    for (int k = 0; k < 7; k++) {
        Table t;
        t.cap = 2;
        t.e = {{(Kind)k, "k", "kind,other", 1, 2, k == 3, nullptr, "text"}};
        if (k) t.e.push_back({(Kind)k, nullptr, nullptr, 0, 1, false, "V", "text"});
        tb.push_back(t);
    }
    for (auto& t : tb) {
        auto al = std::make_shared<std::vector<const char*>>(alphabet(t));
        for (uint64_t i = 0; i < vf::seq_count(al->size(), len); i++) {
            std::vector<const char*> l;
            for (int d : vf::seq_at(i, al->size(), len)) l.push_back((*al)[(size_t)d]);
            const Table* tp = &t;
            g_scn.push_back({"everything for " + show(t) + " " + show(l), [tp, l] {
                static char prog[] = "prog";
                std::vector<char*> av = {prog};
                for (auto x : l) av.push_back((char*)x);
                av.push_back(nullptr);
                char** v = av.data();
                int n = (int)av.size() - 1;
                FILE* f = stream().f;
                std::vector<void*> at(tp->e.size() + 1);
                for (size_t k = 0; k < tp->e.size(); k++) OP(at[k] = build_entry(tp->e[k]));
                struct arg_end* end = nullptr;
                OP(end = arg_end(tp->cap));
                at[tp->e.size()] = end;
                OP(arg_parse(n, v, at.data()); arg_print_errors(f, end, "prog"); arg_print_syntaxv(f, at.data(), "\n"); arg_print_glossary_gnu(f, at.data()));
                OP(arg_freetable(at.data(), at.size()));
            }});
        }
    }
}
// ------------------------------------------------------------------ execution
static int g_handler_calls;
static int g_report = -1;
static void handler(const char* fmt, ...) {
    g_handler_calls++;
    va_list a;
    va_start(a, fmt);
    char b[200];
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    g_armed = false;
    dprintf(g_report, "handler:%s", b);
    _exit(42);
}
enum { DEFAULT, EMPTY_DUMPCORE, DUMPCORE, HANDLER, HANDLER_ALL, DEFAULT_ALL, NMODES, SECOND_HANDLER = NMODES, DUMPCORE_VALUES };
static const char* DUMPVAL[] = {"0", "yes", " ", "no", "false", "a=b", "\n", "11"};
static const int NDUMPVAL = 8;
static void wrong_handler(const char*, ...) { _exit(43); }
static const char* mode_name(int m);
static const char* MN[] = {"default handling", "default handling with EF_DUMPCORE empty", "EF_DUMPCORE set", "an installed handler", "an installed handler, all later allocations fail too", "default handling, all later allocations fail too"};
static const char* mode_name(int m) { static string r; if (m < NMODES) return MN[m]; r = m == SECOND_HANDLER ? "a second handler installed after a first" : string("EF_DUMPCORE set to ") + DUMPVAL[m - DUMPCORE_VALUES]; return r.c_str(); }
struct Out { int status; string err, out, rep; bool timeout; };
static Out run_child(const Scn& s, long fail_at, int mode) {
    Out o;
    int e = memfd_create("err", 0), u = memfd_create("out", 0), r = memfd_create("rep", 0);
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        alarm(60);
        dup2(u, 1);
        dup2(e, 2);
        stream();
        if (mode == DUMPCORE) setenv("EF_DUMPCORE", "1", 1);
        else if (mode == EMPTY_DUMPCORE) setenv("EF_DUMPCORE", "", 1);
        else if (mode >= DUMPCORE_VALUES) setenv("EF_DUMPCORE", DUMPVAL[mode - DUMPCORE_VALUES], 1);
        else unsetenv("EF_DUMPCORE");
        g_report = r;
        if (mode == SECOND_HANDLER) { arg_set_panic(wrong_handler); setenv("EF_DUMPCORE", "1", 1); }
        if (mode == HANDLER || mode == HANDLER_ALL || mode == SECOND_HANDLER) arg_set_panic(handler);
        g_from_on = mode == HANDLER_ALL || mode == DEFAULT_ALL;
        g_fail_at = fail_at;
        g_count = 0;
        s.op();
        dprintf(r, "finished:%ld", g_count);
        _exit(0);
    }
    waitpid(p, &o.status, 0);
    auto rd = [](int fd) { struct stat st; fstat(fd, &st); string x((size_t)st.st_size, 0); if (pread(fd, &x[0], x.size(), 0) < 0) x.clear(); close(fd); return x; };
    o.err = rd(e); o.out = rd(u); o.rep = rd(r);
    return o;
}
static void space(std::vector<vf::Space>& S) {
    struct I { uint32_t s; long k; int m; };
    auto v = std::make_shared<std::vector<I>>();
    for (uint32_t s = 0; s < g_scn.size(); s++) {
        for (long k = 1; k <= g_allocs[s]; k++) for (int m = 0; m < NMODES; m++) if (s < g_first_line || m == DEFAULT || m == HANDLER) v->push_back({s, k, m});
        if (s < g_first_line && g_allocs[s]) for (int m = NMODES; m < DUMPCORE_VALUES + NDUMPVAL; m++) v->push_back({s, 1, m});
        v->push_back({s, 0, DEFAULT});
    }
    vf::Space sp;
    sp.name = "faults";
    sp.n = v->size();
    sp.chunk = 8;
    sp.run = [v](uint64_t i, Case& c) {
        I x = (*v)[(size_t)i];
        Out o = run_child(g_scn[x.s], x.k, x.m);
        c.steps++;
        c.leak_ok = true;
        c.mix(o.status); c.mix(o.err); c.mix(o.rep); c.mix((int)x.s); c.mix((int)x.k);
        string st = WIFSIGNALED(o.status) ? strf("signal %d", WTERMSIG(o.status)) : strf("status %d", WEXITSTATUS(o.status));
        string all = st + ", standard error " + quote(o.err.substr(0, 600)) + ", standard output " + quote(o.out.substr(0, 200)) + ", handler report " + quote(o.rep);
        c.log(all);
        bool ok;
        // what was printed before the failure is what is printed without it
        string err = o.err;
        const string& q = g_quiet[x.s];
        if (x.k) { size_t same = 0; while (same < err.size() && same < q.size() && err[same] == q[same]) same++; err = err.substr(same); }
        if (!x.k) ok = WIFEXITED(o.status) && WEXITSTATUS(o.status) == 0 && o.rep == strf("finished:%ld", g_allocs[x.s]);
        else if (x.m == HANDLER || x.m == HANDLER_ALL || x.m == SECOND_HANDLER) ok = WIFEXITED(o.status) && WEXITSTATUS(o.status) == 42 && o.rep == "handler:Out of memory!\n" && err.empty();
        else ok = err == "Out of memory!\n" && o.rep.empty() && (x.m == DUMPCORE || x.m >= DUMPCORE_VALUES ? WIFSIGNALED(o.status) && WTERMSIG(o.status) == SIGABRT : WIFEXITED(o.status) && WEXITSTATUS(o.status) == EXIT_FAILURE);
        if (!ok) c.fail(all);
    };
    sp.desc = [v](uint64_t i) { I x = (*v)[(size_t)i]; return x.k ? g_scn[x.s].name + strf(": allocation %ld of %ld fails, ", x.k, g_allocs[x.s]) + mode_name(x.m) : g_scn[x.s].name + ": no allocation fails"; };
    S.push_back(sp);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C23";
    c.level = "fault_enumeration";
    c.silent = false;
    c.leaks = false;
    c.rule = "for every scenario (each constructor, parse, rendering, dynamic-string, hash-table, registry, identity, sort and allocation call, with sizes around the growth steps, and whole runs for tables of every type with every line up to the bound) every single allocation it makes is made to fail, under six ways of handling the failure (default, EF_DUMPCORE empty or set, an installed handler, and both again with all later allocations failing too; for the first allocation also eight values of EF_DUMPCORE and a second handler installed after a first), each in a process of its own; exit status, standard error and handler calls are compared with the promise; outcomes are distinct by scenario, failing allocation, status and text";
    c.assumptions = {"an installed handler does not return", "allocations made inside the C library on the library's behalf do not fail"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        define_scenarios(t != vf::QUICK);
        define_lines(t == vf::QUICK ? 1 : 2);
        for (auto& s : g_scn) {
            Out o = run_child(s, 0, DEFAULT);
            long n = 0;
            if (sscanf(o.rep.c_str(), "finished:%ld", &n) != 1) n = 0;
            g_allocs.push_back(n);
            g_quiet.push_back(o.err);
        }
        space(S);
    };
    return vf::run(c, argc, argv);
}
