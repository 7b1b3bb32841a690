// C22: no call sequence leaks, double-frees or touches released memory.
#include "rd.hpp"
extern "C" {
#include "argtable3_private.h"
#undef xmalloc
#undef xcalloc
#undef xrealloc
#undef xfree
}
using namespace rd;

// the capturing stream, taking the place of standard output or standard error or neither
static int g_alias;
struct Alias {
    FILE *o, *e;
    Alias() : o(stdout), e(stderr) { if (g_alias == 1) stdout = stream().f; if (g_alias == 2) stderr = stream().f; }
    ~Alias() { stdout = o; stderr = e; }
};

// an exact-size heap array of entries, so that reading past the end marker is trapped
struct Arr {
    void** a;
    size_t n;
    explicit Arr(size_t n) : n(n) { a = (void**)malloc(n * sizeof(void*) + (n == 0)); for (size_t i = 0; i < n; i++) a[i] = nullptr; }
    ~Arr() { free(a); }
};
static const pm::Kind K7[] = {pm::LIT, pm::INT, pm::DBL, pm::STR, pm::REX, pm::FIL, pm::DATE};
static Entry entry(int kind, int variant) {
    Entry e{kind == 7 ? pm::REM : K7[kind], "k", "kind", 0, 3, false, nullptr, "text"};
    if (kind == 7) { e.sh = e.lo = nullptr; e.dt = "rem"; return e; }
    switch (variant) {
        case 0: break;
        case 1: e.sh = nullptr; e.lo = nullptr; e.min = 1; e.max = 2; if (kind == 0) { e.lo = "kind"; } break;
        case 2: e.lo = nullptr; e.opt = kind != 0; e.max = 0; break;
        case 3: e.sh = nullptr; e.min = 5; e.max = 2; break;
    }
    return e;
}
static const int NOPS = 15;
static const char* OPN[] = {"parse a correct line", "parse bad values", "parse too many", "parse unknown options", "parse an empty line", "parse without arguments", "parse many operands", "print brief usage", "print verbose usage", "print glossary", "print GNU glossary", "print errors", "append errors", "null check", "parse odd tokens"};
static void op(Case& c, pm::Real& R, int o, int k) {
    const char* good = k == 4 ? "abc" : k == 6 ? "2001-02-03" : "12";
    static char prog[] = "prog";
    auto parse = [&](std::vector<string> l) {
        std::vector<char*> av = {prog};
        for (auto& x : l) av.push_back((char*)pm::T(x));  // kept: the error records refer to them
        av.push_back(nullptr);
        char** v = av.data();
        int n = (int)l.size() + 1;
        int r = LIB(arg_parse(n, v, R.at.data()));
        c.mix(r);
    };
    c.steps++;
    string s;
    Alias al;
    switch (o) {
        case 0: if (R.t.e[0].sh) { if (k == 0) parse({"-k", "-kk"}); else parse({"-k", good, string("-k") + good}); } else if (R.t.e[0].lo) { if (k == 0) parse({"--kind"}); else parse({string("--kin=") + good}); } else parse({good}); break;
        case 1: parse({"-kz", "--kind=z", "z", "--kind="}); break;
        case 2: { std::vector<string> l; for (int q = 0; q < 6; q++) { l.push_back(k == 0 ? "-k" : string("-k") + good); } l.push_back(good); parse(l); break; }
        case 3: parse({"-q", "--zz=1", "-kq", "--ki=1", "--kind", "-k"}); break;
        case 4: parse({}); break;
        case 5: { char* none[] = {nullptr}; int r = LIB(arg_parse(0, none, R.at.data())); c.mix(r); break; }
        case 6: parse({"a", "--", "-k", "b", "-", "", "c"}); break;
        case 7: both(c, s, [&](FILE* f) { arg_print_syntax(f, R.at.data(), "\n"); }, nullptr); break;
        case 8: both(c, s, [&](FILE* f) { arg_print_syntaxv(f, R.at.data(), "\n"); }, nullptr); break;
        case 9: both(c, s, [&](FILE* f) { arg_print_glossary(f, R.at.data(), nullptr); }, nullptr); break;
        case 10: both(c, s, [&](FILE* f) { arg_print_glossary_gnu(f, R.at.data()); }, nullptr); break;
        case 11: both(c, s, [&](FILE* f) { arg_print_errors(f, R.end, "prog"); }, nullptr); break;
        case 12: { arg_dstr_t d = LIB(arg_dstr_create()); LIBV(arg_print_errors_ds(d, R.end, "prog")); LIBV(arg_dstr_destroy(d)); break; }
        case 14: parse({"", "-k", "", "\xe9", "-\xe9", "--\xe9=", "--kind", ""}); break;
        case 13: if (LIB(arg_nullcheck(R.at.data()))) c.fail("the null check reports an empty entry in a complete table"); break;
    }
    c.mix(s);
}
static void sequences(std::vector<vf::Space>& S, unsigned len, bool pairs) {
    vf::Space s;
    uint64_t no = vf::ipow(NOPS, len);
    uint64_t nt = 8 * 4 * (pairs ? 8 : 1);
    s.name = strf("lives-%u%s", len, pairs ? "-two-entries" : "");
    s.n = no * nt * 3;
    auto mk = [=](uint64_t i) {
        Table t;
        t.cap = 3;
        t.e.push_back(entry((int)(i % 8), (int)(i / 8 % 4)));
        if (pairs) { Entry e = entry((int)(i / 32 % 8), (int)(i / 8 % 2)); if (e.sh) e.sh = "b"; if (e.lo) e.lo = "blind,kin"; t.e.push_back(e); }
        return t;
    };
    s.run = [=](uint64_t i, Case& c) {
        uint64_t j = i / no;
        int d[10];
        vf::digits(i % no, NOPS, len, d);
        Table t = mk(j / 3);
        pm::Real R(t);
        g_alias = (int)(j % 3);
        for (unsigned k = 0; k < len && !c.failed; k++) op(c, R, d[k], (int)(j / 3 % 8));
        size_t n = R.at.size();
        if (j % 3 == 0) LIBV(arg_freetable(R.at.data(), n));
        else if (j % 3 == 1) LIBV(arg_free(R.at.data()));
        else { LIBV(arg_freetable(R.at.data(), n)); LIBV(arg_freetable(R.at.data(), n)); }
        R.freed = true;
        for (size_t k = 0; k < n; k++) if (R.at[k]) c.fail(strf("entry %zu is not cleared by the release", k));
    };
    s.desc = [=](uint64_t i) { uint64_t j = i / no; int d[10]; vf::digits(i % no, NOPS, len, d); string r = pm::show(mk(j / 3)) + ": "; for (unsigned k = 0; k < len; k++) r += string(OPN[d[k]]) + ", "; return r + (j % 3 == 0 ? "release" : j % 3 == 1 ? "release the older way" : "release twice"); };
    S.push_back(s);
}
// large tables: every number of entries up to the bound, with one or several long names each or none
static void large(std::vector<vf::Space>& S, unsigned maxn) {
    vf::Space s;
    s.name = "large-tables";
    s.n = (uint64_t)(maxn + 1) * 4 * NOPS * 3;
    auto mk = [](uint64_t i) {
        static std::vector<string> L, LL, SH;
        if (L.empty()) for (int k = 0; k < 400; k++) { L.push_back(strf("opt%d", k)); LL.push_back(strf("opt%d,o%d,alias-%d", k, k, k)); SH.push_back(string(1, (char)(k % 26 + (k / 26 % 2 ? 'A' : 'a')))); }
        Table t;
        uint64_t n = i / 4;
        t.cap = 3;
        if (n == 0) t.e.push_back(entry(7, 0));
        for (uint64_t k = 0; k < n; k++) {
            Entry e = entry((int)((k + i) % 8), 0);
            e.max = 2;
            if (e.kind != pm::REM) {
                e.sh = i % 4 == 1 ? nullptr : SH[k].c_str();
                e.lo = i % 4 == 0 ? nullptr : i % 4 == 2 ? LL[k].c_str() : L[k].c_str();
            }
            t.e.push_back(e);
        }
        return t;
    };
    s.run = [=](uint64_t i, Case& c) {
        Table t = mk(i / NOPS / 3);
        pm::Real R(t);
        g_alias = (int)(i / NOPS % 3);
        op(c, R, (int)(i % NOPS), 1);
        op(c, R, (int)(i % NOPS), 3);
        static char prog[] = "prog", a[] = "--opt1", b[] = "--opt", z[] = "-abcdefgh", v[] = "--alias-33=7";
        char* av[] = {prog, a, b, z, v, nullptr};
        char** w = av;
        c.mix(LIB(arg_parse(5, w, R.at.data())));
        c.steps++;
    };
    s.desc = [=](uint64_t i) { return strf("table of %d entries, names variant %d: twice: %s, then parse", (int)(i / NOPS / 12), (int)(i / NOPS / 3 % 4), OPN[i % NOPS]); };
    S.push_back(s);
}
// whole lives of a sub-command registry, a hash table and a dynamic string
static int lproc(int, char**, arg_dstr_t r, void*) { arg_dstr_cat(r, "ran"); return 5; }
static void registries(std::vector<vf::Space>& S, unsigned len) {
    static const char* ON[] = {"register a", "register b", "register c", "unregister a", "unregister b", "unregister an unknown one", "dispatch", "iterate", "help screen", "register forty"};
    const int N = 10;
    vf::Space s;
    s.name = strf("registry-lives-%u", len);
    s.n = vf::ipow(N, len);
    s.run = [=](uint64_t i, Case& c) {
        int d[8];
        vf::digits(i, N, len, d);
        LIBV(arg_cmd_init());
        for (unsigned k = 0; k < len; k++) {
            c.steps++;
            switch (d[k]) {
                case 0: LIBV(arg_cmd_register("a", lproc, "first", nullptr)); break;
                case 1: LIBV(arg_cmd_register("b", lproc, "second", nullptr)); break;
                case 2: LIBV(arg_cmd_register("a longer name", lproc, "third", nullptr)); break;
                case 3: LIBV(arg_cmd_unregister("a")); break;
                case 4: LIBV(arg_cmd_unregister("b")); break;
                case 5: LIBV(arg_cmd_unregister("zz")); break;
                case 6: if (LIB(arg_cmd_info("a"))) { arg_dstr_t r = LIB(arg_dstr_create()); char** none = nullptr; c.mix(LIB(arg_cmd_dispatch("a", 0, none, r))); LIBV(arg_dstr_destroy(r)); } break;
                case 7: { arg_cmd_itr_t it = LIB(arg_cmd_itr_create()); for (unsigned q = LIB(arg_cmd_count()); q; q--) { c.mix(string(LIB(arg_cmd_itr_key(it)))); LIBV(arg_cmd_itr_advance(it)); } static char ka[] = "a"; c.mix(LIB(arg_cmd_itr_search(it, ka))); LIBV(arg_cmd_itr_destroy(it)); break; }
                case 8: { Table t; t.e = {entry(1, 0)}; pm::Real R(t); arg_dstr_t r = LIB(arg_dstr_create()); LIBV(arg_make_help_msg(r, "a", R.at.data())); c.mix(string(LIB(arg_dstr_cstr(r)))); LIBV(arg_dstr_destroy(r)); break; }
                case 9: for (int q = 0; q < 40; q++) { string n = strf("cmd-%d", q); LIBV(arg_cmd_register(n.c_str(), lproc, "many", nullptr)); } break;
            }
            c.mix(LIB(arg_cmd_count()));
        }
        LIBV(arg_cmd_uninit());
    };
    s.desc = [=](uint64_t i) { int d[8]; vf::digits(i, N, len, d); string r = "registry: "; for (unsigned k = 0; k < len; k++) r += string(ON[d[k]]) + ", "; return r + "release"; };
    S.push_back(s);
}
static unsigned hsame(const void*) { return 7; }
static unsigned hown(const void* k) { return *(const unsigned*)k; }
static int heq(const void* a, const void* b) { return *(const unsigned*)a == *(const unsigned*)b; }
static void* blk(unsigned v) { vf::InLib g; unsigned* p = (unsigned*)malloc(sizeof v); *p = v; return p; }
static void hashes(std::vector<vf::Space>& S, unsigned len) {
    static const char* ON[] = {"store 1", "store 2", "store 3", "remove 1", "remove 2", "remove 3", "change 2", "remove the first in an iteration", "remove the second in an iteration", "find 2 in an iteration and remove it", "store forty"};
    const int N = 11;
    vf::Space s;
    s.name = strf("hash-table-lives-%u", len);
    s.n = vf::ipow(N, len) * 2;
    s.run = [=](uint64_t i, Case& c) {
        int d[8];
        vf::digits(i / 2, N, len, d);
        arg_hashtable_t* h = LIB(arg_hashtable_create(1, i % 2 ? hsame : hown, heq));
        auto put = [&](unsigned k) { if (!LIB(arg_hashtable_search(h, &k))) { void* a = blk(k); void* b = blk(k); LIBV(arg_hashtable_insert(h, a, b)); } };
        for (unsigned q = 0; q < len; q++) {
            c.steps++;
            unsigned k = (unsigned)d[q] % 3 + 1, two = 2;
            switch (d[q]) {
                case 0: case 1: case 2: put(k); break;
                case 3: case 4: case 5: LIBV(arg_hashtable_remove(h, &k)); break;
                case 6: { void* v = blk(9); if (!LIB(arg_hashtable_change(h, &two, v))) { vf::InLib g; free(v); } break; }
                case 7: case 8: {
                    if (LIB(arg_hashtable_count(h)) < (unsigned)d[q] - 6) break;
                    arg_hashtable_itr_t* it = LIB(arg_hashtable_itr_create(h));
                    if (d[q] == 8) LIBV(arg_hashtable_itr_advance(it));
                    if (LIB(arg_hashtable_itr_remove(it))) c.mix(*(unsigned*)LIB(arg_hashtable_itr_key(it)));
                    LIBV(arg_hashtable_itr_destroy(it));
                    break;
                }
                case 9: { arg_hashtable_itr_t* it = LIB(arg_hashtable_itr_create(h)); if (LIB(arg_hashtable_itr_search(it, h, &two))) LIBV(arg_hashtable_itr_remove(it)); LIBV(arg_hashtable_itr_destroy(it)); break; }
                case 10: for (unsigned z = 10; z < 50; z++) put(z); break;
            }
            c.mix(LIB(arg_hashtable_count(h)));
        }
        LIBV(arg_hashtable_destroy(h, 1));
    };
    s.desc = [=](uint64_t i) { int d[8]; vf::digits(i / 2, N, len, d); string r = i % 2 ? "hash table, all keys collide: " : "hash table: "; for (unsigned k = 0; k < len; k++) r += string(ON[d[k]]) + ", "; return r + "release"; };
    S.push_back(s);
}
static void strings(std::vector<vf::Space>& S, unsigned len) {
    static const char* ON[] = {"set borrowed", "set a short copy", "set a long copy", "set owned", "append", "append a long text", "append formatted", "append a long formatted text", "append a character", "reset", "free and reset", "free and set a short copy"};
    const int N = 12;
    static string big(600, 'b');
    vf::Space s;
    s.name = strf("string-lives-%u", len);
    s.n = vf::ipow(N, len);
    s.run = [=](uint64_t i, Case& c) {
        int d[8];
        vf::digits(i, N, len, d);
        arg_dstr_t x = LIB(arg_dstr_create());
        static char lit[] = "borrowed";
        for (unsigned k = 0; k < len; k++) {
            c.steps++;
            switch (d[k]) {
                case 0: LIBV(arg_dstr_set(x, lit, ARG_DSTR_STATIC)); break;
                case 1: { vf::Str v("short"); LIBV(arg_dstr_set(x, v.p, ARG_DSTR_VOLATILE)); break; }
                case 2: { vf::Str v(big); LIBV(arg_dstr_set(x, v.p, ARG_DSTR_VOLATILE)); break; }
                case 3: { char* p = vf::lib_strdup("owned"); LIBV(arg_dstr_set(x, p, ARG_DSTR_DYNAMIC)); break; }
                case 4: { vf::Str v("more"); LIBV(arg_dstr_cat(x, v.p)); break; }
                case 5: { vf::Str v(big); LIBV(arg_dstr_cat(x, v.p)); break; }
                case 6: LIBV(arg_dstr_catf(x, "%d-%s", 42, "x")); break;
                case 7: { vf::Str v(big); LIBV(arg_dstr_catf(x, "<%s>", v.p)); break; }
                case 8: LIBV(arg_dstr_catc(x, 'c')); break;
                case 9: LIBV(arg_dstr_reset(x)); break;
                case 10: LIBV(arg_dstr_free(x)); LIBV(arg_dstr_reset(x)); break;
                case 11: { vf::Str v("short"); LIBV(arg_dstr_free(x)); LIBV(arg_dstr_set(x, v.p, ARG_DSTR_VOLATILE)); break; }
            }
            c.mix((uint64_t)strlen(LIB(arg_dstr_cstr(x))));
        }
        if (i % 3 == 1) LIBV(arg_dstr_free(x));
        LIBV(arg_dstr_destroy(x));
    };
    s.desc = [=](uint64_t i) { int d[8]; vf::digits(i, N, len, d); string r = "dynamic string: "; for (unsigned k = 0; k < len; k++) r += string(ON[d[k]]) + ", "; return r + "release"; };
    S.push_back(s);
}
// tables with empty entries: every subset of empty slots, every release call and length
static void holes(std::vector<vf::Space>& S, unsigned maxn) {
    uint64_t tot = 0;
    std::vector<uint64_t> base;
    for (unsigned n = 1; n <= maxn; n++) { base.push_back(tot); tot += (1ull << n) * 8; }
    vf::Space s;
    s.name = "empty-entries";
    const unsigned NR = maxn + 3;
    s.n = tot * NR;
    struct D { unsigned n; uint64_t mask; int k0; unsigned how; };
    auto dec = [=](uint64_t i) { D d; d.how = (unsigned)(i % NR); i /= NR; unsigned n = maxn; while (base[n - 1] > i) n--; i -= base[n - 1]; d.n = n; d.k0 = (int)(i % 8); d.mask = i / 8; return d; };
    s.run = [=](uint64_t i, Case& c) {
        D d = dec(i);
        // slots 0..n-1, the last one is the end marker; mask: empty slots; one more empty slot after the end marker
        Arr a(d.n + 1);
        for (unsigned k = 0; k < d.n; k++) {
            if (d.mask >> k & 1) continue;
            if (k + 1 == d.n) a.a[k] = LIB(arg_end(2));
            else { Entry e = entry((d.k0 + (int)k) % 8, (int)k % 4); a.a[k] = LIB(pm::build_entry(e)); }
        }
        int want = d.mask ? 1 : 0, got = LIB(arg_nullcheck(a.a));
        c.steps += 2;
        if (!!got != want) c.fail(strf("the null check reports %d, %s", got, want ? "there is an empty entry" : "there is no empty entry"));
        std::vector<void*> before(a.a, a.a + a.n);
        unsigned freed_to = 0;      // slots below this are released
        if (d.how == 0) {           // older call: up to the first empty slot or the end marker
            while (freed_to < d.n && !(d.mask >> freed_to & 1)) freed_to++;
            LIBV(arg_free(a.a));
        } else if (d.how == 1) { freed_to = d.n + 1; LIBV(arg_freetable(a.a, a.n)); LIBV(arg_freetable(a.a, a.n)); }
        else { freed_to = std::min(d.how - 2, d.n + 1); LIBV(arg_freetable(a.a, freed_to)); }
        for (unsigned k = 0; k < a.n; k++) {
            if (k < freed_to) { if (a.a[k]) c.fail(strf("slot %u is not cleared by the release", k)); }
            else if (a.a[k] != before[k]) c.fail(strf("slot %u, which is not released, was changed", k));
        }
        for (unsigned k = freed_to; k < a.n; k++) if (a.a[k] == before[k] && before[k]) { vf::InLib g; free(a.a[k]); }
        c.mix((int)d.n); c.mix(d.mask); c.mix((int)d.how); c.mix(got);
    };
    s.desc = [=](uint64_t i) { D d = dec(i); return strf("%u slots, empty ones %llx, kinds from %d, release %u", d.n, (unsigned long long)d.mask, d.k0, d.how); };
    S.push_back(s);
    vf::Space z;
    z.name = "absent-table";
    z.n = 1;
    z.run = [](uint64_t, Case& c) { if (!LIB(arg_nullcheck(nullptr))) c.fail("the null check does not report an absent table"); c.steps++; };
    z.desc = [](uint64_t) { return string("no table"); };
    S.push_back(z);
}
// long tables: no empty slot or one at a given place, something or nothing after the end marker
static void long_tables(std::vector<vf::Space>& S, int dense, int max) {
    struct D { int n, at, after, how; };  // n slots with the end marker, at: the empty one (n: none)
    auto v = std::make_shared<std::vector<D>>();
    for (int n : vf::points(dense, max)) {
        std::vector<int> at = {n, 0, n - 1, n / 2, n > 2 ? n - 2 : 0};
        for (int p2 = 1; p2 < n; p2 *= 2) { at.push_back(p2); at.push_back(p2 - 1); }
        std::sort(at.begin(), at.end());
        at.erase(std::unique(at.begin(), at.end()), at.end());
        for (int a : at) for (int after = 0; after < 2; after++) for (int how = 0; how < 3; how++) v->push_back({n, a, after, how});
    }
    vf::Space s;
    s.name = "long-tables";
    s.n = v->size();
    s.run = [=](uint64_t i, Case& c) {
        const D d = (*v)[i];
        Arr a((size_t)d.n + 1);
        for (int k = 0; k < d.n; k++) {
            if (k == d.at) continue;
            if (k + 1 == d.n) a.a[k] = LIB(arg_end(2));
            else { Entry e = entry(k % 5 == 0 ? k / 5 % 8 : 7, 0); e.sh = e.lo = nullptr; if (e.kind == pm::LIT) e.kind = pm::REM; e.max = 1; a.a[k] = LIB(pm::build_entry(e)); }
        }
        void* beyond = d.after ? (void*)16 : nullptr;
        a.a[d.n] = beyond;
        std::vector<void*> before(a.a, a.a + a.n);
        int want = d.at < d.n, got = LIB(arg_nullcheck(a.a));
        c.steps += 2;
        if (!!got != want) c.fail(strf("the null check reports %d, %s", got, want ? "there is an empty entry" : "there is no empty entry"));
        if (!want) {
            static char prog[] = "prog", x[] = "12", y[] = "-q";
            char* av[] = {prog, x, y, x, nullptr};
            char** w = av;
            c.mix(LIB(arg_parse(4, w, a.a)));
            string t;
            both(c, t, [&](FILE* f) { arg_print_syntax(f, a.a, "\n"); arg_print_glossary(f, a.a, nullptr); }, nullptr);
            c.mix(t);
        }
        int freed_to = d.how == 0 ? std::min(d.at, d.n) : d.how == 1 ? d.n : d.n / 2;
        if (d.how == 0) LIBV(arg_free(a.a)); else LIBV(arg_freetable(a.a, (size_t)freed_to));
        for (int k = 0; k <= d.n; k++) {
            if (k < freed_to) { if (a.a[k]) c.fail(strf("slot %d is not cleared by the release", k)); }
            else if (a.a[k] != before[(size_t)k]) c.fail(strf("slot %d, which is not released, was changed", k));
        }
        for (int k = freed_to; k < d.n; k++) if (a.a[k] == before[(size_t)k] && before[(size_t)k]) { vf::InLib g; free(a.a[k]); }
        c.mix(got);
    };
    s.desc = [=](uint64_t i) { const D d = (*v)[i]; return strf("%d slots, %s, %s after the end marker, %s", d.n, d.at < d.n ? strf("slot %d empty", d.at).c_str() : "none empty", d.after ? "something" : "an empty slot", d.how == 0 ? "released the older way" : d.how == 1 ? "released" : "half released"); };
    S.push_back(s);
}
// constructors of every type and bounds: write to every declared slot, then release
static void construct(std::vector<vf::Space>& S, int m) {
    vf::Space s;
    s.name = "constructors";
    s.n = (uint64_t)(8 * (m + 1) * (m + 1));
    s.run = [=](uint64_t i, Case& c) {
        int k = (int)(i % 8), mn = (int)(i / 8) % (m + 1), mx = (int)(i / 8) / (m + 1), cap = std::max(mn, mx);
        Entry e = entry(k, 0);
        if (k < 7) { e.min = mn; e.max = mx; }
        Table t;
        t.cap = cap + 1;
        t.e = {e};
        pm::Real R(t);
        c.steps++;
        for (int q = 0; q < cap; q++) switch (k) {
            case 1: ((arg_int_t*)R.at[0])->ival[q] = -1; break;
            case 2: ((arg_dbl_t*)R.at[0])->dval[q] = 1.5; if ((uintptr_t) & ((arg_dbl_t*)R.at[0])->dval[q] % sizeof(double)) c.fail("misaligned double"); break;
            case 3: if (*((arg_str_t*)R.at[0])->sval[q]) c.fail("an initial string value is not empty"); ((arg_str_t*)R.at[0])->sval[q] = "default"; break;
            case 4: if (*((arg_rex_t*)R.at[0])->sval[q]) c.fail("an initial regular-expression value is not empty"); ((arg_rex_t*)R.at[0])->sval[q] = "default"; break;
            case 5: { arg_file_t* f = (arg_file_t*)R.at[0]; if (*f->filename[q] || *f->basename[q] || *f->extension[q]) c.fail("an initial file value is not empty"); f->filename[q] = "a/b.c"; f->basename[q] = "b.c"; f->extension[q] = ".c"; break; }
            case 6: memset(&((arg_date_t*)R.at[0])->tmval[q], 1, sizeof(struct tm)); break;
        }
        // the slots written do not disturb each other
        if (k == 5) for (int q = 0; q < cap; q++) { arg_file_t* f = (arg_file_t*)R.at[0]; if (strcmp(f->filename[q], "a/b.c") || strcmp(f->basename[q], "b.c") || strcmp(f->extension[q], ".c")) c.fail("value arrays overlap"); }
        struct arg_hdr* h = (struct arg_hdr*)R.at[0];
        if (k < 7 && (h->mincount != mn || h->maxcount != cap)) c.fail(strf("bounds %d..%d, expected %d..%d", h->mincount, h->maxcount, mn, cap));
        for (int q = 0; q < t.cap; q++) { R.end->error[q] = 1; R.end->parent[q] = R.end; R.end->argval[q] = "x"; }
        for (int q = 0; q < t.cap; q++) if (R.end->error[q] != 1 || R.end->parent[q] != R.end || strcmp(R.end->argval[q], "x")) c.fail("the arrays of the end marker overlap");
        c.mix((int)i);
    };
    s.desc = [=](uint64_t i) { return strf("type %d with bounds %d..%d", (int)(i % 8), (int)(i / 8) % (m + 1), (int)(i / 8) / (m + 1)); };
    S.push_back(s);
}

// one parse of every short line, the errors printed, then the release
static void lines(std::vector<vf::Space>& S, const char* name, std::shared_ptr<pm::Family> f, bool posix) {
    vf::Space s;
    s.name = name;
    s.n = f->n;
    s.run = [=](uint64_t i, Case& c) {
        std::vector<const char*> l;
        size_t k = f->locate(i, l);
        pm::Real R(f->tables[k]);
        static char prog[] = "prog";
        std::vector<char*> av = {prog};
        for (auto x : l) av.push_back((char*)x);
        av.push_back(nullptr);
        pm::set_posix(posix);
        c.mix(LIB(arg_parse((int)l.size() + 1, av.data(), R.at.data())));
        arg_dstr_t d = LIB(arg_dstr_create());
        LIBV(arg_print_errors_ds(d, R.end, "prog"));
        c.mix(string(LIB(arg_dstr_cstr(d))));
        LIBV(arg_dstr_destroy(d));
        c.steps += 2;
    };
    s.desc = [=](uint64_t i) { std::vector<const char*> l; size_t k = f->locate(i, l); return pm::show(f->tables[k]) + " " + pm::show(l) + ", print errors, release"; };
    S.push_back(s);
}
// entries for every short pattern, valid or not, used and released
static void patterns(std::vector<vf::Space>& S, unsigned len) {
    static const string al = "a(|)[]*{1}?^\\";
    vf::Space s;
    uint64_t n = vf::seq_count(al.size(), len);
    auto mk = [=](uint64_t i) { string p; for (int d : vf::seq_at(i, al.size(), len)) p += al[(size_t)d]; return p; };
    s.name = "patterns";
    s.n = n * 2;
    s.run = [=](uint64_t i, Case& c) {
        vf::Str p(mk(i / 2));
        void* at[] = {LIB(arg_rex1("r", "rex", p.p, nullptr, i % 2 ? ARG_REX_ICASE : 0, "x")), LIB(arg_rexn(nullptr, nullptr, p.p, "<x>", 0, 2, 0, nullptr)), LIB(arg_end(3))};
        static char prog[] = "prog", x[] = "-ra", y[] = "aa", z[] = "--rex=";
        char* av[] = {prog, x, y, z, nullptr};
        c.mix(LIB(arg_parse(4, av, at)));
        arg_dstr_t d = LIB(arg_dstr_create());
        LIBV(arg_print_errors_ds(d, (struct arg_end*)at[2], "prog"));
        c.mix(string(LIB(arg_dstr_cstr(d))));
        LIBV(arg_dstr_destroy(d));
        LIBV(arg_freetable(at, 3));
        c.steps += 3;
    };
    s.desc = [=](uint64_t i) { return "pattern " + quote(mk(i / 2)) + (i % 2 ? " ignoring case" : "") + ": construct, parse, print errors, release"; };
    S.push_back(s);
}

// settings kept for the life of the program: the same history again holds no more memory than the first time
static void settings(std::vector<vf::Space>& S, unsigned len) {
    static const char* ON[] = {"name app", "no name", "long name", "version 1.2.3 tag", "version without tag", "long tag", "register", "help", "unregister"};
    const int N = 9;
    vf::Space s;
    s.name = strf("settings-%u", len);
    s.n = vf::ipow(N, len);
    s.run = [=](uint64_t i, Case& c) {
        int d[8];
        vf::digits(i, N, len, d);
        c.leak_ok = true;
        auto history = [&] {
            LIBV(arg_cmd_init());
            { vf::Str n("app"), v("start"); LIBV(arg_set_module_name(n.p)); LIBV(arg_set_module_version(0, 0, 0, v.p)); }
            for (unsigned k = 0; k < len; k++) {
                c.steps++;
                switch (d[k]) {
                    case 0: { vf::Str n("app"); LIBV(arg_set_module_name(n.p)); break; }
                    case 1: { vf::Str n(""); LIBV(arg_set_module_name(n.p)); break; }
                    case 2: { vf::Str n(string(300, 'n')); LIBV(arg_set_module_name(n.p)); break; }
                    case 3: { vf::Str n("tag"); LIBV(arg_set_module_version(1, 2, 3, n.p)); break; }
                    case 4: { vf::Str n(""); LIBV(arg_set_module_version(-1, 0, 2147483647, n.p)); break; }
                    case 5: { vf::Str n(string(300, 't')); LIBV(arg_set_module_version(10, 20, 30, n.p)); break; }
                    case 6: { vf::Str n("cmd"), e("text"); LIBV(arg_cmd_register(n.p, nullptr, e.p, nullptr)); break; }
                    case 7: { arg_dstr_t x = LIB(arg_dstr_create()); vf::Str n("app"); LIBV(arg_make_get_help_msg(x)); c.mix(string(LIB(arg_dstr_cstr(x)))); LIBV(arg_dstr_destroy(x)); break; }
                    case 8: { vf::Str n("cmd"); LIBV(arg_cmd_unregister(n.p)); break; }
                }
            }
            LIBV(arg_cmd_uninit());
        };
        history();
        long once = vf::g_live;
        history();
        long twice = vf::g_live;
        history();
        if (twice != once || vf::g_live != once) c.fail(strf("each repetition of the history holds %ld and %ld more blocks", twice - once, vf::g_live - twice));
    };
    s.desc = [=](uint64_t i) { int d[8]; vf::digits(i, N, len, d); string r = "registry settings, three times: "; for (unsigned k = 0; k < len; k++) r += string(ON[d[k]]) + ", "; return r + "release"; };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C22";
    c.rule = "every sequence of the bound length over parsing (correct, bad, excess, unknown, empty lines), rendering, printing errors and null checks, on every one-entry (and two-entry) table of every type and shape, then each way of releasing, the printing going to an ordinary stream, standard output or standard error; every line of up to the bound of tokens, and every pattern of up to the bound length, parsed once; tables of every size up to the bound; every operation sequence of the bound length on a sub-command registry, a hash table and a dynamic string, then its release; every history of the bound length of module names and versions, repeated three times, holding no more memory each time; every subset of empty slots with every release call and length, and long tables with one empty slot or none; every type with every pair of bounds; the allocator's balance of the library's blocks must be zero at the end, and address and undefined-behaviour sanitizers watch every access; outcomes are distinct by results and printed text";
    c.assumptions = {"allocation succeeds (see C23)", "entries are released by the library's own calls and once"};
    c.silent = false;  // an invalid pattern is announced on standard output
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        for (unsigned l = 1; l <= (q ? 4u : 5u); l++) sequences(S, l, false);
        sequences(S, q ? 2 : 3, true);
        auto f = std::make_shared<pm::Family>();
        for (int k = pm::LIT; k <= pm::DATE; k++) for (int o = 0; o < (k == pm::LIT ? 1 : 3); o++) {
            Table tb;
            tb.cap = 3;
            tb.e = {{(pm::Kind)k, "k", "key,other", 0, 2, o == 1}};
            if (o == 2) tb.e.push_back({(pm::Kind)k, nullptr, nullptr, 1, 2});
            f->add(tb, pm::alphabet(tb), q ? 3 : 4);
        }
        lines(S, "lines", f, false);
        lines(S, "lines-posix", f, true);
        lines(S, "odd-tokens", pm::odd_family(q ? 3 : 4, 3), false);
        lines(S, "remarks", pm::remark_family(q ? 2 : 3, 3), false);
        patterns(S, q ? 4 : 5);
        large(S, q ? 80 : 200);
        registries(S, q ? 4 : 6);
        hashes(S, q ? 5 : 6);
        settings(S, q ? 4 : 6);
        strings(S, q ? 5 : 6);
        holes(S, q ? 8 : 11);
        long_tables(S, q ? 40 : 120, q ? 1024 : 4096);
        construct(S, q ? 12 : 40);
    };
    return vf::run(c, argc, argv);
}
