// C28: a constructor makes exactly the entry it is asked for, and nothing else changes it.
#include "pm.hpp"
using namespace pm;

enum { END = REM + 1 };
static const char* const KIND[] = {"lit", "int", "dbl", "str", "rex", "file", "date", "rem", "end"};
static_assert(LIT == 0 && INT == 1 && DBL == 2 && STR == 3 && REX == 4 && FIL == 5 && DATE == 6 && REM == 7, "kinds");

// what a constructor is given
struct Ask {
    int kind = LIT, form = 2;  // form 0: xxx0, 1: xxx1, 2: xxxn
    const char *sh = nullptr, *lo = nullptr, *dt = nullptr, *gloss = nullptr, *extra = nullptr;  // extra: pattern or format
    int min = 0, max = 1;
};
static std::string show(const Ask& a) {
    return strf("%s%s(%s, %s, %s, %s, %d, %d, %s)", KIND[a.kind], a.kind >= REM ? "" : a.form == 0 ? "0" : a.form == 1 ? "1" : "n", quote(a.sh).c_str(), quote(a.lo).c_str(), quote(a.extra).c_str(), quote(a.dt).c_str(), a.min, a.max, quote(a.gloss).c_str());
}
static void* make(const Ask& a) {
    vf::InLib g;
#define CASE(K, f, ...) case K: return a.form == 0 ? (void*)arg_##f##0(a.sh, a.lo, ##__VA_ARGS__, a.gloss) : (void*)arg_##f##1(a.sh, a.lo, ##__VA_ARGS__, a.gloss)
    if (a.kind == REM) return arg_rem(a.dt, a.gloss);
    if (a.kind == END) return arg_end(a.max);
    if (a.form < 2) switch (a.kind) {
        CASE(LIT, lit);
        CASE(INT, int, a.dt);
        CASE(DBL, dbl, a.dt);
        CASE(STR, str, a.dt);
        CASE(FIL, file, a.dt);
        CASE(REX, rex, a.extra, a.dt, ARG_REX_ICASE);
        CASE(DATE, date, a.extra, a.dt);
    }
#undef CASE
    switch (a.kind) {
        case LIT: return arg_litn(a.sh, a.lo, a.min, a.max, a.gloss);
        case INT: return arg_intn(a.sh, a.lo, a.dt, a.min, a.max, a.gloss);
        case DBL: return arg_dbln(a.sh, a.lo, a.dt, a.min, a.max, a.gloss);
        case STR: return arg_strn(a.sh, a.lo, a.dt, a.min, a.max, a.gloss);
        case FIL: return arg_filen(a.sh, a.lo, a.dt, a.min, a.max, a.gloss);
        case REX: return arg_rexn(a.sh, a.lo, a.extra, a.dt, a.min, a.max, ARG_REX_ICASE, a.gloss);
        case DATE: return arg_daten(a.sh, a.lo, a.extra, a.dt, a.min, a.max, a.gloss);
    }
    return nullptr;
}
// what the entry must show
struct Want { int flag, min, max; const char *sh, *lo, *dt, *gloss; };
static Want want(const Ask& a) {
    Want w;
    if (a.kind == END) return {ARG_TERMINATOR, 1, a.max, nullptr, nullptr, nullptr, nullptr};
    w.flag = a.kind == LIT || a.kind == REM ? 0 : ARG_HASVALUE;
    w.min = a.form == 2 ? a.min : a.form;
    w.max = a.form == 2 ? (a.max < a.min ? a.min : a.max) : 1;
    w.sh = a.sh; w.lo = a.lo; w.gloss = a.gloss;
    static const char* const D[] = {nullptr, "<int>", "<double>", "<string>", nullptr, "<file>", nullptr};
    if (a.kind == REM) { w.sh = w.lo = nullptr; w.dt = a.dt; w.min = w.max = 1; }
    else if (a.kind == LIT) w.dt = nullptr;
    else if (a.dt) w.dt = a.dt;
    else if (a.kind == REX) w.dt = a.extra;
    else if (a.kind == DATE) w.dt = a.extra ? a.extra : "%x";
    else w.dt = D[a.kind];
    return w;
}
static bool eqs(const char* a, const char* b) { return a == b || (a && b && !strcmp(a, b)); }
static int* counter(int kind, void* p) {
    switch (kind) {
        case LIT: return &((arg_lit_t*)p)->count;
        case INT: return &((arg_int_t*)p)->count;
        case DBL: return &((arg_dbl_t*)p)->count;
        case STR: return &((arg_str_t*)p)->count;
        case REX: return &((arg_rex_t*)p)->count;
        case FIL: return &((arg_file_t*)p)->count;
        case DATE: return &((arg_date_t*)p)->count;
        case END: return &((arg_end_t*)p)->count;
    }
    return nullptr;
}
static bool header(const Ask& a, void* p, Case& c, const char* when) {
    Want w = want(a);
    const struct arg_hdr* h = (const struct arg_hdr*)p;
    auto bad = [&](const char* what, const std::string& got, const std::string& exp) { c.fail(strf("%s, ", when) + show(a) + " has " + what + " " + got + ", expected " + exp); return false; };
    if (!p) { c.fail(strf("%s, ", when) + show(a) + " is missing"); return false; }
    if (h->flag != w.flag) return bad("flag", strf("%d", h->flag), strf("%d", w.flag));
    if (!eqs(h->shortopts, w.sh)) return bad("short options", quote(h->shortopts), quote(w.sh));
    if (!eqs(h->longopts, w.lo)) return bad("long options", quote(h->longopts), quote(w.lo));
    if (!eqs(h->datatype, w.dt)) return bad("data type", quote(h->datatype), quote(w.dt));
    if (!eqs(h->glossary, w.gloss)) return bad("description", quote(h->glossary), quote(w.gloss));
    if (a.kind < REM && h->mincount != w.min) return bad("minimum", strf("%d", h->mincount), strf("%d", w.min));
    if (a.kind != REM && h->maxcount != w.max) return bad("maximum", strf("%d", h->maxcount), strf("%d", w.max));
    if (a.kind != REM && h->parent != p) return bad("parent", "another entry", "itself");
    if (a.kind == DATE && !eqs(((arg_date_t*)p)->format, a.extra ? a.extra : "%x")) return bad("format", quote(((arg_date_t*)p)->format), quote(a.extra ? a.extra : "%x"));
    c.mix(h->mincount); c.mix(h->maxcount); c.mixz(h->datatype);
    return true;
}
static bool fresh(const Ask& a, void* p, Case& c) {
    if (!header(a, p, c, "newly made")) return false;
    if (int* n = counter(a.kind, p)) if (*n) { c.fail("new " + show(a) + strf(" counts %d occurrences", *n)); return false; }
    return true;
}
// every slot of every array gets its own content; the key tells entries apart
template <class F> static void arrays(int kind, void* p, int n, F f) {
    switch (kind) {
        case INT: f(((arg_int_t*)p)->ival, n); break;
        case DBL: f(((arg_dbl_t*)p)->dval, n); break;
        case STR: f(((arg_str_t*)p)->sval, n); break;
        case REX: f(((arg_rex_t*)p)->sval, n); break;
        case FIL: f(((arg_file_t*)p)->filename, n); f(((arg_file_t*)p)->basename, n); f(((arg_file_t*)p)->extension, n); break;
        case DATE: f(((arg_date_t*)p)->tmval, n); break;
        case END: f(((arg_end_t*)p)->error, n); f(((arg_end_t*)p)->parent, n); f(((arg_end_t*)p)->argval, n); break;
    }
}
static unsigned salt(unsigned k) { return k * 2654435761u + 97; }
static void put(int& x, unsigned k) { x = (int)salt(k); }
static void put(double& x, unsigned k) { x = (double)k * 3.0 + 0.25; }
static void put(const char*& x, unsigned k) { x = (const char*)(uintptr_t)(0x10000000u + (uint64_t)k * 7); }
static void put(void*& x, unsigned k) { x = (void*)(uintptr_t)(0x20000000u + (uint64_t)k * 7); }
static void put(struct tm& x, unsigned k) { memset(&x, 0, sizeof x); int* q = (int*)&x; for (int i = 0; i < 9; i++) q[i] = (int)salt(k * 9 + (unsigned)i); }
static bool same(const int& x, const int& y) { return x == y; }
static bool same(const double& x, const double& y) { return x == y; }
static bool same(const char* const& x, const char* const& y) { return x == y; }
static bool same(void* const& x, void* const& y) { return x == y; }
static bool same(const struct tm& x, const struct tm& y) { return !memcmp(&x, &y, 9 * sizeof(int)); }
static int room(const Ask& a) { return a.kind == LIT || a.kind == REM ? 0 : want(a).max; }
static void fill(const Ask& a, void* p, unsigned key) {
    unsigned k = key * 1000003u;
    arrays(a.kind, p, room(a), [&](auto* v, int n) { for (int j = 0; j < n; j++) put(v[j], k++); });
}
static bool filled(const Ask& a, void* p, unsigned key, Case& c, const char* when) {
    unsigned k = key * 1000003u;
    bool ok = true;
    int which = 0;
    arrays(a.kind, p, room(a), [&](auto* v, int n) {
        for (int j = 0; j < n; j++) {
            std::remove_reference_t<decltype(v[j])> x;
            put(x, k++);
            if (ok && !same(v[j], x)) { ok = false; c.fail(strf("%s, slot %d of array %d of ", when, j, which) + show(a) + " does not hold what was stored there"); }
        }
        which++;
    });
    return ok;
}
// an entry whose slots are all in use still reads its arguments the way it was made
static void reads(const Ask& a, void* p, Case& c) {
    static char prog[] = "prog", k[] = "-k", V[][12] = {"7", "0.5", "text", "AB", "d/f.e", "2001-02-03"};
    int v = a.kind == INT ? 0 : a.kind == DBL ? 1 : a.kind == STR ? 2 : a.kind == REX ? 3 : a.kind == FIL ? 4 : a.kind == DATE ? 5 : -1;
    int* n = counter(a.kind, p);
    Want w = want(a);
    if (v < 0 || w.max < 1 || !w.sh || *w.sh != 'k') return;
    void* e = LIB(arg_end(1));
    void* t[2] = {p, e};
    std::vector<char*> av = {prog};
    for (int j = 0; j < w.min || j < 1; j++) { av.push_back(k); av.push_back(V[v]); }
    int cnt = (int)av.size() / 2;
    av.push_back(nullptr);
    int r = LIB(arg_parse((int)av.size() - 1, av.data(), t));
    c.steps++;
    if (r || *n != cnt) c.fail(show(a) + strf(": with all slots filled before, a parse of %d good arguments returns %d and counts %d", cnt, r, *n));
    LIBV(arg_freetable(t + 1, 1));
}
static void release(void* p) { vf::InLib g; void* t[1] = {p}; arg_freetable(t, 1); }

static const char* const SH[] = {nullptr, "k", "kj"};
static const char* const LO[] = {nullptr, "key", "key,alt"};
static const char* const DT[] = {nullptr, "", "<x>"};
static const char* const GL[] = {nullptr, "", "text %s"};
static const char* const PAT[] = {"a*b", "[0-9]+", "(x|y)?%s"};
static const char* const FMT[] = {"%Y-%m-%d", nullptr, "%H"};
static bool extra(int kind) { return kind == REX || kind == DATE; }

// every constructor with every combination of arguments
static void made(std::vector<vf::Space>& S, int maxb) {
    struct D { std::vector<Ask> a; };
    auto d = std::make_shared<D>();
    for (int k = LIT; k <= REM; k++)
        for (int form = 0; form < 3; form++)
            for (int s = 0; s < 3; s++) for (int l = 0; l < 3; l++) for (int t = 0; t < 3; t++) for (int g = 0; g < 3; g++) for (int x = 0; x < 3; x++) {
                if (k == REM && (form || s || l)) continue;
                if (k == LIT && t) continue;
                if (!extra(k) && x) continue;
                Ask a;
                a.kind = k; a.form = form; a.sh = SH[s]; a.lo = LO[l]; a.dt = DT[t]; a.gloss = GL[g];
                if (extra(k)) a.extra = (k == REX ? PAT : FMT)[x];
                for (a.min = 0; a.min <= (form == 2 ? maxb : 0); a.min++)
                    for (a.max = 0; a.max <= (form == 2 ? maxb : 0); a.max++) d->a.push_back(a);
            }
    for (int m = 1; m <= maxb * 10; m++) { Ask a; a.kind = END; a.max = m; d->a.push_back(a); }
    vf::Space s;
    s.name = "made";
    s.n = d->a.size();
    s.run = [d](uint64_t i, Case& c) {
        const Ask& a = d->a[i];
        void* p = make(a);
        c.steps = 1;
        if (fresh(a, p, c)) {
            fill(a, p, 1);
            if (filled(a, p, 1, c, "after filling") && header(a, p, c, "after filling its slots"))
                if (int* n = counter(a.kind, p)) if (*n) c.fail(show(a) + ": filling the slots changed the count");
        }
        if (p) release(p);
    };
    s.desc = [d](uint64_t i) { return show(d->a[i]); };
    S.push_back(s);
}
// many slots
static void sizes(std::vector<vf::Space>& S, int dense, int max) {
    auto pts = std::make_shared<std::vector<int>>(vf::points(dense, max));
    vf::Space s;
    s.name = "sizes";
    s.n = pts->size() * 8 * 3;
    auto at = [pts](uint64_t i) {
        Ask a;
        int how = (int)(i % 3);
        a.kind = (int)(i / 3 % 8) == 7 ? (int)END : (int)(i / 3 % 8);
        int m = (*pts)[i / 24];
        a.max = how == 2 && a.kind != END ? 0 : m;
        a.min = how == 0 ? 0 : m;
        a.sh = "k"; a.gloss = "g";
        if (extra(a.kind)) a.extra = (a.kind == REX ? PAT : FMT)[0];
        return a;
    };
    s.run = [at](uint64_t i, Case& c) {
        Ask a = at(i);
        void* p = make(a);
        c.steps = 1;
        if (fresh(a, p, c)) {
            fill(a, p, 1);
            if (filled(a, p, 1, c, "after filling") && header(a, p, c, "after filling its slots")) reads(a, p, c);
        }
        if (p) release(p);
    };
    s.desc = [at](uint64_t i) { return show(at(i)); };
    S.push_back(s);
}
// entries made and released in every order
static void lives(std::vector<vf::Space>& S, unsigned len) {
    const int B = 9 * 2 + 4;  // make one of nine kinds with few or more slots; release one of the four oldest
    vf::Space s;
    s.name = "lives";
    s.n = vf::seq_count(B, len);
    auto ask = [](int op) {
        Ask a;
        a.kind = op % 9; a.sh = "k"; a.lo = op / 9 ? nullptr : "key"; a.dt = op / 9 ? "<v>" : nullptr; a.gloss = "g"; a.min = op / 9; a.max = op / 9 ? 5 : 1;
        if (extra(a.kind)) a.extra = (a.kind == REX ? PAT : FMT)[0];
        return a;
    };
    s.run = [ask, len](uint64_t i, Case& c) {
        std::vector<int> ops = vf::seq_at(i, B, len);
        struct L { Ask a; void* p; unsigned key; };
        std::vector<L> live;
        unsigned key = 0;
        for (int op : ops) {
            c.steps++;
            if (op < 18) {
                Ask a = ask(op);
                void* p = make(a);
                if (!fresh(a, p, c)) { if (p) release(p); break; }
                fill(a, p, ++key);
                live.push_back({a, p, key});
            } else if ((size_t)(op - 18) < live.size()) {
                release(live[(size_t)op - 18].p);
                live.erase(live.begin() + (op - 18));
            }
            for (auto& l : live) if (!c.failed && header(l.a, l.p, c, "after another call")) filled(l.a, l.p, l.key, c, "after another call");
            if (c.failed) break;
        }
        for (auto& l : live) release(l.p);
    };
    s.desc = [ask, len](uint64_t i) { std::string r; for (int op : vf::seq_at(i, B, len)) r += (op < 18 ? show(ask(op)) : strf("release %d", op - 18)) + "; "; return r; };
    S.push_back(s);
}
// tables with missing entries: the null check, and releasing every first part
static void tables(std::vector<vf::Space>& S, int maxn) {
    struct D { int n; unsigned mask; int how; };
    auto d = std::make_shared<std::vector<D>>();
    for (int n = 0; n <= maxn; n++)
        for (unsigned mask = 0; mask < 1u << n; mask++)
            for (int how = -1; how <= n + 2; how++) d->push_back({n, mask, how});
    vf::Space s;
    s.name = "tables";
    s.n = d->size() * 3;
    auto ask = [](int j, int shift) {
        Ask a;
        a.kind = (j + shift * 3) % 8; a.sh = "k"; a.dt = "<v>"; a.gloss = "g"; a.max = j % 3 + 1;
        if (extra(a.kind)) a.extra = (a.kind == REX ? PAT : FMT)[0];
        return a;
    };
    // entries, then the end marker, then one more entry; how: -1 arg_free, else arg_freetable of that many
    s.run = [d, ask](uint64_t i, Case& c) {
        const D& x = (*d)[i / 3];
        int shift = (int)(i % 3);
        std::vector<void*> t;
        std::vector<Ask> as;
        for (int j = 0; j < x.n; j++) { as.push_back(ask(j, shift)); t.push_back(x.mask >> j & 1 ? nullptr : make(as.back())); }
        Ask e; e.kind = END; e.max = 3;
        as.push_back(e); t.push_back(make(e));
        as.push_back(ask(x.n, shift)); t.push_back(make(as.back()));
        for (size_t j = 0; j < t.size(); j++) if (t[j]) fill(as[j], t[j], (unsigned)j + 1);
        std::vector<void*> was = t;
        int r = LIB(arg_nullcheck(t.data()));
        c.steps = 2;
        if ((r != 0) != (x.mask != 0)) c.fail(strf("the null check returns %d for a table with %s", r, x.mask ? "missing entries" : "no missing entry"));
        if (t != was) c.fail("the null check changed the table");
        c.mix(r);
        size_t gone = (size_t)(x.how < 0 ? 0 : x.how);
        if (x.how < 0) {
            LIBV(arg_free(t.data()));
            gone = x.mask ? (size_t)__builtin_ctz(x.mask) : (size_t)x.n + 1;
        } else LIBV(arg_freetable(t.data(), gone));
        for (size_t j = 0; j < t.size() && !c.failed; j++) {
            if (j < gone) { if (t[j]) c.fail(strf("entry %zu is still in the table after its release", j)); }
            else if (t[j] != was[j]) c.fail(strf("entry %zu of the table changed though only %zu were to be released", j, gone));
            else if (t[j] && header(as[j], t[j], c, "after releasing others")) filled(as[j], t[j], (unsigned)j + 1, c, "after releasing others");
        }
        LIBV(arg_freetable(t.data(), t.size()));
    };
    s.desc = [d, ask](uint64_t i) {
        const D& x = (*d)[i / 3];
        std::string r = strf("table of %d entries", x.n);
        for (int j = 0; j < x.n; j++) r += std::string(j ? ", " : ": ") + (x.mask >> j & 1 ? "missing" : show(ask(j, (int)(i % 3))));
        return r + ", the end marker and one more; " + (x.how < 0 ? std::string("arg_free") : strf("arg_freetable of %d", x.how));
    };
    S.push_back(s);
}
// using entries does not change what they were made with
static const char* const TOK[] = {"-k", "-k7", "--key=ab", "--key", "2001-02-03", "--zz"};
static void used(std::vector<vf::Space>& S, unsigned len) {
    const int B = 6 + 6;  // parse a line of one or two tokens; render; print errors; error screen
    vf::Space s;
    s.name = "used";
    uint64_t per = vf::seq_count(B, len);
    s.n = per * 7 * 3 * 2;
    auto ask = [](uint64_t q) {
        Ask a;
        a.kind = (int)(q % 7); q /= 7;
        int tag = (int)(q % 3); q /= 3;
        a.sh = tag == 0 || a.kind == LIT ? "k" : nullptr; a.lo = tag == 1 ? "key,alt" : nullptr;
        a.min = (int)q; a.max = 2; a.gloss = "text"; a.dt = q ? nullptr : "<v>";
        if (extra(a.kind)) a.extra = (a.kind == REX ? PAT : FMT)[0];
        return a;
    };
    s.run = [ask, per, len](uint64_t i, Case& c) {
        Ask a = ask(i / per), e, m;
        e.kind = END; e.max = 2;
        m.kind = REM; m.dt = "<rem>"; m.gloss = "more";
        void* t[3] = {make(a), make(m), make(e)};
        const Ask* as[3] = {&a, &m, &e};
        arg_dstr_t ds = LIB(arg_dstr_create());
        char prog[] = "prog";
        std::vector<std::vector<char>> hold;
        for (int op : vf::seq_at(i % per, B, len)) {
            c.steps++;
            struct arg_end* end = (struct arg_end*)t[2];
            if (op < 6) {
                hold.emplace_back(TOK[op], TOK[op] + strlen(TOK[op]) + 1);
                char* v[4] = {prog, hold.back().data(), (char*)"9", nullptr};
                int r = LIB(arg_parse(op % 2 ? 3 : 2, v, t));
                c.mix(r);
            } else switch (op) {
                case 6: LIBV(arg_print_syntax_ds(ds, t, "\n")); break;
                case 7: LIBV(arg_print_syntaxv_ds(ds, t, "\n")); break;
                case 8: LIBV(arg_print_glossary_ds(ds, t, nullptr)); break;
                case 9: LIBV(arg_print_glossary_gnu_ds(ds, t)); break;
                case 10: LIBV(arg_print_errors_ds(ds, end, "prog")); break;
                case 11: LIBV(arg_make_syntax_err_msg(ds, t, end)); break;
            }
            for (int j = 0; j < 3 && !c.failed; j++) header(*as[j], t[j], c, "after use");
            if (c.failed) break;
        }
        c.mix(std::string(LIB(arg_dstr_cstr(ds))));
        LIBV(arg_dstr_destroy(ds));
        LIBV(arg_freetable(t, 3));
    };
    s.desc = [ask, per, len](uint64_t i) {
        std::string r = show(ask(i / per)) + ":";
        static const char* const N[] = {"usage", "long usage", "glossary", "GNU glossary", "errors", "error screen"};
        for (int op : vf::seq_at(i % per, B, len)) r += op < 6 ? strf(" parse %s%s;", TOK[op], op % 2 ? " 9" : "") : strf(" %s;", N[op - 6]);
        return r;
    };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C28";
    c.rule = "every constructor in every form with every combination of present, empty and absent strings and every pair of counts up to the bound; every type with a ladder of sizes; every sequence of the bound length of making entries of every type and releasing them, all live entries being looked at after each call; every table with every set of missing entries, checked for missing ones and released with every call and length; every sequence of the bound length of parses and renderings; headers, counts and the content of every slot are compared; outcomes are distinct by the headers and results";
    c.assumptions = {"contents of strings are compared, not addresses", "private header data is not looked at"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        made(S, q ? 6 : 12);
        sizes(S, q ? 300 : 2000, q ? 65536 : 1 << 20);
        lives(S, q ? 4 : 5);
        tables(S, q ? 8 : 11);
        used(S, q ? 4 : 5);
    };
    return vf::run(c, argc, argv);
}
