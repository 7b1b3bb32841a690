// Reference model of a parse, and the code that runs the same parse on the library.
#pragma once
#include "conv.hpp"
#include "vf.hpp"
extern "C" {
#include "argtable3.h"
}

namespace pm {
using vf::Case;
using vf::strf;
using vf::quote;

enum Kind { LIT, INT, DBL, STR, REX, FIL, DATE, REM };
static const char* KN[] = {"lit", "int", "dbl", "str", "rex", "file", "date", "rem"};

// Every rex entry uses this pattern and every date entry this format unless told otherwise.
static const char* REXPAT = "[a-c]+";
static const char* DATEFMT = "%Y-%m-%d";
inline bool rex_ok(const char* s) {
    if (!*s) return false;
    for (; *s; s++) if (*s < 'a' || *s > 'c') return false;
    return true;
}

struct Entry {
    Kind kind;
    const char* sh;
    const char* lo;
    int min, max;
    bool opt = false;             // optional value
    const char* dt = nullptr;     // value name
    const char* gloss = nullptr;
    bool tagged() const { return sh || lo; }
    bool hasval() const { return kind != LIT && kind != REM; }
};
struct Table {
    std::vector<Entry> e;
    int cap = 20;
};
inline std::string show(const Entry& e) {
    return strf("%s(%s,%s,%d..%d%s)", KN[e.kind], e.sh ? e.sh : "-", e.lo ? e.lo : "-", e.min, e.max, e.opt ? ",optional value" : "");
}
inline std::string show(const Table& t) {
    std::string r = "[";
    for (size_t i = 0; i < t.e.size(); i++) { if (i) r += " "; r += show(t.e[i]); }
    return r + strf(" end(%d)]", t.cap);
}
inline std::string show(const std::vector<const char*>& line) {
    std::string r = "prog";
    for (auto s : line) r += " " + quote(s);
    return r;
}

// ------------------------------------------------------------------ the model
struct Err { int entry; int code; const char* argval; };  // entry -1: end marker
struct Val { bool given; const char* s; int i; double d; struct tm t; };
struct Res {
    std::vector<int> count;
    std::vector<std::vector<Val>> val;
    std::vector<Err> err;  // all errors, not limited by capacity
};

// set by the harness of the long-only build: a single dash introduces long names, too
inline bool& long_only() { static bool b = false; return b; }

struct Model {
    const Table& t;
    Res r;
    explicit Model(const Table& t) : t(t) { r.count.assign(t.e.size(), 0); r.val.resize(t.e.size()); }

    virtual ~Model() {}
    virtual bool scans(size_t k) { return t.e[k].kind != REM; }
    virtual int check(size_t k) { return t.e[k].kind != REM && r.count[k] < t.e[k].min ? conv::MINCOUNT : 0; }
    virtual int scan(size_t k, const char* v) {
        const Entry& e = t.e[k];
        int max = e.max < e.min ? e.min : e.max;
        if (r.count[k] >= max) return conv::MAXCOUNT;
        Val x;
        memset(&x, 0, sizeof x);
        x.given = v && e.kind != LIT;
        x.s = v;
        if (v) {
            int rc = 0;
            switch (e.kind) {
                case INT: rc = conv::model_int(v, &x.i); break;
                case DBL: rc = conv::model_dbl(v, &x.d); break;
                case REX: rc = rex_ok(v) ? 0 : conv::REGNOMATCH; break;
                case DATE: rc = conv::model_date(v, DATEFMT, x.t); break;
                default: break;
            }
            if (rc) return rc;
        }
        r.count[k]++;
        r.val[k].push_back(x);
        return 0;
    }
    void err(int e, int code, const char* a) { r.err.push_back({e, code, a}); }

    void parse(const std::vector<const char*>& a, bool posix) {
        std::vector<const char*> operands;
        bool rest = false;
        for (size_t i = 0; i < a.size(); i++) {
            const char* tok = a[i];
            if (rest || tok[0] != '-' || !tok[1]) {
                operands.push_back(tok);
                if (posix) rest = true;
                continue;
            }
            if (!strcmp(tok, "--")) { rest = true; continue; }
            if (tok[1] == '-') { longopt(a, i, tok + 2, false); continue; }
            for (const char* p = tok + 1; *p; p++) {
                int k = -1;
                for (size_t j = 0; j < t.e.size() && k < 0; j++) if (t.e[j].sh && strchr(t.e[j].sh, *p)) k = (int)j;
                if (long_only() && longopt(a, i, p, k >= 0)) break;
                if (k < 0) { err(-1, (unsigned char)*p, nullptr); continue; }
                const Entry& e = t.e[(size_t)k];
                const char* v = nullptr;
                bool last = false;
                if (e.hasval()) {
                    last = true;
                    if (p[1]) v = p + 1;
                    else if (!e.opt) {
                        if (i + 1 >= a.size()) { err(-1, ARG_EMISSARG, tok); break; }
                        v = a[++i];
                    }
                }
                int rc = scan((size_t)k, v);
                if (rc) err(k, rc, v);
                if (last) break;
            }
        }
        operand_phase(operands);
        if (r.err.empty()) check_phase();
    }
    // `shorts`: the text may be short options, too; false is returned when it has to be
    bool longopt(const std::vector<const char*>& a, size_t& i, const char* name, bool shorts) {
        const char* tok = a[i];
        const char* eq = strchr(name, '=');
        size_t n = eq ? (size_t)(eq - name) : strlen(name);
        int exact = -1, part = -1;
        bool ambiguous = false;
        for (size_t j = 0; j < t.e.size(); j++) {
            const char* l = t.e[j].lo;
            while (l) {
                const char* c = strchr(l, ',');
                size_t m = c ? (size_t)(c - l) : strlen(l);
                if (m >= n && !strncmp(l, name, n)) {
                    if (m == n) { if (exact < 0) exact = (int)j; }
                    else if (shorts && n == 1) ;  // a known letter is not an abbreviation
                    else if (part < 0) part = (int)j;
                    else if (part != (int)j || long_only()) ambiguous = true;
                }
                l = c ? c + 1 : nullptr;
            }
        }
        int k = exact >= 0 ? exact : ambiguous ? -1 : part;
        if (k < 0 && !ambiguous && shorts) return false;
        if (k < 0) { err(-1, ARG_ELONGOPT, tok); return true; }
        const Entry& e = t.e[(size_t)k];
        const char* v = nullptr;
        const char* lasttok = tok;
        if (!e.hasval()) {
            if (eq) { err(-1, ARG_ELONGOPT, tok); return true; }
        } else if (eq) v = eq + 1;
        else if (!e.opt) {
            if (i + 1 >= a.size()) { err(-1, ARG_EMISSARG, tok); return true; }
            v = lasttok = a[++i];
        }
        if (v && !*v) err(-1, ARG_EMISSARG, lasttok);
        int rc = scan((size_t)k, v);
        if (rc) err(k, rc, v);
        return true;
    }
    void operand_phase(const std::vector<const char*>& op) {
        size_t k = 0, i = 0;
        bool refused = false;
        int rk = 0, rc = 0;
        while (i < op.size()) {
            while (k < t.e.size() && (t.e[k].tagged() || !scans(k))) k++;
            if (k == t.e.size()) break;
            int e = scan(k, op[i]);
            if (!e) { i++; refused = false; }
            else { refused = true; rk = (int)k; rc = e; k++; }
        }
        if (i < op.size() && refused) err(rk, rc, op[i++]);
        for (; i < op.size(); i++) err(-1, ARG_ENOMATCH, op[i]);
    }
    void check_phase() {
        for (size_t j = 0; j < t.e.size(); j++)
            if (int rc = check(j)) err((int)j, rc, nullptr);
    }
};

// ---------------------------------------------------------------- the library
inline void* build_entry(const Entry& e) {
    void* p = nullptr;
    switch (e.kind) {
        case LIT: p = arg_litn(e.sh, e.lo, e.min, e.max, e.gloss); break;
        case INT: p = arg_intn(e.sh, e.lo, e.dt, e.min, e.max, e.gloss); break;
        case DBL: p = arg_dbln(e.sh, e.lo, e.dt, e.min, e.max, e.gloss); break;
        case STR: p = arg_strn(e.sh, e.lo, e.dt, e.min, e.max, e.gloss); break;
        case REX: p = arg_rexn(e.sh, e.lo, REXPAT, e.dt, e.min, e.max, 0, e.gloss); break;
        case FIL: p = arg_filen(e.sh, e.lo, e.dt, e.min, e.max, e.gloss); break;
        case DATE: p = arg_daten(e.sh, e.lo, DATEFMT, e.dt, e.min, e.max, e.gloss); break;
        case REM: p = arg_rem(e.dt, e.gloss); break;
    }
    if (e.opt) ((struct arg_hdr*)p)->flag |= ARG_HASOPTVALUE;
    return p;
}
struct Real {
    const Table& t;
    std::vector<void*> at;
    struct arg_end* end = nullptr;
    bool freed = false;
    explicit Real(const Table& t) : t(t) {
        at.reserve(t.e.size() + 1);
        vf::InLib g;
        for (auto& e : t.e) at.push_back(build_entry(e));
        end = arg_end(t.cap);
        at.push_back(end);
    }
    ~Real() { free_(); }
    void free_() { if (!freed) { vf::InLib g; arg_freetable(at.data(), at.size()); freed = true; } }
    int count(size_t k) const {
        switch (t.e[k].kind) {
            case LIT: return ((arg_lit_t*)at[k])->count;
            case INT: return ((arg_int_t*)at[k])->count;
            case DBL: return ((arg_dbl_t*)at[k])->count;
            case STR: return ((arg_str_t*)at[k])->count;
            case REX: return ((arg_rex_t*)at[k])->count;
            case FIL: return ((arg_file_t*)at[k])->count;
            case DATE: return ((arg_date_t*)at[k])->count;
            case REM: return 0;
        }
        return 0;
    }
};

// what a mismatch is about
enum { M_TAGGED = 1, M_UNTAGGED = 2, M_ERRS = 4, M_ARGV = 8, M_ALIAS = 16, M_RET0 = 32, M_ALL = 63, M_RO = 64, M_PAST = 128, M_SLOT = 256 };  // M_PAST: the vector goes on after the count given; M_SLOT: string slots that this line gives no value are empty

inline std::string err_str(const Err& e) { return strf("(entry %d, code %d, %s)", e.entry, e.code, quote(e.argval).c_str()); }

// the error records the capacity allows, per the model
inline std::vector<Err> capped(const std::vector<Err>& all, int cap) {
    std::vector<Err> r = all;
    if ((int)r.size() > cap) { r.resize((size_t)cap); r[(size_t)cap - 1] = {-1, ARG_ELIMIT, nullptr}; }
    return r;
}

// 0: unset, 1: set, 2: set to the empty string (which is set, too)
inline void set_posix(int how) {
    // set is set, whatever the value
    static char one[] = "POSIXLY_CORRECT=1", empty[] = "POSIXLY_CORRECT=", zero[] = "POSIXLY_CORRECT=0", no[] = "POSIXLY_CORRECT=no", off[] = "POSIXLY_CORRECT=false ", sp[] = "POSIXLY_CORRECT= ";
    static char* const V[] = {one, empty, zero, no, off, sp};
    if (how) putenv(V[(how - 1) % 6]); else unsetenv("POSIXLY_CORRECT");
}

// compares one entry's values with the model
inline bool cmp_entry(const Real& R, const Res& m, size_t k, bool alias, std::string& why) {
    const Entry& e = R.t.e[k];
    int n = R.count(k);
    if (n != m.count[k]) { why = strf("entry %zu %s: count %d, expected %d", k, show(e).c_str(), n, m.count[k]); return false; }
    for (int i = 0; i < n; i++) {
        const Val& v = m.val[k][(size_t)i];
        if (!v.given) continue;
        bool ok = true;
        std::string got;
        switch (e.kind) {
            case INT: ok = ((arg_int_t*)R.at[k])->ival[i] == v.i; got = strf("%d", ((arg_int_t*)R.at[k])->ival[i]); break;
            case DBL: ok = !memcmp(&((arg_dbl_t*)R.at[k])->dval[i], &v.d, sizeof(double)); got = strf("%.17g", ((arg_dbl_t*)R.at[k])->dval[i]); break;
            case STR: case REX: {
                const char* s = e.kind == STR ? ((arg_str_t*)R.at[k])->sval[i] : ((arg_rex_t*)R.at[k])->sval[i];
                ok = s == v.s || (!alias && s && !strcmp(s, v.s));
                got = quote(s);
                break;
            }
            case FIL: {
                arg_file_t* f = (arg_file_t*)R.at[k];
                size_t b, x;
                conv::model_file(v.s, &b, &x);
                const char *fn = f->filename[i], *bn = f->basename[i], *ex = f->extension[i];
                if (alias) ok = fn == v.s && bn == v.s + b && ex == v.s + x;
                else ok = fn && bn && ex && !strcmp(fn, v.s) && !strcmp(bn, v.s + b) && !strcmp(ex, v.s + x);
                got = quote(fn) + quote(bn) + quote(ex);
                break;
            }
            case DATE: ok = conv::tm_eq(((arg_date_t*)R.at[k])->tmval[i], v.t); got = conv::tm_str(((arg_date_t*)R.at[k])->tmval[i]); break;
            default: break;
        }
        if (!ok) { why = strf("entry %zu %s: value %d is %s, given as %s%s", k, show(e).c_str(), i, got.c_str(), quote(v.s).c_str(), alias ? " (or not the caller's string)" : ""); return false; }
    }
    return true;
}

inline const char*& argv0() { static const char* p = "prog"; return p; }
// Runs one parse on the library and compares what `what` selects with the model. Returns the model's result.
inline Res check_parse(Real& R, const std::vector<const char*>& line, int posix, int what, Case& c) {
    Model M(R.t);
    M.parse(line, posix != 0);
    const Res& m = M.r;
    size_t n = line.size();
    std::vector<char*> argv(n + 2), before;
    argv[0] = (char*)argv0();
    for (size_t i = 0; i < n; i++) argv[i + 1] = (char*)line[i];
    static char past[] = "--past=the-end";
    argv[n + 1] = what & M_PAST ? past : nullptr;
    before = argv;
    set_posix(posix);
    char** av = argv.data();
    const size_t RO_BYTES = 1 << 20;
    if (what & M_RO) {  // the vector itself is in memory that cannot be written while the library runs
        static char** ro = (char**)mmap(nullptr, RO_BYTES, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        const size_t used = (argv.size() * sizeof(char*) + 4095) & ~(size_t)4095;
        if (used > RO_BYTES) abort();
        mprotect(ro, used, PROT_READ | PROT_WRITE);
        memcpy(ro, argv.data(), argv.size() * sizeof(char*));
        mprotect(ro, used, PROT_READ);
        av = ro;
    }
    int ret = LIB(arg_parse((int)n + 1, av, R.at.data()));
    set_posix(0);
    if (what & M_RO) memcpy(argv.data(), av, argv.size() * sizeof(char*));
    c.steps++;
    // outcome
    c.mix(ret);
    for (size_t k = 0; k < R.t.e.size(); k++) {
        c.mix(R.count(k));
        for (int i = 0; i < R.count(k) && i < m.count[k]; i++) if (m.val[k][(size_t)i].given) switch (R.t.e[k].kind) {
            case INT: c.mix(((arg_int_t*)R.at[k])->ival[i]); break;
            case DBL: c.mix(&((arg_dbl_t*)R.at[k])->dval[i], sizeof(double)); break;
            case STR: c.mixz(((arg_str_t*)R.at[k])->sval[i]); break;
            case REX: c.mixz(((arg_rex_t*)R.at[k])->sval[i]); break;
            case FIL: c.mixz(((arg_file_t*)R.at[k])->filename[i]); c.mixz(((arg_file_t*)R.at[k])->basename[i]); c.mixz(((arg_file_t*)R.at[k])->extension[i]); break;
            case DATE: { struct tm& t = ((arg_date_t*)R.at[k])->tmval[i]; c.mix(t.tm_year); c.mix(t.tm_mon); c.mix(t.tm_mday); break; }
            default: break;
        }
    }
    for (int i = 0; i < R.end->count && i < R.t.cap; i++) { c.mix(R.end->error[i]); c.mixz(R.end->argval[i]); }
    std::string why;
    for (size_t k = 0; k < R.t.e.size(); k++) {
        int cat = R.t.e[k].tagged() ? M_TAGGED : M_UNTAGGED;
        if ((what & cat) && !cmp_entry(R, m, k, false, why)) c.fail(why);
        if ((what & M_ALIAS) && R.count(k) == m.count[k] && !cmp_entry(R, m, k, true, why)) c.fail(why);
        if ((what & M_SLOT) && R.t.e[k].kind == STR) {
            arg_str_t* e = (arg_str_t*)R.at[k];
            for (int i = 0; i < e->hdr.maxcount; i++)
                if ((i >= m.count[k] || !m.val[k][(size_t)i].given) && (!e->sval[i] || *e->sval[i]))
                    c.fail(strf("entry %zu: slot %d holds \"%s\", this line gives it no value", k, i, e->sval[i] ? e->sval[i] : "(null)"));
        }
    }
    std::vector<Err> x = capped(m.err, R.t.cap);
    auto dump = [&]() {
        std::string s = strf("returned %d with records", ret);
        for (int i = 0; i < R.end->count && i < R.t.cap; i++) {
            int p = -2;
            for (size_t k = 0; k < R.at.size(); k++) if (R.end->parent[i] == R.at[k]) p = k + 1 == R.at.size() ? -1 : (int)k;
            s += " " + err_str({p, R.end->error[i], R.end->argval[i]});
        }
        s += "; expected";
        for (auto& e : x) s += " " + err_str(e);
        return s;
    };
    if ((what & M_RET0) && (ret == 0) != x.empty()) c.fail(strf("returned %d for a line that is %s", ret, x.empty() ? "correct" : "wrong"));
    if (what & M_ERRS) {
        bool ok = ret == (int)x.size() && R.end->count == ret;
        for (size_t i = 0; ok && i < x.size(); i++) {
            void* par = x[i].entry < 0 ? (void*)R.end : R.at[(size_t)x[i].entry];
            const char* av = R.end->argval[i];
            ok = R.end->error[i] == x[i].code && R.end->parent[i] == par && (!av) == (!x[i].argval) && (!av || !strcmp(av, x[i].argval));
        }
        if (!ok) c.fail(dump());
    }
    if (what & M_ALIAS) {
        bool same = ret == (int)x.size() && R.end->count == ret;
        for (size_t i = 0; same && i < x.size(); i++)
            if (x[i].argval && R.end->argval[i] && !strcmp(x[i].argval, R.end->argval[i]) && R.end->argval[i] != x[i].argval) c.fail("an offending text is not the caller's string: " + err_str(x[i]));
    }
    if (what & M_ARGV) for (size_t i = 0; i < argv.size(); i++) if (argv[i] != before[i]) { c.fail(strf("argv[%zu] was changed", i)); break; }
    if (c.trace) {
        c.log("table: " + show(R.t));
        c.log("line: " + show(line) + (posix ? " (POSIXLY_CORRECT)" : ""));
        c.log("library " + dump());
        for (size_t k = 0; k < R.t.e.size(); k++) c.log(strf("entry %zu: library count %d, model count %d", k, R.count(k), m.count[k]));
    }
    return M.r;
}

// A pool of exact-size token strings, kept for the whole run.
struct Pool {
    std::vector<vf::Str*> v;
    const char* get(const std::string& s) {
        for (auto p : v) if (p->n == s.size() && !memcmp(p->p, s.data(), s.size())) return p->p;
        v.push_back(new vf::Str(s));
        return v.back()->p;
    }
};
inline Pool& pool() { static Pool p; return p; }
inline const char* T(const std::string& s) { return pool().get(s); }
inline std::vector<const char*> TS(std::initializer_list<const char*> l) { std::vector<const char*> r; for (auto s : l) r.push_back(T(s)); return r; }

// A family: tables with an alphabet of tokens each; the space is every table
// with every line of 0..maxlen tokens over its alphabet.
struct Family {
    std::vector<Table> tables;
    std::vector<std::vector<const char*>> alpha;
    std::vector<uint64_t> first;  // index of the first case of each table
    std::vector<unsigned> maxlen;
    uint64_t n = 0;
    void add(const Table& t, const std::vector<const char*>& a, unsigned len) {
        tables.push_back(t); alpha.push_back(a); maxlen.push_back(len);
        first.push_back(n);
        n += vf::seq_count(a.size(), len);
    }
    size_t locate(uint64_t i, std::vector<const char*>& line) const {
        size_t lo = 0, hi = tables.size();
        while (hi - lo > 1) { size_t m = (lo + hi) / 2; if (first[m] <= i) lo = m; else hi = m; }
        line.clear();
        for (int d : vf::seq_at(i - first[lo], alpha[lo].size(), maxlen[lo])) line.push_back(alpha[lo][(size_t)d]);
        return lo;
    }
};
inline vf::Space family_space(const std::string& name, std::shared_ptr<Family> f, int what, bool posix = false) {
    vf::Space s;
    s.name = name;
    s.n = f->n;
    // consecutive cases use the same table; keep it between cases (a fresh one is built when the table changes)
    s.run = [f, what, posix](uint64_t i, Case& c) {
        std::vector<const char*> line;
        size_t k = f->locate(i, line);
        Real R(f->tables[k]);
        check_parse(R, line, posix ? 1 + (int)(i % 6) : 0, what, c);
    };
    s.desc = [f, posix](uint64_t i) {
        std::vector<const char*> line;
        size_t k = f->locate(i, line);
        return show(f->tables[k]) + " " + show(line) + (posix ? " with POSIXLY_CORRECT" : "");
    };
    return s;
}

// Lines of unusual tokens: empty ones, blanks and control characters, bytes above 127, format characters, odd dashes and equal signs.
inline std::shared_ptr<Family> odd_family(unsigned len, int cap = 20) {
    auto f = std::make_shared<Family>();
    std::vector<const char*> al = TS({"", " ", "\n", "\xff\xfe", "%s", "=", "a=b", " -a", "-a ", "-\xff", "-a\xe9", "---", "--\xc3\xa9", "--str=", "--str=\xff", "--str= ", "--str==", "-s", "--str", "-s ", "-- ", "- ", "--", "-", "-=", "--al\t"});
    std::vector<Table> ts(5);
    ts[0].e = {{LIT, "a", "alpha", 0, 9}, {STR, "s", "str", 0, 9}, {STR, nullptr, nullptr, 0, 9}};
    ts[1].e = {{LIT, "a", nullptr, 0, 9}, {INT, nullptr, nullptr, 0, 2}, {FIL, "s", "str", 0, 9, true}, {FIL, nullptr, nullptr, 0, 9}};
    ts[2].e = {{REX, nullptr, nullptr, 0, 2}, {STR, "s", "str", 0, 1}, {DATE, nullptr, nullptr, 0, 1}};
    ts[3].e = {{LIT, "a\xff", "alpha", 1, 2}, {INT, "s", "str", 0, 9}};
    ts[4].e = {{DBL, "s", "str", 1, 2, true}, {DBL, nullptr, nullptr, 0, 3}, {STR, nullptr, nullptr, 1, 2}, {STR, nullptr, "\xc3\xa9t\xc3\xa9", 0, 3}};
    for (auto& t : ts) { t.cap = cap; f->add(t, al, len); }
    return f;
}

// Tables with remark entries at every set of places (once or twice), and entries with every kind of value name and description, none of which matter to a parse.
inline std::shared_ptr<Family> remark_family(unsigned len, int cap = 20) {
    auto f = std::make_shared<Family>();
    static const char* W[] = {nullptr, "", "text", "<x>"};
    std::vector<std::vector<Entry>> base = {
        {{LIT, "a", "alpha", 0, 2}, {INT, "i", "int", 0, 2}, {STR, nullptr, nullptr, 0, 2}},
        {{INT, nullptr, nullptr, 0, 1}, {STR, "s", "str", 1, 2, true}, {FIL, nullptr, nullptr, 0, 1}},
        {{REX, nullptr, nullptr, 0, 2}, {DATE, "d", nullptr, 0, 1}, {DBL, nullptr, nullptr, 0, 2}, {LIT, nullptr, "alpha", 0, 1}}};
    std::vector<std::vector<const char*>> al = {TS({"-a", "-ai4", "-i", "--al", "--int=x", "5", "x", "--", "-z"}), TS({"-s", "-sv", "--str=w", "7", "x", "y/z.e", "-z", "--"}), TS({"ab", "1.5", "x", "-d", "2001-02-03", "--al", "--alpha=1", "-"})};
    for (size_t b = 0; b < base.size(); b++)
        for (unsigned m = 0; m < 2u << base[b].size(); m++)
            for (unsigned k = 0; k < 8; k++) {
                Table t;
                t.cap = cap;
                for (unsigned g = 0; g <= base[b].size(); g++) {
                    if (m >> g & 1) for (unsigned r = 0; r <= k / 4; r++) t.e.push_back({REM, nullptr, nullptr, 0, 0, false, W[(k + g + r) % 4], W[(k / 2 + g) % 4]});
                    if (g < base[b].size()) { t.e.push_back(base[b][g]); t.e.back().dt = W[(k + g) % 4]; if (t.e.back().kind == LIT) t.e.back().dt = nullptr; t.e.back().gloss = W[(k / 2 + m + g) % 4]; }
                }
                f->add(t, al[b], len);
            }
    return f;
}

// The first word is the program's name, whatever it looks like.
inline vf::Space program_names(unsigned len, int what) {
    static const char* N[] = {"", "-a", "--", "-", "--alpha", "-i", "7", "x y", "-zz", "--int=5", "=", "/usr/bin/prog"};
    const uint64_t NN = 12;
    auto f = std::make_shared<Family>();
    Table t, u;
    t.e = {{LIT, "a", "alpha", 0, 2}, {INT, "i", "int", 0, 2}, {STR, nullptr, nullptr, 0, 2}};
    u.e = {{INT, nullptr, nullptr, 0, 1}, {LIT, "z", "alpha", 1, 2}, {STR, nullptr, nullptr, 1, 3}};
    for (auto& x : {t, u}) f->add(x, TS({"-a", "-i", "--int=4", "5", "x", "--", "-zz", "--alp", "-"}), len);
    vf::Space s;
    s.name = "program-names";
    s.n = f->n * NN * 2;
    s.run = [=](uint64_t i, Case& c) {
        std::vector<const char*> line;
        Real R(f->tables[f->locate(i / 2 / NN, line)]);
        argv0() = N[i / 2 % NN];
        check_parse(R, line, (int)(i % 2), what, c);
        argv0() = "prog";
    };
    s.desc = [=](uint64_t i) { std::vector<const char*> line; size_t k = f->locate(i / 2 / NN, line); return show(f->tables[k]) + " program name " + quote(N[i / 2 % NN]) + " " + show(line) + (i % 2 ? " with POSIXLY_CORRECT" : ""); };
    return s;
}

// Tokens that exercise a table: every spelling, with and without values, prefixes, clusters, unknown options.
struct AlphaOpt { bool prefixes = true, clusters = true, unknown = true, operands = true, dashes = true; const char* val = "7"; const char* bad = "x"; bool badvals = true; bool emptyval = true; };
inline std::vector<const char*> alphabet(const Table& t, AlphaOpt o = {}) {
    std::vector<std::string> a;
    auto add = [&](const std::string& s) { for (auto& x : a) if (x == s) return; a.push_back(s); };
    std::string firstlit, firstval;
    for (auto& e : t.e) {
        const char* good = e.kind == REX ? "ab" : e.kind == DATE ? "2001-02-03" : o.val;
        if (e.sh) {
            for (const char* p = e.sh; *p; p++) { add(std::string("-") + *p); if (e.hasval() && p == e.sh) add(std::string("-") + *p + good); }
            if (!e.hasval() && firstlit.empty()) firstlit = e.sh[0];
            if (e.hasval() && firstval.empty()) firstval = e.sh[0];
        }
        const char* l = e.lo;
        while (l) {
            const char* c = strchr(l, ',');
            std::string nm = c ? std::string(l, (size_t)(c - l)) : l;
            add("--" + nm);
            if (l == e.lo) { add("--" + nm + "=" + good); if (o.emptyval && e.hasval()) add("--" + nm + "="); }
            if (o.prefixes && nm.size() > 1) { add("--" + nm.substr(0, nm.size() - 1)); add("--" + nm.substr(0, 1)); }
            l = c ? c + 1 : nullptr;
        }
        add(good);
    }
    if (o.badvals) add(o.bad);
    if (o.clusters) {
        if (!firstlit.empty()) add("-" + firstlit + firstlit);
        if (!firstlit.empty() && !firstval.empty()) { add("-" + firstlit + firstval); add("-" + firstlit + firstval + o.val); }
    }
    if (o.unknown) { add("-z"); add("--zz"); if (!firstlit.empty()) add("-" + firstlit + "z" + firstlit); }
    if (o.dashes) { add("-"); add("--"); }
    std::vector<const char*> r;
    for (auto& s : a) r.push_back(T(s));
    return r;
}

}  // namespace pm
