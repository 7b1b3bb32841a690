// C26: values stored before a parse are defaults that stay where the line gives none.
#include "pm.hpp"
using namespace pm;

// what the value storage of one entry should hold, slot by slot
struct Slot { int i; double d; const char *s, *b, *x; struct tm t; bool any = false; };  // any: nothing is promised
static int cap(const Entry& e) { return e.kind == LIT || e.kind == REM ? 0 : e.max < e.min ? e.min : e.max; }
static Slot preset(size_t k, int j, int round) {
    Slot v;
    memset(&v.t, 0, sizeof v.t);
    if (round < 0) { v.i = 0; v.d = 0; v.s = v.b = v.x = ""; return v; }
    int q = (int)k * 16 + j + round * 100;
    static const char* S[] = {"def-a", "def-b", "", "def/c.d"};
    v.i = 1000003 * (q + 1);
    v.d = -0.5 - q;
    v.s = T(strf("%s%d", S[q % 4], q));
    v.b = T(strf("base%d", q));
    v.x = T(strf(".ext%d", q));
    v.t.tm_sec = q % 60; v.t.tm_min = q % 59; v.t.tm_hour = q % 23; v.t.tm_mday = q % 28 + 1; v.t.tm_mon = q % 12; v.t.tm_year = 50 + q % 30; v.t.tm_wday = q % 7; v.t.tm_yday = q % 300;
    return v;
}
static void store(Real& R, size_t k, int j, const Slot& v) {
    switch (R.t.e[k].kind) {
        case INT: ((arg_int_t*)R.at[k])->ival[j] = v.i; break;
        case DBL: ((arg_dbl_t*)R.at[k])->dval[j] = v.d; break;
        case STR: ((arg_str_t*)R.at[k])->sval[j] = v.s; break;
        case REX: ((arg_rex_t*)R.at[k])->sval[j] = v.s; break;
        case FIL: ((arg_file_t*)R.at[k])->filename[j] = v.s; ((arg_file_t*)R.at[k])->basename[j] = v.b; ((arg_file_t*)R.at[k])->extension[j] = v.x; break;
        case DATE: ((arg_date_t*)R.at[k])->tmval[j] = v.t; break;
        default: break;
    }
}
static bool same(const Real& R, size_t k, int j, const Slot& v, std::string& got) {
    auto eq = [](const char* a, const char* b) { return a && !strcmp(a, b); };
    switch (R.t.e[k].kind) {
        case INT: got = strf("%d", ((arg_int_t*)R.at[k])->ival[j]); return ((arg_int_t*)R.at[k])->ival[j] == v.i;
        case DBL: got = strf("%g", ((arg_dbl_t*)R.at[k])->dval[j]); return !memcmp(&((arg_dbl_t*)R.at[k])->dval[j], &v.d, sizeof v.d);
        case STR: got = quote(((arg_str_t*)R.at[k])->sval[j]); return eq(((arg_str_t*)R.at[k])->sval[j], v.s);
        case REX: got = quote(((arg_rex_t*)R.at[k])->sval[j]); return eq(((arg_rex_t*)R.at[k])->sval[j], v.s);
        case FIL: {
            auto* f = (arg_file_t*)R.at[k];
            got = quote(f->filename[j]) + quote(f->basename[j]) + quote(f->extension[j]);
            return eq(f->filename[j], v.s) && eq(f->basename[j], v.b) && eq(f->extension[j], v.x);
        }
        case DATE: got = conv::tm_str(((arg_date_t*)R.at[k])->tmval[j]); return conv::tm_eq(((arg_date_t*)R.at[k])->tmval[j], v.t);
        default: return true;
    }
}
static std::string str(Kind k, const Slot& v) {
    return k == INT ? strf("%d", v.i) : k == DBL ? strf("%g", v.d) : k == DATE ? conv::tm_str(v.t) : k == FIL ? quote(v.s) + quote(v.b) + quote(v.x) : quote(v.s);
}
typedef std::vector<std::vector<Slot>> Store;
static bool compare(const Real& R, const Store& st, Case& c, const char* when) {
    for (size_t k = 0; k < st.size(); k++)
        for (int j = 0; j < (int)st[k].size(); j++) {
            std::string got;
            if (st[k][(size_t)j].any) continue;
            if (!same(R, k, j, st[k][(size_t)j], got)) { c.fail(strf("%s, value slot %d of entry %zu %s holds ", when, j, k, show(R.t.e[k]).c_str()) + got + ", expected " + str(R.t.e[k].kind, st[k][(size_t)j])); return false; }
            c.mix(got);
        }
    return true;
}
// round -1: new entries are left as they are made, numbers are zero
static void presets(Real& R, Store& st, int round) {
    st.assign(R.t.e.size(), {});
    for (size_t k = 0; k < R.t.e.size(); k++)
        for (int j = 0; j < cap(R.t.e[k]); j++) {
            st[k].push_back(preset(k, j, round));
            if (round >= 0 || R.t.e[k].kind == INT || R.t.e[k].kind == DBL) store(R, k, j, st[k].back());
        }
}
// what the storage holds after the line: each occurrence with a value fills the slot of its number
static void apply(Store& st, const Table& t, const Res& m) {
    for (size_t k = 0; k < st.size(); k++)
        for (size_t j = 0; j < m.val[k].size() && j < st[k].size(); j++) {
            const Val& v = m.val[k][j];
            if (!v.given) continue;
            Slot& s = st[k][j];
            if (s.any) memset(&s.t, 0, sizeof s.t);
            s.any = s.any && t.e[k].kind == DATE;
            s.i = v.i; s.d = v.d; s.s = v.s;
            if (t.e[k].kind == FIL) { size_t b, x; conv::model_file(v.s, &b, &x); s.b = v.s + b; s.x = v.s + x; }
            if (t.e[k].kind == DATE) conv::model_date(v.s, DATEFMT, s.t);
        }
}
static void step(Real& R, Store& st, const std::vector<const char*>& line, bool posix, Case& c) {
    // a new parse may clear what an earlier one counted
    for (size_t k = 0; k < st.size(); k++) for (int j = 0; j < R.count(k) && j < (int)st[k].size(); j++) st[k][(size_t)j].any = true;
    Res m = check_parse(R, line, posix, 0, c);
    for (size_t k = 0; k < R.t.e.size(); k++) if (R.count(k) != m.count[k]) c.fail(strf("entry %zu %s: count %d, expected %d", k, show(R.t.e[k]).c_str(), R.count(k), m.count[k]));
    apply(st, R.t, m);
    compare(R, st, c, "after the parse");
}
// tokens for a table: each spelling alone, with a good, a bad and an empty value
static std::vector<const char*> tokens(const Table& t) {
    std::vector<std::string> a;
    auto add = [&](const std::string& s) { for (auto& x : a) if (x == s) return; a.push_back(s); };
    for (auto& e : t.e) {
        if (e.kind == REM) continue;
        std::string good = e.kind == REX ? "ab" : e.kind == DATE ? "2001-02-03" : "7", bad = e.kind == DATE ? "2001-02" : "x?";
        if (e.sh) { add(std::string("-") + e.sh[0]); if (e.hasval()) { add(std::string("-") + e.sh[0] + good); add(std::string("-") + e.sh[0] + bad); add(std::string("-") + e.sh[0] + good + (e.kind == STR || e.kind == FIL ? "" : "?")); } }
        if (e.lo) { add(std::string("--") + e.lo); if (e.hasval()) { add(std::string("--") + e.lo + "=" + good); add(std::string("--") + e.lo + "=" + bad); add(std::string("--") + e.lo + "="); } }
        if (e.kind == INT && t.e.size() == 1) for (const char* v : {"99999999999", "3GB", "-9999MB", "3000000KB"}) add(e.sh ? std::string("-") + e.sh[0] + v : e.lo ? std::string("--") + e.lo + "=" + v : std::string(v));
        if (!e.tagged()) { add(good); add(bad); if (e.kind != STR && e.kind != FIL) add(good + "?"); }
    }
    add("--zz");
    std::vector<const char*> r;
    for (auto& s : a) r.push_back(T(s));
    return r;
}
static std::shared_ptr<Family> family(unsigned len, bool two) {
    auto f = std::make_shared<Family>();
    for (int k = INT; k <= DATE; k++)
        for (int form = 0; form < 5; form++)
            for (int mx = 0; mx < 4; mx++)
                for (int o = 0; o < (two ? 7 : 1); o++) {
                    static const char* SH[] = {"k", nullptr, nullptr, "k", nullptr};
                    static const char* LO[] = {nullptr, "key", nullptr, nullptr, "key"};
                    Table t;
                    t.e.push_back({(Kind)k, SH[form], LO[form], mx == 3 ? 2 : 0, mx == 3 ? 1 : mx + (mx == 0 && two), form >= 3});
                    if (two) t.e.push_back({(Kind)o, o == LIT || form == 2 ? "b" : nullptr, o == LIT || form != 2 ? nullptr : "base", 0, 2, form == 2 && o != LIT});
                    f->add(t, tokens(t), len);
                }
    return f;
}
static void lines(std::vector<vf::Space>& S, const char* name, std::shared_ptr<Family> f, bool posix = false, int round = 0) {
    vf::Space s;
    s.name = name;
    s.n = f->n;
    s.run = [f, posix, round](uint64_t i, Case& c) {
        std::vector<const char*> line;
        size_t k = f->locate(i, line);
        Real R(f->tables[k]);
        Store st;
        presets(R, st, round);
        step(R, st, line, posix, c);
    };
    s.desc = [f, posix, round](uint64_t i) { std::vector<const char*> line; size_t k = f->locate(i, line); return show(f->tables[k]) + (round < 0 ? " as made, " : " with all values preset, ") + show(line) + (posix ? " with POSIXLY_CORRECT" : ""); };
    S.push_back(s);
}
// two or three parses in a row, with or without new defaults in between
static void histories(std::vector<vf::Space>& S, unsigned len) {
    auto f = family(len, false);
    struct Idx { std::vector<uint64_t> base; uint64_t n = 0; };
    auto ix = std::make_shared<Idx>();
    for (size_t k = 0; k < f->tables.size(); k++) { uint64_t m = (k + 1 < f->tables.size() ? f->first[k + 1] : f->n) - f->first[k]; ix->base.push_back(ix->n); ix->n += m * m * 4; }
    auto at = [f, ix](uint64_t i, size_t& k, std::vector<const char*>& a, std::vector<const char*>& b, int& mode) {
        k = (size_t)(std::upper_bound(ix->base.begin(), ix->base.end(), i) - ix->base.begin()) - 1;
        i -= ix->base[k];
        uint64_t m = (k + 1 < f->tables.size() ? f->first[k + 1] : f->n) - f->first[k];
        mode = (int)(i % 4); i /= 4;
        f->locate(f->first[k] + i % m, a);
        f->locate(f->first[k] + i / m, b);
    };
    vf::Space s;
    s.name = "histories";
    s.n = ix->n;
    s.run = [=](uint64_t i, Case& c) {
        size_t k; std::vector<const char*> a, b; int mode;
        at(i, k, a, b, mode);
        Real R(f->tables[k]);
        Store st;
        presets(R, st, mode == 3 ? -1 : 0);
        step(R, st, a, false, c);
        if (mode == 1) presets(R, st, 1);
        if (!c.failed) step(R, st, b, mode == 2, c);
        if (mode == 2 && !c.failed) step(R, st, a, false, c);
    };
    s.desc = [=](uint64_t i) { size_t k; std::vector<const char*> a, b; int mode; at(i, k, a, b, mode); return show(f->tables[k]) + (mode == 3 ? " as made, " : " with all values preset, ") + show(a) + (mode == 1 ? ", preset again" : "") + ", then " + show(b) + (mode == 2 ? ", then the first again" : ""); };
    S.push_back(s);
}
// new entries: strings are empty, dates are zero, counts are zero, for every bound
static void fresh(std::vector<vf::Space>& S, int maxm) {
    vf::Space s;
    s.name = "new-entries";
    s.n = 7 * (uint64_t)(maxm + 1) * 3;
    s.run = [=](uint64_t i, Case& c) {
        int kind = (int)(i % 7), form = (int)(i / 7 % 3), m = (int)(i / 21);
        Table t;
        if (kind == LIT && form == 2) return;
        t.e.push_back({(Kind)kind, form == 0 ? "k" : nullptr, form == 1 ? "key" : nullptr, form == 2 ? m : 0, form == 2 ? 0 : m});
        Real R(t);
        if (R.count(0)) c.fail("a new entry has a count");
        for (int round = 0; round < 2 && !c.failed; round++) {
            if (kind == STR || kind == REX || kind == FIL || kind == DATE)
                for (int j = 0; j < m; j++) {
                    Slot z;
                    memset(&z.t, 0, sizeof z.t);
                    z.s = z.b = z.x = "";
                    std::string got;
                    if ( !same(R, 0, j, z, got)) { c.fail(strf("slot %d of a new entry holds ", j) + got); break; }
                }
            if (!round) check_parse(R, {}, false, M_TAGGED | M_UNTAGGED, c);
        }
    };
    s.desc = [=](uint64_t i) { return strf("new %s entry, form %d, bound %d", KN[i % 7], (int)(i / 7 % 3), (int)(i / 21)); };
    S.push_back(s);
}
// many slots, the occurrences ending at every place, every other one without its value
static void ladder(std::vector<vf::Space>& S, int maxm) {
    vf::Space s;
    s.name = "ladder";
    s.n = 6 * 3 * (uint64_t)maxm * 4;
    auto mk = [=](uint64_t i, Table& t, int& n, int& form) {
        int d = (int)(i % 4); i /= 4;
        int m = (int)(i % (uint64_t)maxm) + 1; i /= (uint64_t)maxm;
        form = (int)(i % 3);
        n = d == 0 ? 1 : d == 1 ? m / 2 : d == 2 ? m - 1 : m + 2;
        t.cap = 5;
        t.e.push_back({(Kind)(i / 3 + 1), form == 0 ? "k" : nullptr, form == 1 ? "key" : nullptr, 0, m, form != 2});
    };
    s.run = [=](uint64_t i, Case& c) {
        Table t; int n, form;
        mk(i, t, n, form);
        Kind k = t.e[0].kind;
        std::vector<vf::Str> toks;
        toks.reserve((size_t)n + 1);
        for (int q = 0; q < n; q++) {
            std::string v = k == REX ? std::string((size_t)q % 4 + 1, 'b') : k == DATE ? strf("%d-%02d-%02d", 1900 + q, q % 12 + 1, q % 28 + 1) : strf("%d", q);
            if (form == 2) toks.emplace_back(v);
            else toks.emplace_back(std::string(form ? "--key" : "-k") + (q % 2 ? "" : (form ? "=" : "") + v));
        }
        std::vector<const char*> line;
        for (auto& x : toks) line.push_back(x.p);
        Real R(t);
        Store st;
        presets(R, st, 0);
        step(R, st, line, false, c);
        if (!c.failed) { line.clear(); step(R, st, line, false, c); }
    };
    s.desc = [=](uint64_t i) { Table t; int n, form; mk(i, t, n, form); return show(t) + strf(" with all values preset, %d occurrences", n); };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C26";
    c.rule = "every type, tagging, kind of value and bound with every line of up to the bound of tokens (good, bad, missing and excess values, unknown options), alone, next to a second entry of every type, and two or three such lines in a row with and without setting the defaults again; every slot of every entry is preset and compared after every parse; outcomes are distinct by the content of all slots and the counts";
    c.assumptions = {"the reference model in harness/pm.hpp", "slots that an earlier parse counted may be cleared by the next one"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        lines(S, "lines", family(q ? 5 : 6, false));
        lines(S, "lines-posix", family(q ? 3 : 4, false), true);
        lines(S, "lines-new", family(q ? 4 : 6, false), false, -1);
        lines(S, "two-entries-new", family(q ? 2 : 3, true), false, -1);
        lines(S, "two-entries", family(q ? 3 : 4, true));
        lines(S, "odd-tokens", odd_family(q ? 3 : 4));
        lines(S, "remarks", remark_family(q ? 3 : 4));
        histories(S, 2);
        fresh(S, q ? 80 : 300);
        ladder(S, q ? 100 : 300);
    };
    return vf::run(c, argc, argv);
}
