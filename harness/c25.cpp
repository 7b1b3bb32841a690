// C25: user-defined argument types get the documented callback protocol.
#include "rd.hpp"
using namespace rd;

enum { M_RESET = 1, M_SCAN = 2, M_CHECK = 4, M_ERROR = 8, M_PROXY = 16, M_SHARED = 32, M_ZEROS = 64, M_LARGE = 128 };  // the last two: bounds in the header other than those the callbacks apply
struct Ev {
    char what; int id; const char* a; int code; const char* prog;
    bool operator==(const Ev& o) const { return what == o.what && id == o.id && a == o.a && code == o.code && prog == o.prog; }
};
static std::vector<Ev>* g_ev;
static string show(const Ev& e) {
    return e.what == 'R' ? strf("reset %d", e.id) : e.what == 'S' ? strf("scan %d %s", e.id, quote(e.a).c_str()) : e.what == 'C' ? strf("check %d", e.id) : strf("error %d code %d %s %s", e.id, e.code, quote(e.a).c_str(), quote(e.prog).c_str());
}
static string show(const std::vector<Ev>& v) { string r; for (auto& e : v) { if (!r.empty()) r += ", "; r += show(e); } return r; }

// what a user-defined entry answers: at most `max` occurrences, texts that begin with x, y or z are refused with its own codes
static int answer(int n, int max, int id, const char* a) {
    if (n >= max) return 3 + id;
    if (a && *a == 'x') return 1;
    if (a && *a == 'y') return -5 - id;
    if (a && *a == 'z') return a[1] == '1' ? INT_MIN : a[1] == '2' ? INT_MAX : 0x12345;
    return 0;
}
// checks answer with positive and negative codes
static int check_code(int id) { return id == 2 ? INT_MIN : id == 4 ? INT_MAX : id % 2 ? -21 - id : 21 + id; }
struct User { struct arg_hdr hdr; int id; int n; int min, max; };
extern "C" {
static void u_reset(void* p) { User* u = (User*)p; g_ev->push_back({'R', u->id, nullptr, 0, nullptr}); u->n = 0; }
static int u_scan(void* p, const char* a) {
    User* u = (User*)p;
    g_ev->push_back({'S', u->id, a, 0, nullptr});
    int rc = answer(u->n, u->max, u->id, a);
    if (!rc) u->n++;
    return rc;
}
static int u_check(void* p) { User* u = (User*)p; g_ev->push_back({'C', u->id, nullptr, 0, nullptr}); return u->n < u->min ? check_code(u->id) : 0; }
static void u_error(void* p, arg_dstr_t ds, int error, const char* a, const char* prog) {
    User* u = (User*)p;
    g_ev->push_back({'E', u->id, a, error, prog});
    arg_dstr_catf(ds, "<%d:%d:%s>", u->id, error, a ? a : "-");
}
}
struct UEntry { Entry e; int mask; bool user; };
struct UTable {
    std::vector<UEntry> e;
    int cap = 20;
    // the entry whose object is the parent of entry k
    size_t owner(size_t k) const {
        if (!e[k].user || !(e[k].mask & M_SHARED)) return k;
        for (size_t j = k; j-- > 0;) if (e[j].user) return owner(j);
        return k;
    }
};
static string show(const UTable& t) {
    string r = "[";
    for (auto& x : t.e) r += (x.user ? strf("user(callbacks%s%s%s%s%s%s) ", x.mask & 1 ? " reset" : "", x.mask & 2 ? " scan" : "", x.mask & 4 ? " check" : "", x.mask & 8 ? " error" : "", x.mask & 16 ? ", parent elsewhere" : "", x.mask & 32 ? ", parent shared with the one before" : x.mask & 64 ? ", zero bounds in the header" : x.mask & 128 ? ", large bounds in the header" : "") : "") + pm::show(x.e) + " ";
    return r + strf("end(%d)]", t.cap);
}
struct UModel : pm::Model {
    const UTable& u;
    std::vector<Ev> ev;
    std::vector<int> n;
    UModel(const Table& t, const UTable& u) : pm::Model(t), u(u), n(u.e.size(), 0) {
        for (size_t k = 0; k < u.e.size(); k++) if (u.e[k].user && (u.e[k].mask & M_RESET)) ev.push_back({'R', (int)u.owner(k), nullptr, 0, nullptr});
    }
    bool scans(size_t k) override { return u.e[k].user ? (u.e[k].mask & M_SCAN) != 0 : pm::Model::scans(k); }
    int scan(size_t k, const char* v) override {
        if (!u.e[k].user) return pm::Model::scan(k, v);
        if (!(u.e[k].mask & M_SCAN)) return 0;
        size_t o = u.owner(k);
        ev.push_back({'S', (int)o, v, 0, nullptr});
        int rc = answer(n[o], u.e[o].e.max, (int)o, v);
        if (!rc) n[o]++;
        return rc;
    }
    int check(size_t k) override {
        if (!u.e[k].user) return pm::Model::check(k);
        if (!(u.e[k].mask & M_CHECK)) return 0;
        size_t o = u.owner(k);
        ev.push_back({'C', (int)o, nullptr, 0, nullptr});
        return n[o] < u.e[o].e.min ? check_code((int)o) : 0;
    }
};

// parses the lines one after the other with the same table and checks every parse
static void run_lines(const UTable& ut, const std::vector<std::vector<const char*>>& lines, Case& c, bool noargv = false) {
    Table t;
    t.cap = ut.cap;
    for (auto& x : ut.e) t.e.push_back(x.e);
    size_t N = ut.e.size();
    std::vector<User> obj(N), proxy(N);
    std::vector<void*> at(N + 1), parent(N + 1);
    std::vector<bool> lib(N + 1, false);
    for (size_t k = 0; k < N; k++) {
        const UEntry& x = ut.e[k];
        if (!x.user) { at[k] = parent[k] = LIB(pm::build_entry(x.e)); lib[k] = true; continue; }
        User& u = obj[k];
        memset(&u, 0, sizeof u);
        u.id = (int)k; u.min = x.e.min; u.max = x.e.max;
        u.hdr.flag = (char)((x.e.hasval() ? ARG_HASVALUE : 0) | (x.e.opt ? ARG_HASOPTVALUE : 0));
        u.hdr.shortopts = x.e.sh; u.hdr.longopts = x.e.lo; u.hdr.datatype = x.e.dt; u.hdr.glossary = x.e.gloss;
        u.hdr.mincount = x.e.min; u.hdr.maxcount = x.e.max;
        if (x.mask & M_ZEROS) { u.hdr.mincount = u.hdr.maxcount = 0; if (!x.e.tagged()) u.hdr.flag = 0; }
        if (x.mask & M_LARGE) { u.hdr.mincount = 1000; u.hdr.maxcount = INT_MAX; if (!x.e.tagged()) u.hdr.flag |= ARG_HASVALUE | ARG_HASOPTVALUE; }
        u.hdr.parent = &u;
        if (x.mask & M_RESET) u.hdr.resetfn = u_reset;
        if (x.mask & M_SCAN) u.hdr.scanfn = u_scan;
        if (x.mask & M_CHECK) u.hdr.checkfn = u_check;
        if (x.mask & M_ERROR) u.hdr.errorfn = u_error;
        parent[k] = &u;
        if (ut.owner(k) != k) { u.hdr.parent = parent[k] = &obj[ut.owner(k)]; at[k] = &u; }
        else if (x.mask & M_PROXY) {  // the entry in the table is not the object its callbacks work on
            proxy[k] = u;
            proxy[k].id = 900 + (int)k;
            at[k] = &proxy[k];
        } else at[k] = &u;
    }
    struct arg_end* end = LIB(arg_end(ut.cap));
    at[N] = parent[N] = end;
    static const char* prog = pm::T("my prog");
    for (auto& line : lines) {
        for (auto& u : obj) if (!u.hdr.resetfn) u.n = 0;
        UModel M(t, ut);
        if (noargv) M.check_phase(); else M.parse(line, false);
        std::vector<Ev> got;
        g_ev = &got;
        got.reserve(64);
        std::vector<char*> av;
        static char pr[] = "prog";
        av.push_back(pr);
        for (auto s : line) av.push_back((char*)s);
        av.push_back(nullptr);
        int ret = arg_parse(noargv ? 0 : (int)line.size() + 1, av.data(), at.data());
        c.steps++;
        for (auto& e : got) { c.mix((int)e.what); c.mix(e.id); c.mixz(e.a); }
        c.mix(ret);
        c.log("line " + pm::show(line) + ": callbacks: " + show(got) + "; expected: " + show(M.ev));
        if (got != M.ev) { c.fail(pm::show(line) + ": callbacks: " + show(got) + "; expected: " + show(M.ev)); break; }
        auto x = pm::capped(M.r.err, ut.cap);
        bool ok = ret == (int)x.size() && end->count == ret;
        string expect = "returned " + strf("%d", (int)x.size());
        for (size_t i = 0; i < x.size(); i++) {
            expect += " " + pm::err_str(x[i]);
            void* p = x[i].entry < 0 ? (void*)end : parent[(size_t)x[i].entry];
            ok = ok && end->error[i] == x[i].code && end->parent[i] == p && end->argval[i] == x[i].argval;
        }
        if (!ok) {
            string s = strf("%s: returned %d", pm::show(line).c_str(), ret);
            for (int i = 0; i < end->count && i < ut.cap; i++) {
                int p = -2;
                for (size_t k = 0; k <= N; k++) if (end->parent[i] == parent[k]) p = k == N ? -1 : (int)k;
                s += " " + pm::err_str({p, end->error[i], end->argval[i]});
            }
            c.fail(s + "; expected: " + expect);
            break;
        }
        // printing the errors
        std::vector<Ev> want;
        string user;  // what the user's callbacks wrote
        for (auto& e : x)
            if (e.entry >= 0 && ut.e[(size_t)e.entry].user && (ut.e[ut.owner((size_t)e.entry)].mask & M_ERROR)) {
                int o = (int)ut.owner((size_t)e.entry);
                want.push_back({'E', o, e.argval, e.code, prog});
                user += strf("<%d:%d:%s>", o, e.code, e.argval ? e.argval : "-");
            }
        bool only_user = true;
        for (auto& e : x) if (e.entry < 0 || !ut.e[(size_t)e.entry].user) only_user = false;
        string text;
        got.clear();
        arg_dstr_t d = arg_dstr_create();
        arg_print_errors_ds(d, end, prog);
        text = arg_dstr_cstr(d);
        arg_dstr_destroy(d);
        c.steps++;
        if (got != want) { c.fail(pm::show(line) + ": error callbacks: " + show(got) + "; expected: " + show(want)); break; }
        if (only_user && text != user) { c.fail("error text " + quote(text) + "; expected " + quote(user)); break; }
        got.clear();
        Stream& s = stream();
        s.begin();
        arg_print_errors(s.f, end, prog);
        string text2 = s.end();
        c.steps++;
        if (got != want) { c.fail(pm::show(line) + ": error callbacks (stream): " + show(got) + "; expected: " + show(want)); break; }
        if (text2 != text) { c.fail("stream: " + quote(text2) + "; dynamic string: " + quote(text)); break; }
    }
    for (size_t k = 0; k < N; k++) if (lib[k]) LIBV(arg_freetable(&at[k], 1));
    LIBV(arg_freetable(&at[N], 1));
}

using pm::LIT; using pm::INT; using pm::STR; using pm::REM;
// two user-defined entries of every shape with every subset of callbacks around built-in ones
static void subsets(std::vector<vf::Space>& S, bool thorough) {
    static const Entry A[] = {{LIT, "a", nullptr, 1, 2}, {STR, "a", "alpha", 0, 1}, {STR, "a", "alpha", 1, 2, true}, {STR, nullptr, nullptr, 0, 2}, {LIT, nullptr, "alpha", 0, 1}};
    static const Entry B[] = {{LIT, "b", nullptr, 1, 2}, {STR, nullptr, "beta", 0, 1}, {STR, "b", "beta", 1, 2, true}, {STR, nullptr, nullptr, 1, 1}, {LIT, "b", "beta", 0, 1}};
    static const std::vector<std::vector<std::vector<const char*>>> L = {
        {pm::TS({})}, {pm::TS({"-a", "-b"})}, {pm::TS({"-ab", "--alpha", "--beta", "v"})}, {pm::TS({"v", "-a", "w", "-b", "5"})}, {pm::TS({"-axv", "-by", "z1", "z2"})}, {pm::TS({"--alpha=y", "--beta=z", "--alpha=v", "--beta=v"})},
        {pm::TS({"-av", "-av", "-av", "-bv", "-bv", "-bv"})}, {pm::TS({"x", "y", "5", "v", "w", "u"})}, {pm::TS({"-a", "-z", "--beta=", "-l"})}, {pm::TS({"--", "-a", "-b"})},
        {pm::TS({"-a", "v", "-a", "v", "-a", "v"}), pm::TS({}), pm::TS({"-b", "v", "5"})}, {pm::TS({"5", "v", "v"}), pm::TS({"xq"}), pm::TS({"v"})}};
    vf::Space s;
    s.name = "callback-subsets";
    unsigned NM = 32;
    uint64_t nl = L.size();
    s.n = 5ull * 5 * NM * NM * nl * 4;
    auto make = [=](uint64_t i, size_t& line) {
        line = (size_t)(i % nl); i /= nl;
        int m1 = (int)(i % NM); i /= NM;
        int m2 = (int)(i % NM); i /= NM;
        bool shared = i / 25 == 1;
        int hb = i / 25 == 2 ? M_ZEROS : i / 25 == 3 ? M_LARGE : 0;
        i %= 25;
        m1 |= hb;
        m2 |= hb;
        if (shared) m2 = (m2 & ~M_PROXY) | M_SHARED;
        UTable t;
        t.e = {{A[i % 5], m1, true}, {{LIT, "l", "lit", 0, 1}, 0, false}, {B[i / 5], m2, true}, {{INT, nullptr, nullptr, 0, 1}, 0, false}, {{REM, nullptr, nullptr, 0, 0, false, "note"}, 0, false}};
        if (shared && (m2 & 2)) std::swap(t.e[1], t.e[2]);
        if ((m1 ^ m2) & 1 && !shared) std::swap(t.e[0], t.e[3]);
        return t;
    };
    s.run = [=](uint64_t i, Case& c) { size_t l; UTable t = make(i, l); run_lines(t, L[l], c); };
    s.desc = [=](uint64_t i) { size_t l; UTable t = make(i, l); string r = show(t); for (auto& x : L[l]) r += " " + pm::show(x) + ";"; return r; };
    S.push_back(s);
}
static void lines(std::vector<vf::Space>& S, unsigned len) {
    struct F { UTable t; std::vector<const char*> a; uint64_t first; };
    auto f = std::make_shared<std::vector<F>>();
    uint64_t n = 0;
    auto add = [&](std::initializer_list<UEntry> e, int cap, std::vector<const char*> a) {
        UTable t; t.e = e; t.cap = cap;
        f->push_back({t, a, n});
        n += vf::seq_count(a.size(), len);
    };
    add({{{LIT, "a", "alpha", 1, 2}, 15, true}, {{STR, "b", "beta,bx", 0, 2}, 15, true}, {{STR, nullptr, nullptr, 0, 1}, 15, true}, {{STR, nullptr, nullptr, 1, 2}, 31, true}}, 20, pm::TS({"-a", "-aa", "-ab", "-bv", "-bx", "--beta", "--bx=y", "--beta=", "v", "x", "w", "--", "-q", "-"}));
    add({{{STR, "o", "opt", 0, 2, true}, 31, true}, {{LIT, "a", nullptr, 0, 1}, 15, true}, {{INT, nullptr, nullptr, 0, 1}, 0, false}, {{STR, nullptr, nullptr, 0, 3}, 15, true}}, 3, pm::TS({"-o", "-ov", "-ox", "--opt", "--opt=", "--opt=z", "-ao", "-a", "7", "v", "y", "--op"}));
    add({{{STR, nullptr, nullptr, 1, 1}, 31, true}, {{REM, nullptr, nullptr, 0, 0, false, "note"}, 0, false}, {{STR, nullptr, nullptr, 0, 0}, 15, true}, {{INT, "i", nullptr, 1, 1}, 0, false}, {{STR, nullptr, nullptr, 0, 2}, 23, true}}, 4, pm::TS({"-i5", "-i", "v", "x", "w", "zz", "7", "-i5x", "--"}));
    add({{{STR, "s", nullptr, 0, 1}, 15, true}, {{STR, "t", nullptr, 0, 1}, 15, true}, {{LIT, "u", nullptr, 0, 9}, 15, true}}, 1, pm::TS({"-s", "-t", "-u", "-su", "-tu", "-usx", "-uuu", "v", "-uty", "-n"}));
    add({{{LIT, "a", "aa,ab", 0, 3}, 11, true}, {{LIT, "b", "aab", 0, 3}, 7, true}, {{STR, "c", "ac", 0, 3}, 31, true}, {{STR, nullptr, nullptr, 0, 9}, 13, true}}, 20, pm::TS({"-a", "-abc", "--aa", "--aab", "--ac", "--a", "--ab=1", "-cab", "--ac=x", "v", "--aa=x"}));
    vf::Space s;
    s.name = "lines";
    s.n = n;
    auto at = [=](uint64_t i, std::vector<const char*>& line) {
        size_t k = f->size() - 1;
        while ((*f)[k].first > i) k--;
        line.clear();
        for (int d : vf::seq_at(i - (*f)[k].first, (*f)[k].a.size(), len)) line.push_back((*f)[k].a[(size_t)d]);
        return k;
    };
    s.run = [=](uint64_t i, Case& c) { std::vector<const char*> l; size_t k = at(i, l); run_lines((*f)[k].t, {l}, c); };
    s.desc = [=](uint64_t i) { std::vector<const char*> l; size_t k = at(i, l); return show((*f)[k].t) + " " + pm::show(l); };
    S.push_back(s);
    // unusual tokens
    {
        auto odd = std::make_shared<std::vector<const char*>>(pm::TS({"", " ", "\xe9", "%s", "-\xe9", "--\xe9", "---", "-b", "--beta=", "--beta= ", "-o", "--opt=%d", "--opt=z1", "z1", "z2", "-c", "--ac", "-i", "v", "--", "\n"}));
        unsigned ol = len > 4 ? 4 : 3;
        uint64_t on = vf::seq_count(odd->size(), ol);
        vf::Space o;
        o.name = "odd-tokens";
        o.n = on * f->size();
        auto oat = [=](uint64_t i) { std::vector<const char*> l; for (int d : vf::seq_at(i % on, odd->size(), ol)) l.push_back((*odd)[(size_t)d]); return l; };
        o.run = [=](uint64_t i, Case& c) { run_lines((*f)[i / on].t, {oat(i)}, c); };
        o.desc = [=](uint64_t i) { return show((*f)[i / on].t) + " " + pm::show(oat(i)); };
        S.push_back(o);
    }
    vf::Space z;
    z.name = "no-arguments-at-all";
    z.n = f->size() * 2;
    z.run = [=](uint64_t i, Case& c) { UTable t = (*f)[i / 2].t; if (i % 2) for (auto& e : t.e) e.e.min = 0; run_lines(t, {pm::TS({})}, c, true); };
    z.desc = [=](uint64_t i) { return show((*f)[i / 2].t) + " argc 0"; };
    S.push_back(z);
    // two lines in a row with the same table
    vf::Space h;
    h.name = "histories";
    unsigned hl = len > 4 ? 2 : 2;
    uint64_t hn = 0;
    auto first = std::make_shared<std::vector<uint64_t>>();
    for (auto& x : *f) { first->push_back(hn); uint64_t q = vf::seq_count(x.a.size(), hl); hn += q * q; }
    h.n = hn;
    auto hat = [=](uint64_t i, std::vector<std::vector<const char*>>& ls) {
        size_t k = f->size() - 1;
        while ((*first)[k] > i) k--;
        i -= (*first)[k];
        uint64_t q = vf::seq_count((*f)[k].a.size(), hl);
        ls.assign(2, {});
        for (int d : vf::seq_at(i / q, (*f)[k].a.size(), hl)) ls[0].push_back((*f)[k].a[(size_t)d]);
        for (int d : vf::seq_at(i % q, (*f)[k].a.size(), hl)) ls[1].push_back((*f)[k].a[(size_t)d]);
        return k;
    };
    h.run = [=](uint64_t i, Case& c) { std::vector<std::vector<const char*>> l; size_t k = hat(i, l); run_lines((*f)[k].t, l, c); };
    h.desc = [=](uint64_t i) { std::vector<std::vector<const char*>> l; size_t k = hat(i, l); return show((*f)[k].t) + " " + pm::show(l[0]) + "; " + pm::show(l[1]); };
    S.push_back(h);
}

// many entries, many occurrences, many operands, many errors
static void scale(std::vector<vf::Space>& S, int dense, int max) {
    auto pt = std::make_shared<std::vector<int>>(vf::points(dense, max));
    const unsigned NM = 8;
    vf::Space s;
    s.name = "scale";
    s.n = pt->size() * NM;
    s.run = [=](uint64_t i, Case& c) {
        using namespace pm;
        int n = (*pt)[i / NM];
        unsigned m = (unsigned)(i % NM);
        UTable t;
        t.cap = m == 7 ? n / 2 + 1 : n + 5;
        std::vector<string> nm, l;
        for (int k = 0; k < n; k++) nm.push_back(strf("n%d", k));
        if (m < 3) for (int k = 0; k < n; k++) t.e.push_back({{m == 1 ? STR : LIT, nullptr, m == 2 ? nullptr : nm[(size_t)k].c_str(), m == 0 && k % 3 == 0, 2}, k % 4 == 1 ? 31 : 15, k % 5 != 4 && !(m == 2)});
        if (m == 2) for (int k = 0; k < n; k++) t.e[(size_t)k] = {{STR, nullptr, nullptr, 0, 1}, k % 4 == 1 ? 31 : 15, true};
        if (m >= 3) t.e = {{{LIT, "a", nullptr, 0, n + 1}, 15, true}, {{STR, "b", "beta", 0, n / 2 + 1}, 31, true}, {{STR, nullptr, nullptr, 0, n / 2}, 15, true}, {{STR, nullptr, nullptr, 1, n}, 15, true}};
        for (int k = 0; k < n; k++) switch (m) {
            case 0: if (k % 2) l.push_back("--" + nm[(size_t)k]); break;
            case 1: l.push_back("--" + nm[(size_t)(n - 1 - k)] + (k % 3 ? "=v" : "=x")); break;
            case 2: l.push_back(strf("v%d", k)); break;
            case 3: l.push_back("-a"); break;
            case 4: l.push_back(k % 2 ? strf("-bv%d", k) : strf("--beta=w%d", k)); break;
            case 5: l.push_back(strf("v%d", k)); break;
            case 6: case 7: l.push_back(k % 3 ? "-bx" : "x"); break;
        }
        std::vector<vf::Str> toks;
        toks.reserve(l.size());
        std::vector<const char*> line;
        for (auto& x : l) { toks.emplace_back(x); line.push_back(toks.back().p); }
        run_lines(t, {line, {}}, c);
    };
    s.desc = [=](uint64_t i) { return strf("arrangement %d of size %d", (int)(i % NM), (*pt)[i / NM]); };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C25";
    c.leaks = false;
    c.rule = "tables of user-defined entries whose callbacks record every call, mixed with built-in and documentation-only ones: every pair of entry shapes with every subset of callbacks, with a parent of their own (the entry itself or elsewhere) or shared by both, with the bounds they apply or others in the header, on a set of lines and line sequences; every line up to the bound over tables with all callbacks; every pair of short lines with one table; parses without arguments. The recorded calls (order, parent, argument addresses), the error records and the calls made when the errors are printed are compared with those of the reference parser; outcomes are distinct by the recorded calls and the return value";
    c.assumptions = {"an entry with an optional value has both value flags set", "an entry's parent begins with an argument header, as error printing requires"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        subsets(S, !q);
        lines(S, q ? 4 : 6);
        scale(S, q ? 150 : 500, 1024);
    };
    return vf::run(c, argc, argv);
}
