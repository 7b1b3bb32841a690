// C16: the sub-command registry always reflects the registrations made.
#include "vf.hpp"
#include <climits>
#include <map>
extern "C" {
#include "argtable3.h"
}
using vf::Case;
using vf::quote;
using vf::strf;
using std::string;

struct Call { int proc; int argc; char** argv; arg_dstr_t res; void* ctx; };
static Call g_call;
static int g_ncalls;
static const int RET[] = {-10, 70000, INT_MIN, INT_MAX};  // what the procedures return
template <int N> static int proc(int argc, char* argv[], arg_dstr_t res, void* ctx) {
    g_call = {N, argc, argv, res, ctx};
    g_ncalls++;
    arg_dstr_catf(res, "%d:", N);
    for (int i = 0; i < argc; i++) { arg_dstr_cat(res, argv[i]); arg_dstr_catc(res, ','); }
    return RET[N];
}
static arg_cmdfn* const PROC[] = {proc<0>, proc<1>, proc<2>, proc<3>, nullptr};

struct Info { std::string desc; int proc; void* ctx; };
static char g_ctx[5000];

struct R {
    std::map<std::string, Info> want;
    R() { LIBV(arg_cmd_init()); }
    void done() { LIBV(arg_cmd_uninit()); }
    void reg(const std::string& name, const std::string& desc, int p, void* ctx) {
        {
            vf::Str n(name), d(desc);
            LIBV(arg_cmd_register(n.p, PROC[p], d.p, ctx));
            memset(n.p, '!', n.n);
            memset(d.p, '!', d.n);
        }
        want[name] = {desc, p, ctx};
    }
    // registers again using the strings of the registered information itself
    void reg_own(const std::string& name, int p, void* ctx) {
        vf::Str n(name);
        arg_cmd_info_t* i = LIB(arg_cmd_info(n.p));
        if (!i || !want.count(name)) return;
        LIBV(arg_cmd_register(i->name, PROC[p], i->description, ctx));
        want[name].proc = p;
        want[name].ctx = ctx;
    }
    void unreg(const std::string& name, bool own) {
        vf::Str n(name);
        arg_cmd_info_t* i = own ? LIB(arg_cmd_info(n.p)) : nullptr;
        if (i) LIBV(arg_cmd_unregister(i->name)); else LIBV(arg_cmd_unregister(n.p));
        want.erase(name);
    }
    bool same(Case& c, const std::string& name, arg_cmd_info_t* i, const char* how) {
        auto w = want.find(name);
        if (w == want.end()) { if (i) { c.fail(strf("%s finds the unregistered sub-command ", how) + quote(name)); return false; } return true; }
        if (!i) { c.fail(strf("%s does not find the registered sub-command ", how) + quote(name)); return false; }
        if (name != i->name) { c.fail(strf("%s shows the name ", how) + quote(i->name) + " for " + quote(name)); return false; }
        if (w->second.desc != i->description) { c.fail(strf("%s shows the description ", how) + quote(i->description) + ", expected " + quote(w->second.desc)); return false; }
        if (i->proc != PROC[w->second.proc]) { c.fail(strf("%s shows another procedure for ", how) + quote(name)); return false; }
        if (i->ctx != w->second.ctx) { c.fail(strf("%s shows another context for ", how) + quote(name)); return false; }
        return true;
    }
    void dispatch(Case& c, const std::string& name, int argc) {
        auto w = want.find(name);
        if (w == want.end() || c.failed || w->second.proc == 4) return;
        static char a0[] = "x", a1[] = "--flag", a2[] = "";
        char* av[] = {a0, a1, a2, nullptr};
        char* before[] = {a0, a1, a2, nullptr};
        vf::Str n(name);
        arg_dstr_t res = LIB(arg_dstr_create());
        LIBV(arg_dstr_cat(res, "kept "));
        g_ncalls = 0;
        int r = LIB(arg_cmd_dispatch(n.p, argc, av, res));
        std::string got = arg_dstr_cstr(res);
        LIBV(arg_dstr_destroy(res));
        std::string exp = strf("kept %d:", w->second.proc);
        for (int k = 0; k < argc; k++) exp += std::string(before[k]) + ",";
        c.steps++;
        if (g_ncalls != 1) c.fail(strf("dispatching runs the procedure %d times", g_ncalls));
        else if (g_call.proc != w->second.proc) c.fail("dispatching runs another procedure than the one registered last");
        else if (g_call.argc != argc || g_call.argv != av || memcmp(av, before, sizeof av)) c.fail("the procedure gets other arguments");
        else if (g_call.res != res) c.fail("the procedure gets another result string");
        else if (g_call.ctx != w->second.ctx) c.fail("the procedure gets another context");
        else if (r != RET[w->second.proc]) c.fail(strf("dispatching returns %d, the procedure returned %d", r, RET[w->second.proc]));
        else if (got != exp) c.fail("the result string is " + quote(got) + ", expected " + quote(exp));
    }
    void check(Case& c, const std::vector<std::string>& names) {
        if (c.failed) return;
        c.steps++;
        unsigned n = LIB(arg_cmd_count());
        if (n != want.size()) { c.fail(strf("the count is %u with %zu registered sub-commands", n, want.size())); return; }
        for (auto& x : names) { vf::Str s(x); if (!same(c, x, LIB(arg_cmd_info(s.p)), "a lookup")) return; }
        arg_cmd_itr_t it = LIB(arg_cmd_itr_create());
        std::map<std::string, int> seen;
        for (unsigned i = 0; i < n && !c.failed; i++) {
            const char* k = LIB(arg_cmd_itr_key(it));
            std::string ks = k;
            if (!want.count(ks)) { c.fail("the iteration shows the unregistered sub-command " + quote(ks)); break; }
            if (seen[ks]++) { c.fail("the iteration shows twice the sub-command " + quote(ks)); break; }
            if (!same(c, ks, LIB(arg_cmd_itr_value(it)), "the iteration")) break;
            int m = LIB(arg_cmd_itr_advance(it));
            if (!m != (i + 1 == n)) c.fail(strf("the iteration says %s after %u of %u", m ? "there is more" : "it is over", i + 1, n));
        }
        for (auto& x : names) {
            if (c.failed) break;
            vf::Str s(x);
            int r = LIB(arg_cmd_itr_search(it, s.p));
            if (!!r != (want.count(x) > 0)) c.fail(strf("positioning an iterator %s on ", r ? "succeeds" : "fails") + quote(x));
            else if (r) { const char* k = LIB(arg_cmd_itr_key(it)); if (x != k) c.fail("positioning an iterator gives another name"); else same(c, x, LIB(arg_cmd_itr_value(it)), "a positioned iterator"); }
        }
        LIBV(arg_cmd_itr_destroy(it));
    }
    void mix(Case& c) { for (auto& w : want) { c.mix(w.first); c.mix(w.second.proc); c.mix((uint64_t)w.second.desc.size()); } c.mix((int)want.size()); }
};

// "ab" and "bA" have equal hash codes
static const std::vector<std::string>& NAMES() {
    static std::vector<std::string> v = {"ab", "bA", "", std::string(99, 'n'), "ab ", "\xc3\xa9t\xe9"};
    return v;
}
static std::string descr(int v) { return v == 0 ? "does things" : v == 1 ? std::string(255, 'D') : v == 2 ? "" : "100%s other"; }
static const int NV = 6;
static const char* VN[] = {"register A", "register B", "unregister", "register again from its own information", "unregister by its own name", "dispatch"};
static void sequences(std::vector<vf::Space>& S, unsigned nn, unsigned len) {
    vf::Space s;
    unsigned nops = nn * NV;
    s.name = strf("sequences-n%u-l%u", nn, len);
    s.n = vf::ipow(nops, len);
    s.run = [=](uint64_t i, Case& c) {
        int d[10];
        vf::digits(i, nops, len, d);
        std::vector<std::string> names(NAMES().begin(), NAMES().begin() + nn);
        R r;
        for (unsigned k = 0; k < len && !c.failed; k++) {
            const std::string& n = names[(size_t)d[k] % nn];
            switch (d[k] / (int)nn) {
                case 0: r.reg(n, descr(k % 2 ? 0 : 2), (int)k % 4, g_ctx + k); break;
                case 1: r.reg(n, descr(k % 2 ? 1 : 3), (int)(k + 1) % 4, nullptr); break;
                case 2: r.unreg(n, false); break;
                case 3: r.reg_own(n, (int)(k + 2) % 4, g_ctx + 100 + k); break;
                case 4: r.unreg(n, true); break;
                case 5: r.dispatch(c, n, (int)k % 4); break;
            }
            r.check(c, names);
            r.mix(c);
        }
        for (auto& n : names) r.dispatch(c, n, 2);
        r.done();
    };
    s.desc = [=](uint64_t i) { int d[10]; vf::digits(i, nops, len, d); std::string r; for (unsigned k = 0; k < len; k++) r += strf("%s ", VN[d[k] / (int)nn]) + quote(NAMES()[(size_t)d[k] % nn]) + "; "; return r; };
    S.push_back(s);
}
static void ladder(std::vector<vf::Space>& S, unsigned maxn) {
    vf::Space s;
    s.name = "many";
    auto pt = std::make_shared<std::vector<int>>(vf::points((int)maxn, 1024));
    pt->push_back(0);
    s.n = pt->size() * 4;
    s.chunk = 8;
    s.run = [=](uint64_t i, Case& c) {
        unsigned v = (unsigned)(i % 4), n = (unsigned)(*pt)[i / 4];
        std::vector<std::string> names;
        for (unsigned k = 0; k < n + 3; k++) names.push_back(strf(k % 2 ? "cmd%u" : "%u-command", k));
        R r;
        for (unsigned k = 0; k < n; k++) r.reg(names[k], strf("number %u", k), (int)k % 4, g_ctx + k);
        r.check(c, names);
        if (v == 1) for (unsigned k = 0; k < n; k += 2) r.unreg(names[k], k % 4 == 0);
        if (v == 2) for (unsigned k = 0; k < n; k += 3) r.reg(names[k], "replaced", 3, nullptr);
        if (v == 3) for (unsigned k = 0; k < n; k++) r.unreg(names[n - 1 - k], false);
        r.check(c, names);
        for (auto& x : names) r.dispatch(c, x, 1);
        r.mix(c);
        r.done();
    };
    s.desc = [=](uint64_t i) { return strf("%u sub-commands, variant %u", (unsigned)(*pt)[i / 4], (unsigned)(i % 4)); };
    S.push_back(s);
}
// every length of name and description
static void lengths(std::vector<vf::Space>& S) {
    vf::Space s;
    s.name = "lengths";
    s.n = 100 * 256;
    s.run = [=](uint64_t i, Case& c) {
        std::string n((size_t)(i % 100), 'x'), d((size_t)(i / 100), 'y');
        for (size_t k = 0; k < n.size(); k++) n[k] = (char)('a' + k % 26);
        for (size_t k = 0; k < d.size(); k++) d[k] = (char)('A' + k % 26);
        R r;
        r.reg(n, d, 1, g_ctx);
        r.check(c, {n, n + "z", n.substr(0, n.size() / 2)});
        r.dispatch(c, n, 3);
        r.mix(c);
        r.done();
    };
    s.desc = [=](uint64_t i) { return strf("a name of %d and a description of %d characters", (int)(i % 100), (int)(i / 100)); };
    S.push_back(s);
}
// a name registered twice, with information that differs in one place or not at all
static void replaced(std::vector<vf::Space>& S) {
    static const int LEN[] = {1, 8, 64, 128, 255};
    struct V { int len, at, p1, p2, c1, c2, mid; };
    auto v = std::make_shared<std::vector<V>>();
    for (int len : LEN) for (int at = -2; at < len; at++)  // -2: the same description, -1: shorter by one, else that character differs
        for (int p : {0x00, 0x01, 0x04, 0x40, 0x44}) for (int x = 0; x < 9; x++) for (int mid = 0; mid < 2; mid++) v->push_back({len, at, p >> 4, p & 15, x / 3, x % 3, mid});
    vf::Space s;
    s.name = "replaced";
    s.n = v->size();
    s.run = [=](uint64_t i, Case& c) {
        const V& x = (*v)[i];
        static void* const CTX[] = {nullptr, g_ctx, g_ctx + 8};
        string d1((size_t)x.len, 'd'), d2;
        for (size_t k = 0; k < d1.size(); k++) d1[k] = (char)('a' + k % 26);
        d2 = d1;
        if (x.at == -1) d2.pop_back();
        if (x.at >= 0) d2[(size_t)x.at] = 'X';
        R r;
        std::vector<string> names = {"ab", "bA", "ab2"};
        if (x.mid) r.reg("bA", d2, 2, g_ctx + 16);
        r.reg("ab", d1, x.p1, CTX[x.c1]);
        r.check(c, names);
        if (x.mid) r.dispatch(c, "ab", 1);
        r.reg("ab", d2, x.p2, CTX[x.c2]);
        r.check(c, names);
        r.dispatch(c, "ab", 2);
        r.mix(c);
        r.done();
    };
    s.desc = [=](uint64_t i) { const V& x = (*v)[i]; return strf("a description of %d characters, then %s; procedures %d then %d (4: none), contexts %d then %d%s", x.len, x.at == -2 ? "the same" : x.at == -1 ? "one character less" : strf("another character %d", x.at).c_str(), x.p1, x.p2, x.c1, x.c2, x.mid ? ", another sub-command before" : ""); };
    S.push_back(s);
}
// two names that differ in one place
static void similar(std::vector<vf::Space>& S) {
    vf::Space s;
    s.name = "similar-names";
    s.n = 100 * 100 * 3;
    s.run = [=](uint64_t i, Case& c) {
        size_t len = (size_t)(i / 3 % 100), at = (size_t)(i / 300);
        if (!len || at > len) return;
        string a;
        for (size_t k = 0; k < len; k++) a += (char)('a' + k % 26);
        string b = at == len ? a.substr(0, len - 1) : a;
        if (at < len) b[at] = i % 3 ? (char)toupper(b[at]) : '~';
        if (i % 3 == 2) {
            if (at + 1 >= len) return;
            b = a;  // a name of the same hash code (weights of 33)
            b[at] = (char)(b[at] + 1);
            b[at + 1] = (char)(b[at + 1] - 33);
        }
        R r;
        r.reg(a, "first", 0, g_ctx);
        r.check(c, {a, b});
        r.reg(b, "second", 1, g_ctx + 1);
        r.check(c, {a, b});
        r.dispatch(c, a, 1);
        r.dispatch(c, b, 1);
        r.unreg(i % 2 ? a : b, false);
        r.check(c, {a, b});
        r.mix(c);
        r.done();
    };
    s.desc = [=](uint64_t i) { return strf("names of %d characters that differ at %d", (int)(i / 3 % 100), (int)(i / 300)); };
    S.push_back(s);
}
// every byte in names and descriptions
static void bytes(std::vector<vf::Space>& S) {
    vf::Space s;
    s.name = "bytes";
    s.n = 255 * 5;
    s.run = [=](uint64_t i, Case& c) {
        char b = (char)(i / 5 + 1);
        string w(1, b), e;
        switch (i % 5) {
            case 0: break;
            case 1: w = "ab" + w; break;
            case 2: w += "ab"; break;
            case 3: w = "a" + w + "b"; break;
            case 4: w = w + w + "\n" + w; break;
        }
        string other = w + "x", up = w;
        for (char& x : up) x = (char)(isupper((unsigned char)x) ? tolower((unsigned char)x) : toupper((unsigned char)x));
        R r;
        r.reg(w, "about " + w + " it", 0, g_ctx);
        r.check(c, {w, other, up});
        r.reg(other, w, 1, g_ctx + 1);
        if (up != w) r.reg(up, w + w, 2, nullptr);
        r.check(c, {w, other, up, "a", ""});
        r.dispatch(c, w, 1);
        r.dispatch(c, up, 2);
        r.unreg(w, false);
        r.check(c, {w, other, up});
        r.mix(c);
        r.done();
    };
    s.desc = [=](uint64_t i) { return strf("byte %d in names and descriptions, variant %d", (int)(i / 5) + 1, (int)(i % 5)); };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C16";
    c.rule = "every sequence of the bound length over registering (two ways), re-registering and unregistering with the caller's or the registry's own strings, and dispatching, over names that include two with equal hash codes, the empty and the longest name; every number of sub-commands up to the bound; every length of name and description; every byte in names and descriptions; every place in which two registrations of a name, or two names, differ; after each operation count, lookups, iteration and positioning are compared with a reference map; outcomes are distinct by the sequence of registry contents";
    c.assumptions = {"names shorter than ARG_CMD_NAME_LEN and descriptions shorter than ARG_CMD_DESCRIPTION_LEN (asserted by the library)", "only registered sub-commands are dispatched (asserted by the library)"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        for (unsigned l = 1; l <= (q ? 5u : 6u); l++) sequences(S, 3, l);
        sequences(S, 6, q ? 3 : 4);
        ladder(S, q ? 150 : 450);
        lengths(S);
        replaced(S);
        similar(S);
        bytes(S);
    };
    return vf::run(c, argc, argv);
}
