// C08: integer arguments.
#include "pm.hpp"
using namespace pm;

// One "-i 7 -i TEXT" (or the text attached, after '=', or as an operand); the first value must survive.
static void check(const std::string& s, int how, Case& c) {
    if (how == 1 && s.empty()) return;
    static struct arg_int* it = arg_intn("i", "int", nullptr, 0, 3, nullptr);
    static struct arg_int* un = arg_intn(nullptr, nullptr, nullptr, 0, 3, nullptr);
    static struct arg_end* end = arg_end(8);
    static void* t1[] = {it, end};
    static void* t2[] = {un, end};
    std::string tok = how == 1 ? "-i" + s : how == 2 ? "--int=" + s : s;
    vf::Str x(tok);
    static char prog[] = "prog", o[] = "-i", seven[] = "7", dd[] = "--";
    char* a0[] = {prog, o, seven, o, x.p, nullptr};
    char* a1[] = {prog, o, seven, x.p, nullptr};
    char* a3[] = {prog, seven, dd, x.p, nullptr};
    struct arg_int* e = how == 3 ? un : it;
    const int SENT = 0x5a5a5a5a;
    e->ival[0] = e->ival[1] = e->ival[2] = SENT;
    int ret = LIB(how == 0 ? arg_parse(5, a0, t1) : how == 3 ? arg_parse(4, a3, t2) : arg_parse(4, a1, t1));
    c.steps++;
    int v = 0, rc = conv::model_int(s.c_str(), &v);
    c.mix(rc);
    c.mix(e->count > 1 ? e->ival[1] : 0);
    const char* names[] = {"accepted", "1", "2", "rejected as bad integer", "rejected as overflow"};
    if (e->ival[0] != 7) c.fail(strf("the value before it became %d", e->ival[0]));
    if (rc == 0) {
        if (ret || e->count != 2) c.fail(strf("not accepted (code %d), expected %d", ret ? end->error[0] : 0, v));
        else if (e->ival[1] != v) c.fail(strf("stored as %d, expected %d", e->ival[1], v));
    } else {
        int want = how == 2 && s.empty() ? 2 : 1;
        if (ret != want || end->error[want - 1] != rc || end->parent[want - 1] != e) c.fail(strf("%s, expected %s", ret ? strf("rejected with code %d", end->error[0]).c_str() : strf("accepted as %d", e->ival[1]).c_str(), names[rc]));
        else if (e->count != 1 || e->ival[1] != SENT) c.fail(strf("rejected, but count is %d and the next value %d", e->count, e->ival[1]));
    }
    if (e->ival[2] != SENT) c.fail("a value beyond the last was written");
    if (c.trace) c.log("text " + quote(s) + strf(": returned %d, count %d, model code %d value %d", ret, e->count, rc, v));
}
static void strings(std::vector<vf::Space>& S, const char* name, const char* al, unsigned len) {
    std::string A = al;
    vf::Space s;
    s.name = name;
    s.n = vf::seq_count(A.size(), len);
    auto mk = [=](uint64_t i) { std::string r; for (int d : vf::seq_at(i, A.size(), len)) r += A[(size_t)d]; return r; };
    s.run = [=](uint64_t i, Case& c) { check(mk(i), 0, c); };
    s.desc = [=](uint64_t i) { return "text " + quote(mk(i)); };
    S.push_back(s);
}
static std::string in_base(unsigned __int128 v, int b, bool up) {
    std::string r;
    do { int d = (int)(v % (unsigned)b); r.insert(r.begin(), (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10)); v /= (unsigned)b; } while (v);
    return r;
}
// boundary values in every notation
static void boundaries(std::vector<vf::Space>& S, int span) {
    auto vals = std::make_shared<std::vector<unsigned __int128>>();
    auto add = [&](unsigned __int128 v) { for (auto x : *vals) if (x == v) return; vals->push_back(v); };
    for (int k = 0; k <= 100; k++)
        for (int d = -span; d <= span; d++) {
            __int128 v = ((__int128)1 << k) + d;
            if (v >= 0) add((unsigned __int128)v);
            v = (((__int128)1 << k) * 3) / 2 + d;
            if (v >= 0) add((unsigned __int128)v);
        }
    for (uint64_t m = 10, k = 0; k < 18; k++, m *= 10) for (int d = -1; d <= 1; d++) { add(m + (uint64_t)d); add(2147483647ull / m + (uint64_t)(d + 1)); }
    static const char* SIGN[] = {"", "-", "+"};
    static const char* PRE[] = {"", "0x", "0X", "0o", "0O", "0b", "0B"};
    static const int BASE[] = {10, 16, 16, 8, 8, 2, 2};
    static const char* SUF[] = {"", "KB", "kb", "Kb", "MB", "mB", "GB", "gb", "K", "B", "KBx", "KB ", " KB", " ", "\n", "TB", "KBKB", "."};
    static const char* ZERO[] = {"", "00", "0000000000000000000000000"};
    const uint64_t per = 3 * 7 * 18 * 3;
    auto mk = [=](uint64_t i) {
        auto v = (*vals)[i / per];
        uint64_t k = i % per;
        int sg = (int)(k % 3), pr = (int)(k / 3 % 7), su = (int)(k / 21 % 18), z = (int)(k / 378);
        return std::string(SIGN[sg]) + PRE[pr] + ZERO[z] + in_base(v, BASE[pr], pr & 1) + SUF[su];
    };
    vf::Space s;
    s.name = "boundaries";
    s.n = vals->size() * per;
    s.run = [=](uint64_t i, Case& c) { std::string x = mk(i); check(x, 0, c); };
    s.desc = [=](uint64_t i) { return "text " + quote(mk(i)); };
    S.push_back(s);
}
// every small value in every notation and delivery
static void small(std::vector<vf::Space>& S, int lim) {
    static const char* PRE[] = {"", "0x", "0o", "0b"};
    static const int BASE[] = {10, 16, 8, 2};
    static const char* SUF[] = {"", "KB", "MB", "GB"};
    vf::Space s;
    s.name = "values";
    s.n = (uint64_t)(2 * lim + 1) * 16 * 4;
    auto mk = [=](uint64_t i, int& how) {
        how = (int)(i % 4); i /= 4;
        int su = (int)(i % 4), pr = (int)(i / 4 % 4);
        int v = (int)(i / 16) - lim;
        std::string r = v < 0 ? "-" : "";
        return r + PRE[pr] + in_base((unsigned __int128)(v < 0 ? -v : v), BASE[pr], false) + SUF[su];
    };
    s.run = [=](uint64_t i, Case& c) { int how; std::string x = mk(i, how); check(x, how, c); };
    s.desc = [=](uint64_t i) { int how; std::string x = mk(i, how); return "text " + quote(x) + strf(" delivery %d", how); };
    S.push_back(s);
}
// every byte before, inside and after a number
static void bytes(std::vector<vf::Space>& S) {
    vf::Space s;
    s.name = "bytes";
    static const char* F[] = {"?1", "1?", "1?2", "?", "+?1", "0?1", "0x?", "0x1?", "1K?", "1?B", "1MB?", "0b1?", "0o7?", "-0x?f", " ?5", "5 ?", "1G?B", "0b?1", "0o?1", "??3", "3??", "?0x1f", "?-0x1", "?0b1", "?0o7", "?-0b1KB", "??+0X1", "?1MB", "?+0O7GB"};
    s.n = 255 * 29 * 4;
    auto mk = [](uint64_t i, int& how) {
        how = (int)(i % 4); i /= 4;
        char ch = (char)(i % 255 + 1);
        std::string r = F[i / 255];
        for (auto& x : r) if (x == '?') x = ch;
        return r;
    };
    s.run = [=](uint64_t i, Case& c) { int how; std::string x = mk(i, how); check(x, how, c); };
    s.desc = [=](uint64_t i) { int how; std::string x = mk(i, how); return "text " + quote(x) + strf(" delivery %d", how); };
    S.push_back(s);
}
// digit strings of growing length
static void lengths(std::vector<vf::Space>& S, int n, int max) {
    vf::Space s;
    s.name = "lengths";
    auto pt = std::make_shared<std::vector<int>>(vf::points(n, max));
    s.n = pt->size() * 4 * 4 * 4;
    auto mk = [=](uint64_t i) {
        int su = (int)(i % 4); i /= 4;
        int dg = (int)(i % 4); i /= 4;
        int pr = (int)(i % 4); i /= 4;
        static const char* PRE[] = {"", "-0x", "0o", "0b"};
        static const char* SUF[] = {"", "KB", " ", "gB"};
        static const char DG[] = {'0', '1', '7'};
        size_t len = (size_t)(*pt)[i];
        if (dg == 3) return std::string(len, " \t\v\n"[len % 4]) + PRE[pr] + "1" + SUF[su];
        return std::string(PRE[pr]) + std::string(len, pr == 3 && dg == 2 ? '1' : DG[dg]) + SUF[su];
    };
    s.run = [=](uint64_t i, Case& c) { check(mk(i), 0, c); };
    s.desc = [=](uint64_t i) { return "text " + quote(mk(i)); };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C08";
    c.rule = "every string up to the bound length over an alphabet of digits, prefixes, signs, suffix letters, white space and others; boundary values around every power of two and ten in every notation, sign, padding and suffix; every small value; every byte at every position of number templates; outcomes are distinct by verdict and stored value";
    c.assumptions = {"the reference model in harness/conv.hpp states the documented notation", "int has 32 bits", "the C locale"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        strings(S, "strings", q ? "019abxoKBMg+- f\t" : "0129abxXoOKkBMmgG+- fF\tz", q ? 5 : 6);
        strings(S, "strings-short", "0123456789aAbBfFxXoOkKmMgG+- \t\n\v\f\r.,zZ_%", q ? 3 : 4);
        strings(S, "strings-long", q ? "01xbKg-" : "019xbKg-", 7);
        boundaries(S, q ? 2 : 6);
        small(S, q ? 3000 : 70000);
        bytes(S);
        lengths(S, q ? 300 : 1500, q ? 65536 : 1 << 20);
    };
    return vf::run(c, argc, argv);
}
