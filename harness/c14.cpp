// C14: a dynamic string always holds exactly what was set and appended.
#include "vf.hpp"
extern "C" {
#include "argtable3.h"
}
using vf::Case;
using vf::quote;
using vf::strf;

static std::string pat(size_t n, int salt) { std::string s; for (size_t i = 0; i < n; i++) s += (char)('a' + (i * 7 + (size_t)salt) % 26); return s; }
// strings in read-only memory: writing to a borrowed string ends the process
static const char* ro(const std::string& s) {
    static std::vector<std::pair<std::string, const char*>> all;
    for (auto& p : all) if (p.first == s) return p.second;
    size_t sz = (s.size() / 4096 + 1) * 4096;
    char* p = (char*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memcpy(p, s.c_str(), s.size() + 1);
    mprotect(p, sz, PROT_READ);
    all.push_back({s, p});
    return p;
}
// blocks with a custom free function
static std::vector<std::pair<char*, int>> g_custom;
static void custom_free(char* p) {
    for (auto& c : g_custom) if (c.first == p) { c.second++; memset(p, '#', strlen(p)); return; }
    g_custom.push_back({p, 100});
}

struct DS {
    arg_dstr_t d;
    std::string want;
    bool writable = true;  // content is in memory of the string itself
    std::vector<std::unique_ptr<vf::Str>> bufs;
    size_t first_custom;
    DS() { g_custom.clear(); d = LIB(arg_dstr_create()); }
    char* custom(const std::string& s) { bufs.emplace_back(new vf::Str(s)); g_custom.push_back({bufs.back()->p, 0}); return bufs.back()->p; }
    bool check(Case& c, const char* after) {
        c.steps++;
        const char* s = LIB(arg_dstr_cstr(d));
        if (want != s) { c.fail(strf("after %s the content is ", after) + quote(s) + strf(" (length %zu), expected ", strlen(s)) + quote(want) + strf(" (length %zu)", want.size())); return false; }
        return true;
    }
    void done(Case& c) {
        LIBV(arg_dstr_destroy(d));
        LIBV(arg_dstr_destroy(nullptr));
        for (auto& x : g_custom) if (x.second != 1) c.fail(x.second >= 100 ? "the custom free function was called for a string not handed over" : strf("a string handed over with a custom free function was freed %d times", x.second));
    }
};
static const char* OPS[] = {"set borrowed", "set copied 3", "set copied 200", "set copied 201", "set copied 600", "set owned 5", "set owned 300", "set custom", "set NULL", "append empty", "append 2", "append 99", "append 150", "append 700", "append char", "append formatted 5", "append formatted 16", "append formatted 40", "append formatted 300", "append formatted NULL", "reset", "set copy of own suffix", "set copy of itself", "truncate by caller", "set borrowed empty", "set custom long", "free and reset", "free and set copied 7", "set owned empty", "set custom empty"};
static const int NOPS = sizeof OPS / sizeof *OPS;

static void op(DS& s, int k, int step) {
    arg_dstr_t d = s.d;
    auto volat = [&](const std::string& x) { vf::Str b(x); LIBV(arg_dstr_set(d, b.p, ARG_DSTR_VOLATILE)); s.want = x; s.writable = true; };
    auto owned = [&](const std::string& x) { char* p = vf::lib_strdup(x); LIBV(arg_dstr_set(d, p, ARG_DSTR_DYNAMIC)); s.want = x; s.writable = true; };
    auto cat = [&](const std::string& x) { vf::Str b(x); LIBV(arg_dstr_cat(d, b.p)); s.want += x; s.writable = true; };
    auto catf = [&](const std::string& x) { vf::Str b(x); LIBV(arg_dstr_catf(d, "%s", b.p)); s.want += x; s.writable = true; };
    switch (k) {
        case 0: LIBV(arg_dstr_set(d, (char*)ro("borrowed text"), ARG_DSTR_STATIC)); s.want = "borrowed text"; s.writable = false; break;
        case 1: volat(pat(3, step)); break;
        case 2: volat(pat(200, step)); break;
        case 3: volat(pat(201, step)); break;
        case 4: volat(pat(600, step)); break;
        case 5: owned(pat(5, step)); break;
        case 6: owned(pat(300, step)); break;
        case 7: { std::string x = pat(9, step); char* p = s.custom(x); LIBV(arg_dstr_set(d, p, custom_free)); s.want = x; s.writable = true; break; }
        case 8: LIBV(arg_dstr_set(d, nullptr, step % 2 ? ARG_DSTR_STATIC : ARG_DSTR_DYNAMIC)); s.want = ""; s.writable = true; break;
        case 9: cat(""); break;
        case 10: cat("xy"); break;
        case 11: cat(pat(99, step)); break;
        case 12: cat(pat(150, step)); break;
        case 13: cat(pat(700, step)); break;
        case 14: LIBV(arg_dstr_catc(d, 'z')); s.want += 'z'; s.writable = true; break;
        case 15: LIBV(arg_dstr_catf(d, "%d%%%c", 42 + step, 'q')); s.want += strf("%d%%q", 42 + step); s.writable = true; break;
        case 16: catf(pat(16, step)); break;
        case 17: catf(pat(40, step)); break;
        case 18: catf(pat(300, step)); break;
        case 19: LIBV(arg_dstr_catf(d, nullptr)); break;
        case 20: LIBV(arg_dstr_reset(d)); s.want = ""; s.writable = true; break;
        case 21: { char* p = arg_dstr_cstr(d); size_t h = s.want.size() / 2; std::string x = s.want.substr(h); LIBV(arg_dstr_set(d, p + h, ARG_DSTR_VOLATILE)); s.want = x; s.writable = true; break; }
        case 22: LIBV(arg_dstr_set(d, arg_dstr_cstr(d), ARG_DSTR_VOLATILE)); s.writable = true; break;
        case 23: if (s.writable) { size_t h = s.want.size() / 2; arg_dstr_cstr(d)[h] = 0; s.want.resize(h); } break;
        case 24: LIBV(arg_dstr_set(d, (char*)ro(""), ARG_DSTR_STATIC)); s.want = ""; s.writable = false; break;
        case 25: { std::string x = pat(450, step); char* p = s.custom(x); LIBV(arg_dstr_set(d, p, custom_free)); s.want = x; s.writable = true; break; }
        case 26: LIBV(arg_dstr_free(d)); LIBV(arg_dstr_reset(d)); s.want = ""; s.writable = true; break;
        case 27: LIBV(arg_dstr_free(d)); volat(pat(7, step)); break;
        case 28: owned(""); break;
        case 29: { char* p = s.custom(""); LIBV(arg_dstr_set(d, p, custom_free)); s.want = ""; s.writable = true; break; }
    }
}
static void sequences(std::vector<vf::Space>& S, unsigned len) {
    vf::Space s;
    s.name = strf("sequences%u", len);
    s.n = vf::ipow(NOPS, len);
    s.run = [=](uint64_t i, Case& c) {
        int d[8];
        vf::digits(i, NOPS, len, d);
        DS x;
        for (unsigned k = 0; k < len && !c.failed; k++) { op(x, d[k], (int)k); x.check(c, OPS[d[k]]); c.mix((uint64_t)x.want.size()); }
        c.mix(x.want);
        x.done(c);
    };
    s.desc = [=](uint64_t i) { int d[8]; vf::digits(i, NOPS, len, d); std::string r; for (unsigned k = 0; k < len; k++) r += strf("%s%s", k ? ", " : "", OPS[d[k]]); return r; };
    S.push_back(s);
}
// every length of each way to set or append, after each of several beginnings
static void lengths(std::vector<vf::Space>& S, int dense, int max) {
    auto pt = std::make_shared<std::vector<int>>(vf::points(dense, max));
    pt->insert(pt->begin(), 0);
    static const char* W[] = {"set copied", "set owned", "append", "append formatted %s", "append formatted literal", "append formatted width", "append chars", "set custom, append", "append, truncate, append", "set copied suffix", "append formatted precision"};
    const int NW = 11, NB = 6;
    vf::Space s;
    s.name = "lengths";
    s.n = pt->size() * NW * NB;
    s.run = [=](uint64_t i, Case& c) {
        int b = (int)(i % NB), w = (int)(i / NB % NW), n = (*pt)[i / NB / NW];
        if (w == 6 && n > 9000) return;
        static const int BEG[] = {20, 0, 10, 12, 13, 7};
        DS x;
        op(x, BEG[b], 1);
        std::string t = pat((size_t)n, 5);
        vf::Str v(t);
        arg_dstr_t d = x.d;
        switch (w) {
            case 0: LIBV(arg_dstr_set(d, v.p, ARG_DSTR_VOLATILE)); x.want = t; break;
            case 1: { char* p = vf::lib_strdup(t); LIBV(arg_dstr_set(d, p, ARG_DSTR_DYNAMIC)); x.want = t; break; }
            case 2: LIBV(arg_dstr_cat(d, v.p)); x.want += t; break;
            case 3: LIBV(arg_dstr_catf(d, "<%s>", v.p)); x.want += "<" + t + ">"; break;
            case 4: LIBV(arg_dstr_catf(d, v.p)); x.want += t; break;
            case 5: LIBV(arg_dstr_catf(d, "%*d", n, 7)); x.want += strf("%*d", n, 7); break;
            case 6: for (int k = 0; k < n; k++) { LIBV(arg_dstr_catc(d, t[(size_t)k])); } x.want += t; break;
            case 7: { char* p = x.custom(t); LIBV(arg_dstr_set(d, p, custom_free)); LIBV(arg_dstr_cat(d, "more")); x.want = t + "more"; break; }
            case 8: LIBV(arg_dstr_cat(d, v.p)); x.want += t; if (!x.want.empty()) { x.want.resize(x.want.size() / 3); arg_dstr_cstr(d)[x.want.size()] = 0; } LIBV(arg_dstr_cat(d, v.p)); x.want += t; break;
            case 9: { LIBV(arg_dstr_cat(d, v.p)); x.want += t; size_t h = x.want.size() / 3; std::string r = x.want.substr(h); LIBV(arg_dstr_set(d, arg_dstr_cstr(d) + h, ARG_DSTR_VOLATILE)); x.want = r; break; }
            case 10: LIBV(arg_dstr_catf(d, "%.*s|%5.2f|%x", n / 2, v.p, 1.25, n)); x.want += t.substr(0, (size_t)n / 2) + strf("|%5.2f|%x", 1.25, n); break;
        }
        if (x.check(c, W[w])) { LIBV(arg_dstr_cat(d, "end")); x.want += "end"; x.check(c, "a further append"); }
        c.mix((uint64_t)x.want.size());
        c.mix(w * 10 + b);
        x.done(c);
    };
    s.desc = [=](uint64_t i) { return strf("beginning %d, then %s of length %d, then append", (int)(i % NB), W[i / NB % NW], (*pt)[i / NB / NW]); };
    S.push_back(s);
}
static void pairs(std::vector<vf::Space>& S, uint64_t m) {
    vf::Space s;
    s.name = "append-pairs";
    s.n = m * m * 2;
    s.run = [=](uint64_t i, Case& c) {
        size_t a = (size_t)(i / 2 % m), b = (size_t)(i / 2 / m);
        DS x;
        vf::Str va(pat(a, 1)), vb(pat(b, 2));
        if (i % 2) LIBV(arg_dstr_set(x.d, va.p, ARG_DSTR_VOLATILE)); else LIBV(arg_dstr_cat(x.d, va.p));
        x.want = pat(a, 1);
        LIBV(arg_dstr_cat(x.d, vb.p));
        x.want += pat(b, 2);
        x.check(c, "two appends");
        LIBV(arg_dstr_catc(x.d, '!'));
        x.want += "!";
        x.check(c, "a character");
        c.mix((uint64_t)(a * 1000 + b));
        x.done(c);
    };
    s.desc = [=](uint64_t i) { return strf("%s %d characters, append %d, append a character", i % 2 ? "set" : "append", (int)(i / 2 % m), (int)(i / 2 / m)); };
    S.push_back(s);
}
// every length of the format with every length of the value it expands, after each of two beginnings
static void formats(std::vector<vf::Space>& S, uint64_t mf, uint64_t mv) {
    vf::Space s;
    s.name = "format-lengths";
    s.n = mf * mv * 3;
    s.run = [=](uint64_t i, Case& c) {
        size_t b = (size_t)(i % 3), f = (size_t)(i / 3 % mf), v = (size_t)(i / 3 / mf);
        DS x;
        op(x, b == 0 ? 20 : b == 1 ? 0 : 6, 1);
        std::string lit = pat(f, 3), val = pat(v, 4);
        size_t cut = f / 2;
        vf::Str fmt(lit.substr(0, cut) + "%s" + lit.substr(cut)), vb(val);
        LIBV(arg_dstr_catf(x.d, fmt.p, vb.p));
        x.want += lit.substr(0, cut) + val + lit.substr(cut);
        if (x.check(c, "formatted append")) { LIBV(arg_dstr_catf(x.d, fmt.p, "q")); x.want += lit.substr(0, cut) + "q" + lit.substr(cut); x.check(c, "a second formatted append"); }
        c.mix((uint64_t)(f * 100000 + v * 3 + b));
        x.done(c);
    };
    s.desc = [=](uint64_t i) { return strf("beginning %d, append formatted: %d literal characters around a %%s of %d characters", (int)(i % 3), (int)(i / 3 % mf), (int)(i / 3 / mf)); };
    S.push_back(s);
}
// borrowed text of every length, then each way to append
static void borrowed(std::vector<vf::Space>& S, uint64_t m) {
    const int NA = 6;
    vf::Space s;
    s.name = "borrowed-lengths";
    s.n = m * NA;
    s.run = [=](uint64_t i, Case& c) {
        size_t n = (size_t)(i / NA); int a = (int)(i % NA);
        static char* page = nullptr; static size_t psz = 8192;
        if (!page) page = (char*)mmap(nullptr, psz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        std::string t = pat(n, 9);
        mprotect(page, psz, PROT_READ | PROT_WRITE);
        memcpy(page, t.c_str(), n + 1);
        mprotect(page, psz, PROT_READ);
        DS x;
        LIBV(arg_dstr_set(x.d, page, ARG_DSTR_STATIC)); x.want = t; x.writable = false;
        x.check(c, "setting borrowed text");
        switch (a) {
            case 0: LIBV(arg_dstr_cat(x.d, "ab")); x.want += "ab"; break;
            case 1: { vf::Str v(t); LIBV(arg_dstr_cat(x.d, v.p)); x.want += t; break; }
            case 2: LIBV(arg_dstr_catc(x.d, 'c')); x.want += 'c'; break;
            case 3: LIBV(arg_dstr_catf(x.d, "%d.", (int)n)); x.want += strf("%d.", (int)n); break;
            case 4: LIBV(arg_dstr_cat(x.d, "")); break;
            case 5: { vf::Str v(pat(199, 2)); LIBV(arg_dstr_set(x.d, v.p, ARG_DSTR_VOLATILE)); x.want = pat(199, 2); LIBV(arg_dstr_catc(x.d, 'c')); x.want += 'c'; break; }
        }
        x.check(c, "the append");
        LIBV(arg_dstr_catc(x.d, '!')); x.want += '!';
        x.check(c, "a character");
        if (t != page) c.fail("the borrowed text was changed");
        c.mix((uint64_t)(n * 10 + (size_t)a));
        x.done(c);
    };
    s.desc = [=](uint64_t i) { return strf("borrowed text of %d characters, append variant %d, append a character", (int)(i / NA), (int)(i % NA)); };
    S.push_back(s);
}

// every ordered pair of bytes through each way to set and append
static void bytes(std::vector<vf::Space>& S) {
    static const char* W[] = {"append", "append character by character", "append formatted %s", "append formatted %c", "append as a format", "set copied", "set owned", "set borrowed, append", "set custom, append"};
    const uint64_t NW = 9;
    vf::Space s;
    s.name = "bytes";
    s.n = NW * 255 * 255;
    s.run = [=](uint64_t i, Case& c) {
        char a = (char)(i % 255 + 1), b = (char)(i / 255 % 255 + 1);
        std::string t = {a, b};
        vf::Str v(t);
        DS x;
        if (i / 255 / 255 < 5) op(x, a % 2 ? 1 : 10, 1);
        switch (i / 255 / 255) {
            case 0: LIBV(arg_dstr_cat(x.d, v.p)); x.want += t; break;
            case 1: LIBV(arg_dstr_catc(x.d, a)); LIBV(arg_dstr_catc(x.d, b)); x.want += t; break;
            case 2: LIBV(arg_dstr_catf(x.d, "%s", v.p)); x.want += t; break;
            case 3: LIBV(arg_dstr_catf(x.d, "%c%c", a, b)); x.want += t; break;
            case 4: { std::string f; for (char k : t) { f += k; if (k == '%') f += k; } vf::Str vf_(f); LIBV(arg_dstr_catf(x.d, vf_.p)); x.want += t; break; }
            case 5: LIBV(arg_dstr_set(x.d, v.p, ARG_DSTR_VOLATILE)); x.want = t; break;
            case 6: { char* p = vf::lib_strdup(t); LIBV(arg_dstr_set(x.d, p, ARG_DSTR_DYNAMIC)); x.want = t; break; }
            case 7: LIBV(arg_dstr_set(x.d, v.p, ARG_DSTR_STATIC)); x.want = t; LIBV(arg_dstr_cat(x.d, "-")); x.want += "-"; break;
            case 8: op(x, 7, 2); LIBV(arg_dstr_cat(x.d, v.p)); x.want += t; break;
        }
        x.check(c, "two bytes");
        LIBV(arg_dstr_catc(x.d, b)); x.want += b;
        x.check(c, "another byte");
        c.mix((uint64_t)i);
        x.done(c);
    };
    s.desc = [=](uint64_t i) { return std::string(W[i / 255 / 255]) + strf(" the bytes %d and %d, then append the second again", (int)(i % 255 + 1), (int)(i / 255 % 255 + 1)); };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C14";
    c.rule = "every sequence of the bound length over setting (borrowed, copied, owned, custom-freed, from itself), appending (strings, characters, formatted text) and resetting with lengths around the internal thresholds, and every length up to the bound for each operation after several beginnings; the content is compared with a std::string after each step; outcomes are distinct by the sequence of lengths and the final content";
    c.assumptions = {"a string is not appended to itself and a borrowed string is not one of its own", "formatted text without embedded NUL characters"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        ro("borrowed text"); ro("");
        for (unsigned l = 1; l <= (q ? 4u : 5u); l++) sequences(S, l);
        lengths(S, q ? 900 : 3000, q ? 1 << 18 : 1 << 20);
        pairs(S, q ? 260 : 620);
        formats(S, q ? 130 : 300, q ? 420 : 1400);
        borrowed(S, q ? 1500 : 5000);
        bytes(S);
    };
    return vf::run(c, argc, argv);
}
