// C18: usage lines show every entry with its spelling, value and multiplicity.
#include "rd.hpp"
using namespace rd;

static const char* SUF[] = {"\n", nullptr, "", " tail %s %d\n", nullptr};
static string g_longsuf(300, 's');
static const int NSUF = 5;
static const char* suf(int i) { return i == 4 ? g_longsuf.c_str() : SUF[i]; }

static void check_table(Case& c, const Table& t, const char* sx) {
    pm::Real R(t);
    string got, want;
    if (both(c, got, [&](FILE* f) { arg_print_syntax(f, R.at.data(), sx); }, [&](arg_dstr_t d) { arg_print_syntax_ds(d, R.at.data(), sx); })) {
        want = syntax(t, sx);
        c.mix(got);
        if (got != want) c.fail("brief usage line " + quote(got) + ", expected " + quote(want));
    }
    if (!c.failed && both(c, got, [&](FILE* f) { arg_print_syntaxv(f, R.at.data(), sx); }, [&](arg_dstr_t d) { arg_print_syntaxv_ds(d, R.at.data(), sx); })) {
        want = syntaxv(t, sx);
        c.mix(got);
        if (got != want) c.fail("verbose usage line " + quote(got) + ", expected " + quote(want));
    }
}
// catalogue of entries
static std::vector<Entry> shapes(int level) {
    std::vector<Entry> r;
    std::vector<const char*> sh, lo, dt;
    std::vector<std::pair<int, int>> mm;
    std::vector<pm::Kind> kinds;
    if (level == 0) {
        sh = {nullptr, "a", "ab", "xyz"}; lo = {nullptr, "alpha", "alpha,beta", "x,yy,zzz"}; dt = {nullptr, "<v>", "N%s", ""};
        mm = {{0, 0}, {0, 1}, {1, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {1, 4}, {2, 2}, {2, 5}, {3, 1}, {0, 100}, {4, 4}, {3, 6}};
        kinds = {pm::LIT, pm::INT, pm::DBL, pm::STR, pm::REX, pm::FIL, pm::DATE};
    } else if (level == 1) {
        sh = {nullptr, "a", "bc"}; lo = {nullptr, "alpha,beta"}; dt = {nullptr};
        mm = {{0, 1}, {1, 1}, {1, 3}, {0, 2}, {0, 5}};
        kinds = {pm::LIT, pm::INT, pm::STR};
    } else if (level == 2) {
        sh = {nullptr, "a"}; lo = {nullptr, "alpha"}; dt = {nullptr};
        mm = {{0, 1}, {1, 1}, {1, 2}};
        kinds = {pm::LIT, pm::STR};
    } else {
        sh = {nullptr, "a"}; lo = {nullptr, "alpha"}; dt = {nullptr};
        mm = {{0, 1}, {1, 1}};
        kinds = {pm::LIT, pm::INT};
    }
    for (auto k : kinds) for (auto s : sh) for (auto l : lo) for (auto d : dt) for (auto m : mm) for (int o = 0; o < 2; o++) {
        if (k == pm::LIT && (d || o || (!s && !l))) continue;
        if (level >= 1 && o && (k != pm::INT || m.first)) continue;
        static const char* GL[] = {"some text", nullptr, ""};
        for (int g = 0; g < (level ? 1 : 3); g++) r.push_back({k, s, l, m.first, m.second, o == 1, d, GL[level ? r.size() % 3 : (size_t)g]});
    }
    for (const char* d : {"text", (const char*)nullptr, ""}) { if (level > 1 && !(d && *d)) continue; for (const char* g : {"more", (const char*)nullptr, ""}) r.push_back({pm::REM, nullptr, nullptr, 0, 0, false, d, g}); }
    return r;
}
static void tables(std::vector<vf::Space>& S, int level, unsigned n) {
    auto sh = std::make_shared<std::vector<Entry>>(shapes(level));
    vf::Space s;
    uint64_t b = sh->size();
    int ns = n == 1 ? NSUF : 1;
    s.name = strf("tables-%u-of-%d", n, (int)b);
    s.n = vf::ipow(b, n) * (uint64_t)ns;
    auto mk = [=](uint64_t i) {
        Table t;
        t.cap = 3;
        int d[8];
        vf::digits(i / (uint64_t)ns, b, n, d);
        for (unsigned k = 0; k < n; k++) {
            Entry e = (*sh)[(size_t)d[k]];
            // distinct letters by position
            static const char* A[][5] = {{"a", "b", "c", "d", "k"}, {"bc", "ef", "gh", "ij", "lm"}};
            if (n > 1 && e.sh) e.sh = A[e.sh[1] ? 1 : 0][k];
            t.e.push_back(e);
        }
        return t;
    };
    s.run = [=](uint64_t i, Case& c) { Table t = mk(i); check_table(c, t, suf((int)(i % (uint64_t)ns))); };
    s.desc = [=](uint64_t i) { return pm::show(mk(i)) + " suffix " + quote(suf((int)(i % (uint64_t)ns))); };
    S.push_back(s);
}
// every pair of bounds up to the limit, for each kind of spelling and for values that are required, optional or absent
static void bounds(std::vector<vf::Space>& S, int maxmin, int maxmax) {
    static const char* SH[] = {nullptr, "a", "ab"};
    static const char* LO[] = {nullptr, "alpha", "alpha,beta"};
    vf::Space s;
    s.name = "bounds";
    s.n = (uint64_t)(maxmin + 1) * (uint64_t)(maxmax + 1) * 9 * 4 * 2;
    auto mk = [=](uint64_t i) {
        Table t;
        t.cap = 2;
        int k = (int)(i / 2 % 4), w = (int)(i / 8 % 9), mn = (int)(i / 72 % (uint64_t)(maxmin + 1)), mx = (int)(i / 72 / (uint64_t)(maxmin + 1));
        Entry e{k == 0 ? pm::LIT : k == 1 ? pm::STR : k == 2 ? pm::INT : pm::FIL, SH[w % 3], LO[w / 3], mn, mx, k == 2, k == 3 ? "F" : nullptr, nullptr};
        if (k == 0 && w == 0) e.sh = "z";
        if (i % 2) t.e.push_back({pm::INT, "n", nullptr, 1, 1, false, nullptr, nullptr});
        t.e.push_back(e);
        if (i % 2) t.e.push_back({pm::STR, nullptr, nullptr, 0, 2, false, nullptr, nullptr});
        return t;
    };
    s.run = [=](uint64_t i, Case& c) { Table t = mk(i); check_table(c, t, "\n"); };
    s.desc = [=](uint64_t i) { return pm::show(mk(i)); };
    S.push_back(s);
}
// large minimum and maximum counts
static void large_bounds(std::vector<vf::Space>& S, int dense, int max) {
    static const int D[] = {0, 1, 2, 3, 1000};
    auto pt = std::make_shared<std::vector<int>>(vf::points(dense, max));
    vf::Space s;
    s.name = "large-bounds";
    // a small minimum and a maximum far away, too
    static const int FAR[] = {32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 65538, 65539, 131072, 131073};
    const uint64_t nn = pt->size() * 5 * 6;
    static const int HUGE_[] = {1 << 20, 1 << 22, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 2, 1 << 28, 1 << 30, INT_MAX - 1, INT_MAX};
    const uint64_t nf = nn + 13 * 3 * 6;
    s.n = nf + 10 * 3 * 2;  // the last ones with switches, which need no storage
    auto mk = [=](uint64_t i) {
        Table t;
        t.cap = 2;
        int w = (int)(i % 6), mn, mx;
        if (i < nn) {
            mn = (*pt)[i / 30]; mx = mn + D[i / 6 % 5];
            if (i % 5 == 3) { mx = mn; mn = 0; }
        } else if (i < nf) {
            mn = (int)(i / 6 % 3); mx = FAR[(i - nn) / 18];
        } else {
            w = (int)(i % 2); mn = (int)(i / 2 % 3); mx = HUGE_[(i - nf) / 6];
        }
        Entry e{w < 2 ? pm::LIT : w == 2 ? pm::INT : w == 3 ? pm::STR : w == 4 ? pm::FIL : pm::REX, w == 1 || w == 4 ? nullptr : "a", w == 0 || w == 4 ? nullptr : "alpha", mn, mx, false, nullptr, nullptr};
        t.e = {{pm::INT, "n", nullptr, 1, 1, false, nullptr, nullptr}, e, {pm::LIT, "z", nullptr, 0, 1, false, nullptr, nullptr}};
        return t;
    };
    s.run = [=](uint64_t i, Case& c) { Table t = mk(i); check_table(c, t, "\n"); };
    s.desc = [=](uint64_t i) { return pm::show(mk(i)); };
    S.push_back(s);
}
// many entries of each kind
static void many(std::vector<vf::Space>& S, int dense, int max) {
    auto pt = std::make_shared<std::vector<int>>(vf::points(dense, max));
    auto sh = std::make_shared<std::vector<Entry>>(shapes(3));
    vf::Space s;
    s.name = "many-entries";
    s.n = pt->size() * sh->size() * 3;
    auto mk = [=](uint64_t i) {
        Table t;
        t.cap = 1;
        size_t base = (size_t)(i / 3 % sh->size());
        unsigned n = (unsigned)(*pt)[i / 3 / sh->size()];
        for (unsigned k = 0; k < n; k++) {
            Entry e = (*sh)[(base + k * (size_t)(i % 3)) % sh->size()];
            static std::vector<string> names;
            if (names.empty()) for (int q = 0; q < 62; q++) names.push_back(string(1, q < 26 ? (char)('a' + q) : q < 52 ? (char)('A' + q - 26) : (char)('0' + q - 52)));
            if (e.sh) e.sh = names[k % 62].c_str();
            t.e.push_back(e);
        }
        return t;
    };
    s.run = [=](uint64_t i, Case& c) { Table t = mk(i); check_table(c, t, "\n"); };
    s.desc = [=](uint64_t i) { return pm::show(mk(i)); };
    S.push_back(s);
}
// texts of every length for each part of an entry; neighbours must be intact
static void lengths(std::vector<vf::Space>& S, int dense, int max) {
    auto pt = std::make_shared<std::vector<int>>(vf::points(dense, max));
    pt->insert(pt->begin(), 0);
    static const char* W[] = {"value name of a short option", "value name of a long option", "value name of an operand", "one long name", "two long names", "two long names and a value", "long names of 7", "short letters", "short letters and a value", "optional value name", "documentation entry"};
    const int NW = 11;
    vf::Space s;
    s.name = "lengths";
    s.n = pt->size() * NW * 3;
    struct L { string sh, lo, dt; Table t; int mult; size_t k; };
    auto mk = [=](uint64_t i, L& x) {
        x.mult = (int)(i % 3);
        int w = (int)(i / 3 % NW);
        size_t n = (size_t)(*pt)[i / 3 / NW];
        string a;
        for (size_t k = 0; k < n; k++) a += (char)('a' + k % 26);
        Entry e{pm::STR, nullptr, nullptr, x.mult == 1 ? 1 : 0, x.mult == 2 ? 4 : 1, false, "V", "g"};
        auto sh = [&](const string& s) { x.sh = s; e.sh = x.sh.c_str(); };
        auto lo = [&](const string& s) { x.lo = s; e.lo = x.lo.c_str(); };
        auto dt = [&](const string& s) { x.dt = s; e.dt = x.dt.c_str(); };
        string letters;
        for (size_t k = 0; k < n && k < 120; k++) letters += (char)(33 + k % 90);
        for (auto& ch : letters) if (ch == ':' || ch == '?' || ch == ';' || ch == '-') ch = '_';
        if (letters.empty()) letters = "a";
        if (a.empty() && w >= 3 && w <= 6) a = "a";
        switch (w) {
            case 0: sh("q"); dt(a); break;
            case 1: lo("q"); dt(a); break;
            case 2: dt(a); break;
            case 3: lo(a); e.kind = pm::LIT; break;
            case 4: lo(a + ",b" + a); e.kind = pm::LIT; break;
            case 5: lo(a + ",second"); dt("VALUE"); break;
            case 6: { string r; for (size_t k = 0; k + 7 <= a.size(); k += 7) r += (k ? "," : "") + a.substr(k, 7); lo(r.empty() ? a : r); dt("VALUE"); break; }
            case 7: sh(letters); e.kind = pm::LIT; break;
            case 8: sh(letters); lo("tail"); dt("VALUE"); break;
            case 9: sh("q"); lo("quick"); dt(a); e.opt = true; break;
            case 10: e.kind = pm::REM; dt(a); break;
        }
        x.t.cap = 1;
        x.t.e = {{pm::INT, "1", "first", 1, 1, false, nullptr, "g"}, e, {pm::INT, "2", "last", 0, 1, false, nullptr, "g"}};
        x.k = 1;
    };
    s.run = [=](uint64_t i, Case& c) {
        auto x = std::make_unique<L>();
        mk(i, *x);
        const Entry& e = x->t.e[1];
        pm::Real R(x->t);
        string got;
        int mn = minc(e), mx = maxc(e);
        auto verify = [&](const char* what, const string& item, const string& first, const string& last, bool shown) {
            string pre = first, post = last;
            if (!shown) { if (got != pre + post) c.fail(strf("%s usage line ", what) + quote(got)); return; }
            if (item.empty() && e.kind == pm::REM) { string z = strcmp(what, "brief") ? " " : ""; if (got != pre + z + post) c.fail(strf("%s usage line ", what) + quote(got)); return; }
            if (item.size() <= LIMIT) { if (got != pre + (item.empty() && !strcmp(what, "brief") ? "" : repeated(item, mn, mx)) + post) c.fail(strf("%s usage line ", what) + quote(got) + ", expected " + quote(pre + repeated(item, mn, mx) + post)); return; }
            bool ok = mn == 1 ? cut_ok(got, pre + " ", item, post) : cut_ok(got, pre + " [", item, (mx - mn == 1 ? "]" : "]...") + post);
            if (!ok) c.fail(strf("%s usage line with an overlong entry: ", what) + quote(got));
        };
        if (both(c, got, [&](FILE* f) { arg_print_syntax(f, R.at.data(), "\n"); }, [&](arg_dstr_t d) { arg_print_syntax_ds(d, R.at.data(), "\n"); })) {
            bool grp = e.sh && !e.hasval();
            string g = grp ? (mn ? string(" -") + e.sh[0] : string(" [-") + e.sh[0] + "]") : "";
            verify("brief", brief_option(e), g + " -1 <int>", " [-2 <int>]\n", !grp);
            c.mix(got);
        }
        if (!c.failed && both(c, got, [&](FILE* f) { arg_print_syntaxv(f, R.at.data(), "\n"); }, [&](arg_dstr_t d) { arg_print_syntaxv_ds(d, R.at.data(), "\n"); })) {
            verify("verbose", full_option(e, "|"), " -1|--first=<int>", " [-2|--last=<int>]\n", true);
            c.mix(got);
        }
        if (!c.failed) {
            const char* dt = value_name(e);
            both(c, got, [&](FILE* f) { arg_print_option(f, e.sh, e.lo, dt, "+"); }, [&](arg_dstr_t d) { arg_print_option_ds(d, e.sh, e.lo, dt, "+"); });
            if (!cut_ok(got, "", option(e.sh, e.lo, dt, false, "|"), "+")) c.fail("rendering of one option: " + quote(got));
        }
    };
    s.desc = [=](uint64_t i) { return strf("%s of length %d, variant %d", W[i / 3 % NW], (*pt)[i / 3 / NW], (int)(i % 3)); };
    S.push_back(s);
}
// rendering of a single option
static void single(std::vector<vf::Space>& S) {
    static const char* SH[] = {nullptr, "a", "ab", "abcdefgh", "-", "%"};
    static const char* LO[] = {nullptr, "alpha", "alpha,beta", "a,b,c,d,e", "x%s", "no-value"};
    static const char* DT[] = {nullptr, "", "<int>", "%d", "a b"};
    static const char* SU[] = {nullptr, "", "\n", "+", "%s%n", " and a longer suffix that goes on"};
    vf::Space s;
    s.name = "single-options";
    s.n = 6 * 6 * 5 * 6;
    s.run = [](uint64_t i, Case& c) {
        const char *sh = SH[i % 6], *lo = LO[i / 6 % 6], *dt = DT[i / 36 % 5], *su = SU[i / 180];
        string got;
        if (!both(c, got, [&](FILE* f) { arg_print_option(f, sh, lo, dt, su); }, [&](arg_dstr_t d) { arg_print_option_ds(d, sh, lo, dt, su); })) return;
        c.mix(got);
        string want = option(sh, lo, dt, false, "|") + (su ? su : "");
        if (got != want) c.fail("rendering of one option: " + quote(got) + ", expected " + quote(want));
    };
    s.desc = [](uint64_t i) { return "option " + quote(SH[i % 6]) + " " + quote(LO[i / 6 % 6]) + " value " + quote(DT[i / 36 % 5]) + " suffix " + quote(SU[i / 180]); };
    S.push_back(s);
}

// every byte, every pair of unusual characters and a ladder of lengths as suffix
static void suffixes(std::vector<vf::Space>& S, int max) {
    static const char* const ODD[] = {"%", "s", "n", "\n", "\\", " ", "a", "\xff", "[", "]", "|", "-", "\t", "0"};
    auto v = std::make_shared<std::vector<string>>();
    for (int b = 1; b < 256; b++) { v->push_back(string(1, (char)b)); v->push_back(string("x") + (char)b + "y"); }
    for (auto a : ODD) for (auto b : ODD) { v->push_back(string(a) + b); v->push_back(string(a) + b + "z\n"); }
    for (int n : vf::points(300, max)) v->push_back(string((size_t)n, 's'));
    vf::Space s;
    s.name = "suffixes";
    s.n = v->size() * 4;
    auto mk = [](uint64_t i) {
        Table t;
        t.cap = 1;
        if (i & 1) t.e.push_back({pm::LIT, "a", "alpha", 0, 1, false, nullptr, "g"});
        if (i & 2) { t.e.push_back({pm::INT, "n", nullptr, 1, 3, false, nullptr, nullptr}); t.e.push_back({pm::STR, nullptr, nullptr, 0, 2, false, "x", nullptr}); }
        return t;
    };
    s.run = [=](uint64_t i, Case& c) { Table t = mk(i % 4); vf::Str x((*v)[i / 4]); check_table(c, t, x.p); };
    s.desc = [=](uint64_t i) { return pm::show(mk(i % 4)) + " suffix " + quote((*v)[i / 4]); };
    S.push_back(s);
}
// every byte in each part of an entry
static void bytes(std::vector<vf::Space>& S) {
    vf::Space s;
    s.name = "bytes";
    s.n = 255 * 3 * 9;
    struct X { string sh, lo, dt; Table t; };
    auto mk = [](uint64_t i, X& x) {
        char b = (char)(i / 27 + 1);
        int w = (int)(i % 9), pos = (int)(i / 9 % 3);
        string one = pos == 0 ? string(1, b) : pos == 1 ? string(1, b) + "x" : string("x") + b;
        Entry e{pm::STR, nullptr, nullptr, 0, 1, false, "V", "g"};
        auto sh = [&](const string& s) { x.sh = s; e.sh = x.sh.c_str(); };
        auto lo = [&](string s) { for (auto& q : s) if (q == ',') q = ';'; x.lo = s; e.lo = x.lo.c_str(); };
        auto dt = [&](const string& s) { x.dt = s; e.dt = x.dt.c_str(); };
        switch (w) {
            case 0: sh(one); break;
            case 1: sh(one); e.kind = pm::LIT; break;
            case 2: lo(one); break;
            case 3: lo(one); e.kind = pm::LIT; break;
            case 4: dt(one); break;
            case 5: sh("k"); dt(one); e.opt = true; break;
            case 6: sh(one); lo(one); dt(one); e.min = 1; break;
            case 7: e.kind = pm::REM; dt(one); break;
            case 8: sh(one); e.kind = pm::LIT; e.min = 1; break;
        }
        x.t.cap = 1;
        x.t.e = {{pm::INT, "1", "first", 1, 1, false, nullptr, "g"}, e, {pm::LIT, "2", nullptr, 0, 1, false, nullptr, "g"}};
    };
    s.run = [=](uint64_t i, Case& c) { auto x = std::make_unique<X>(); mk(i, *x); check_table(c, x->t, "\n"); };
    s.desc = [=](uint64_t i) { auto x = std::make_unique<X>(); mk(i, *x); return pm::show(x->t); };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C18";
    c.rule = "every table of one entry over the full catalogue of kinds, spellings, value names, optional values and multiplicities with five suffixes, every table of two, three (and four) entries over reduced catalogues, every pair of bounds up to the limits with every kind of spelling, every number of entries up to the bound, every length of each part of an entry, every byte in each part, suffixes of every byte and length, single options with every combination of absent and given parts; both usage lines, to a stream and appended to a dynamic string, are compared with the model's text; outcomes are distinct by the printed text";
    c.assumptions = {"short option lists are non-empty and long option names are not empty", "renderings longer than 198 characters may be cut at 190 to 199 characters"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        tables(S, 0, 1);
        tables(S, 1, 2);
        tables(S, 1, 3);
        tables(S, 2, 4);
        if (!q) tables(S, 2, 5);
        bounds(S, q ? 7 : 12, q ? 12 : 30);
        many(S, q ? 70 : 150, q ? 512 : 2048);
        large_bounds(S, q ? 280 : 520, 1024);
        single(S);
        suffixes(S, q ? 4096 : 65536);
        bytes(S);
        lengths(S, q ? 420 : 1200, q ? 8192 : 65536);
    };
    return vf::run(c, argc, argv);
}
