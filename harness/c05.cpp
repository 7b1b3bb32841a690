// C05: occurrence counts stay within the declared bounds and storage.
#include "pm.hpp"
using namespace pm;
static const int WHAT = M_TAGGED | M_UNTAGGED | M_ERRS;

static std::string value(int kind, int k, int style) {
    switch (kind) {
        case INT: return style == 2 ? "99999999999" : style == 1 ? "q" : strf("%d", k * 3 - 5);
        case DBL: return style ? "q" : strf("%d.25", k);
        case REX: return style ? "zz" : std::string((size_t)(k % 5) + 1, "abc"[k % 3]);
        case DATE: return style ? "2001-13-40" : strf("%d-%02d-%02d", 1900 + k, k % 12 + 1, k % 28 + 1);
        default: return strf("v%d.x%d", k, k);
    }
}
// kind, how it is given, min, max, occurrences, which one (if any) is malformed
struct G { int kind, form, min, max, n, bad; };
static void one(const G& g, Case& c) {
    Table t;
    static const char* SH[] = {"k", nullptr, "k", nullptr, "k", nullptr};
    static const char* LO[] = {nullptr, "key", "key", nullptr, nullptr, "key"};
    if (g.form >= 3 && g.kind == LIT) return;  // a flag cannot be untagged and has no value
    t.cap = g.n + 10;
    t.e.push_back({(Kind)g.kind, SH[g.form], LO[g.form], g.min, g.max, g.form >= 4});
    std::vector<vf::Str> toks;
    toks.reserve((size_t)g.n * 2 + 2);
    if (g.form == 3) toks.emplace_back("--");
    for (int k = 0; k < g.n; k++) {
        std::string v = value(g.kind, k, k == g.bad ? 1 : 0);
        if (g.kind == LIT) { toks.emplace_back(g.form == 1 || (g.form == 2 && k % 2) ? "--key" : "-k"); continue; }
        if (g.form == 3) toks.emplace_back(v);
        else if (g.form >= 4) toks.emplace_back((g.form == 4 ? "-k" : "--key") + (k % 2 && k != g.bad ? "" : (g.form == 4 ? "" : "=") + v));  // optional values, left out every other time
        else if (g.form == 1 || (g.form == 2 && k % 2)) { if (k % 3) toks.emplace_back("--key=" + v); else { toks.emplace_back("--key"); toks.emplace_back(v); } }
        else { if (k % 3) toks.emplace_back("-k" + v); else { toks.emplace_back("-k"); toks.emplace_back(v); } }
    }
    std::vector<const char*> line;
    for (auto& x : toks) line.push_back(x.p);
    Real R(t);
    check_parse(R, line, false, WHAT, c);
}
static std::string show(const G& g) { return strf("%s entry given as form %d with bounds %d..%d, %d occurrences%s", KN[g.kind], g.form, g.min, g.max, g.n, g.bad >= 0 ? strf(", occurrence %d malformed", g.bad).c_str() : ""); }

static void small(std::vector<vf::Space>& S, int m, int occ) {
    vf::Space s;
    s.name = "bounds";
    uint64_t b = (uint64_t)m + 1, o = (uint64_t)occ + 1;
    s.n = 7 * 6 * b * b * o * (o + 1);
    auto mk = [=](uint64_t i) {
        G g;
        g.bad = (int)(i % (o + 1)) - 1; i /= o + 1;
        g.n = (int)(i % o); i /= o;
        g.max = (int)(i % b); i /= b;
        g.min = (int)(i % b); i /= b;
        g.form = (int)(i % 6); i /= 6;
        g.kind = (int)i;
        return g;
    };
    s.run = [=](uint64_t i, Case& c) { G g = mk(i); if (g.bad < g.n) one(g, c); };
    s.desc = [=](uint64_t i) { return show(mk(i)); };
    S.push_back(s);
}
static void ladder(std::vector<vf::Space>& S, int maxm) {
    vf::Space s;
    s.name = "ladder";
    auto pt = std::make_shared<std::vector<int>>(vf::points(maxm, maxm * 16));
    s.n = 7 * 6 * pt->size() * 4;
    auto mk = [=](uint64_t i) {
        G g;
        int d = (int)(i % 4); i /= 4;
        g.max = (*pt)[i % pt->size()]; i /= pt->size();
        g.n = g.max + d - 1;
        g.min = d == 1 ? g.max : g.max / 2;
        if (d == 3) g.min = g.max, g.n = g.max - 1, g.max = 0;
        g.form = (int)(i % 6); i /= 6;
        g.kind = (int)i;
        g.bad = -1;
        return g;
    };
    s.run = [=](uint64_t i, Case& c) { one(mk(i), c); };
    s.desc = [=](uint64_t i) { return show(mk(i)); };
    S.push_back(s);
}
// bounds beyond the sizes of smaller integer types
static void large(std::vector<vf::Space>& S, bool thorough) {
    auto v = std::make_shared<std::vector<G>>();
    for (int m : thorough ? std::vector<int>{32767, 32768, 40000, 65535, 65536, 65537, 70001, 131073} : std::vector<int>{32768, 40001, 65537, 70001})
        for (int kind = 0; kind < 7; kind++) for (int form = 0; form < 6; form++) for (int d = 0; d < 2; d++) {
            if (kind == LIT && form >= 3) continue;
            if (!thorough && (form == 1 || form == 5)) continue;
            v->push_back({kind, form, d ? m : 0, m, m + d, -1});
        }
    // switches need no storage, and integers little
    for (int k = 16; k < 32; k++)
        for (int d = -1; d <= 2; d++) {
            if (k == 31 && d > -1) break;
            int m = (int)((1u << k) + (unsigned)d);
            for (int n = 0; n < 5; n++)
                for (int mn : {0, 1, 3}) {
                    for (int form = 0; form < 3; form++) v->push_back({LIT, form, mn, m, n, -1});
                    if (k <= 22 && d != 2) v->push_back({INT, 0, mn, m, n, -1});
                }
        }
    vf::Space s;
    s.name = "large-bounds";
    s.n = v->size();
    s.chunk = 1;
    s.run = [=](uint64_t i, Case& c) { one((*v)[i], c); };
    s.desc = [=](uint64_t i) { return show((*v)[i]); };
    S.push_back(s);
}
// interleaved occurrences of two entries of (possibly) different types
static void pairs(std::vector<vf::Space>& S, unsigned len) {
    auto f = std::make_shared<Family>();
    for (int a = 0; a < 7; a++)
        for (int b = 0; b < 7; b++)
            for (int m = 0; m < 9; m++) {
                Table t;
                t.e = {{(Kind)a, "a", nullptr, m % 3, m / 3}, {(Kind)b, "b", nullptr, m / 3, 2}};
                auto good = [](int k) { return std::string(k == REX ? "ab" : k == DATE ? "2001-02-03" : "7"); };
                std::vector<const char*> al = {T(a == LIT ? "-a" : "-a" + good(a)), T(b == LIT ? "-b" : "-b" + good(b))};
                if (a != LIT) al.push_back(T("-a?"));
                f->add(t, al, len);
            }
    S.push_back(family_space("pairs", f, WHAT));
}
// the 0/1/n constructors
template <class F> static void* mk_ctor(int kind, int which, F sh, F lo) {
    switch (kind) {
        case LIT: return which == 0 ? arg_lit0(sh, lo, "g") : which == 1 ? arg_lit1(sh, lo, "g") : arg_litn(sh, lo, 0, 3, "g");
        case INT: return which == 0 ? arg_int0(sh, lo, "D", "g") : which == 1 ? arg_int1(sh, lo, "D", "g") : arg_intn(sh, lo, "D", 0, 3, "g");
        case DBL: return which == 0 ? arg_dbl0(sh, lo, "D", "g") : which == 1 ? arg_dbl1(sh, lo, "D", "g") : arg_dbln(sh, lo, "D", 0, 3, "g");
        case STR: return which == 0 ? arg_str0(sh, lo, "D", "g") : which == 1 ? arg_str1(sh, lo, "D", "g") : arg_strn(sh, lo, "D", 0, 3, "g");
        case REX: return which == 0 ? arg_rex0(sh, lo, "[a-c]+", "D", 0, "g") : which == 1 ? arg_rex1(sh, lo, "[a-c]+", "D", 0, "g") : arg_rexn(sh, lo, "[a-c]+", "D", 0, 3, 0, "g");
        case FIL: return which == 0 ? arg_file0(sh, lo, "D", "g") : which == 1 ? arg_file1(sh, lo, "D", "g") : arg_filen(sh, lo, "D", 0, 3, "g");
        default: return which == 0 ? arg_date0(sh, lo, "%Y-%m-%d", "D", "g") : which == 1 ? arg_date1(sh, lo, "%Y-%m-%d", "D", "g") : arg_daten(sh, lo, "%Y-%m-%d", "D", 0, 3, "g");
    }
}
static void ctors(std::vector<vf::Space>& S) {
    vf::Space s;
    s.name = "constructors";
    s.n = 7 * 3 * 4 * 6;
    auto mk = [](uint64_t i, int& kind, int& which, int& form, int& n) { n = (int)(i % 6); i /= 6; form = (int)(i % 4); i /= 4; which = (int)(i % 3); kind = (int)(i / 3); };
    s.run = [=](uint64_t i, Case& c) {
        int kind, which, form, n;
        mk(i, kind, which, form, n);
        if (kind == LIT && form == 3) return;
        static const char* SH[] = {"k", nullptr, "k", nullptr};
        static const char* LO[] = {nullptr, "key", "key", nullptr};
        Table t;
        t.e.push_back({(Kind)kind, SH[form], LO[form], which == 1 ? 1 : 0, which == 2 ? 3 : 1});
        Real R(t);
        LIBV(arg_freetable(R.at.data(), 1); R.at[0] = mk_ctor(kind, which, SH[form], LO[form]));
        auto* h = (struct arg_hdr*)R.at[0];
        if (h->mincount != t.e[0].min || h->maxcount != t.e[0].max) c.fail(strf("constructor bounds %d..%d, expected %d..%d", h->mincount, h->maxcount, t.e[0].min, t.e[0].max));
        auto same = [](const char* a, const char* b) { return (!a && !b) || (a && b && !strcmp(a, b)); };
        if (!same(h->shortopts, SH[form]) || !same(h->longopts, LO[form]) || !same(h->glossary, "g")) c.fail("constructor did not keep the spellings and description");
        if (kind != LIT && !same(h->datatype, "D")) c.fail("constructor did not keep the value name");
        if (R.count(0)) c.fail(strf("count is %d before any parse", R.count(0)));
        std::vector<vf::Str> toks;
        toks.reserve(20);
        for (int k = 0; k < n; k++) {
            std::string v = kind == REX ? "ab" : kind == DATE ? "2001-02-03" : strf("%d", k);
            if (form != 3) { toks.emplace_back(form == 1 ? "--key" : "-k"); if (kind != LIT) toks.emplace_back(v); }
            else toks.emplace_back(v);
        }
        std::vector<const char*> line;
        for (auto& x : toks) line.push_back(x.p);
        check_parse(R, line, false, WHAT, c);
    };
    s.desc = [=](uint64_t i) { int kind, which, form, n; mk(i, kind, which, form, n); return strf("arg_%s%c form %d, %d occurrences", KN[kind], "01n"[which], form, n); };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C05";
    c.rule = "every type, spelling form, pair of bounds and number of occurrences within the bound, with each single occurrence malformed or none; every interleaving of two entries up to the bound; every 0/1/n constructor; outcomes are distinct by return value, counts, values and error records";
    c.assumptions = {"the reference model in harness/pm.hpp", "bounds of 0 or more", "writes outside an entry's allocation are trapped by AddressSanitizer"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        small(S, q ? 5 : 8, q ? 8 : 12);
        ladder(S, q ? 260 : 520);
        large(S, !q);
        pairs(S, q ? 6 : 8);
        ctors(S);
    };
    return vf::run(c, argc, argv);
}
