// C02: operands keep their order and go to the untagged entries left to right.
#include "pm.hpp"
using namespace pm;
static const int WHAT = M_UNTAGGED | M_TAGGED | M_RET0;

static void mixes(std::vector<vf::Space>& S, unsigned len, bool posix) {
    auto f = std::make_shared<Family>();
    std::vector<Entry> U = {{INT, nullptr, nullptr, 0, 2}, {STR, nullptr, nullptr, 0, 2}, {DBL, nullptr, nullptr, 0, 1}, {REX, nullptr, nullptr, 0, 2}, {FIL, nullptr, nullptr, 0, 3}, {DATE, nullptr, nullptr, 0, 2}, {REM, nullptr, nullptr, 0, 1}, {LIT, nullptr, nullptr, 0, 1}};
    std::vector<const char*> al = TS({"-a", "-v", "--val=3", "1", "x", "ab", "-", "--", "-5"});
    for (size_t n = 0; n <= 3; n++) {
        for (uint64_t i = 0; i < vf::ipow(7, (unsigned)n); i++) {
            int d[3];
            vf::digits(i, 7, n, d);
            Table t;
            for (size_t k = 0; k < n; k++) {
                t.e.push_back(U[(size_t)d[k]]);
                if (k == 0) t.e.push_back({LIT, "a", nullptr, 0, 9});
            }
            if (!n) t.e.push_back({LIT, "a", nullptr, 0, 9});
            t.e.push_back({INT, "v", "val", 0, 9});
            f->add(t, al, n == 3 ? len - 1 : len);
        }
    }
    S.push_back(family_space(posix ? "types-posix" : "types", f, WHAT, posix));
}
// all arrangements of options, options with values and operands
static void orders(std::vector<vf::Space>& S, unsigned len, bool posix) {
    auto f = std::make_shared<Family>();
    std::vector<const char*> al = TS({"-a", "-v", "--val", "--val=y", "p", "q", "-", "--"});
    Table t;
    t.e = {{LIT, "a", "aa", 0, 20}, {STR, "v", "val", 0, 20}, {STR, nullptr, nullptr, 0, 20}};
    f->add(t, al, len);
    Table u;
    u.e = {{STR, nullptr, nullptr, 0, 1}, {STR, "v", "val", 0, 20}, {FIL, nullptr, nullptr, 0, 1}, {LIT, "a", "aa", 0, 20}, {STR, nullptr, nullptr, 1, 3}};
    f->add(u, al, len);
    S.push_back(family_space(posix ? "orders-posix" : "orders", f, posix ? WHAT | M_PAST : WHAT, posix));
}
// blocks of operands and options of growing lengths: the permutation that getopt performs
struct Blocks { unsigned nb, maxl; };
static void blocks(std::vector<vf::Space>& S, unsigned nb, unsigned maxl, const char* name, bool posix) {
    auto line = [=](uint64_t i, std::vector<vf::Str>& toks) {
        int d[8];
        vf::digits(i / 2, maxl + 1, nb, d);
        int kind = (int)(i % 2), no = 0, nv = 0;
        for (unsigned b = 0; b < nb; b++)
            for (int k = 0; k < d[b]; k++) {
                if ((int)(b % 2) == kind) toks.emplace_back(strf("p%d", no++));
                else if ((k + (int)b) % 2) toks.emplace_back("-a");
                else { toks.emplace_back("-v"); toks.emplace_back(strf("w%d", nv++)); }
            }
    };
    auto t = std::make_shared<Table>();
    t->e = {{LIT, "a", nullptr, 0, 400}, {STR, "v", nullptr, 0, 400}, {STR, nullptr, nullptr, 0, 400}};
    vf::Space s;
    s.name = name;
    s.n = vf::ipow(maxl + 1, nb) * 2;
    s.run = [=](uint64_t i, Case& c) {
        std::vector<vf::Str> toks;
        toks.reserve(8 * maxl * 2 + 4);
        line(i, toks);
        std::vector<const char*> l;
        for (auto& x : toks) l.push_back(x.p);
        Real R(*t);
        check_parse(R, l, posix ? 1 + (int)(i % 6) : 0, WHAT, c);
    };
    s.desc = [=](uint64_t i) {
        std::vector<vf::Str> toks;
        toks.reserve(8 * maxl * 2 + 4);
        line(i, toks);
        std::string r = show(*t) + " prog";
        for (auto& x : toks) r += std::string(" ") + x.p;
        return r;
    };
    S.push_back(s);
}
// distribution over untagged entries by capacity and acceptance
static void distribution(std::vector<vf::Space>& S, unsigned len) {
    auto f = std::make_shared<Family>();
    std::vector<const char*> al = TS({"1", "x", "2.5", "ab", "2001-02-03"});
    Kind K[] = {INT, STR, DBL, REX, DATE};
    for (uint64_t i = 0; i < vf::ipow(10, 3); i++) {
        int d[3];
        vf::digits(i, 10, 3, d);
        Table t;
        for (int k = 0; k < 3; k++) t.e.push_back({K[d[k] / 2], nullptr, nullptr, 0, 1 + d[k] % 2});
        f->add(t, al, len);
    }
    S.push_back(family_space("distribution", f, WHAT));
}

// long lines: n operands among options in several arrangements
static void scale(std::vector<vf::Space>& S, int dense, int max, bool posix) {
    const unsigned NM = 11;
    auto pt = std::make_shared<std::vector<int>>(vf::points(dense, max));
    auto mk = [=](uint64_t i) {
        unsigned m = (unsigned)(i % NM);
        int n = (*pt)[i / NM];
        std::vector<std::string> l;
        auto op = [&](int k) { l.push_back(m == 5 && k < n / 2 ? strf("%d", k) : strf("op%d", k)); };
        auto opt = [&](int k) { if (k % 3 == 0) l.push_back("-a"); else if (k % 3 == 1) { l.push_back("-v"); l.push_back(strf("val%d", k)); } else l.push_back(strf("-vatt%d", k)); };
        switch (m) {
            case 0: for (int k = 0; k < n; k++) op(k); opt(1); break;
            case 1: opt(1); for (int k = 0; k < n; k++) op(k); break;
            case 2: for (int k = 0; k < n; k++) { op(k); opt(k); } break;
            case 3: for (int k = 0; k < n; k++) { op(2 * k); op(2 * k + 1); opt(k); opt(k + 1); opt(k + 2); } break;
            case 4: op(0); for (int k = 0; k < n; k++) opt(k); op(1); break;
            case 5: for (int k = 0; k < n; k++) op(k); break;
            case 6: op(0); opt(0); l.push_back("--"); for (int k = 0; k < n; k++) { op(k); opt(k); } break;
            case 8: for (int k = 0; k < n; k++) op(k); for (int k = 0; k < n; k++) l.push_back("-a"); break;
            case 9: for (int k = 0; k < 2 * n; k++) op(k); for (int k = 0; k < n; k++) l.push_back("-a"); op(2 * n); l.push_back("-a"); break;
            case 10: for (int k = 0; k < n; k++) op(k); for (int k = 0; k < 3 * n; k++) l.push_back(k % 3 ? "-a" : "-vx"); break;
            case 7: for (int k = 0; k < n; k++) { if (k % 4 == 3) l.push_back("-"); else op(k); if (k == n / 2) l.push_back("--"); if (k % 7 == 0) opt(k); } break;
        }
        return l;
    };
    vf::Space s;
    s.name = posix ? "scale-posix" : "scale";
    s.n = pt->size() * NM;
    s.run = [=](uint64_t i, Case& c) {
        std::vector<std::string> l = mk(i);
        std::vector<vf::Str> toks;
        toks.reserve(l.size());
        std::vector<const char*> line;
        for (auto& x : l) { toks.emplace_back(x); line.push_back(toks.back().p); }
        Table t;
        int n = (int)l.size() + 2;
        t.e = {{LIT, "a", nullptr, 0, n}, {INT, nullptr, nullptr, 0, n}, {STR, "v", nullptr, 0, n}, {STR, nullptr, nullptr, 0, i / NM % 3 ? n : n / 2}, {FIL, nullptr, nullptr, 0, n}};
        Real R(t);
        check_parse(R, line, posix ? 1 + (int)(i % 6) : 0, WHAT, c);
    };
    s.desc = [=](uint64_t i) { return strf("arrangement %d with %d operands or options%s", (int)(i % NM), (*pt)[i / NM], posix ? " with POSIXLY_CORRECT" : ""); };
    S.push_back(s);
}

// tables of n untagged entries: the operands pass over entries that refuse them or are full
static void many(std::vector<vf::Space>& S, int dense, int max) {
    const unsigned NM = 8;
    auto pt = std::make_shared<std::vector<int>>(vf::points(dense, max));
    auto mk = [=](uint64_t i, std::vector<std::string>& l) {
        unsigned m = (unsigned)(i % NM);
        int n = (*pt)[i / NM];
        Table t;
        Entry in{INT, nullptr, nullptr, 0, 1}, st{STR, nullptr, nullptr, 0, 1}, db{DBL, nullptr, nullptr, 0, 1}, fi{FIL, nullptr, nullptr, 0, 2};
        for (int k = 0; k < n; k++) switch (m) {
            case 0: t.e.push_back(k + 1 < n ? in : st); break;                     // refused by all but the last
            case 1: t.e.push_back(in); break;                                      // one for each
            case 2: t.e.push_back(st); if (k % 2) t.e.push_back({LIT, nullptr, "none", 0, 1}); break;
            case 3: t.e.push_back(k % 3 == 0 ? in : k % 3 == 1 ? st : db); break;  // passing over refusing ones
            case 4: t.e.push_back(k % 2 ? fi : db); break;
            case 5: t.e.push_back(k < n / 2 ? in : k + 1 < n ? db : fi); break;
            case 6: t.e.push_back(k + 1 < n ? in : st); break;                     // half of them full
            case 7: t.e.push_back(in); break;                                      // refused by all
        }
        auto num = [&](int k) { l.push_back(strf("%d", k + 1)); };
        switch (m) {
            case 0: l.push_back("word"); l.push_back("7"); break;
            case 1: for (int k = 0; k <= n; k++) num(k); break;
            case 2: for (int k = 0; k < n; k++) l.push_back(strf("w%d", k)); break;
            case 3: for (int k = 0; k < n; k++) if (k % 2) num(k); else l.push_back(k % 4 ? "2.5" : strf("w%d", k)); break;
            case 4: for (int k = 0; k < n; k++) if (k % 3) num(k); else l.push_back(strf("w%d", k)); break;
            case 5: l.push_back("1.5"); l.push_back("3"); l.push_back("word"); l.push_back("2"); break;
            case 6: for (int k = 0; k < n / 2; k++) num(k); l.push_back("word"); num(n); break;
            case 7: l.push_back("word"); num(0); break;
        }
        return t;
    };
    vf::Space s;
    s.name = "many-entries";
    s.n = pt->size() * NM;
    s.run = [=](uint64_t i, Case& c) {
        std::vector<std::string> l;
        Table t = mk(i, l);
        std::vector<vf::Str> toks;
        toks.reserve(l.size());
        std::vector<const char*> line;
        for (auto& x : l) { toks.emplace_back(x); line.push_back(toks.back().p); }
        t.cap = 20;
        Real R(t);
        check_parse(R, line, 0, WHAT | M_ERRS, c);
    };
    s.desc = [=](uint64_t i) { return strf("arrangement %d of %d untagged entries", (int)(i % NM), (*pt)[i / NM]); };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C02";
    c.rule = "every table of the listed families with every line of up to the bound of tokens (options, option values, operands, '-', '--'), with and without POSIXLY_CORRECT, tables of up to the bound of untagged entries with operands that pass over some of them, and every sequence of operand and option blocks up to the bound lengths; outcomes are distinct by return value, counts, values and error records";
    c.assumptions = {"the reference model of operand handling in harness/pm.hpp", "lines beyond the small spaces are in eleven arrangements of growing length"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        for (int p = 0; p < 2; p++) {
            mixes(S, q ? 4 : 5, p);
            orders(S, q ? 6 : 7, p);
            blocks(S, 5, q ? 6 : 8, p ? "blocks5-posix" : "blocks5", p);
            blocks(S, 2, q ? 60 : 100, p ? "blocks2-posix" : "blocks2", p);
            blocks(S, 3, q ? 20 : 40, p ? "blocks3-posix" : "blocks3", p);
        }
        scale(S, q ? 200 : 600, q ? 2048 : 8192, false);
        scale(S, q ? 200 : 600, q ? 2048 : 8192, true);
        many(S, q ? 100 : 200, q ? 300 : 1024);
        distribution(S, q ? 4 : 5);
        S.push_back(family_space("odd-tokens", odd_family(q ? 3 : 4), WHAT));
        S.push_back(family_space("remarks", remark_family(q ? 3 : 4), WHAT));
        S.push_back(program_names(q ? 3 : 4, WHAT));
        S.push_back(family_space("remarks-posix", remark_family(q ? 3 : 4), WHAT, true));
        S.push_back(family_space("odd-tokens-posix", odd_family(q ? 3 : 4), WHAT | M_PAST, true));
    };
    return vf::run(c, argc, argv);
}
