// C07: parsing leaves the argument vector alone and refers to its strings.
#include "pm.hpp"
using namespace pm;
static const int WHAT = M_ARGV | M_ALIAS | M_RO;

// All tokens live in read-only pages: a write to any of them ends the process.
static const char* RO(const std::string& s) {
    static char* page = nullptr;
    static size_t used = 0;
    static std::vector<const char*> all;
    const size_t SZ = 1 << 16;
    if (!page) page = (char*)mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (auto p : all) if (s == p) return p;
    mprotect(page, SZ, PROT_READ | PROT_WRITE);
    char* p = page + used;
    memcpy(p, s.c_str(), s.size() + 1);
    used += s.size() + 1;
    if (used > SZ - 300) abort();
    mprotect(page, SZ, PROT_READ);
    all.push_back(p);
    return p;
}
static std::vector<const char*> ro(const std::vector<const char*>& v) { std::vector<const char*> r; for (auto s : v) r.push_back(RO(s)); return r; }

// long lines: n tokens taken in turn from a list, from several starting places
static void scale(std::vector<vf::Space>& S, int dense, int max, bool posix) {
    auto pt = std::make_shared<std::vector<int>>(vf::points(dense, max));
    auto al = std::make_shared<std::vector<const char*>>(ro({"-a", "dir/f.ext", "-s", "--str=x/y.z", "-", "-sv", "op", "-q", "--zz=1", "-asw", "--str", "7"}));
    const unsigned NM = 24;
    auto mk = [=](uint64_t i) {
        std::vector<const char*> l;
        int n = (*pt)[i / NM], stride = (int)(i % NM) / 12 * 4 + 1;
        for (int k = 0; k < n; k++) l.push_back((*al)[(size_t)((int)(i % 12) + k * stride + k / 5) % al->size()]);
        return l;
    };
    vf::Space s;
    s.name = posix ? "scale-posix" : "scale";
    s.n = pt->size() * NM;
    s.run = [=](uint64_t i, Case& c) {
        auto l = mk(i);
        Table t;
        int n = (int)l.size();
        t.cap = n + 2;
        t.e = {{LIT, "a", "lit", 0, n}, {STR, "s", "str", 0, n}, {STR, nullptr, nullptr, 0, n / 2 + 1}, {FIL, nullptr, nullptr, 0, n / 4}};
        Real R(t);
        check_parse(R, l, posix, WHAT, c);
    };
    s.desc = [=](uint64_t i) { return strf("line of %d tokens, arrangement %d%s", (*pt)[i / NM], (int)(i % NM), posix ? " with POSIXLY_CORRECT" : ""); };
    S.push_back(s);
}

// values and operands of every length
static void lengths(std::vector<vf::Space>& S, int dense, int max) {
    auto pt = std::make_shared<std::vector<int>>(vf::points(dense, max));
    vf::Space s;
    s.name = "lengths";
    s.n = pt->size() * 4;
    s.run = [=](uint64_t i, Case& c) {
        int n = (*pt)[i / 4], form = (int)(i % 4);
        size_t sz = ((size_t)n * 20 + 8192) / 4096 * 4096 + 4096;
        char* pg = (char*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        char* w = pg;
        std::vector<const char*> l;
        auto put = [&](const std::string& x) { memcpy(w, x.c_str(), x.size() + 1); l.push_back(w); w += x.size() + 1; };
        std::string v;
        for (int k = 0; k < n; k++) v += k == n / 2 && n > 3 ? '/' : k == n / 2 + 2 && n > 9 ? '.' : (char)('a' + k % 3);
        std::string num = std::string((size_t)n, '0') + "7";
        auto opt = [&](const char* sh, const char* lo, const std::string& x) {
            if (form == 0) put(std::string(sh) + x);
            else if (form == 1) { put(sh); put(x); }
            else if (form == 2) put(std::string(lo) + "=" + x);
            else { put(lo); put(x); }
        };
        opt("-s", "--str", v);
        opt("-f", "--file", v);
        opt("-r", "--rex", std::string((size_t)n, 'b'));
        opt("-i", "--int", num);
        opt("-d", "--dbl", num);
        opt("-i", "--int", "x" + v);    // refused
        opt("-r", "--rex", "x" + v);
        opt("-t", "--time", v);
        put("--un" + v);
        put("-z");
        put(v);
        put("x" + v);
        put("9" + v);
        mprotect(pg, sz, PROT_READ);
        {
            Table t;
            t.cap = 20;
            t.e = {{STR, "s", "str", 0, 2}, {FIL, "f", "file", 0, 2}, {REX, "r", "rex", 0, 2}, {INT, "i", "int", 0, 2}, {DBL, "d", "dbl", 0, 2}, {DATE, "t", "time", 0, 2}, {STR, nullptr, nullptr, 0, 1}, {FIL, nullptr, nullptr, 0, 1}};
            Real R(t);
            check_parse(R, l, false, WHAT, c);
        }
        munmap(pg, sz);
    };
    s.desc = [=](uint64_t i) { return strf("values and operands of %d characters, form %d", (*pt)[i / 4], (int)(i % 4)); };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C07";
    c.rule = "every table of the listed families with every line of up to the bound of tokens, the vector and its strings being in read-only memory during the parse; each returned string and offending text must be the caller's pointer or a suffix of it; outcomes are distinct by return value, counts, values and error records";
    c.assumptions = {"the reference model in harness/pm.hpp says which string each value comes from"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        auto f = std::make_shared<Family>();
        auto add = [&](std::initializer_list<Entry> e, unsigned len) {
            Table tb;
            tb.e = e;
            f->add(tb, ro(alphabet(tb)), len);
        };
        unsigned L = q ? 3 : 4;
        for (int k = LIT; k <= DATE; k++)
            for (int o = 0; o < 2; o++) {
                add({{(Kind)k, "k", "key,other", 0, 4, o && k != LIT}}, L);
                add({{(Kind)k, "k", nullptr, 0, 2}, {(Kind)(k ? k : 1), nullptr, nullptr, 0, 2, o && k != LIT}}, L);
                add({{(Kind)k, nullptr, "alpha", 0, 2}, {STR, "a", "alps", 0, 2, o != 0}, {STR, nullptr, nullptr, 0, 3}}, L);
            }
        add({{STR, "s", "str", 0, 3}, {FIL, "f", "file", 0, 3}, {REX, "r", nullptr, 0, 3}, {FIL, nullptr, nullptr, 0, 3}}, L);
        S.push_back(family_space("types", f, WHAT));
        S.push_back(family_space("types-part", f, WHAT | M_PAST));  // the vector goes on after the count given
        S.push_back(family_space("types-posix", f, WHAT, true));
        auto g = std::make_shared<Family>();
        Table tb;
        tb.e = {{LIT, "a", "lit", 0, 9}, {STR, "s", "str", 0, 9}, {FIL, nullptr, nullptr, 0, 5}};
        g->add(tb, ro({"-a", "-s", "--str=x/y.z", "dir/f.ext", "-", "--", "-sv", "-q"}), q ? 6 : 7);
        S.push_back(family_space("permutation", g, WHAT));
        S.push_back(family_space("permutation-part", g, WHAT | M_PAST));
        S.push_back(family_space("permutation-posix", g, WHAT, true));
        auto od = odd_family(q ? 3 : 4);
        for (auto& a : od->alpha) a = ro(a);
        S.push_back(family_space("odd-tokens", od, WHAT));
        auto rm = remark_family(q ? 3 : 4);
        for (auto& a : rm->alpha) a = ro(a);
        S.push_back(family_space("remarks", rm, WHAT));
        lengths(S, q ? 300 : 1000, q ? 8192 : 32768);
        scale(S, q ? 200 : 500, q ? 2048 : 8192, false);
        scale(S, q ? 100 : 300, q ? 1024 : 4096, true);
    };
    return vf::run(c, argc, argv);
}
