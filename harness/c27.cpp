// C27: in the long-only build a single dash introduces long names, too.
#include "pm.hpp"
using namespace pm;

static const int WHAT = M_TAGGED | M_UNTAGGED | M_ERRS | M_RET0 | M_ALIAS | M_ARGV;

// '=' where an option letter would stand (an empty name) and '-' inside a cluster are not part of the claim
static bool outside(const Table& t, const char* tok) {
    if (tok[0] != '-' || !tok[1]) return false;
    if (tok[1] == '-') return tok[2] == '=';
    for (const char* p = tok + 1; *p; p++) {
        if (*p == '=' || *p == '-') return true;
        bool known = false, value = false;
        for (auto& e : t.e) if (e.sh && strchr(e.sh, *p)) { if (!known) value = e.hasval(); known = true; }
        if (!known || value) return false;
        // a long name may end the cluster here
        size_t n = strcspn(p, "=");
        for (auto& e : t.e) for (const char* l = e.lo; l; l = strchr(l, ',') ? strchr(l, ',') + 1 : nullptr) if (!strncmp(l, p, n) && (n > 1 || l[n] == 0 || l[n] == ',')) return false;
    }
    return false;
}
static vf::Space guarded(vf::Space s, std::shared_ptr<Family> f) {
    auto run = s.run;
    s.run = [=](uint64_t i, Case& c) {
        std::vector<const char*> line;
        size_t k = f->locate(i, line);
        for (auto x : line) if (outside(f->tables[k], x)) return;
        run(i, c);
    };
    return s;
}
// the alphabet of the table with one dash for two added
static std::vector<const char*> both(const Table& t, AlphaOpt o = {}) {
    std::vector<const char*> a = alphabet(t, o), r = a;
    for (auto s : a) if (!strncmp(s, "--", 2) && s[2]) {
        const char* x = T(std::string(s + 1));
        bool dup = false;
        for (auto y : r) if (y == x) dup = true;
        if (!dup) r.push_back(x);
    }
    return r;
}

static void singles(std::vector<vf::Space>& S, unsigned len) {
    auto f = std::make_shared<Family>();
    static const char* SH[] = {"a", nullptr, "a", "ab", nullptr, "z", "l"};
    static const char* LO[] = {nullptr, "alpha", "alpha", "alpha,beta", "alpha,al,beta", "alpha,a", "alp,alpha"};
    for (int k = LIT; k <= DATE; k++)
        for (int sp = 0; sp < 7; sp++)
            for (int opt = 0; opt < (k == LIT ? 1 : 2); opt++) {
                Table t;
                t.e.push_back({(Kind)k, SH[sp], LO[sp], 0, 3, opt != 0});
                f->add(t, both(t), len);
            }
    S.push_back(guarded(family_space("single", f, WHAT), f));
}
// ordered pairs: letters that begin names, names that spell clusters
static void pairs(std::vector<vf::Space>& S, unsigned len, bool posix) {
    std::vector<Entry> A = {{LIT, "a", nullptr, 0, 9}, {LIT, "a", "alpha", 0, 9}, {LIT, "l", "al", 0, 9}, {INT, "a", nullptr, 0, 9}, {INT, nullptr, "ab", 0, 9}, {STR, "a", "al", 0, 9, true}, {STR, nullptr, "b", 0, 9}, {FIL, "ab", nullptr, 0, 9}};
    std::vector<Entry> B = {{LIT, "b", nullptr, 0, 9}, {LIT, "b", "alps", 0, 9}, {LIT, nullptr, "aa,abba", 0, 9}, {INT, "b", nullptr, 0, 9}, {STR, nullptr, "alpha,alphabet", 0, 9}, {STR, "b", "a", 0, 9, true}, {STR, nullptr, nullptr, 0, 2}};
    auto f = std::make_shared<Family>();
    AlphaOpt o;
    o.badvals = false;
    for (auto& x : A)
        for (auto& y : B)
            for (int ord = 0; ord < 2; ord++) {
                Table t;
                t.e.push_back(ord ? y : x);
                t.e.push_back(ord ? x : y);
                auto al = both(t, o);
                for (auto s : {"-ab", "-ba", "-al", "-ab=7"}) { bool dup = false; for (auto z : al) if (z == T(s)) dup = true; if (!dup) al.push_back(T(s)); }
                f->add(t, al, len);
            }
    S.push_back(guarded(family_space(posix ? "pairs-posix" : "pairs", f, WHAT, posix), f));
}
// long names that are prefixes of each other, in every order, with every prefix of every name after one and two dashes
static void prefixes(std::vector<vf::Space>& S, unsigned n, unsigned len) {
    static const char* N[] = {"al", "alp", "alpha", "alps", "beta", "a", "alpha,alps", "b,al"};
    auto f = std::make_shared<Family>();
    for (uint64_t i = 0; i < vf::ipow(8, n); i++) {
        std::vector<int> d(n);
        vf::digits(i, 8, n, d.data());
        bool dup = false;
        for (unsigned x = 0; x < n; x++) for (unsigned y = x + 1; y < n; y++) if (d[x] == d[y]) dup = true;
        if (dup) continue;
        for (int kinds = 0; kinds < 4; kinds++) {
            static const char* SH[] = {"a", "b", "l"};
            Table t;
            std::vector<std::string> a;
            auto add = [&](const std::string& s) { for (auto& y : a) if (y == s) return; a.push_back(s); };
            for (unsigned x = 0; x < n; x++) {
                t.e.push_back({(int)(x % 2) == (kinds & 1) ? LIT : STR, kinds & 2 ? SH[x] : nullptr, N[d[x]], 0, 9});
                std::string s = N[d[x]];
                s = s.substr(0, s.find(','));
                for (size_t l = 1; l <= s.size(); l++) for (auto dash : {"-", "--"}) { add(dash + s.substr(0, l)); add(dash + s.substr(0, l) + "=v"); }
                add("-" + s + "x");
            }
            std::vector<const char*> al;
            for (auto& s : a) al.push_back(T(s));
            f->add(t, al, len);
        }
    }
    S.push_back(guarded(family_space("prefixes", f, WHAT), f));
}
// words of up to `len` letters after one dash, for tables whose letters and names overlap
static void words(std::vector<vf::Space>& S, unsigned len) {
    static const char L[] = "abvoz=1";
    auto ts = std::make_shared<std::vector<Table>>();
    for (auto names : {"abba,vz", "ab,ob", "aav,b", "ba,bab,bob", "a,v"}) {
        Table t;
        t.e = {{LIT, "a", nullptr, 0, 20}, {LIT, "b", names, 0, 20}, {STR, "v", nullptr, 0, 20}, {STR, "o", "oz,zoo", 0, 20, true}, {STR, nullptr, nullptr, 0, 5}};
        ts->push_back(t);
        t.e[1].kind = STR;
        ts->push_back(t);
    }
    uint64_t n = vf::seq_count(7, len);
    auto word = [=](uint64_t i) { std::string s = "-"; for (int d : vf::seq_at(i, 7, len)) s += L[d]; return s; };
    vf::Space s;
    s.name = "words";
    s.n = n * 3 * ts->size();
    s.run = [=](uint64_t i, Case& c) {
        const Table& t = (*ts)[i / (n * 3)];
        vf::Str x(word(i / 3 % n)), y("next"), z("-a");
        if (outside(t, x.p)) return;
        std::vector<const char*> line = {x.p};
        if (i % 3) line.push_back(i % 3 == 1 ? y.p : z.p);
        Real R(t);
        check_parse(R, line, false, WHAT, c);
    };
    s.desc = [=](uint64_t i) { return show((*ts)[i / (n * 3)]) + " prog " + word(i / 3 % n) + (i % 3 == 1 ? " next" : i % 3 == 2 ? " -a" : ""); };
    S.push_back(s);
}
// arrangements with operands, "--" and values
static void orders(std::vector<vf::Space>& S, unsigned len, bool posix) {
    auto f = std::make_shared<Family>();
    std::vector<const char*> al = TS({"-a", "-aa", "-val", "-val=y", "--val", "-v", "-vx", "p", "-", "--", "-5", "-val="});
    Table t;
    t.e = {{LIT, "a", "aa", 0, 20}, {STR, "v", "val", 0, 20}, {STR, nullptr, nullptr, 0, 20}};
    f->add(t, al, len);
    S.push_back(guarded(family_space(posix ? "orders-posix" : "orders", f, posix ? WHAT | M_PAST : WHAT, posix), f));
}
// names, values and clusters of growing length
static void scale(std::vector<vf::Space>& S, int dense, int max) {
    static const char* M[] = {"long name", "longest prefix", "ambiguous prefix", "one letter too many", "value after '='", "cluster", "cluster ending in a long name", "name beginning with a known letter"};
    const unsigned NM = 8;
    auto pt = std::make_shared<std::vector<int>>(vf::points(dense, max));
    vf::Space s;
    s.name = "scale";
    s.n = pt->size() * NM;
    s.run = [=](uint64_t i, Case& c) {
        unsigned m = (unsigned)(i % NM);
        int n = (*pt)[i / NM];
        std::string w, name, name2;
        for (int k = 0; k < n; k++) w += (char)('b' + k % 17);
        std::vector<std::string> l;
        Table t;
        t.cap = 3;
        switch (m) {
            case 0: name = w; l = {"-" + w, "--" + w}; break;
            case 1: name = w + "z"; l = {"-" + w}; break;
            case 2: name = w + "y"; name2 = w + "z"; l = {"-" + w, "-" + name2}; break;
            case 3: name = w; l = {"-" + w + "x"}; break;
            case 4: l = {"-str=" + w}; break;
            case 5: l = {"-" + std::string((size_t)n, 'a'), "-str", "-" + w}; break;
            case 6: name = "b" + w; l = {"-" + std::string((size_t)n, 'a') + name}; break;
            case 7: name = "a" + w; l = {"-" + name, "-a" + w.substr(0, w.size() - 1)}; break;
        }
        t.e = {{LIT, "a", nullptr, 0, n + 3}, {STR, "s", "str", 0, 9}};
        if (!name.empty()) t.e.push_back({LIT, nullptr, name.c_str(), 0, 9});
        if (!name2.empty()) t.e.push_back({LIT, nullptr, name2.c_str(), 0, 9});
        std::vector<vf::Str> toks;
        toks.reserve(l.size());
        std::vector<const char*> line;
        for (auto& x : l) { toks.emplace_back(x); line.push_back(toks.back().p); }
        Real R(t);
        check_parse(R, line, false, WHAT, c);
    };
    s.desc = [=](uint64_t i) { return strf("size %d: %s", (*pt)[i / NM], M[i % NM]); };
    S.push_back(s);
}

int main(int argc, char** argv) {
    long_only() = true;
    vf::Check c;
    c.property = "C27";
    c.rule = "the library built with ARG_LONG_ONLY: every table of the listed families with every line of up to the bound of tokens over the table's alphabet (all spellings after one and two dashes, prefixes, attached and detached values, clusters, unknown options, '-' and '--'); outcomes are distinct by return value, counts, values and error records";
    c.assumptions = {"the reference model of option scanning in harness/pm.hpp states the long-only conventions correctly", "an empty long name (\"-=x\") and '-' inside a cluster are not part of the claim", "option letters other than '-', '?', ':', ';' and control characters"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        singles(S, q ? 3 : 4);
        pairs(S, q ? 2 : 3, false);
        pairs(S, 2, true);
        prefixes(S, q ? 2 : 3, 2);
        words(S, q ? 5 : 6);
        orders(S, q ? 4 : 5, false);
        orders(S, q ? 4 : 5, true);
        scale(S, q ? 200 : 1100, q ? 4096 : 65536);
    };
    return vf::run(c, argc, argv);
}
