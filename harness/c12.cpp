// C12: regular-expression arguments accept exactly the texts their pattern describes.
#include "rex.hpp"
extern "C" {
#include "argtable3.h"
}
using vf::Case;
using vf::quote;
using vf::strf;

typedef std::vector<std::string> Texts;

// all texts of up to len characters over an alphabet
static std::shared_ptr<Texts> texts(const std::string& al, unsigned len) {
    auto r = std::make_shared<Texts>();
    uint64_t n = vf::seq_count(al.size(), len);
    for (uint64_t i = 0; i < n; i++) { std::string s; for (int d : vf::seq_at(i, al.size(), len)) s += al[(size_t)d]; r->push_back(s); }
    return r;
}
// every text, as "-r TEXT", in one parse per block; the entry's values and the error records say which were accepted
static bool run_all(const std::string& pat, int flags, const Texts& T, std::vector<char>& acc, Case& c) {
    vf::Str p(pat);
    acc.assign(T.size(), 0);
    static char prog[] = "prog", o[] = "-r";
    size_t N = T.size();
    struct arg_rex* r;
    struct arg_end* end;
    {
        vf::InLib g;
        r = arg_rexn("r", nullptr, p.p, nullptr, 0, (int)N + 1, flags, nullptr);
        end = arg_end((int)N + 1);
    }
    void* tab[] = {r, end};
    std::vector<vf::Str> st;
    st.reserve(N);
    std::vector<char*> av = {prog};
    for (auto& s : T) { st.emplace_back(s); av.push_back(o); av.push_back(st.back().p); }
    av.push_back(nullptr);
    int ret = LIB(arg_parse((int)av.size() - 1, av.data(), tab));
    c.steps += N;
    bool ok = ret + r->count == (int)N;
    size_t ia = 0, ie = 0;
    for (size_t i = 0; ok && i < N; i++) {
        if (ia < (size_t)r->count && r->sval[ia] == st[i].p) { acc[i] = 1; ia++; }
        else if (ie < (size_t)ret && end->argval[ie] == st[i].p && end->parent[ie] == r && end->error[ie] == 7) ie++;
        else ok = false;
    }
    if (!ok) c.fail(strf("%d values and %d errors for %zu texts do not account for every text", r->count, ret, N));
    LIBV(arg_freetable(tab, 2));
    return ok;
}
static void check(const std::string& pat, int flags, const Texts& T, Case& c, bool complete_always = false) {
    rex::List l;
    bool wb = false;
    bool valid = rex::parse(pat, flags & ARG_REX_ICASE, l, &wb);
    if (wb) return;
    std::vector<char> acc;
    if (!run_all(pat, flags, T, acc, c)) return;
    bool comp = valid && (complete_always || rex::promised(l));
    for (size_t i = 0; i < T.size(); i++) {
        bool m = valid && rex::member(l, T[i]);
        if (acc[i] && !m) { c.fail("pattern " + quote(pat) + " accepts " + quote(T[i]) + (valid ? ", which is not in its language" : ", but is not valid")); return; }
        if (!acc[i] && m && comp) { c.fail("pattern " + quote(pat) + " rejects " + quote(T[i]) + ", which is in its language"); return; }
    }
    c.mix(acc.data(), acc.size());
    c.mix(valid);
    if (c.trace) c.log("pattern " + quote(pat) + strf(": valid %d, completeness promised %d", valid, comp));
}
static void patterns(std::vector<vf::Space>& S, const std::string& name, std::shared_ptr<std::vector<std::string>> P, std::shared_ptr<Texts> T, int flags = 0, bool always = false) {
    vf::Space s;
    s.name = name;
    s.n = P->size();
    s.run = [=](uint64_t i, Case& c) { check((*P)[i], flags, *T, c, always); };
    s.desc = [=](uint64_t i) { return "pattern " + quote((*P)[i]) + (flags ? " ignoring case" : "") + strf(" with %zu texts", T->size()); };
    S.push_back(s);
}
typedef std::shared_ptr<std::vector<std::string>> SV;
static SV sv() { return std::make_shared<std::vector<std::string>>(); }
static std::vector<std::string> cross(const std::vector<std::string>& a, const std::vector<std::string>& b) { std::vector<std::string> r; for (auto& x : a) for (auto& y : b) r.push_back(x + y); return r; }

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C12";
    c.rule = "every pattern of the listed grammars (sequences, alternations and groups of repeated items up to the bound) with every text up to the bound length; acceptance is compared with exact language membership computed by position sets, always in one direction and for one-unambiguous patterns in both; every character class with every byte; outcomes are distinct by the set of accepted texts";
    c.assumptions = {"the reference semantics in harness/rex.hpp", "no \\\\b or \\\\B", "completeness is required for one-unambiguous patterns in which no repetition that may go on is directly followed by a group that can match nothing and no alternative but the last can match nothing", "the C locale"};
    c.silent = false;  // an invalid pattern is announced on standard output
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        std::vector<std::string> Q = {"", "?", "*", "+", "{2}", "{1,2}", "{2,}", "{0,1}"};
        auto items = cross({"a", "b", ".", "[^a]", "[ab]", "(ab)"}, Q);
        // sequences of up to three items
        auto seq = sv();
        for (auto& x : items) seq->push_back(x);
        for (auto& x : items) for (auto& y : items) seq->push_back(x + y);
        auto it3 = cross({"a", "b", "."}, {"", "?", "*", "+", "{2}"});
        for (auto& x : it3) for (auto& y : it3) for (auto& z : it3) seq->push_back(x + y + z);
        patterns(S, "sequences", seq, texts("abc", q ? 5 : 6));
        patterns(S, "sequences-long-texts", std::make_shared<std::vector<std::string>>(items), texts("ab", q ? 9 : 11));
        // alternations, anchored or not
        auto alt = sv();
        auto ai = cross({"a", "b", "c"}, {"", "?", "*", "+"});
        std::vector<std::string> as;
        for (auto& x : ai) as.push_back(x);
        for (auto& x : ai) for (auto& y : ai) as.push_back(x + y);
        if (q) as.resize(12 + 100);
        for (auto& x : as) for (auto& y : as) alt->push_back(x + "|" + y);
        patterns(S, "alternations", alt, texts("abc", 4));
        auto anc = sv();
        for (auto& x : items) for (auto f : {"^%$", "^%", "%$", "%|^%$", "^%|b", "a|%$", "(^%)", "(%$)", "(^%$)", "^(%)$", "(?:%)", "((%))", "^%$|^b$", "$%", "%$b", "a^%"}) { std::string r; for (const char* p = f; *p; p++) if (*p == '%') r += x; else r += *p; anc->push_back(r); }
        patterns(S, "anchors", anc, texts("ab", 5));
        // groups
        auto gi = cross({"a", "b"}, q ? std::vector<std::string>{"", "*", "?"} : std::vector<std::string>{"", "*", "?", "+"});
        std::vector<std::string> gs;
        for (auto& x : gi) gs.push_back(x);
        for (auto& x : gi) for (auto& y : gi) gs.push_back(x + y);
        std::vector<std::string> inner = gs;
        for (auto& x : gs) for (auto& y : gs) inner.push_back(x + "|" + y);
        auto grp = sv();
        auto ctx = cross({"a", "b", "."}, {"", "*", "?"});
        for (auto& x : inner) for (auto qn : {"", "*", "+", "?", "{2}", "{1,2}"}) {
            grp->push_back("(" + x + ")" + qn);
            for (auto& y : ctx) { grp->push_back("(" + x + ")" + qn + y); grp->push_back(y + "(" + x + ")" + qn); }
        }
        patterns(S, "groups", grp, texts("ab", q ? 5 : 6));
        // nested groups
        auto nest = sv();
        std::vector<std::string> g1;
        for (auto& x : gi) for (auto qn : {"", "*", "+", "?", "{2}"}) g1.push_back("(" + x + ")" + qn);
        for (auto& x : g1) for (auto& y : g1) { nest->push_back(x + y); nest->push_back("(" + x + y + ")*"); nest->push_back("(" + x + "|" + y + ")+"); nest->push_back("(" + x + ")*" + y); nest->push_back(x + "c(" + y + ")*"); nest->push_back("(c" + x + ")*" + y); nest->push_back("(" + x + "c)*" + y); }
        patterns(S, "nested", nest, texts("abc", q ? 4 : 5));
        // alternations inside a context, with different letters: mostly promised
        auto det = sv();
        auto di = cross({"a", "[bc]", "d"}, {"", "?", "*", "+", "{2}", "{1,2}"});
        for (auto& x : di) for (auto& y : di) for (auto f : {"%&", "(%|&)", "(%|&)*", "(%&)*", "(%&)+", "x(%|&)y", "(%|&)+x", "x*(%&)", "%x&", "(%x|&y)*", "x(%y)*&", "(?:%|&|x)*y", "((%)(&))*x", "%(&x)?", "(%(&x)+)*y"}) { std::string r; for (const char* p = f; *p; p++) if (*p == '%') r += x; else if (*p == '&') r += y; else r += *p; det->push_back(r); }
        patterns(S, "one-unambiguous", det, texts("abdxy", q ? 4 : 5));
        // every short string over the notation
        auto rw = sv();
        {
            const std::string al = q ? "ab()[]|*+?.^$-{},2" : "ab()[]|*+?.^$-{},2\\d:";
            unsigned len = q ? 4 : 5;
            uint64_t n = vf::seq_count(al.size(), len);
            for (uint64_t i = 0; i < n; i++) { std::string s; for (int d : vf::seq_at(i, al.size(), len)) s += al[(size_t)d]; rw->push_back(s); }
        }
        patterns(S, "raw", rw, texts("ab-?", 3));
        // counted repetition, exact counts
        auto cnt = sv();
        for (int a = 0; a <= 5; a++) { cnt->push_back(strf("a{%d}", a)); cnt->push_back(strf("a{%d,}", a)); cnt->push_back(strf("(ab){%d}", a)); cnt->push_back(strf("(ab){%d,}", a)); cnt->push_back(strf("[ab]{%d}c", a)); for (int b = a; b <= 6; b++) { cnt->push_back(strf("a{%d,%d}", a, b)); cnt->push_back(strf("(ab){%d,%d}", a, b)); cnt->push_back(strf("a{%d,%d}b", a, b)); cnt->push_back(strf("(a|b){%d,%d}", a, b)); cnt->push_back(strf("(a{%d}b){%d}", a, b)); cnt->push_back(strf("\\w{%d,%d}-", a, b)); } }
        patterns(S, "counts", cnt, texts("ab", q ? 8 : 10));
        // scale: large counts, long sequences, many groups and alternatives, each with the texts just inside and outside
        {
            std::vector<int> N;
            for (int n = 6; n <= 20; n++) N.push_back(n);
            for (int p2 = 32; p2 <= (q ? 1024 : 4096); p2 *= 2) for (int d : {-1, 0, 1, p2 / 4 + 1}) N.push_back(p2 + d);
            static const int NF = 17;
            auto mk = [](int f, int n, std::string& pat, std::vector<std::string>& unit) {
                auto rep = [](const std::string& u, int k) { std::string r; for (int i = 0; i < k; i++) r += u; return r; };
                unit = {"a"};
                switch (f) {
                    case 0: pat = strf("a{%d}", n); break;
                    case 1: pat = strf("a{%d,}", n); break;
                    case 2: pat = strf("a{%d,%d}", n, n + 1); break;
                    case 3: pat = strf("(ab){%d}", n); unit = {"ab"}; break;
                    case 4: pat = strf("[ab]{%d}", n); unit = {"a", "b"}; break;
                    case 5: pat = strf("(a|b){%d}", n); unit = {"a", "b"}; break;
                    case 6: pat = rep("a", n); break;
                    case 7: pat = rep("(a)", n); break;
                    case 8: pat = rep(".", n); unit = {"a", "b", "\x80"}; break;
                    case 9: pat = rep("[ab]", n); unit = {"a", "b"}; break;
                    case 10: pat = rep("(?:a|b)", n); unit = {"a", "b"}; break;
                    case 11: pat = rep("\\w", n); unit = {"a", "b"}; break;
                    case 12: pat = "a{0," + std::to_string(n) + "}"; break;
                    case 13: pat = "(a{" + std::to_string(n) + "})+"; break;
                    case 14: pat = "a+b{" + std::to_string(n) + "}"; break;
                    case 15: pat = "^" + rep("a", n) + "$"; break;
                    default: pat = "[" + rep("b", n) + "a]*"; break;
                }
            };
            vf::Space s;
            s.name = "scale";
            s.n = N.size() * NF;
            s.run = [=](uint64_t i, Case& c) {
                int n = N[i / NF];
                std::string pat;
                std::vector<std::string> u;
                mk((int)(i % NF), n, pat, u);
                Texts T = {"", "a", "b"};
                for (auto& x : u) {
                    for (int k : {n - 256, n - 255, n - 2, n - 1, n, n + 1, n + 2, 2 * n - 1, 2 * n, n % 256, n % 128, n % 64, 3 * n}) {
                        if (k < 1) continue;
                        std::string r;
                        for (int j = 0; j < k; j++) r += x;
                        T.push_back(r);
                        T.push_back(r + "b");
                        T.push_back("b" + r.substr(1));
                        T.push_back("a" + r);
                        T.push_back(r.substr(0, r.size() / 2) + "c" + r.substr(r.size() / 2 + 1));
                    }
                    std::string ab = "aaa";
                    for (int j = 0; j < n; j++) ab += "b";
                    T.push_back(ab);
                    T.push_back(ab + "b");
                    T.push_back(ab.substr(0, ab.size() - 1));
                }
                std::sort(T.begin(), T.end());
                T.erase(std::unique(T.begin(), T.end()), T.end());
                check(pat, 0, T, c, true);
            };
            s.desc = [=](uint64_t i) { std::string pat; std::vector<std::string> u; mk((int)(i % NF), N[i / NF], pat, u); return "pattern " + quote(pat) + strf(" with texts around %d repetitions", N[i / NF]); };
            S.push_back(s);
        }
        // very large counts, judged in closed form: n repetitions of one item between lo and hi
        {
            static const int N[] = {999, 1000, 4095, 4096, 8192, 9999, 10000, 10001, 12345, 16383, 16384, 20000, 32766, 32767, 32768, 32769, 40000, 50505, 60000, 65500, 65532};
            static const char* F[] = {"a{N}", "a{N,}", "a{N,M}", "a{0,N}", "[ab]{N}", "(a){N}", "(?:a|b){N,}", ".{1,N}", "^a{N}$", "a{00N}", "\\w{N}", "a{N}a", "a{2,N}"};
            const unsigned NF = sizeof F / sizeof *F, NN = sizeof N / sizeof *N;
            vf::Space s;
            s.name = "large-counts";
            s.n = (uint64_t)NF * NN;
            auto mk = [=](uint64_t i, int& lo, int& hi) {
                int n = N[i / NF], f = (int)(i % NF);
                std::string p;
                for (const char* x = F[f]; *x; x++) if (*x == 'N') p += std::to_string(n); else if (*x == 'M') p += std::to_string(n + 2); else p += *x;
                const int INF = 1 << 30;
                lo = f == 3 ? 0 : f == 7 ? 1 : f == 12 ? 2 : f == 11 ? n + 1 : n;
                hi = f == 1 || f == 6 ? INF : f == 2 ? n + 2 : f == 11 ? n + 1 : n;
                return p;
            };
            s.run = [=](uint64_t i, Case& c) {
                int lo, hi, n = N[i / NF];
                std::string p = mk(i, lo, hi);
                std::vector<int> L;
                for (int k : {0, 1, 2, 3, n / 10 - 1, n / 10, n / 10 + 1, n / 2, n - 1, n, n + 1, n + 2, n + 3, n + 4, n % 256, n % 1000, n % 10000, n % 4096, n % 32768, 65534}) if (k >= 0 && k < 65535) L.push_back(k);
                std::sort(L.begin(), L.end());
                L.erase(std::unique(L.begin(), L.end()), L.end());
                Texts T;
                for (int k : L) T.push_back(std::string((size_t)k, 'a'));
                std::vector<char> acc;
                if (!run_all(p, 0, T, acc, c)) return;
                for (size_t k = 0; k < L.size(); k++) {
                    bool m = L[k] >= lo && L[k] <= hi;
                    c.mix((int)acc[k]);
                    if (m != !!acc[k]) { c.fail(strf("%d times 'a' is %s", L[k], acc[k] ? "accepted" : "refused")); return; }
                }
            };
            s.desc = [=](uint64_t i) { int lo, hi; return "pattern " + quote(mk(i, lo, hi)) + " with texts of around as many letters"; };
            S.push_back(s);
        }
        // two entries made from the same pattern string with different flags
        {
            static const char* P[] = {"hello", "a*B", "[a-c]+", "(x|Yz)?", "\\w", "[^q]", "a{2}B", "HELLO", "^a$"};
            static const char* W[] = {"hello", "HELLO", "Hello", "ab", "AB", "aB", "Ab", "x", "X", "yz", "YZ", "Yz", "abc", "ABC", "q", "Q", "aaB", "AAb", "a", "A"};
            const unsigned NP = sizeof P / sizeof *P, NW = sizeof W / sizeof *W;
            vf::Space s;
            s.name = "twins";
            s.n = (uint64_t)NP * 4 * 3 * NW;
            s.run = [=](uint64_t i, Case& c) {
                const char* w = W[i % NW];
                uint64_t k = i / NW;
                vf::Str p(P[k / 12]), x(w);
                int f1 = k & 1 ? ARG_REX_ICASE : 0, f2 = k & 2 ? ARG_REX_ICASE : 0, how = (int)(k / 4 % 3);
                static char prog[] = "prog", o1[] = "-r", o2[] = "-s";
                // 0: both in one table; 1: the second made, used and released after the first was; 2: two tables in turn
                int f[2] = {f1, f2};
                arg_rex* r[2] = {nullptr, nullptr};
                int got[4] = {0, 0, 0, 0}, ng = 0;
                auto parse = [&](arg_rex* q, const char* o, void** t) { char* av[] = {prog, (char*)o, x.p, nullptr}; int e = LIB(arg_parse(3, av, t)); c.steps++; got[ng++] = e == 0 && q->count == 1; };
                if (how == 0) {
                    void* t[3];
                    { vf::InLib g; t[0] = r[0] = arg_rexn("r", nullptr, p.p, nullptr, 0, 3, f1, nullptr); t[1] = r[1] = arg_rexn("s", nullptr, p.p, nullptr, 0, 3, f2, nullptr); t[2] = arg_end(3); }
                    parse(r[0], o1, t); parse(r[1], o2, t); parse(r[0], o1, t); parse(r[1], o2, t);
                    LIBV(arg_freetable(t, 3));
                } else if (how == 1) {
                    for (int m = 0; m < 4; m++) {
                        void* t[2];
                        { vf::InLib g; t[0] = r[0] = arg_rexn("r", nullptr, p.p, nullptr, 0, 3, f[m % 2], nullptr); t[1] = arg_end(3); }
                        parse(r[0], o1, t);
                        LIBV(arg_freetable(t, 2));
                    }
                } else {
                    void *t[2], *u[2];
                    { vf::InLib g; t[0] = r[0] = arg_rexn("r", nullptr, p.p, nullptr, 0, 3, f1, nullptr); t[1] = arg_end(3); u[0] = r[1] = arg_rexn("s", nullptr, p.p, nullptr, 0, 3, f2, nullptr); u[1] = arg_end(3); }
                    parse(r[0], o1, t); parse(r[1], o2, u); parse(r[0], o1, t); parse(r[1], o2, u);
                    LIBV(arg_freetable(t, 2)); LIBV(arg_freetable(u, 2));
                }
                for (int m = 0; m < 4; m++) {
                    rex::List l;
                    bool v = rex::parse(P[k / 12], f[m % 2] & ARG_REX_ICASE, l, nullptr) && rex::member(l, w);
                    c.mix(got[m]);
                    if (v != !!got[m]) { c.fail(strf("parse %d (%s) %s the text", m + 1, f[m % 2] ? "ignoring case" : "with case", got[m] ? "accepts" : "refuses")); break; }
                }
            };
            s.desc = [=](uint64_t i) { uint64_t k = i / NW; return strf("pattern %s with flags %d and %d, arrangement %d, text %s", P[k / 12], (int)(k & 1), (int)(k >> 1 & 1), (int)(k / 4 % 3), W[i % NW]); };
            S.push_back(s);
        }
        // classes: one character, every byte
        auto cls = sv();
        for (char k : std::string("aAwWsSdDxXcCpPlu")) { cls->push_back(std::string("\\") + k); cls->push_back(std::string("[\\") + k + "]"); cls->push_back(std::string("[^\\") + k + "]"); cls->push_back(std::string("[\\") + k + "_]"); }
        for (int ch = 32; ch < 127; ch++) { std::string e = std::string("\\") + (char)ch; if (ch != 'b' && ch != 'B') cls->push_back(e); cls->push_back("[" + e + "]"); cls->push_back("[^" + e + "]"); if (!strchr("^]\\-", ch)) cls->push_back(std::string("[") + (char)ch + "]"); if (!strchr("()[]{}$.|\\*+?^", ch)) cls->push_back(std::string(1, (char)ch)); }
        for (int ch = 33; ch < 127; ch += 2) for (int d = ch; d < 127; d += 5) { if (strchr("^]\\-", ch) || strchr("]\\", d)) continue; cls->push_back(std::string("[") + (char)ch + "-" + (char)d + "]"); cls->push_back(std::string("[^") + (char)ch + "-" + (char)d + "]"); cls->push_back(std::string("[") + (char)ch + "-" + (char)d + "x-z_]"); }
        for (auto s : {"[a-]", "[-a]", "[a\\-z]", "[\\]]", "[\\\\]", "[a^]", "[.]", "[$]", "[(]", "[*]", "[\\n\\t]", "[0-9a-fA-F]", "[^0-9a-z]", "[a-c-e]", "[\\d-]", "[\\d-z]", "[z-a]", "[]", "[^]", "[", "[a", "\\n", "\\t", "\\r", "\\f", "\\v", "[\\b]", "[\\B]", "[a-\\]]", "[!-\\~]"}) cls->push_back(s);
        // ranges with escaped and plain ends
        {
            std::vector<std::string> E = {"\t", "\n", "\v", "\f", "\r", "\x01", " ", "!", "0", "A", "Z", "a", "z", "~", "\x7f"};
            for (char e : std::string("ntrfv-]\\^[.~!*0aAdwxzbB")) E.push_back(std::string("\\") + e);
            for (auto& x : E) for (auto& y : E) { cls->push_back("[" + x + "-" + y + "]"); cls->push_back("[^" + x + "-" + y + "]"); cls->push_back("[q" + x + "-" + y + "_]"); }
        }
        // escaped bytes beyond ASCII
        for (int b = 128; b < 256; b++) {
            std::string e = std::string("\\") + (char)b;
            for (auto& p : {e, "[" + e + "]", "[^" + e + "]", "[a" + e + "]", e + "+", "(" + e + "|a)"}) cls->push_back(p);
            if (b < 252) for (int d : {0, 3}) { std::string h = std::string("\\") + (char)(b + d); cls->push_back("[" + e + "-" + h + "]"); cls->push_back("[^" + e + "-" + h + "]"); }
        }
        auto bytes = std::make_shared<Texts>();
        bytes->push_back("");
        for (int b = 1; b < 256; b++) bytes->push_back(std::string(1, (char)b));
        bytes->push_back("aa"); bytes->push_back("\\n"); bytes->push_back("a-z");
        for (auto s : {".", "^.$", "(.)", ".+", ".{1}", "(?:.|\\n)", "[^.]", "$", "^", "^$", "(^$)", ".$", "^.", "$.", "a$.", "$\\n", "a$\\n", "(a$)\\s", "(a|$)[^b]", "$[^b]?", "a$.?", ".^a", "\\n^a", "a^.", "(.$).", ".(^.)"}) cls->push_back(s);
        for (auto s : {"\n\n", "a\n", "\na", "\n\r", "a\nb", "\xff\xff", "aa\n"}) bytes->push_back(s);
        patterns(S, "classes", cls, bytes, 0, true);
        // classes of every content up to a length
        {
            std::vector<std::string> it = {"^", "-", "a", "c", ".", "\\]", "\\d", "\\\\", "\\^", "\\-", "[", "|"};
            auto cc = sv();
            for (unsigned n = 1; n <= (q ? 4u : 5u); n++) {
                uint64_t total = 1;
                for (unsigned k = 0; k < n; k++) total *= it.size();
                for (uint64_t k = 0; k < total; k++) {
                    std::string b;
                    uint64_t x = k;
                    for (unsigned m = 0; m < n; m++, x /= it.size()) b += it[x % it.size()];
                    cc->push_back("[" + b + "]");
                }
            }
            auto few = std::make_shared<Texts>();
            for (char ch : std::string("^-abcd.]\\5[|_,~")) few->push_back(std::string(1, ch));
            few->push_back("");
            few->push_back("aa");
            patterns(S, "class-contents", cc, few, 0, true);
        }
        // ignoring case
        auto ic = sv();
        for (char ch : std::string("abzABZ059_-.")) { ic->push_back(std::string("\\") + ch); ic->push_back(std::string("[") + (ch == '-' ? "\\-" : std::string(1, ch)) + "]"); ic->push_back(std::string("[^") + (ch == '-' ? "\\-" : std::string(1, ch)) + "]"); }
        ic->erase(std::remove_if(ic->begin(), ic->end(), [](const std::string& s) { return s.size() == 2 && s[0] == '\\' && (isalpha(s[1])); }), ic->end());
        for (char ch = 'a'; ch <= 'z'; ch++) { ic->push_back(std::string(1, ch)); ic->push_back(std::string(1, (char)toupper(ch))); for (char d = ch; d <= 'z'; d = (char)(d + 3)) { ic->push_back(std::string("[") + ch + "-" + d + "]"); ic->push_back(std::string("[^") + (char)toupper(ch) + "-" + (char)toupper(d) + "]"); ic->push_back(std::string("[") + (char)toupper(ch) + "-" + (char)toupper(d) + "0-5]"); } }
        for (char k : std::string("aAwWsSdDxXcCpPlu")) { ic->push_back(std::string("\\") + k); ic->push_back(std::string("[\\") + k + "]"); ic->push_back(std::string("[^\\") + k + "]"); ic->push_back(std::string("[\\") + k + "g]"); ic->push_back(std::string("[^\\") + k + "G]"); ic->push_back(std::string("[^\\") + k + "f-hX-Z]"); }
        // ranges between characters of different kinds
        for (char lo : std::string("!09@AGZ[_`agz{~")) for (char hi : std::string("!09@AGZ[_`agz{~")) {
            if (hi < lo || lo == '[' || hi == '[') continue;
            ic->push_back(std::string("[") + lo + "-" + hi + "]");
            ic->push_back(std::string("[^") + lo + "-" + hi + "]");
            ic->push_back(std::string("[") + lo + "-" + hi + "3k]");
        }
        patterns(S, "ignore-case", ic, bytes, ARG_REX_ICASE, true);
        auto ics = sv();
        for (auto& x : di) for (auto& y : di) { ics->push_back(x + y); ics->push_back("(A|" + x + ")" + y); }
        patterns(S, "ignore-case-sequences", ics, texts("aAbBdD", q ? 3 : 4), ARG_REX_ICASE);
        patterns(S, "case-sequences", ics, texts("aAbBdD", q ? 3 : 4), 0);
    };
    return vf::run(c, argc, argv);
}
