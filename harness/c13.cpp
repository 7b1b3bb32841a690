// C13: no pattern or text makes a regular-expression argument misbehave.
#include "rex.hpp"
extern "C" {
#include "argtable3.h"
}
using vf::Case;
using vf::quote;
using vf::strf;

typedef std::vector<std::string> Texts;
static void check(const std::string& pat, int flags, const Texts& T, Case& c) {
    rex::List l;
    bool valid = rex::parse(pat, flags & ARG_REX_ICASE, l);
    static char prog[] = "prog", o[] = "-r";
    vf::Str p(pat);
    struct arg_rex* r;
    struct arg_end* end;
    size_t N = T.size();
    {
        vf::InLib g;
        r = arg_rexn("r", nullptr, p.p, nullptr, 0, (int)N + 1, flags, nullptr);
        end = arg_end((int)N + 1);
    }
    c.steps++;
    if (!r) { c.fail("no entry was created"); LIBV(free(end)); return; }
    void* tab[] = {r, end};
    std::vector<vf::Str> st;
    st.reserve(N);
    std::vector<char*> av = {prog};
    for (auto& s : T) { st.emplace_back(s); av.push_back(o); av.push_back(st.back().p); }
    av.push_back(nullptr);
    int ret = LIB(arg_parse((int)av.size() - 1, av.data(), tab));
    c.steps += N;
    c.mix(ret);
    c.mix(valid);
    if (ret + r->count != (int)N) c.fail(strf("%d values and %d errors for %zu texts", r->count, ret, N));
    if (!valid && r->count) c.fail("invalid pattern " + quote(pat) + " accepts " + quote(r->sval[0]));
    for (int i = 0; i < r->count; i++) c.mixz(r->sval[i]);
    for (int i = 0; i < r->count; i++) { bool own = false; for (auto& s : st) own |= s.p == r->sval[i]; if (!own) c.fail("a value is not one of the texts"); }
    LIBV(arg_freetable(tab, 2));
    if (c.trace) c.log("pattern " + quote(pat) + strf(": valid %d, accepted %d", valid, valid ? (int)N - ret : 0));
}
static void raw(std::vector<vf::Space>& S, const std::string& name, const std::string& al, unsigned len, const Texts& T, int flags = 0) {
    vf::Space s;
    s.name = name;
    s.n = vf::seq_count(al.size(), len);
    auto mk = [=](uint64_t i) { std::string r; for (int d : vf::seq_at(i, al.size(), len)) r += al[(size_t)d]; return r; };
    s.run = [=](uint64_t i, Case& c) { check(mk(i), flags, T, c); };
    s.desc = [=](uint64_t i) { return "pattern " + quote(mk(i)) + (flags ? " ignoring case" : ""); };
    S.push_back(s);
}
static void list(std::vector<vf::Space>& S, const std::string& name, uint64_t n, std::function<std::string(uint64_t)> mk, const Texts& T, int flags = 0) {
    vf::Space s;
    s.name = name;
    s.n = n;
    s.run = [=](uint64_t i, Case& c) { check(mk(i), flags, T, c); };
    s.desc = [=](uint64_t i) { return "pattern " + quote(mk(i)); };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C13";
    c.rule = "every pattern string up to the bound length over all metacharacters and a few letters, every byte in pattern templates, and patterns of growing length and nesting, each with a set of texts in exact-size heap blocks under AddressSanitizer and a time limit; an invalid pattern must accept nothing; outcomes are distinct by validity and accepted texts";
    c.assumptions = {"which patterns are valid is decided by the reference parser in harness/rex.hpp", "texts shorter than 65535 characters", "nesting up to the bound"};
    c.silent = false;
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        Texts T = {"", "a", "b", "ab", "aab", "ba", "-", "]", " ", "a a", "1", "aaaaaaaaaaaa", "\\", "a\n"};
        raw(S, "raw", "ab()[]|*+?.^$\\-{},1:d", q ? 4 : 5, T);
        raw(S, "raw-groups", "a()|*?:+", q ? 6 : 7, T);
        raw(S, "raw-classes", "a[]^-\\b", q ? 6 : 7, T);
        raw(S, "raw-counts", "a{},1*(0)", q ? 6 : 7, T);
        { static const std::string AL = "0129, b-+*}"; unsigned cl = q ? 5 : 6; list(S, "counts", vf::seq_count(AL.size(), cl) * 2, [=](uint64_t i) { std::string r = "a{"; for (int d : vf::seq_at(i / 2, AL.size(), cl)) r += AL[(size_t)d]; return r + (i % 2 ? "}b" : "}"); }, {"", "a", "aa", "b", "aab", "ab", "a{1b}"}); }
        raw(S, "raw-escapes", "\\bBdWa*", q ? 6 : 7, T);
        raw(S, "raw-ignore-case", "aB[]-\\^|*(d)", q ? 5 : 6, T, ARG_REX_ICASE);
        static const char* F[] = {"?", "\\?", "[?]", "[^?]", "[?-z]", "[a-?]", "(?", "a?", "a{?", "a{1?", "a{1,?", "a|?", "[\\?]", "(\\?)*", "a?b", "[?-?]", "[a-\\?]", "^?", "?$", "\\\\?", "a{?}", "(??", "(??:a)", "??"};
        list(S, "bytes", 255 * 24, [](uint64_t i) { std::string r = F[i / 255]; for (auto& x : r) if (x == '?') x = (char)(i % 255 + 1); return r; }, {"", "a", "zz", "~", "\xff", "\x80", "ab", "a{1", "\n"});
        Texts B = {""};
        for (int b = 1; b < 256; b++) { B.push_back(std::string(1, (char)b)); B.push_back(std::string("a") + (char)b); }
        static const std::vector<std::string> BP = {".", ".*", "a.", "\\w+", "\\W", "\\s*", "\\S+", "\\d", "\\D+", "\\x", "\\X", "\\c", "\\C", "\\p", "\\P+", "\\l", "\\u", "\\a", "\\A", "\\b.*", ".\\b", "a\\b.", ".*\\B", "\\B\\B", "\\b", "[^a]", "[a-z]", "[^\\d]*", "a[!-~]", "(.|a)*", "a.?", "$", "^", "^$", "a$.", ".{2}", ".{1,2}"};
        list(S, "texts", BP.size() * 2, [](uint64_t i) { return BP[i / 2]; }, B);
        list(S, "texts-ignore-case", BP.size(), [](uint64_t i) { return BP[i]; }, B, ARG_REX_ICASE);
        // growing patterns
        uint64_t n = q ? 60 : 200;
        Texts G = {"", "a", "ab", std::string(20, 'a'), std::string(100, 'a'), std::string(1000, 'a'), std::string(300, 'a') + "b", std::string(50, 'b')};
        // every length up to n, then lengths around powers of two
        static std::vector<size_t> K;
        for (size_t k = 1; k <= n; k++) K.push_back(k);
        for (size_t p2 = 64; p2 <= (q ? 512u : 2048u); p2 *= 2) for (size_t k : {p2 - 1, p2, p2 + 1, p2 + p2 / 4}) if (k > n) K.push_back(k);
        list(S, "lengths", K.size() * 14, [](uint64_t i) {
            size_t k = K[i / 14];
            std::string r;
            switch (i % 14) {
                case 0: return std::string(k, 'a');
                case 1: for (size_t j = 0; j < k; j++) r += "a*"; return r;
                case 2: for (size_t j = 0; j < k; j++) r += "(a)"; return r;
                case 3: return std::string(k, '(') + "a" + std::string(k, ')');
                case 4: return std::string(k, '(') + "a";
                case 5: return "a" + std::string(k, ')');
                case 6: for (size_t j = 0; j < k; j++) r += "a|"; return r + "b";
                case 7: return "[" + std::string(k, 'a') + "]";
                case 8: r = "["; for (size_t j = 0; j < k; j++) r += "a-c"; return r + "]";
                case 9: return "a{" + std::to_string(k * 37) + "}";
                case 10: return "a{" + std::to_string(k) + "," + std::to_string(k * 997) + "}";
                case 11: return "a{" + std::string(k, '0') + "1}";
                case 12: return std::string(k, '\\');
                default: for (size_t j = 0; j < k; j++) r += "(a|b)?"; return r;
            }
        }, G);
        // nested repetition
        uint64_t nn = q ? 5 : 7;
        list(S, "nested-repetition", vf::ipow(6, (unsigned)nn), [=](uint64_t i) { static const char* Q[] = {"", "*", "+", "?", "{2}", "{0,3}"}; std::string r = "a"; for (uint64_t k = 0; k < nn; k++) { r = "(" + r + ")" + Q[i % 6]; i /= 6; } return r; }, {"", "a", "aa", "aaaa", "aaaaaaaaa", "aab"});
        list(S, "big-counts", 64, [](uint64_t i) { static const char* N[] = {"0", "1", "65534", "65535", "65536", "99999", "4294967297", "18446744073709551617"}; return std::string("a{") + N[i % 8] + "," + N[i / 8] + "}"; }, {"", "a", "aa", std::string(500, 'a')});
        list(S, "big-exact-counts", 64, [](uint64_t i) { static const char* N[] = {"0", "1", "65534", "65535", "65536", "99999", "4294967297", "18446744073709551617"}; return std::string("(a{") + N[i % 8] + "}){" + N[i / 8] + "}"; }, {"", "a", "aa", std::string(500, 'a')});
    };
    return vf::run(c, argc, argv);
}
