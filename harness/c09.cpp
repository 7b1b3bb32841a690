// C09: floating-point arguments.
#include "pm.hpp"
using namespace pm;

static void check(const std::string& s, int how, Case& c) {
    if (how == 1 && s.empty()) return;
    static struct arg_dbl* it = arg_dbln("d", "dbl", nullptr, 0, 3, nullptr);
    static struct arg_dbl* un = arg_dbln(nullptr, nullptr, nullptr, 0, 3, nullptr);
    static struct arg_end* end = arg_end(8);
    static void* t1[] = {it, end};
    static void* t2[] = {un, end};
    std::string tok = how == 1 ? "-d" + s : how == 2 ? "--dbl=" + s : s;
    vf::Str x(tok);
    static char prog[] = "prog", o[] = "-d", seven[] = "7", dd[] = "--";
    char* a0[] = {prog, o, seven, o, x.p, nullptr};
    char* a1[] = {prog, o, seven, x.p, nullptr};
    char* a3[] = {prog, seven, dd, x.p, nullptr};
    struct arg_dbl* e = how == 3 ? un : it;
    const double SENT = 1.2345678912345e-77, SEV = 7;
    e->dval[0] = e->dval[1] = e->dval[2] = SENT;
    int ret = LIB(how == 0 ? arg_parse(5, a0, t1) : how == 3 ? arg_parse(4, a3, t2) : arg_parse(4, a1, t1));
    c.steps++;
    double v = 0;
    int rc = conv::model_dbl(s.c_str(), &v);
    c.mix(rc);
    if (e->count > 1) c.mix(&e->dval[1], sizeof(double));
    if (memcmp(&e->dval[0], &SEV, sizeof SEV)) c.fail(strf("the value before it became %.17g", e->dval[0]));
    if (rc == 0) {
        if (ret || e->count != 2) c.fail(strf("not accepted (code %d), expected %.17g", ret ? end->error[0] : 0, v));
        else if (memcmp(&e->dval[1], &v, sizeof v)) c.fail(strf("stored as %.17g (%a), expected %.17g (%a)", e->dval[1], e->dval[1], v, v));
    } else {
        int want = how == 2 && s.empty() ? 2 : 1;
        if (ret != want || end->error[want - 1] != rc || end->parent[want - 1] != e) c.fail(ret ? strf("rejected with code %d, expected bad double", end->error[0]) : strf("accepted as %.17g, expected a rejection", e->dval[1]));
        else if (e->count != 1 || memcmp(&e->dval[1], &SENT, sizeof SENT)) c.fail(strf("rejected, but count is %d and the next value %.17g", e->count, e->dval[1]));
    }
    if (memcmp(&e->dval[2], &SENT, sizeof SENT)) c.fail("a value beyond the last was written");
    if (c.trace) c.log("text " + quote(s) + strf(": returned %d, count %d, model code %d value %.17g", ret, e->count, rc, v));
}
static void list(std::vector<vf::Space>& S, const std::string& name, uint64_t n, std::function<std::string(uint64_t)> mk, bool all) {
    vf::Space s;
    s.name = name;
    s.n = n * (all ? 4 : 1);
    s.run = [=](uint64_t i, Case& c) { check(mk(all ? i / 4 : i), all ? (int)(i % 4) : 0, c); };
    s.desc = [=](uint64_t i) { return "text " + quote(mk(all ? i / 4 : i)) + (all ? strf(" delivery %d", (int)(i % 4)) : ""); };
    S.push_back(s);
}
static void strings(std::vector<vf::Space>& S, const char* name, const std::string& A, unsigned len) {
    list(S, name, vf::seq_count(A.size(), len), [=](uint64_t i) { std::string r; for (int d : vf::seq_at(i, A.size(), len)) r += A[(size_t)d]; return r; }, false);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C09";
    c.rule = "every string up to the bound length over an alphabet of digits, points, exponents, signs, hexadecimal, infinity and NaN letters and white space; products of mantissas and exponents through and beyond the range of double; every byte at every position of number templates; outcomes are distinct by verdict and stored bits";
    c.assumptions = {"strtod of the C library, in the C locale, defines the value"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        strings(S, "strings", "015.eE+-x \t", q ? 6 : 7);
        strings(S, "strings-words", "infaty-()1", q ? 6 : 7);
        strings(S, "strings-short", "0123456789.eEpPxXaAfFiInNtTyY()_+- \t\n,zd", q ? 3 : 4);
        strings(S, "strings-long", "01.e-x", q ? 8 : 9);
        static const std::vector<std::string> MAN = {"0", "1", "9", "-0", "-1", "+3", "0.1", ".5", "5.", "1.7976931348623157", "1.7976931348623158", "1.7976931348623159", "2.2250738585072014", "2.2250738585072011", "4.9406564584124654", "2.4703282292062327", "2.4703282292062328", "123456789012345678901234567890", "0.000000000000000000000000000001", "9007199254740993", "0x1", "0x1.8", "0x1.fffffffffffff8", "0x.0000000000001", "0x1.fffffffffffff7", "-1.5"};
        list(S, "exponents", MAN.size() * 1601 * 2, [](uint64_t i) { auto& m = MAN[i / 3202]; uint64_t k = i % 3202; bool hex = m.find('x') != std::string::npos; return m + (hex ? (k & 1 ? "P" : "p") : (k & 1 ? "E" : "e")) + std::to_string((int)(k / 2) - 800); }, false);
        static const std::vector<std::string> W = {"inf", "INF", "Inf", "infinity", "INFINITY", "infinit", "infi", "nan", "NAN", "NaN", "nan()", "nan(1)", "nan(abc)", "nan(0x7)", "nan(", "na", "-inf", "+nan", "-nan", "- 1", "1 ", " 1", "\t\n\v\f\r 1", "", " ", "+", "-", ".", "e5", "1e", "1e+", "1e5x", "0x", "0xg", "0x.p1", "1,5", "1_0", "0b1", "1d5", "1f", "1.0.0", "--1", "++1", "1e5.5", "0x1p", "1KB", "1%", "0x1p+5", "infinityx", "nanx"};
        list(S, "words", W.size(), [](uint64_t i) { return W[i]; }, true);
        static const char* F[] = {"?1", "1?", "1?2", "?", "1.?", ".?", "1e?", "1e5?", "0?1", "0x?", "0x1?2", "in?", "na?", "nan(?)", "-?1", " ?1", "1.5?", "1e?5"};
        list(S, "bytes", 255 * 18, [](uint64_t i) { std::string r = F[i / 255]; for (auto& x : r) if (x == '?') x = (char)(i % 255 + 1); return r; }, true);
        auto pt = vf::points(q ? 400 : 1200, q ? 16384 : 65536);
        list(S, "lengths", pt.size() * 8, [pt](uint64_t i) {
            size_t k = (size_t)pt[i / 8];
            switch (i % 8) {
                case 6: return "1e" + std::string(k, '0') + "5";
                case 7: return "1" + std::string(k, '0') + "e-" + std::to_string(k);
                case 0: return std::string(k, '9');
                case 1: return "0." + std::string(k, '0') + "1";
                case 2: return "1." + std::string(k, '3');
                case 3: return std::string(k, '0') + "1." + std::string(k, '0') + "e2";
                case 4: return "0x" + std::string(k, 'f');
                default: return std::string(k, ' ') + "1";
            }
        }, false);
        list(S, "integers", q ? 20001 : 200001, [=](uint64_t i) { return std::to_string((long)i - 10000) + "." + std::to_string(i * 7919 % 1000); }, true);
    };
    return vf::run(c, argc, argv);
}
