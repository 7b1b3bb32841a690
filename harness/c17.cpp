// C17: the sort orders any range of any elements and touches nothing else.
#include "vf.hpp"
extern "C" {
#include "argtable3.h"
}
using vf::Case;
using vf::strf;

// compares the first byte (signed difference), or the two-byte key at the end of large elements
static int cmp_first(const void* a, const void* b) {
    return (int)*(const unsigned char*)a - (int)*(const unsigned char*)b;
}
static int cmp_rev(const void* a, const void* b) { return cmp_first(b, a); }
static int cmp_all_equal(const void*, const void*) { return 0; }
static int cmp_wide(const void* a, const void* b) { int d = cmp_first(a, b); return d < 0 ? INT_MIN : d > 0 ? INT_MAX : 0; }
static arg_comparefn* const CMP[] = {cmp_first, cmp_rev, cmp_all_equal, cmp_wide};
static const char* CN[] = {"ascending", "descending", "all equal", "ascending with extreme results"};

// sorts [lo, hi] of an exact-size array of n elements of es bytes; key of element j is keys[j], the other bytes identify it
static void sort_case(Case& c, const int* keys, int n, int es, int lo, int hi, int cf) {
    std::vector<std::string> el;
    for (int j = 0; j < n; j++) {
        std::string e((size_t)es, 0);
        for (int b = 0; b < es; b++) e[(size_t)b] = (char)(j * 31 + b + 1);
        e[0] = (char)keys[j];
        el.push_back(e);
    }
    char* a = (char*)malloc((size_t)(n * es) + (n * es == 0));
    for (int j = 0; j < n; j++) memcpy(a + j * es, el[(size_t)j].data(), (size_t)es);
    LIBV(arg_mgsort(a, n, es, lo, hi, CMP[cf]));
    c.steps++;
    std::vector<std::string> got;
    for (int j = 0; j < n; j++) got.push_back(std::string(a + j * es, (size_t)es));
    free(a);
    for (int j = 0; j < n; j++) if ((j < lo || j > hi) && got[(size_t)j] != el[(size_t)j]) { c.fail(strf("element %d, outside the range %d..%d, was changed", j, lo, hi)); return; }
    for (int j = lo; j < hi; j++) if (CMP[cf](got[(size_t)j].data(), got[(size_t)j + 1].data()) > 0) { c.fail(strf("elements %d and %d are out of order after sorting", j, j + 1)); return; }
    std::vector<std::string> x(el.begin() + lo, el.begin() + std::max(hi + 1, lo)), y(got.begin() + lo, got.begin() + std::max(hi + 1, lo));
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    if (x != y) c.fail("the sorted range does not hold the elements it held before");
    for (auto& g : got) c.mix(g.data(), g.size());
    c.mix(cf * 100 + lo * 10 + hi);
}
static const int ES[] = {1, 2, 3, 4, 8, 13, 24};
static void arrays(std::vector<vf::Space>& S, int n, int v, std::vector<int> es) {
    int nr = 0;
    std::vector<std::pair<int, int>> ranges;
    for (int lo = 0; lo < n; lo++) for (int hi = lo; hi < n; hi++) ranges.push_back({lo, hi});
    if (n > 5) { ranges.clear(); ranges = {{0, n - 1}, {1, n - 1}, {0, n - 2}, {2, n - 2}}; }
    nr = (int)ranges.size();
    vf::Space s;
    s.name = strf("arrays-%d", n);
    uint64_t na = vf::ipow((uint64_t)v, (unsigned)n);
    s.n = na * (uint64_t)nr * es.size() * 4;
    s.run = [=](uint64_t i, Case& c) {
        int k[16];
        vf::digits(i % na, (uint64_t)v, (unsigned)n, k);
        uint64_t j = i / na;
        auto r = ranges[j % (uint64_t)nr];
        j /= (uint64_t)nr;
        sort_case(c, k, n, ES[es[j % es.size()]], r.first, r.second, (int)(j / es.size()));
    };
    s.desc = [=](uint64_t i) {
        int k[16];
        vf::digits(i % na, (uint64_t)v, (unsigned)n, k);
        uint64_t j = i / na;
        auto r = ranges[j % (uint64_t)nr];
        j /= (uint64_t)nr;
        std::string t;
        for (int q = 0; q < n; q++) t += strf("%d ", k[q]);
        return strf("keys %s, elements of %d bytes, range %d..%d, %s", t.c_str(), ES[es[j % es.size()]], r.first, r.second, CN[j / es.size()]);
    };
    S.push_back(s);
}
// larger arrays: every length, several arrangements
static void large(std::vector<vf::Space>& S, int maxn) {
    vf::Space s;
    s.name = "lengths";
    s.n = (uint64_t)(maxn + 1) * 7 * 6 * 4;
    s.run = [=](uint64_t i, Case& c) {
        int cf = (int)(i % 4), a = (int)(i / 4 % 6), e = (int)(i / 24 % 7), n = (int)(i / 168);
        std::vector<int> k;
        for (int j = 0; j < n; j++) k.push_back(a == 0 ? j % 250 : a == 1 ? (n - j) % 250 : a == 2 ? j * 37 % 101 : a == 3 ? j % 2 : a == 4 ? (j == n / 2 ? 0 : 9) : (j * 7919 + n) % 13);
        if (n == 0) { k.push_back(0); sort_case(c, k.data(), 1, ES[e], 0, -1, cf); return; }
        sort_case(c, k.data(), n, ES[e], n > 4 ? a % 2 : 0, n - 1, cf);
    };
    s.desc = [=](uint64_t i) { return strf("%d elements of %d bytes, arrangement %d, %s", (int)(i / 168), ES[i / 24 % 7], (int)(i / 4 % 6), CN[i % 4]); };
    S.push_back(s);
}
// element sizes and totals around powers of two
static void big(std::vector<vf::Space>& S, bool thorough) {
    struct B { int n, es; };
    auto v = std::make_shared<std::vector<B>>();
    std::vector<int> ess = {1, 2, 3, 4, 7, 8, 16, 24, 32, 40, 64, 100, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100000};
    std::vector<long> totals = {128, 256, 1024, 4096, 32768, 65536, 131072};
    if (thorough) { totals.push_back(1 << 20); totals.push_back(1 << 22); }
    for (int es : ess) for (long t : totals) for (int d = -1; d <= 1; d++) {
        long n = t / es + d;
        if (n < 2 || n > (thorough ? 300000 : 70000)) continue;
        v->push_back({(int)n, es});
    }
    for (int es : ess) for (int n = 2; n < 6; n++) v->push_back({n, es});
    vf::Space s;
    s.name = "sizes";
    s.n = v->size() * 4;
    s.run = [=](uint64_t i, Case& c) {
        int a = (int)(i % 4);
        B b = (*v)[(size_t)(i / 4)];
        std::vector<int> k;
        if (b.n > 9000) {  // nearly ordered, so that a slower but correct method ends in time too
            for (int j = 0; j < b.n; j++) k.push_back(2 + (int)((long)j * 250 / b.n));
            for (int j = 0; j < 5; j++) {
                if (a == 1) k[(size_t)(b.n - 1 - j)] = j % 2;
                if (a == 2) k[(size_t)j] = 253 - j % 2;
                if (a == 3) std::swap(k[(size_t)(b.n / 3 + j)], k[(size_t)(b.n / 3 * 2 + j * 7)]);
            }
        }
        else for (int j = 0; j < b.n; j++) k.push_back(a == 0 ? j * 250 / b.n : a == 1 ? (b.n - j) * 250 / b.n : a == 2 ? j * 37 % 101 : (j * 7919 + b.n) % 13);
        sort_case(c, k.data(), b.n, b.es, a == 3 ? 1 : 0, b.n - (a == 2 ? 2 : 1), 0);
    };
    s.desc = [=](uint64_t i) { return strf("%d elements of %d bytes, arrangement %d", (*v)[(size_t)(i / 4)].n, (*v)[(size_t)(i / 4)].es, (int)(i % 4)); };
    S.push_back(s);
}
int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C17";
    c.rule = "every array over the key values 0..3 up to the bound length, all ranges for lengths up to 5, element sizes from 1 to 24 bytes, four comparison functions; every length up to the bound with six arrangements, element sizes up to 100000 bytes and totals around powers of two with four arrangements; the result must be an ordered permutation of the range, the rest unchanged; outcomes are distinct by the bytes of the array afterwards";
    c.assumptions = {"comparison functions are consistent orders", "the order of equal elements is not promised"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        for (int n = 1; n <= 4; n++) arrays(S, n, 4, {0, 1, 2, 3, 4, 5, 6});
        arrays(S, 5, 4, {0, 2, 4, 6});
        arrays(S, 6, 4, {0, 4, 5});
        arrays(S, 7, 4, {3});
        if (!q) { arrays(S, 8, 4, {3, 5}); arrays(S, 9, 3, {4, 5}); arrays(S, 10, 3, {0, 4}); }
        large(S, q ? 150 : 1200);
        big(S, !q);
    };
    return vf::run(c, argc, argv);
}
