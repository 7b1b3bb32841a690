// C15: the hash table is a faithful map under every operation sequence.
#include "vf.hpp"
#include <map>
#include <set>
extern "C" {
#include "argtable3.h"
#include "argtable3_private.h"
}
using vf::Case;
using vf::strf;

static unsigned h_id(const void* k) { return *(const unsigned*)k; }
static unsigned h_const(const void*) { return 7; }
static unsigned h_mod2(const void* k) { return *(const unsigned*)k % 2; }
static unsigned h_high(const void* k) { return *(const unsigned*)k << 28 | 5; }
static unsigned h_mod10(const void* k) { return *(const unsigned*)k % 10 * 1000003u; }
static unsigned h_spread(const void* k) { return *(const unsigned*)k * 2654435761u ^ 0x80000001u; }
static int eq(const void* a, const void* b) { return *(const unsigned*)a == *(const unsigned*)b; }
typedef unsigned (*hashfn)(const void*);
static const hashfn HF[] = {h_id, h_const, h_mod2, h_high, h_mod10};
static const char* HN[] = {"distinct", "constant", "two-valued", "high bits", "ten-valued"};
static const int NH = 5;

struct M {
    arg_hashtable_t* h;
    std::map<unsigned, void*> want;
    explicit M(hashfn f, unsigned minsize = 3) { h = LIB(arg_hashtable_create(minsize, f, eq)); }
    static void* block(unsigned v) { vf::InLib g; unsigned* p = (unsigned*)malloc(sizeof v); *p = v; return p; }
    static void drop(void* p) { vf::InLib g; free(p); }
    bool has(unsigned k) { return want.count(k) > 0; }
    void insert(unsigned k, unsigned v) { void* kb = block(k); void* vb = block(v); LIBV(arg_hashtable_insert(h, kb, vb)); want[k] = vb; }
    void remove(unsigned k) { LIBV(arg_hashtable_remove(h, &k)); want.erase(k); }
    void change(Case& c, unsigned k, unsigned v) {
        void* vb = block(v);
        int r = LIB(arg_hashtable_change(h, &k, vb));
        if (has(k)) { if (!r) c.fail(strf("changing the value of the present key %u reports failure", k)); want[k] = vb; }
        else { if (r) c.fail(strf("changing the value of the absent key %u reports success", k)); else drop(vb); }
    }
    void check(Case& c, unsigned nkeys, unsigned off = 0) {
        if (c.failed) return;
        unsigned n = LIB(arg_hashtable_count(h));
        if (n != want.size()) { c.fail(strf("the count is %u with %zu entries", n, want.size())); return; }
        for (unsigned k = off; k < off + nkeys; k++) {
            void* v = LIB(arg_hashtable_search(h, &k));
            auto w = want.find(k);
            if (v != (w == want.end() ? nullptr : w->second)) { c.fail(strf("looking up key %u gives %s", k, !v ? "nothing although it is present" : w == want.end() ? "a value although it is absent" : "a value other than the one last stored")); return; }
        }
        walk(c, 0, 0);
    }
    // iterates; bit i of rm says whether the i-th visited entry is removed. stop: leave the iteration after that many (0: all)
    void walk(Case& c, uint64_t rm, unsigned stop) {
        if (c.failed) return;
        arg_hashtable_itr_t* it = LIB(arg_hashtable_itr_create(h));
        std::set<unsigned> seen;
        unsigned n = (unsigned)want.size(), i = 0;
        for (; i < n && !(stop && i >= stop); i++) {
            void* kp = LIB(arg_hashtable_itr_key(it));
            unsigned k = *(unsigned*)kp;
            void* v = LIB(arg_hashtable_itr_value(it));
            auto w = want.find(k);
            if (w == want.end()) { c.fail(strf("the iteration shows key %u, which is not present", k)); break; }
            if (w->second != v) { c.fail(strf("the iteration shows a wrong value for key %u", k)); break; }
            if (!seen.insert(k).second) { c.fail(strf("the iteration shows key %u twice", k)); break; }
            int r;
            if (i < 64 && (rm >> i & 1)) { r = LIB(arg_hashtable_itr_remove(it)); want.erase(k); }
            else r = LIB(arg_hashtable_itr_advance(it));
            if (!r != (i + 1 == n)) { c.fail(strf("the iteration says %s after %u of %u entries", r ? "there is more" : "it is over", i + 1, n)); break; }
        }
        if (!c.failed && n == 0 && LIB(arg_hashtable_itr_advance(it))) c.fail("iterating over an empty table advances");
        LIBV(arg_hashtable_itr_destroy(it));
    }
    // positions an iterator on key k, removes there or only advances, and checks the rest of the walk is consistent
    void at(Case& c, unsigned k, bool rm) {
        if (c.failed) return;
        arg_hashtable_itr_t* it = LIB(arg_hashtable_itr_create(h));
        int r = LIB(arg_hashtable_itr_search(it, h, &k));
        if (!!r != has(k)) c.fail(strf("positioning on the %s key %u reports %s", has(k) ? "present" : "absent", k, r ? "success" : "failure"));
        else if (r) {
            void* kp = LIB(arg_hashtable_itr_key(it));
            if (*(unsigned*)kp != k) c.fail("the iterator is positioned on another key");
            else if (LIB(arg_hashtable_itr_value(it)) != want[k]) c.fail("the iterator is positioned on another value");
            else {
                std::set<unsigned> seen;
                seen.insert(k);
                int m;
                if (rm) { m = LIB(arg_hashtable_itr_remove(it)); want.erase(k); } else m = LIB(arg_hashtable_itr_advance(it));
                while (m && !c.failed) {
                    void* q = LIB(arg_hashtable_itr_key(it));
                    unsigned kk = *(unsigned*)q;
                    if (!want.count(kk)) c.fail("the iteration shows a key that is not present");
                    else if (!seen.insert(kk).second) c.fail("the iteration shows a key twice");
                    else m = LIB(arg_hashtable_itr_advance(it));
                }
            }
        }
        LIBV(arg_hashtable_itr_destroy(it));
    }
    void done(bool free_values) {
        LIBV(arg_hashtable_destroy(h, free_values));
        if (!free_values) for (auto& w : want) drop(w.second);
    }
};

static void op(M& m, Case& c, int o, unsigned K, unsigned v) {
    unsigned k = (unsigned)o % K;
    switch (o / (int)K) {
        case 0: if (m.has(k)) m.change(c, k, v); else m.insert(k, v); break;
        case 1: m.remove(k); break;
        case 2: m.change(c, k, v); break;
        case 3: m.walk(c, 1ull << k, k + 1); break;     // remove the k-th visited entry and leave
        case 4: m.at(c, k, true); break;
        case 5: m.at(c, k, false); break;
    }
}
static std::string opname(int o, unsigned K) {
    static const char* N[] = {"store key", "remove key", "change key", "iterate and remove entry", "position, remove and iterate from key", "position and iterate from key"};
    return strf("%s %u", N[o / (int)K], (unsigned)o % K);
}
static void sequences(std::vector<vf::Space>& S, unsigned K, unsigned len, std::vector<int> hs) {
    vf::Space s;
    unsigned nops = K * 6;
    uint64_t per = vf::ipow(nops, len);
    s.name = strf("sequences-k%u-l%u", K, len);
    s.n = per * hs.size() * 2;
    s.run = [=](uint64_t i, Case& c) {
        int d[12];
        bool fv = i % 2;
        uint64_t j = i / 2;
        vf::digits(j % per, nops, len, d);
        M m(HF[hs[j / per]]);
        for (unsigned k = 0; k < len && !c.failed; k++) { op(m, c, d[k], K, k); m.check(c, K); c.steps++; uint64_t b = 0; for (auto& w : m.want) b = b * 131 + w.first * 17 + *(unsigned*)w.second; c.mix(b); }
        m.done(fv);
    };
    s.desc = [=](uint64_t i) { int d[12]; uint64_t j = i / 2; vf::digits(j % per, nops, len, d); std::string r = strf("%s hash: ", HN[hs[j / per]]); for (unsigned k = 0; k < len; k++) r += opname(d[k], K) + "; "; return r + (i % 2 ? "destroy with values" : "destroy without values"); };
    S.push_back(s);
}
// every subset of entries removed during one iteration
static void subsets(std::vector<vf::Space>& S, unsigned maxn) {
    uint64_t tot = 0;
    std::vector<uint64_t> base;
    for (unsigned n = 0; n <= maxn; n++) { base.push_back(tot); tot += 1ull << n; }
    vf::Space s;
    s.name = "remove-while-iterating";
    s.n = tot * NH;
    auto dec = [=](uint64_t i, unsigned& n, uint64_t& mask) { i /= NH; n = maxn; while (base[n] > i) n--; mask = i - base[n]; };
    s.run = [=](uint64_t i, Case& c) {
        unsigned n; uint64_t mask;
        dec(i, n, mask);
        M m(HF[i % NH]);
        for (unsigned k = 0; k < n; k++) m.insert(k, k);
        m.walk(c, mask, 0);
        m.check(c, n + 1);
        for (unsigned k = 0; k < n && !c.failed; k++) if (!m.has(k)) { m.insert(k, 100 + k); c.steps++; }
        m.check(c, n + 1);
        c.mix((int)n * 64 + (int)(i % NH)); c.mix(mask);
        m.done(true);
    };
    s.desc = [=](uint64_t i) { unsigned n; uint64_t mask; dec(i, n, mask); return strf("%s hash, %u entries, removal mask %llx", HN[i % NH], n, (unsigned long long)mask); };
    S.push_back(s);
}
// growth: every number of entries, then removal by key or iterator, then growth again
static void ladder(std::vector<vf::Space>& S, unsigned maxn, bool sizes) {
    static const unsigned MS[] = {0, 3, 52, 53, 96, 97, 300};
    const unsigned NM = sizes ? 7 : 1, NV = 6;
    vf::Space s;
    s.name = sizes ? "growth-by-minimum-size" : "growth";
    s.n = (uint64_t)(maxn + 1) * NH * NV * NM;
    s.chunk = 64;
    s.run = [=](uint64_t i, Case& c) {
        unsigned h = (unsigned)(i % NH), v = (unsigned)(i / NH % NV), ms = sizes ? MS[i / NH / NV % NM] : 32, n = (unsigned)(i / NH / NV / NM);
        M m(HF[h], ms);
        for (unsigned k = 0; k < n; k++) {
            m.insert(k, k);
            unsigned kk = k;
            if (LIB(arg_hashtable_search(m.h, &kk)) != m.want[k]) c.fail(strf("key %u is not found right after it was stored", k));
        }
        c.steps += n;
        m.check(c, n + 2);
        switch (v) {
            case 0: break;
            case 1: for (unsigned k = 0; k < n; k += 2) m.remove(k); break;
            case 2: for (unsigned k = n; k-- > 0;) if (k % 3) m.remove(k); break;
            case 3: m.walk(c, 0x5555555555555555ull, 60); break;
            case 4: for (unsigned k = 0; k < n; k++) if (k % 5 == 1) m.change(c, k, k + 7); break;
            case 5: for (unsigned k = 0; k < n; k++) m.remove(k); break;
        }
        m.check(c, n + 2);
        for (unsigned k = n; k < n + 30 && !c.failed; k++) m.insert(k, k);
        m.check(c, n + 32);
        c.mix((int)i);
        m.done(v % 2);
    };
    s.desc = [=](uint64_t i) { return strf("%s hash, minimum size %u, store %u entries, removal variant %u, store 30 more", HN[i % NH], sizes ? MS[i / NH / NV % NM] : 32, (unsigned)(i / NH / NV / NM), (unsigned)(i / NH % NV)); };
    S.push_back(s);
}
// sizes far beyond, with the distinct hash, around the points where the table grows (65 % of the next size) and others
static void far(std::vector<vf::Space>& S, bool thorough) {
    auto pt = std::make_shared<std::vector<unsigned>>();
    for (unsigned p : {769u, 1543u, 3079u, 6151u, 12289u, 24593u, 49157u, 98317u, 196613u, 393241u})
        if (thorough || p < 100000) for (int d = -1; d <= 2; d++) pt->push_back((unsigned)((double)p * 0.65) + (unsigned)d);
    for (unsigned p : {1024u, 4096u, 32768u, 65536u}) { pt->push_back(p - 1); pt->push_back(p); pt->push_back(p + 1); }
    const unsigned NV = 5;
    vf::Space s;
    s.name = "far-growth";
    s.n = pt->size() * NV * 2;
    s.chunk = 1;
    s.run = [=](uint64_t i, Case& c) {
        unsigned v = (unsigned)(i % NV), n = (*pt)[i / NV / 2];
        if (!thorough && n > 20000 && (i / NV % 2 || v % 3 != 2)) return;
        M m(i / NV % 2 ? h_spread : h_id, v == 3 ? n : 32);
        for (unsigned k = 0; k < n; k++) m.insert(k, k);
        c.steps += n;
        m.check(c, n + 2);
        switch (v) {
            case 1: for (unsigned k = 0; k < n; k += 2) m.remove(k); break;
            case 2: for (unsigned k = n; k-- > 0;) if (k % 3) m.remove(k); break;
            case 4: m.walk(c, ~0ull, 64); break;
        }
        if (v) m.check(c, n + 2);
        for (unsigned k = n; k < n + 5 && !c.failed; k++) m.insert(k, k);
        m.check(c, n + 32);
        c.mix((int)i);
        m.done(v % 2);
    };
    s.desc = [=](uint64_t i) { return strf("%s hash, store %u entries, variant %u", i / NV % 2 ? "spread" : "distinct", (*pt)[i / NV / 2], (unsigned)(i % NV)); };
    S.push_back(s);
}
// tables made for many entries
static void capacities(std::vector<vf::Space>& S, bool thorough) {
    auto pt = std::make_shared<std::vector<unsigned>>();
    for (unsigned p = 1; p <= (thorough ? 1u << 26 : 1u << 21); p *= 2) for (int d = -1; d <= 1; d++) pt->push_back(p + (unsigned)d);
    vf::Space s;
    s.name = "capacities";
    s.n = pt->size() * 2;
    s.chunk = 1;
    s.run = [=](uint64_t i, Case& c) {
        M m(i % 2 ? h_spread : h_id, (*pt)[i / 2]);
        if (!m.h) { c.fail("no table was made"); return; }
        for (unsigned k = 0; k < 100; k++) m.insert(k, k);
        m.check(c, 102);
        for (unsigned k = 0; k < 100; k += 3) m.remove(k);
        m.check(c, 102);
        m.walk(c, 0x5555555555555555ull, 60);
        m.check(c, 102);
        c.steps += 100;
        c.mix((int)i);
        m.done(i / 2 % 2);
    };
    s.desc = [=](uint64_t i) { return strf("%s hash, minimum size %u, store 100 entries, remove some, iterate", i % 2 ? "spread" : "distinct", (*pt)[i / 2]); };
    S.push_back(s);
}
// keys whose hashes differ but share a bucket (by the present mixing function; harmless if that changes)
static std::vector<unsigned> bucketmates(unsigned n) {
    std::vector<unsigned> r;
    for (unsigned k = 0; r.size() < n; k++) {
        unsigned i = k;
        i += ~(i << 9); i ^= ((i >> 14) | (i << 18)); i += (i << 4); i ^= ((i >> 10) | (i << 22));
        if (i % 53 == 11) r.push_back(k);
    }
    return r;
}
static void mates(std::vector<vf::Space>& S, unsigned len) {
    std::vector<unsigned> ks = bucketmates(4);
    vf::Space s;
    s.name = "same-bucket";
    s.n = vf::ipow(16, len);
    s.run = [=](uint64_t i, Case& c) {
        int d[12];
        vf::digits(i, 16, len, d);
        M m(h_id);
        for (unsigned q = 0; q < len && !c.failed; q++) {
            unsigned k = ks[(size_t)d[q] % 4];
            switch (d[q] / 4) { case 0: if (!m.has(k)) m.insert(k, q); else m.change(c, k, q); break; case 1: m.remove(k); break; case 2: m.at(c, k, true); break; case 3: m.walk(c, 1ull << (d[q] % 4), (unsigned)d[q] % 4 + 1); break; }
            for (unsigned x : ks) m.check(c, 1, x);
            c.steps++;
            c.mix((int)m.want.size());
            for (auto& w : m.want) c.mix((int)w.first);
        }
        m.done(true);
    };
    s.desc = [=](uint64_t i) { int d[12]; vf::digits(i, 16, len, d); std::string r; for (unsigned q = 0; q < len; q++) r += strf("%s %u; ", d[q] / 4 == 0 ? "store" : d[q] / 4 == 1 ? "remove" : d[q] / 4 == 2 ? "position and remove" : "iterate and remove entry", d[q] / 4 == 3 ? (unsigned)d[q] % 4 : ks[(size_t)d[q] % 4]); return r; };
    S.push_back(s);
}

// one iterator used again and again, on two tables
static void iterators(std::vector<vf::Space>& S, unsigned len) {
    static const char* N[] = {"advance", "remove", "position on key 0 of the first", "position on key 1 of the first", "position on key 1 of the second", "position on key 2 of the second", "position on an absent key", "position on key 2 of the first"};
    const unsigned NO = 8;
    vf::Space s;
    uint64_t per = vf::ipow(NO, len);
    s.name = strf("one-iterator-%u", len);
    s.n = per * 5 * 2;
    s.run = [=](uint64_t i, Case& c) {
        int d[10];
        vf::digits(i % per, NO, len, d);
        M a(HF[i / per % 5]), b(HF[i / per % 5]);
        for (unsigned k = 0; k < 4; k++) { a.insert(k, k); b.insert(k, k + 10); }
        if (i / per / 5) for (unsigned k = 4; k < 60; k++) b.insert(k, k);  // the second one has grown
        M* m = &a;
        arg_hashtable_itr_t* it = LIB(arg_hashtable_itr_create(a.h));
        bool at = true;
        std::set<unsigned> seen;
        auto here = [&]() {
            if (!at || c.failed) return;
            unsigned k = *(unsigned*)LIB(arg_hashtable_itr_key(it));
            void* v = LIB(arg_hashtable_itr_value(it));
            c.mix((int)k);
            if (!m->has(k)) c.fail(strf("the iterator shows key %u, which is not present", k));
            else if (m->want[k] != v) c.fail(strf("the iterator shows a wrong value for key %u", k));
            else if (!seen.insert(k).second) c.fail(strf("the iterator shows key %u twice", k));
        };
        here();
        for (unsigned q = 0; q < len && !c.failed; q++) {
            c.steps++;
            if (d[q] == 0) { at = LIB(arg_hashtable_itr_advance(it)) != 0; here(); }
            else if (d[q] == 1) {
                if (!at) continue;
                unsigned k = *(unsigned*)LIB(arg_hashtable_itr_key(it));
                m->want.erase(k);
                at = LIB(arg_hashtable_itr_remove(it)) != 0;
                here();
            } else {
                static const unsigned K[] = {0, 1, 1, 2, 999, 2};
                unsigned k = K[d[q] - 2];
                M* x = d[q] == 4 || d[q] == 5 ? &b : &a;
                int r = LIB(arg_hashtable_itr_search(it, x->h, &k));
                if (!!r != x->has(k)) c.fail(strf("positioning on the %s key %u reports %s", x->has(k) ? "present" : "absent", k, r ? "success" : "failure"));
                else if (r) { m = x; at = true; seen.clear(); here(); if (!c.failed && !seen.count(k)) c.fail("the iterator is positioned on another key"); }
            }
        }
        LIBV(arg_hashtable_itr_destroy(it));
        a.check(c, 5);
        b.check(c, 62);
        a.done(true);
        b.done(true);
    };
    s.desc = [=](uint64_t i) { int d[10]; vf::digits(i % per, NO, len, d); std::string r = strf("%s hash%s: ", HN[i / per % 5], i / per / 5 ? ", the second table grown" : ""); for (unsigned q = 0; q < len; q++) r += std::string(N[d[q]]) + "; "; return r; };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C15";
    c.rule = "every sequence of the bound length over storing, removing, changing, iterating with removal and positioning, for five hash functions from collision-free to constant; every sequence of advancing, removing and positioning with one iterator on two tables; every subset of entries removed in one iteration; every number of entries up to the bound across the growth steps; after each operation count, all lookups and a full iteration are compared with a std::map; outcomes are distinct by the sequence of map contents";
    c.assumptions = {"keys are unique (the documented use)", "no insertion while an iterator is in use"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        for (unsigned l = 1; l <= 4; l++) sequences(S, 3, l, {0, 1, 2, 3, 4});
        if (!q) { sequences(S, 3, 5, {0, 1, 2}); sequences(S, 4, 4, {0, 1, 2}); }
        mates(S, q ? 4 : 5);
        for (unsigned l = 1; l <= (q ? 5u : 6u); l++) iterators(S, l);
        subsets(S, q ? 12 : 17);
        ladder(S, q ? 420 : 1600, false);
        ladder(S, q ? 110 : 420, true);
        far(S, !q);
        capacities(S, !q);
    };
    return vf::run(c, argc, argv);
}
