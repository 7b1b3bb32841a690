// C04: an error table of any capacity keeps the first errors and flags overflow.
#include "pm.hpp"
using namespace pm;
static const int WHAT = M_ERRS;

static void lines(std::vector<vf::Space>& S, unsigned len) {
    auto f = std::make_shared<Family>();
    for (int cap = 1; cap <= 6; cap++) {
        Table t;
        t.cap = cap;
        t.e = {{LIT, "a", nullptr, 0, 1}, {INT, "i", "int", 0, 2}, {STR, nullptr, nullptr, 0, 1}};
        auto al = TS({"-a", "-i1", "-ix", "--int=", "--zz", "-z", "-zy", "op", "-i"});
        f->add(t, al, len);
        Table u;
        u.cap = cap;
        u.e = {{LIT, "a", nullptr, 1, 1}, {INT, "i", nullptr, 1, 2}, {STR, "s", nullptr, 1, 2}, {DBL, nullptr, "dbl", 1, 1}, {REX, nullptr, "rex", 1, 1}, {FIL, nullptr, nullptr, 1, 1}, {DATE, nullptr, "date", 1, 1}};
        f->add(u, TS({"-a", "-i1", "-s", "--dbl=1", "--rex=a", "op", "--date=2001-02-03"}), len);
    }
    S.push_back(family_space("lines", f, WHAT));
}
// n errors of one kind, or two kinds one after the other, for every capacity
// (far: capacities up to a much larger bound, with numbers of errors around the capacity only)
static void ladder(std::vector<vf::Space>& S, int maxcap, int maxerr, bool far = false) {
    vf::Space s;
    const int KINDS = 8;
    s.name = far ? "ladder-far" : "ladder";
    auto pt = std::make_shared<std::vector<int>>(vf::points(far ? maxcap : 0, far ? maxerr : 0));
    s.n = far ? pt->size() * 4 * KINDS * 3 : (uint64_t)maxcap * (uint64_t)(maxerr + 1) * KINDS * 3;
    auto mk = [=](uint64_t i, int& cap, int& n, int& kind, int& second) {
        if (far) {
            second = (int)(i % 3); i /= 3;
            kind = (int)(i % KINDS); i /= KINDS;
            cap = (*pt)[i / 4];
            n = cap + (i % 4 < 3 ? (int)(i % 4) - 1 : 30);
            if (kind == 4) n++;
            return;
        }
        second = (int)(i % 3); i /= 3;
        kind = (int)(i % KINDS); i /= KINDS;
        n = (int)(i % (uint64_t)(maxerr + 1)); i /= (uint64_t)(maxerr + 1);
        cap = (int)i + 1;
    };
    s.run = [=](uint64_t i, Case& c) {
        int cap, n, kind, second;
        mk(i, cap, n, kind, second);
        Table t;
        t.cap = cap;
        std::vector<std::string> nm((size_t)n);
        std::vector<vf::Str> toks;
        toks.reserve((size_t)n * 2 + 8);
        t.e.push_back({LIT, "a", "alpha", 0, 1});
        t.e.push_back({INT, "i", "int", 0, 10000});
        t.e.push_back({INT, nullptr, nullptr, 0, 10000});
        for (int k = 0; k < n; k++) switch (kind) {
            case 0: toks.emplace_back(strf("--unknown%d", k)); break;
            case 1: toks.emplace_back(strf("-%c", "bcdefghj"[k % 8])); break;
            case 2: toks.emplace_back(strf("-ix%d", k)); break;
            case 3: toks.emplace_back(strf("op%d", k)); break;
            case 4: toks.emplace_back("-a"); break;   // first is fine, the rest are excess
            case 5: if (!k) toks.emplace_back("-" + std::string((size_t)n, 'b')); break;
            case 6: toks.emplace_back("--int="); break;  // two errors each
            case 7: nm[(size_t)k] = strf("m%d", k); t.e.push_back({k % 2 ? STR : LIT, nullptr, nm[(size_t)k].c_str(), 1, 1}); break;
        }
        if (second == 1) toks.emplace_back("--last");
        if (second == 2) { toks.emplace_back("lastop"); toks.emplace_back("-i"); }
        std::vector<const char*> line;
        for (auto& x : toks) line.push_back(x.p);
        Real R(t);
        check_parse(R, line, false, WHAT, c);
        check_parse(R, line, false, WHAT, c);  // and again with the same table
        if (!line.empty()) { line.pop_back(); check_parse(R, line, false, WHAT, c); }
    };
    s.desc = [=](uint64_t i) { int cap, n, kind, second; mk(i, cap, n, kind, second); return strf("capacity %d, %d errors of kind %d, followed by variant %d", cap, n, kind, second); };
    S.push_back(s);
}

// large capacities, with a few errors, and with as many errors as there is room for (or one more or less)
static void large(std::vector<vf::Space>& S, int max, int full) {
    auto v = std::make_shared<std::vector<std::pair<int, int>>>();  // capacity, errors
    for (int cap : vf::points(0, max)) {
        for (int n = 0; n < 4; n++) v->push_back({cap, n});
        if (cap <= full && cap > 4) for (int n = cap - 1; n <= cap + 2; n++) v->push_back({cap, n});
    }
    vf::Space s;
    s.name = "large-capacities";
    s.n = v->size() * 4;
    s.run = [=](uint64_t i, Case& c) {
        int cap = (*v)[i / 4].first, n = (*v)[i / 4].second, how = (int)(i % 4);
        Table t;
        t.cap = cap;
        t.e = {{LIT, "a", "alpha", 0, 1}, {INT, "i", "int", 0, 1}};
        std::vector<vf::Str> toks;
        if (how == 0 || n > 4) { if (n) toks.emplace_back("-" + std::string((size_t)n, 'b')); }  // one cluster of unknown options
        else for (int k = 0; k < n; k++) toks.emplace_back(how == 1 ? "--none" : how == 2 ? "-ix" : "operand");
        if (n > 4 && how) toks.emplace_back(how == 1 ? "--last" : how == 2 ? "last" : "-a");
        std::vector<const char*> line;
        for (auto& x : toks) line.push_back(x.p);
        Real R(t);
        check_parse(R, line, false, WHAT, c);
    };
    s.desc = [=](uint64_t i) { return strf("capacity %d, %d errors, variant %d", (*v)[i / 4].first, (*v)[i / 4].second, (int)(i % 4)); };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C04";
    c.rule = "capacities up to a much larger bound with few errors and around as many as fit; every capacity in the bound with every number of errors in the bound of each kind (unknown long and short options, bad values, excess, operands, missing entries), and every line of up to the bound of tokens with capacities 1 to 6; memory outside the error table is guarded by AddressSanitizer; outcomes are distinct by return value, counts and error records";
    c.assumptions = {"the reference model in harness/pm.hpp", "capacities of at least one"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        lines(S, q ? 5 : 6);
        for (int cap : {1, 2}) S.push_back(family_space(strf("odd-tokens-%d", cap), odd_family(3, cap), WHAT));
        for (int cap : {1, 2}) S.push_back(family_space(strf("remarks-%d", cap), remark_family(3, cap), WHAT));
        ladder(S, q ? 40 : 120, q ? 45 : 130);
        ladder(S, q ? 300 : 600, q ? 1024 : 4096, true);
        large(S, q ? 1 << 17 : 1 << 20, q ? 33000 : 70000);
    };
    return vf::run(c, argc, argv);
}
