// C03: a parse reports exactly the errors of the line, in order.
#include "pm.hpp"
using namespace pm;
static const int WHAT = M_ERRS | M_RET0 | M_TAGGED | M_UNTAGGED;

static std::vector<Table> tables() {
    std::vector<Table> v;
    auto add = [&](std::initializer_list<Entry> e) { Table t; t.e = e; v.push_back(t); };
    add({});
    add({{LIT, "a", "alpha", 0, 1}});
    add({{LIT, "a", "alpha", 1, 2}, {LIT, "b", "alps", 0, 1}});
    add({{INT, "i", "int", 0, 2}});
    add({{INT, "i", "int", 1, 1}, {LIT, "a", nullptr, 0, 1}});
    add({{INT, "i", "int", 1, 2, true}, {STR, nullptr, nullptr, 0, 1}});
    add({{DBL, "d", "dbl", 1, 2}});
    add({{STR, "s", "str", 2, 3}, {STR, nullptr, nullptr, 1, 2}});
    add({{REX, "r", "rex", 0, 2}, {REX, nullptr, nullptr, 1, 2}});
    add({{DATE, "d", "date", 0, 1}, {DATE, nullptr, nullptr, 0, 1}});
    add({{FIL, "f", "file", 1, 1}, {FIL, nullptr, nullptr, 1, 1}});
    add({{INT, nullptr, nullptr, 1, 1}, {DBL, nullptr, nullptr, 1, 1}, {LIT, "a", nullptr, 0, 2}});
    add({{REM, nullptr, nullptr, 0, 0}, {LIT, "a", "alpha", 0, 1}, {REM, nullptr, nullptr, 0, 0}, {INT, nullptr, nullptr, 0, 1}, {REM, nullptr, nullptr, 0, 0}});
    add({{STR, "s", nullptr, 1, 1}, {INT, "i", nullptr, 1, 1}, {DBL, nullptr, "dbl", 1, 1}});
    add({{LIT, "a", nullptr, 0, 0}, {STR, nullptr, nullptr, 0, 0}, {INT, "i", "int", 0, 1}});
    return v;
}
static void lines(std::vector<vf::Space>& S, unsigned len, bool posix) {
    auto f = std::make_shared<Family>();
    for (auto& t : tables()) {
        auto a = alphabet(t);
        f->add(t, a, a.size() > 20 ? len - 1 : len);
    }
    S.push_back(family_space(posix ? "lines-posix" : "lines", f, posix ? WHAT | M_PAST : WHAT, posix));
}
// combinations of one error kind after another in one line: every ordered selection
static void combos(std::vector<vf::Space>& S, unsigned len) {
    auto f = std::make_shared<Family>();
    Table t;
    t.cap = 30;
    t.e = {{LIT, "a", "alpha", 0, 1}, {INT, "i", "int", 0, 2}, {DBL, "d", "dbl", 0, 1}, {REX, "r", "rex", 0, 1}, {DATE, "t", "time", 0, 1}, {STR, "s", "alps", 0, 1}, {INT, nullptr, nullptr, 0, 1}, {REX, nullptr, nullptr, 1, 2}};
    auto al = TS({"-a", "-i9999999999", "-ix", "-i5", "-dq", "-d1", "-rz", "-rab", "-t1", "-t2001-01-01", "--al", "--alps=", "--zz=1", "-z", "-s", "7", "ab", "zz", "-az", "--alpha=1"});
    f->add(t, al, len);
    S.push_back(family_space("combos", f, WHAT));
    S.push_back(family_space("combos-posix", f, WHAT | M_PAST, true));
}
// unknown option letters: every byte
static void letters(std::vector<vf::Space>& S) {
    vf::Space s;
    s.name = "unknown-letters";
    s.n = 256 * 3;
    auto ok = [](int ch) { return !(ch <= 32 || ch == '-' || ch == 'a' || ch == 's'); };
    auto t = std::make_shared<Table>();
    t->e = {{LIT, "a", nullptr, 0, 5}, {STR, "s", nullptr, 0, 5}, {STR, nullptr, nullptr, 0, 5}};
    s.run = [=](uint64_t i, Case& c) {
        int ch = (int)(i / 3), m = (int)(i % 3);
        if (!ok(ch)) return;
        std::string w = "-";
        if (m) w += 'a';
        w += (char)ch;
        if (m == 2) w += "a";
        vf::Str x(w), y("op"), z("-a");
        std::vector<const char*> line = {x.p, y.p, z.p};
        Real R(*t);
        check_parse(R, line, false, WHAT, c);
    };
    s.desc = [](uint64_t i) { return strf("unknown option letter %d mode %d", (int)(i / 3), (int)(i % 3)); };
    S.push_back(s);
}
// missing mandatory entries of every kind, in every combination
static void missing(std::vector<vf::Space>& S) {
    vf::Space s;
    s.name = "missing";
    s.n = vf::ipow(3, 7) * 2;
    s.run = [](uint64_t i, Case& c) {
        int d[7];
        vf::digits(i / 2, 3, 7, d);
        static const char* SH[] = {"a", "b", "c", "d", "e", "f", "g"};
        Table t;
        std::vector<const char*> line;
        std::vector<vf::Str> toks;
        toks.reserve(20);
        for (int k = 0; k < 7; k++) {
            t.e.push_back({(Kind)k, SH[k], nullptr, d[k], 2});
            if (i % 2 && k % 2) {
                toks.emplace_back(std::string("-") + SH[k]);
                if (k) toks.emplace_back(k == REX ? "ab" : k == DATE ? "2001-02-03" : "7");
            }
        }
        for (auto& x : toks) line.push_back(x.p);
        Real R(t);
        check_parse(R, line, false, WHAT, c);
    };
    s.desc = [](uint64_t i) { return strf("minimum counts %" PRIu64 " (base 3, one digit per type), %s", i / 2, i % 2 ? "every other one given once" : "empty line"); };
    S.push_back(s);
}
// argc 0 and 1
static void empty(std::vector<vf::Space>& S) {
    vf::Space s;
    s.name = "empty-argv";
    auto tb = std::make_shared<std::vector<Table>>(tables());
    s.n = tb->size() * 2;
    s.run = [=](uint64_t i, Case& c) {
        const Table& t = (*tb)[i / 2];
        Real R(t);
        Model M(t);
        M.check_phase();
        static char prog[] = "prog";
        char* argv[] = {prog, nullptr};
        if (R.end->count) { c.fail(strf("a table that was not parsed yet has %d error records", R.end->count)); return; }
        int ret = LIB(arg_parse((int)(i % 2), i % 2 ? argv : argv + 1, R.at.data()));
        c.steps++;
        c.mix(ret);
        if (ret != (int)M.r.err.size()) c.fail(strf("argc %d: returned %d, expected %zu", (int)(i % 2), ret, M.r.err.size()));
        else for (int k = 0; k < ret; k++) if (R.end->parent[k] != R.at[(size_t)M.r.err[(size_t)k].entry] || R.end->error[k] != M.r.err[(size_t)k].code) c.fail(strf("argc %d: record %d differs", (int)(i % 2), k));
    };
    s.desc = [=](uint64_t i) { return show((*tb)[i / 2]) + strf(" argc %d", (int)(i % 2)); };
    S.push_back(s);
}

// no error records before the first parse, at every capacity
static void unparsed(std::vector<vf::Space>& S, int max) {
    vf::Space s;
    s.name = "unparsed";
    s.n = (uint64_t)max;
    s.run = [=](uint64_t i, Case& c) {
        Table t;
        t.cap = (int)i + 1;
        t.e = {{INT, "i", nullptr, 1, 1}};
        Real R(t);
        c.mix(R.end->count);
        if (R.end->count) { c.fail(strf("a table that was not parsed yet has %d error records", R.end->count)); return; }
        arg_dstr_t ds = LIB(arg_dstr_create());
        LIBV(arg_print_errors_ds(ds, R.end, "prog"));
        if (*arg_dstr_cstr(ds)) c.fail(strf("errors printed before the first parse: %s", arg_dstr_cstr(ds)));
        LIBV(arg_dstr_destroy(ds));
    };
    s.desc = [=](uint64_t i) { return strf("new table with an error capacity of %d", (int)i + 1); };
    S.push_back(s);
}

// n errors of each kind, offending texts and numbers of missing entries of growing size
static void scale(std::vector<vf::Space>& S, int dense, int max) {
    static const char* M[] = {"unknown long options", "unknown letters in one cluster", "bad integers", "excess switches", "excess operands", "empty long values", "missing entries", "characters in an unknown long option", "characters in a bad value", "characters in an unexpected operand", "characters after a switch's '='", "bad values before a correct one", "errors of mixed kinds"};
    const unsigned NM = 13;
    auto pt = std::make_shared<std::vector<int>>(vf::points(dense, max));
    vf::Space s;
    s.name = "scale";
    s.n = pt->size() * NM;
    s.run = [=](uint64_t i, Case& c) {
        unsigned m = (unsigned)(i % NM);
        int n = (*pt)[i / NM];
        if (m == 6 && n > 2100) return;
        std::string w((size_t)n, 'w');
        std::vector<std::string> l, nm;
        Table t;
        t.cap = 2 * n + 10;
        for (int k = 0; k < n && m < 7; k++) switch (m) {
            case 0: l.push_back(strf("--unknown%d", k)); break;
            case 1: if (!k) { l.push_back("-"); } l[0] += (char)(k % 2 ? 'q' : 'r'); break;
            case 2: l.push_back(strf("-ix%d", k)); break;
            case 3: l.push_back("-a"); break;
            case 4: l.push_back(strf("op%d", k)); break;
            case 5: l.push_back("--int="); break;
            case 6: nm.push_back(strf("m%d", k)); break;
        }
        switch (m) {
            case 7: l = {"--" + w, "--" + w + "=" + w}; break;
            case 8: l = {"-i" + w, "--int=" + w, "-i", w, "-i" + std::string((size_t)n + 10, '9')}; break;
            case 9: l = {"op", w, w + "x"}; break;
            case 10: l = {"--alpha=" + w}; break;
            case 11: for (int k = 0; k < n; k++) { l.push_back("-iz"); } l.push_back("-i1"); break;
            case 12: for (int k = 0; k < n; k++) l.push_back(k % 5 == 0 ? "-q" : k % 5 == 1 ? "--zz" : k % 5 == 2 ? "-iz" : k % 5 == 3 ? "op" : "--alpha=1"); l.push_back("-i"); break;
        }
        t.e = {{LIT, "a", "alpha", 0, 1}, {INT, "i", "int", 0, 1}, {STR, nullptr, nullptr, 0, 1}};
        for (auto& x : nm) t.e.push_back({LIT, nullptr, x.c_str(), 1, 2});
        std::vector<vf::Str> toks;
        toks.reserve(l.size());
        std::vector<const char*> line;
        for (auto& x : l) { toks.emplace_back(x); line.push_back(toks.back().p); }
        Real R(t);
        check_parse(R, line, false, WHAT, c);
    };
    s.desc = [=](uint64_t i) { return strf("%d %s", (*pt)[i / NM], M[i % NM]); };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C03";
    c.rule = "every table of the listed families with every line of up to the bound of tokens that contain every kind of error; the complete list of error records (code, entry, text) is compared with the model and any output is a violation; outcomes are distinct by return value, counts, values and error records";
    c.assumptions = {"the reference model in harness/pm.hpp", "the error codes of the built-in types are those of argtable3_private.h"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        lines(S, q ? 4 : 5, false);
        lines(S, q ? 3 : 4, true);
        combos(S, q ? 4 : 5);
        letters(S);
        S.push_back(family_space("odd-tokens", odd_family(q ? 3 : 4), WHAT));
        S.push_back(family_space("remarks", remark_family(q ? 3 : 4), WHAT));
        S.push_back(program_names(q ? 3 : 4, WHAT));
        unparsed(S, q ? 300 : 3000);
        missing(S);
        empty(S);
        scale(S, q ? 300 : 1100, q ? 4096 : 16384);
    };
    return vf::run(c, argc, argv);
}
