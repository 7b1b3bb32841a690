// C06: the result of a parse depends only on its own line and table.
#include "pm.hpp"
#include <getopt.h>
using namespace pm;
static const int WHAT = M_TAGGED | M_UNTAGGED | M_ERRS | M_SLOT;

struct Op { int table; std::vector<const char*> line; int posix; int print; };

struct World {
    std::vector<Table> tables;
    std::vector<Op> ops;
};
static std::string show(const Op& o) {
    if (o.print == 9) return "<the program uses getopt's variables itself>";
    if (o.print) return strf("<print %d of table %d>", o.print, o.table);
    return strf("table %d: ", o.table) + pm::show(o.line) + (o.posix ? " (POSIXLY_CORRECT)" : "");
}
static void print(Real& R, int what) {
    if (what == 9) { optind = 9; opterr = 1; optopt = 'a'; static char junk[] = "junk"; optarg = junk; return; }
    vf::InLib g;
    arg_dstr_t ds = arg_dstr_create();
    if (what == 1) { arg_print_errors_ds(ds, R.end, "prog"); arg_print_syntaxv_ds(ds, R.at.data(), "\n"); arg_print_glossary_ds(ds, R.at.data(), NULL); }
    else arg_print_syntax_ds(ds, R.at.data(), "\n");
    arg_dstr_destroy(ds);
}
static void space(std::vector<vf::Space>& S, const char* name, std::shared_ptr<World> w, unsigned len) {
    vf::Space s;
    s.name = name;
    uint64_t b = w->ops.size();
    s.n = vf::ipow(b, len);
    s.run = [=](uint64_t i, Case& c) {
        std::vector<std::unique_ptr<Real>> R;
        for (auto& t : w->tables) R.emplace_back(new Real(t));
        std::vector<int> d(len);
        vf::digits(i, b, len, d.data());
        for (unsigned k = 0; k < len; k++) {
            const Op& o = w->ops[(size_t)d[k]];
            Real& r = *R[(size_t)o.table];
            if (o.print) print(r, o.print);
            else check_parse(r, o.line, o.posix, WHAT, c);
            if (c.failed) { c.msg = strf("step %u: ", k + 1) + c.msg; break; }
        }
    };
    s.desc = [=](uint64_t i) {
        std::vector<int> d(len);
        vf::digits(i, b, len, d.data());
        std::string r;
        for (unsigned k = 0; k < len; k++) r += (k ? "; " : "") + show(w->ops[(size_t)d[k]]);
        for (size_t k = 0; k < w->tables.size(); k++) r += strf(" | table %zu = ", k) + pm::show(w->tables[k]);
        return r;
    };
    S.push_back(s);
}
static std::shared_ptr<World> world() {
    auto w = std::make_shared<World>();
    Table a, b, d;
    a.e = {{LIT, "a", "alpha", 0, 2}, {INT, "i", "int", 0, 2, true}, {REM, nullptr, nullptr, 0, 0, false, "note"}, {STR, nullptr, nullptr, 0, 2}};
    b.cap = 2;
    b.e = {{REM, nullptr, nullptr, 0, 0, false, nullptr, "text"}, {STR, "a", "alps", 1, 2}, {LIT, "i", "alpha", 0, 1}, {INT, nullptr, nullptr, 0, 1}};
    d.e = {{DBL, "d", "dbl", 0, 1}, {DATE, "t", "time", 0, 2}, {REX, "r", "rex", 0, 1, true}, {FIL, nullptr, nullptr, 0, 2}};
    w->tables = {a, b, d};
    auto add = [&](int t, std::initializer_list<const char*> l) { w->ops.push_back({t, TS(l), 0, 0}); if (l.size() > 1) w->ops.push_back({t, TS(l), 1 + t % 2, 0}); };
    add(0, {});
    add(0, {"-a", "x", "--int=4", "y"});
    add(0, {"-ai5", "p", "-i", "q", "-a"});
    add(0, {"-az", "--alp", "r", "s", "t"});
    add(0, {"-aa", "-a", "--", "-a"});
    add(0, {"-i", "-a", "-azq"});
    add(1, {"-a"});
    add(1, {"-a", "-i", "3", "-i", "x", "-z"});
    add(1, {"--alp=v", "x", "-i"});
    add(1, {"--alps", "v", "7", "--alpha"});
    add(0, {"-i99999999999"});
    add(2, {"-d1e999"});
    add(2, {"-d1.5", "f.c", "-t2001-02-03", "g/h.i"});
    add(2, {"-rab", "x", "-d", "q", "-t2001-13-01"});
    add(2, {"-r", "y.z", "-tbad", "-t", "1999-12-31"});
    w->ops.push_back({0, {}, 0, 9});
    w->ops.push_back({0, {}, 0, 1});
    w->ops.push_back({1, {}, false, 1});
    w->ops.push_back({2, {}, false, 2});
    return w;
}
// the same two lines alternating n times, every ordered pair, and every line repeated
static void alternate(std::vector<vf::Space>& S, std::shared_ptr<World> w, int n) {
    vf::Space s;
    s.name = "alternating";
    uint64_t b = w->ops.size();
    s.n = b * b;
    s.run = [=](uint64_t i, Case& c) {
        std::vector<std::unique_ptr<Real>> R;
        for (auto& t : w->tables) R.emplace_back(new Real(t));
        for (int k = 0; k < n && !c.failed; k++) {
            const Op& o = w->ops[k % 2 ? i / b : i % b];
            if (o.print) print(*R[(size_t)o.table], o.print);
            else check_parse(*R[(size_t)o.table], o.line, o.posix, WHAT, c);
        }
    };
    s.desc = [=](uint64_t i) { return show(w->ops[i % b]) + " alternating with " + show(w->ops[i / b]); };
    S.push_back(s);
}

// one argument table variable of the program: several tables are built in it one after the other (the
// entries of the previous one are released first, or the headers are edited in place), each is parsed with
static std::vector<Table> reuse_tables() {
    std::vector<Table> v;
    auto t = [&](std::vector<Entry> e) { Table x; x.e = e; v.push_back(x); };
    t({{LIT, "a", "alpha", 0, 2}, {STR, "b", "beta", 0, 2}, {STR, nullptr, nullptr, 0, 2}});
    t({{STR, "a", "alpha", 0, 2}, {LIT, "b", "beta", 0, 2}, {STR, nullptr, nullptr, 0, 2}});
    t({{INT, "b", "alps", 0, 2}, {LIT, "a", "alp", 0, 1}, {INT, nullptr, nullptr, 0, 2}});
    t({{LIT, "c", "alpha,beta", 0, 2}, {STR, "a", nullptr, 0, 1, true}, {STR, nullptr, nullptr, 1, 2}});
    t({{STR, nullptr, nullptr, 0, 2}, {LIT, "a", "alpha", 1, 2}, {STR, "b", "beta,alp", 0, 2}});
    // fewer and more entries, and end markers with less room
    t({{STR, "a", "alp", 0, 2}});
    v.back().cap = 1;
    t({{LIT, "c", nullptr, 0, 1}, {LIT, "a", "alpha", 0, 2}, {STR, "b", "beta", 0, 2}, {STR, nullptr, nullptr, 0, 1}, {INT, nullptr, nullptr, 0, 2}});
    v.back().cap = 2;
    return v;
}
static void reuse(std::vector<vf::Space>& S, unsigned len) {
    auto tabs = std::make_shared<std::vector<Table>>(reuse_tables());
    auto lines = std::make_shared<std::vector<std::vector<const char*>>>();
    *lines = {TS({"-a", "x", "--alp", "y"}), TS({"-b", "3", "--alpha", "--beta", "z"}), TS({"x", "--alp=4", "-ab", "5"}), TS({"-ca", "-a7", "--bet", "8"})};
    vf::Space s;
    s.name = "reused-variable";
    uint64_t b = tabs->size() * lines->size();
    s.n = vf::ipow(b, len);
    s.run = [=](uint64_t i, Case& c) {
        std::vector<int> d(len);
        vf::digits(i, b, len, d.data());
        std::vector<void*> var;  // keeps its storage
        var.reserve(8);
        for (unsigned k = 0; k < len && !c.failed; k++) {
            Real R((*tabs)[(size_t)d[k] / lines->size()]);
            var.assign(R.at.begin(), R.at.end());
            R.at.swap(var);
            check_parse(R, (*lines)[(size_t)d[k] % lines->size()], 0, WHAT, c);
            if (c.failed) c.msg = strf("step %u: ", k + 1) + c.msg;
            R.free_();
            R.at.swap(var);
        }
    };
    s.desc = [=](uint64_t i) {
        std::vector<int> d(len);
        vf::digits(i, b, len, d.data());
        std::string r = "in the same table variable";
        for (unsigned k = 0; k < len; k++) r += "; " + pm::show((*tabs)[(size_t)d[k] / lines->size()]) + " " + pm::show((*lines)[(size_t)d[k] % lines->size()]);
        return r;
    };
    S.push_back(s);
}
// one table variable again, but the earlier tables live on and what follows the end marker is left over from them
static void overwritten(std::vector<vf::Space>& S, unsigned len) {
    auto tabs = std::make_shared<std::vector<Table>>(reuse_tables());
    tabs->push_back({});
    tabs->back().cap = 3;
    auto lines = std::make_shared<std::vector<std::vector<const char*>>>();
    *lines = {TS({"-a", "x", "--alp", "y"}), TS({"-b", "3", "--alpha", "--beta", "z"}), TS({"-ca", "-a7", "--bet", "8"}), TS({})};
    vf::Space s;
    s.name = "overwritten-variable";
    uint64_t b = tabs->size() * lines->size();
    s.n = vf::ipow(b, len);
    s.run = [=](uint64_t i, Case& c) {
        std::vector<int> d(len);
        vf::digits(i, b, len, d.data());
        std::vector<std::unique_ptr<Real>> all;
        std::vector<void*> var;  // keeps its storage
        var.reserve(8);
        for (unsigned k = 0; k < len && !c.failed; k++) {
            all.emplace_back(new Real((*tabs)[(size_t)d[k] / lines->size()]));
            Real& R = *all.back();
            var.assign(R.at.begin(), R.at.end());
            R.at.swap(var);
            check_parse(R, (*lines)[(size_t)d[k] % lines->size()], 0, WHAT, c);
            if (c.failed) c.msg = strf("step %u: ", k + 1) + c.msg;
            R.at.swap(var);
        }
    };
    s.desc = [=](uint64_t i) {
        std::vector<int> d(len);
        vf::digits(i, b, len, d.data());
        std::string r = "written over each other in a table variable";
        for (unsigned k = 0; k < len; k++) r += "; " + pm::show((*tabs)[(size_t)d[k] / lines->size()]) + " " + pm::show((*lines)[(size_t)d[k] % lines->size()]);
        return r;
    };
    S.push_back(s);
}
// the arguments come in the same buffers every time
static void same_buffer(std::vector<vf::Space>& S) {
    static const Kind K[] = {INT, DBL, STR, FIL, REX, DATE};
    static const char* V[6][8] = {
        {"7", "-3", "0x1F", "abcd", "12KB", "99999999999", "0o17", "0b11"},
        {"7", "1.5", "-2e3", "abcd", "1e999", "0.25", ".5", "12x"},
        {"abcd", "a.bc", "", "-x", "abce", "bcd", "x y", "z"},
        {"abcd", "a.bc", ".abc", "a/bc", "ab/c", "abc.", "..", "a.b/"},
        {"abc", "ab", "b", "abcd", "aab", "", "bb", "abb"},
        {"2001-02-03", "2002-03-04", "1999-12-31", "2001-13-03", "nodate", "2001-02-0", "1970-01-01", "2001-02-03x"}};
    vf::Space s;
    s.name = "same-buffers";
    s.n = 6 * 4 * 8 * 8 * 8;
    s.run = [=](uint64_t i, Case& c) {
        unsigned k = (unsigned)(i % 6), how = (unsigned)(i / 6 % 4);
        Table t;
        if (how < 3) t.e = {{K[k], "k", "key", 0, 2}, {STR, nullptr, nullptr, 0, 1}};
        else t.e = {{K[k], nullptr, nullptr, 0, 2}};
        Real R(t);
        char buf[2][40];
        uint64_t x = i / 24;
        for (int n = 0; n < 3 && !c.failed; n++, x /= 8) {
            const char* v = V[k][x % 8];
            std::vector<const char*> line;
            switch (how) {
                case 0: strcpy(buf[0], "-k"); strcpy(buf[1], v); line = {buf[0], buf[1]}; break;
                case 1: snprintf(buf[0], 40, "-k%s", v); snprintf(buf[1], 40, "--key=%s", v); line = {buf[0], buf[1]}; if (!*v) line = {buf[1]}; break;
                case 2: snprintf(buf[0], 40, "--key=%s", v); strcpy(buf[1], v); line = {buf[0], buf[1]}; break;
                case 3: strcpy(buf[0], *v == '-' ? "--" : v); strcpy(buf[1], v); line = {buf[0], buf[1]}; break;
            }
            check_parse(R, line, 0, WHAT, c);
            if (c.failed) c.msg = strf("parse %d: ", n + 1) + c.msg;
        }
    };
    s.desc = [=](uint64_t i) { unsigned k = (unsigned)(i % 6); uint64_t x = i / 24; return strf("kind %u, arrangement %u, in the same buffers: %s, then %s, then %s", k, (unsigned)(i / 6 % 4), V[k][x % 8], V[k][x / 8 % 8], V[k][x / 64 % 8]); };
    S.push_back(s);
}
// the same entries stay, and the program edits their headers between two parses
static void edited(std::vector<vf::Space>& S) {
    auto lines = std::make_shared<std::vector<std::vector<const char*>>>();
    *lines = {TS({"-a", "x", "--alp", "y"}), TS({"-b", "3", "--alpha", "--beta", "z"}), TS({"x", "--alp=4", "-ab", "5"}), TS({"-a", "-a7", "--bet", "8"}), TS({}), TS({"-c", "-n", "--gamma=1", "p", "q"})};
    static const int NE = 8;
    vf::Space s;
    s.name = "edited-headers";
    uint64_t nl = lines->size();
    s.n = nl * NE * nl * NE * nl;
    auto edit = [](Table& t, Real* R, int how) {
        Entry& e = t.e[0];
        arg_hdr* h = R ? (arg_hdr*)R->at[0] : nullptr;
        switch (how) {
            case 0: break;
            case 1: e.opt = true; if (h) h->flag |= ARG_HASOPTVALUE; break;
            case 2: e.sh = "c"; if (h) h->shortopts = "c"; break;
            case 3: e.lo = "gamma"; if (h) h->longopts = "gamma"; break;
            case 4: e.lo = "beta,alpha"; if (h) h->longopts = "beta,alpha"; break;
            case 5: e.sh = e.lo = nullptr; if (h) h->shortopts = h->longopts = nullptr; break;
            case 6: e.min = 1; if (h) h->mincount = 1; break;
            case 7: e.max = 1; if (h) h->maxcount = 1; break;
        }
    };
    s.run = [=](uint64_t i, Case& c) {
        Table t;
        t.e = {{STR, "a", "alpha", 0, 3}, {INT, "b", "be", 0, 2}, {STR, nullptr, nullptr, 0, 2}};
        Real R(t);
        uint64_t x = i;
        for (int k = 0; k < 3 && !c.failed; k++) {
            check_parse(R, (*lines)[x % nl], 0, WHAT, c);
            x /= nl;
            if (c.failed) c.msg = strf("parse %d: ", k + 1) + c.msg;
            if (k < 2) { edit(t, &R, (int)(x % NE)); x /= NE; }
        }
    };
    s.desc = [=](uint64_t i) {
        Table t;
        t.e = {{STR, "a", "alpha", 0, 3}, {INT, "b", "be", 0, 2}, {STR, nullptr, nullptr, 0, 2}};
        std::string r;
        for (int k = 0; k < 3; k++) {
            r += (k ? "; then edited to " : "") + pm::show(t) + " " + pm::show((*lines)[i % nl]);
            i /= nl;
            if (k < 2) { edit(t, nullptr, (int)(i % NE)); i /= NE; }
        }
        return r;
    };
    S.push_back(s);
}

// a line with n occurrences of one entry, then one with m, then one with none; the entry takes n, or fewer
static void occurrences(std::vector<vf::Space>& S, bool q) {
    auto pt = vf::points(q ? 40 : 300, q ? 2048 : 16384);
    static const char* V[] = {"", "7", "1.5", "text", "abc", "d/f.e", "2001-02-03"};
    static const char* B[] = {"", "x", "x", "", "xyz", "", "nodate"};
    vf::Space s;
    s.name = "occurrences";
    s.n = 7 * 3 * 3 * 4 * 3 * (uint64_t)pt.size();
    struct P { Table t; std::vector<const char*> l[4]; };
    auto mk = [=](uint64_t i, P& p) {
        int kind = (int)(i % 7); i /= 7;
        int form = (int)(i % 3); i /= 3;  // short option, long option, operand
        int mx = (int)(i % 3); i /= 3;
        int m = (int)(i % 4); i /= 4;
        int bad = (int)(i % 3); i /= 3;
        int n = (int)pt[i];
        if (kind == LIT && form == 2) form = 1;
        Entry e = {(Kind)kind, form == 0 ? "o" : nullptr, form == 1 ? "opt" : nullptr, mx == 2 ? 1 : 0, mx == 0 ? n : mx == 1 ? n + 3 : (n + 1) / 2};
        if (e.max < 1) e.max = 1;
        p.t.e = {{REM, nullptr, nullptr, 0, 0}, e, {LIT, "z", nullptr, 0, 1}};
        p.t.cap = 4;
        auto one = [&](std::vector<const char*>& l, const char* v) {
            if (kind == LIT) l.push_back(T(form == 0 ? "-o" : "--opt"));
            else if (form == 0) { l.push_back(T("-o")); l.push_back(T(v)); }
            else l.push_back(T((form == 1 ? std::string("--opt=") : std::string()) + v));
        };
        for (int k = 0; k < n; k++) one(p.l[0], bad == 1 && k == n / 2 ? B[kind] : V[kind]);
        for (int k = 0; k < m; k++) one(p.l[1], bad == 2 && k == m - 1 ? B[kind] : V[kind]);
        if (m == 2) p.l[1].insert(p.l[1].begin(), T("-z"));
        for (int k = 0; k < 1 + m % 2; k++) one(p.l[3], V[kind]);
    };
    s.run = [=](uint64_t i, Case& c) {
        P p;
        mk(i, p);
        Real R(p.t);
        for (int k = 0; k < 4 && !c.failed; k++) {
            check_parse(R, p.l[k], 0, WHAT, c);
            if (c.failed) c.msg = strf("parse %d: ", k + 1) + c.msg;
        }
    };
    s.desc = [=](uint64_t i) { P p; mk(i, p); std::string r = pm::show(p.t); for (auto& l : p.l) r += strf("; %zu words", l.size()) + (l.size() < 9 ? " " + pm::show(l) : ""); return r; };
    S.push_back(s);
}

// every ordered pair of lines of up to two words with tables that have remarks at every set of places
static void remarks(std::vector<vf::Space>& S) {
    auto f = remark_family(2);
    vf::Space s;
    s.name = "remarks";
    auto first = std::make_shared<std::vector<uint64_t>>();
    uint64_t n = 0;
    for (size_t k = 0; k < f->tables.size(); k++) { first->push_back(n); uint64_t b = vf::seq_count(f->alpha[k].size(), 2); n += k % 8 % 3 ? 0 : b * b; }
    s.n = n;
    auto at = [=](uint64_t i, size_t& k, std::vector<const char*> l[2]) {
        size_t lo = 0, hi = first->size();
        while (hi - lo > 1) { size_t m = (lo + hi) / 2; if ((*first)[m] <= i) lo = m; else hi = m; }
        k = lo;
        i -= (*first)[k];
        uint64_t b = vf::seq_count(f->alpha[k].size(), 2);
        for (int j = 0; j < 2; j++, i /= b) { l[j].clear(); for (int d : vf::seq_at(i % b, f->alpha[k].size(), 2)) l[j].push_back(f->alpha[k][(size_t)d]); }
    };
    s.run = [=](uint64_t i, Case& c) {
        size_t k; std::vector<const char*> l[2];
        at(i, k, l);
        Real R(f->tables[k]);
        for (int j = 0; j < 2 && !c.failed; j++) { check_parse(R, l[j], 0, WHAT, c); if (c.failed) c.msg = strf("parse %d: ", j + 1) + c.msg; }
    };
    s.desc = [=](uint64_t i) { size_t k; std::vector<const char*> l[2]; at(i, k, l); return pm::show(f->tables[k]) + " " + pm::show(l[0]) + "; " + pm::show(l[1]); };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C06";
    c.rule = "every sequence of the bound length over parses of three tables (correct and faulty lines, clusters abandoned by errors, permuted operands, with and without POSIXLY_CORRECT) and printing calls; each parse is compared with a model that has no memory; outcomes are distinct by the results of all parses of the sequence";
    c.assumptions = {"the reference model in harness/pm.hpp", "values are compared for occurrences that carried a value; a counted occurrence without its optional value keeps whatever the storage held, except that the slots of string entries which the line gives no value are empty"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        auto w = world();
        space(S, "histories3", w, 3);
        space(S, "histories2", w, 2);
        space(S, "histories4", w, 4);
        if (!q) space(S, "histories5", w, 5);
        reuse(S, q ? 3 : 4);
        overwritten(S, q ? 3 : 4);
        same_buffer(S);
        edited(S);
        occurrences(S, q);
        remarks(S);
        alternate(S, w, q ? 300 : 1100);
    };
    return vf::run(c, argc, argv);
}
