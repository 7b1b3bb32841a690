// C20: error messages name the program, the fault and the option or text at fault.
#include "rd.hpp"
using namespace rd;

// one expected message: pre + (item, possibly cut) + post; a missing switch may be followed by an empty line
struct Msg { string pre, item, post; bool blank; };

static Msg message(const Table& t, int entry, int code, const char* argval, const string& prog, const char* datefmt) {
    string a = argval ? argval : "";
    Msg m{prog + ": ", "", "", false};
    if (entry < 0) {
        switch (code) {
            case ARG_ELIMIT: m.pre += "too many errors to display"; break;
            case ARG_EMALLOC: m.pre += "insufficient memory"; break;
            case ARG_ENOMATCH: m.pre += "unexpected argument \"" + a + "\""; break;
            case ARG_EMISSARG: m.pre += "option \"" + a + "\" requires an argument"; break;
            case ARG_ELONGOPT: m.pre += "invalid option \"" + a + "\""; break;
            default: m.pre += string("invalid option \"-") + (char)code + "\""; break;
        }
        m.pre += "\n";
        return m;
    }
    const Entry& e = t.e[(size_t)entry];
    const char* dt = value_name(e);
    string opt = option(e.sh, e.lo, dt, false, "|"), given = option(e.sh, e.lo, a.c_str(), false, "|");
    switch (code) {
        case conv::MINCOUNT: m.pre += "missing option "; m.item = opt; m.post = "\n"; m.blank = e.kind == pm::LIT; break;
        case conv::MAXCOUNT:
            if (e.kind == pm::LIT) { m.pre += "extraneous option "; m.item = opt; }
            else { m.pre += "excess option "; m.item = given; }
            m.post = "\n";
            break;
        case conv::BADINT: case conv::BADDOUBLE: m.pre += "invalid argument \"" + a + "\" to option "; m.item = opt; m.post = "\n"; break;
        case conv::OVERFLOW_: m.pre += "integer overflow at option "; m.item = opt; m.post = " (" + a + " is too large)\n"; break;
        case conv::REGNOMATCH: m.pre += "illegal value  "; m.item = given; m.post = "\n"; break;
        case conv::BADDATE: m.pre += "illegal timestamp format \"" + a + "\"\ncorrect format is \"" + date_example(datefmt) + "\"\n"; break;
    }
    return m;
}
// consumes one message at position p of got; returns false if it does not fit
static bool consume(const string& got, size_t& p, const Msg& m) {
    if (got.compare(p, m.pre.size(), m.pre)) return false;
    p += m.pre.size();
    if (m.item.size() <= LIMIT) {
        if (got.compare(p, m.item.size(), m.item)) return false;
        p += m.item.size();
    } else {
        if (got.compare(p, 190, m.item, 0, 190)) return false;
        size_t k = 190;
        for (; k <= 199; k++) if (!got.compare(p + k, m.post.size(), m.post)) break;
        if (k > 199) return false;
        p += k;
    }
    if (got.compare(p, m.post.size(), m.post)) return false;
    p += m.post.size();
    if (m.blank && p < got.size() && got[p] == '\n') p++;
    return true;
}
static void check_errors(Case& c, pm::Real& R, const string& prog, const char* datefmt = pm::DATEFMT) {
    string got;
    vf::Str pn(prog);
    if (!both(c, got, [&](FILE* f) { arg_print_errors(f, R.end, pn.p); }, [&](arg_dstr_t d) { arg_print_errors_ds(d, R.end, pn.p); })) return;
    c.mix(got);
    c.log("printed: " + quote(got));
    size_t p = 0;
    for (int i = 0; i < R.end->count && i < R.t.cap; i++) {
        int k = -2;
        for (size_t j = 0; j < R.at.size(); j++) if (R.end->parent[i] == R.at[j]) k = j + 1 == R.at.size() ? -1 : (int)j;
        if (k == -2) { c.fail("an error record refers to no entry"); return; }
        Msg m = message(R.t, k, R.end->error[i], R.end->argval[i], prog, datefmt);
        if (!consume(got, p, m)) { c.fail(strf("message %d: ", i + 1) + quote(got) + ", expected at position " + strf("%zu: ", p) + quote(m.pre + m.item + m.post)); return; }
    }
    if (p != got.size()) c.fail("text after the messages: " + quote(got.substr(p)));
}
static void parse(pm::Real& R, const std::vector<const char*>& line, Case& c) {
    std::vector<char*> av;
    static char pr[] = "prog";
    av.push_back(pr);
    for (auto x : line) av.push_back((char*)x);
    av.push_back(nullptr);
    LIBV(arg_parse((int)line.size() + 1, av.data(), R.at.data()));
    c.steps++;
}
static const char* PROG[] = {"prog", "", "./a %s b", "a-rather-long-program-name-that-does-not-fit-into-the-first-sixteen-bytes-of-a-formatted-append-buffer-and-goes-on-for-more-than-one-hundred-and-thirty-characters"};

static void lines(std::vector<vf::Space>& S, unsigned len) {
    auto f = std::make_shared<pm::Family>();
    std::vector<Table> tb;
    auto add = [&](std::initializer_list<Entry> e, int cap = 20) { Table t; t.e = e; t.cap = cap; tb.push_back(t); };
    using namespace pm;
    add({{LIT, "a", "alpha", 1, 2}, {LIT, "bc", nullptr, 0, 1}});
    add({{LIT, nullptr, "alpha,beta", 2, 2}, {INT, "i", "int", 1, 1}});
    add({{INT, "i", "int", 1, 2, false, "N"}, {INT, nullptr, nullptr, 1, 1}});
    add({{INT, "i", nullptr, 0, 1, true}, {DBL, nullptr, nullptr, 1, 1}});
    for (Kind k : {INT, DBL, STR, REX, DATE, FIL}) {
        add({{k, "k", "key", 1, 1, true}});
        add({{k, nullptr, "key", 0, 2, true, "V"}, {LIT, "a", nullptr, 0, 1}}, 4);
    }
    add({{DBL, "d", "dbl,double", 1, 2}, {STR, nullptr, nullptr, 1, 1, false, "FILE%d"}});
    add({{STR, "s", "str", 1, 1}, {STR, nullptr, "only", 1, 1}});
    add({{REX, "r", "rex", 1, 2}, {REX, nullptr, nullptr, 1, 2, false, "<rex>"}});
    add({{DATE, "d", "date", 1, 1}, {DATE, nullptr, nullptr, 1, 1}});
    add({{FIL, "f", "file", 1, 1}, {FIL, nullptr, nullptr, 1, 1}}, 2);
    add({{REM, nullptr, nullptr, 0, 0, false, "note"}, {LIT, "a", nullptr, 1, 1}, {INT, nullptr, nullptr, 0, 1}}, 3);
    add({{STR, "s", nullptr, 2, 3}, {INT, "i", "int", 1, 1}, {DBL, nullptr, "dbl", 1, 1}, {LIT, "x", nullptr, 3, 4}});
    for (auto& t : tb) { auto a = pm::alphabet(t); a.push_back(pm::T("")); f->add(t, a, len); }
    vf::Space s;
    s.name = "lines";
    s.n = f->n;
    s.run = [f](uint64_t i, Case& c) {
        std::vector<const char*> line;
        size_t k = f->locate(i, line);
        pm::Real R(f->tables[k]);
        parse(R, line, c);
        check_errors(c, R, PROG[i % 4]);
    };
    s.desc = [f](uint64_t i) { std::vector<const char*> line; size_t k = f->locate(i, line); return pm::show(f->tables[k]) + " " + pm::show(line) + " printed as " + quote(PROG[i % 4]); };
    S.push_back(s);
}
static void odd(std::vector<vf::Space>& S, unsigned len) {
    auto f = pm::odd_family(len);
    vf::Space s;
    s.name = "odd-tokens";
    s.n = f->n;
    s.run = [f](uint64_t i, Case& c) {
        std::vector<const char*> line;
        size_t k = f->locate(i, line);
        pm::Real R(f->tables[k]);
        parse(R, line, c);
        check_errors(c, R, i % 2 ? "prog" : "");
    };
    s.desc = [f](uint64_t i) { std::vector<const char*> line; size_t k = f->locate(i, line); return pm::show(f->tables[k]) + " " + pm::show(line); };
    S.push_back(s);
}
static void combos(std::vector<vf::Space>& S, unsigned len) {
    using namespace pm;
    auto f = std::make_shared<pm::Family>();
    Table t;
    t.cap = 30;
    t.e = {{LIT, "a", "alpha", 0, 1}, {INT, "i", "int", 0, 2}, {DBL, "d", "dbl", 0, 1}, {REX, "r", "rex", 0, 1}, {DATE, "t", "time", 0, 1}, {STR, "s", "alps", 0, 1}, {FIL, "f", nullptr, 0, 1}, {INT, nullptr, nullptr, 0, 1}, {REX, nullptr, nullptr, 1, 2}};
    f->add(t, TS({"-a", "-i9999999999", "-ix", "-i5", "-d%n", "-d1", "-rz", "-rab", "-t%Y", "-t2001-01-01", "--al", "--alps=", "--zz=%s", "-z", "-s", "7", "ab", "z%%", "-a%", "--alpha=1", "-fx", "-\xff", ""}), len);
    t.cap = 2;
    f->add(t, TS({"-a", "-i9999999999", "-ix", "-z", "7", "ab", "--alpha=1", "", "-i"}), len);
    vf::Space s;
    s.name = "combinations";
    s.n = f->n;
    s.run = [f](uint64_t i, Case& c) {
        std::vector<const char*> line;
        size_t k = f->locate(i, line);
        pm::Real R(f->tables[k]);
        parse(R, line, c);
        check_errors(c, R, "prog");
    };
    s.desc = [f](uint64_t i) { std::vector<const char*> line; size_t k = f->locate(i, line); return pm::show(f->tables[k]) + " " + pm::show(line); };
    S.push_back(s);
}
// offending texts of every length, for every kind of error, plain and with format characters
static void lengths(std::vector<vf::Space>& S, int dense, int max) {
    auto pt = std::make_shared<std::vector<int>>(vf::points(dense, max));
    pt->insert(pt->begin(), 0);
    static const char* W[] = {"unexpected operand", "unknown long option", "ambiguous long option", "missing value", "bad integer", "integer overflow", "bad double", "regular expression mismatch", "bad date", "excess string", "excess file", "excess integer", "excess double", "excess date", "excess regular expression", "bad integer operand", "value name", "program name", "excess operand"};
    const unsigned NW = 19;
    vf::Space s;
    s.name = "lengths";
    s.n = pt->size() * NW * 2;
    s.run = [=](uint64_t i, Case& c) {
        using namespace pm;
        bool pct = i % 2;
        unsigned w = (unsigned)(i / 2 % NW);
        size_t n = (size_t)(*pt)[i / 2 / NW];
        string a;
        for (size_t k = 0; k < n; k++) a += pct && k % 5 == 1 ? '%' : pct && k % 5 == 2 ? "snd*"[k % 4] : (char)('g' + k % 20);
        string digits9(n + 10, '9'), lead0 = string(n, '0') + "7";
        string abc;
        for (size_t k = 0; k <= n; k++) abc += (char)('a' + k % 3);
        Table t;
        t.cap = 4;
        string dt = w == 16 ? a : "<v>", dt2 = w == 16 ? a : "";
        const char* dn = w == 16 ? dt2.c_str() : nullptr;
        t.e = {{INT, "i", "int", 0, 1, false, dt.c_str()}, {DBL, "d", "dbl", 0, 1, false, dn}, {STR, "s", "str", 0, 1, false, dn}, {REX, "r", "rex", 0, 1, false, dn}, {DATE, "t", "time", 0, 1, false, dn}, {FIL, "f", "file", 0, 1, false, dn}, {LIT, nullptr, "lion,lit", 0, 1}, {LIT, nullptr, "link", 0, 1}};
        std::vector<string> l;
        switch (w) {
            case 0: l = {"x" + a}; break;
            case 1: l = {"--zz" + a}; break;
            case 2: l = {"--li=" + a}; break;
            case 3: l = {"--str=" }; t.e.push_back({STR, "q", nullptr, 0, 1}); l.push_back("-q"); break;
            case 4: l = {"-i", "x" + a}; break;
            case 5: l = {"-i", digits9}; break;
            case 6: l = {"-d", "x" + a}; break;
            case 7: l = {"-r", "x" + a}; break;
            case 8: l = {"-t", a}; break;
            case 9: l = {"-s1", "--str=2" + a}; break;
            case 10: l = {"-f1", "--file=2" + a}; break;
            case 11: l = {"-i1", "--int=" + lead0}; break;
            case 12: l = {"-d1", "--dbl=" + lead0}; break;
            case 13: l = {"-t2001-02-03", "--time=2" + a}; break;
            case 14: l = {"-rabc", "--rex=" + abc}; break;
            case 15: t.e.push_back({INT, nullptr, nullptr, 0, 1}); l = {"x" + a}; break;
            case 16: t.cap = 20; l = {"-ibad", "-dbad", "-rzz", "-tnever", "-i99999999999", "-s1", "-s2", "-f1", "-f2", "-i1", "-i2", "-d1", "-d2"}; break;
            case 17:  // every kind of message
                t.cap = 40;
                t.e.push_back({STR, "q", "quest", 1, 1});
                t.e.push_back({LIT, "m", nullptr, 1, 1});
                t.e.push_back({REX, "R", nullptr, 1, 1});
                t.e.push_back({DATE, "T", nullptr, 1, 1});
                t.e.push_back({FIL, "F", nullptr, 1, 1});
                t.e.push_back({DBL, "D", nullptr, 1, 1});
                t.e.push_back({INT, nullptr, nullptr, 1, 1});
                l = {"-ibad", "-dbad", "-i99999999999", "-rzz", "-tnever", "--nope", "--li", "--lion=3", "-z", "operand", "--str=", "-s1", "-s2", "-f1", "-f2", "-i1", "-i2", "-d1", "-d2", "-rabc", "-rabc", "-t2001-02-03", "-t2001-02-03", "--link", "--link", "-q"};
                break;
            case 18: t.e.push_back({STR, nullptr, nullptr, 0, 1}); l = {"one", "x" + a}; break;
        }
        std::vector<vf::Str> toks;
        toks.reserve(l.size());
        std::vector<const char*> line;
        for (auto& x : l) { toks.emplace_back(x); line.push_back(toks.back().p); }
        pm::Real R(t);
        parse(R, line, c);
        check_errors(c, R, w == 17 ? a : "prog");
    };
    s.desc = [=](uint64_t i) { return strf("%s of length %d%s", W[i / 2 % NW], (*pt)[i / 2 / NW], i % 2 ? " with format characters" : ""); };
    S.push_back(s);
}
// many errors of each kind, with a table that keeps them all and one that does not
static void many(std::vector<vf::Space>& S, int dense, int max) {
    auto pt = std::make_shared<std::vector<int>>(vf::points(dense, max));
    vf::Space s;
    s.name = "many-errors";
    s.n = pt->size() * 8 * 2;
    s.run = [=](uint64_t i, Case& c) {
        using namespace pm;
        int n = (*pt)[i / 16], m = (int)(i / 2 % 8);
        Table t;
        t.cap = i % 2 ? n / 2 + 1 : n + 3;
        t.e = {{LIT, "a", "alpha", 0, 1}, {INT, "i", "int", 0, 1}, {REX, "r", "rex", 0, 1}, {DATE, "t", "time", 0, 1}, {STR, "s", "str", 0, 1}};
        std::vector<string> l, nm;
        for (int k = 0; k < n; k++) switch (m) {
            case 0: l.push_back(strf("--unknown%d", k)); break;
            case 1: l.push_back(strf("-ix%d", k)); break;
            case 2: l.push_back("-a"); break;
            case 3: l.push_back(strf("op%d", k)); break;
            case 4: l.push_back(k % 2 ? "-q" : "-rzz"); break;
            case 5: l.push_back(strf("-s%d", k)); break;
            case 6: l.push_back(strf("-tx%d", k)); break;
            case 7: nm.push_back(strf("m%d", k)); break;
        }
        for (size_t k = 0; k < nm.size(); k++) t.e.push_back({k % 2 ? STR : LIT, nullptr, nm[k].c_str(), 1, 1});
        std::vector<vf::Str> toks;
        toks.reserve(l.size());
        std::vector<const char*> line;
        for (auto& x : l) { toks.emplace_back(x); line.push_back(toks.back().p); }
        pm::Real R(t);
        parse(R, line, c);
        check_errors(c, R, "prog");
    };
    s.desc = [=](uint64_t i) { return strf("%d errors of kind %d, %s", (*pt)[i / 16], (int)(i / 2 % 8), i % 2 ? "more than the table keeps" : "all kept"); };
    S.push_back(s);
}
// long spellings in the messages
static void spellings(std::vector<vf::Space>& S, unsigned maxl) {
    vf::Space s;
    s.name = "spellings";
    s.n = (uint64_t)maxl * 6 * 3;
    s.run = [=](uint64_t i, Case& c) {
        using namespace pm;
        int m = (int)(i % 3), k = (int)(i / 3 % 6);
        size_t n = (size_t)(i / 18) + 1;
        string a;
        for (size_t q = 0; q < n; q++) a += (char)('a' + q % 26);
        string lo = m == 0 ? a : m == 1 ? "first," + a : a + ",last";
        static const Kind K[] = {LIT, INT, DBL, STR, REX, DATE};
        Table t;
        t.e = {{K[k], "z", lo.c_str(), 1, 1}};
        pm::Real R(t);
        parse(R, {}, c);
        check_errors(c, R, "prog");
        if (K[k] != LIT && !c.failed) {
            vf::Str v("-z" + string(K[k] == REX ? "ab" : K[k] == DATE ? "2001-02-03" : "12")), b("-z" + string("?!"));
            parse(R, {v.p, v.p, b.p}, c);
            check_errors(c, R, "prog");
        }
    };
    s.desc = [=](uint64_t i) { return strf("long name of length %d, type %d, variant %d", (int)(i / 18) + 1, (int)(i / 3 % 6), (int)(i % 3)); };
    S.push_back(s);
}
// the example in the message for a malformed date
static void dates(std::vector<vf::Space>& S) {
    static const char* F[] = {"%H:%M", "%Y-%m-%d %H:%M:%S", "%D", "%d %b %Y", "%d %B %y", "%I:%M %p", "%T", "%R", "100%% %Y", "%e.%m.", "at %H o'clock", "%Y", "%C%y", "%m/%d/%y %I:%M:%S %p"};
    vf::Space s;
    s.name = "date-formats";
    s.n = 14 * 3;
    s.run = [=](uint64_t i, Case& c) {
        Table t;
        t.e = {{pm::DATE, "d", nullptr, 0, 1}};
        pm::Real R(t);
        { vf::InLib g; arg_freetable(&R.at[0], 1); R.at[0] = arg_date0("d", nullptr, F[i / 3], nullptr, "x"); }
        vf::Str v(i % 3 == 0 ? "-dnonsense" : i % 3 == 1 ? "-d%s%n" : "-d");
        vf::Str w("zz");
        parse(R, {v.p, w.p}, c);
        if (R.end->count && R.end->parent[0] == R.at[0]) check_errors(c, R, "prog", F[i / 3]);
        else c.fail("a malformed date is not reported");
    };
    s.desc = [=](uint64_t i) { return strf("date format %s, text %d", F[i / 3], (int)(i % 3)); };
    S.push_back(s);
}

// examples of every length up to 190 characters
static void longdates(std::vector<vf::Space>& S) {
    vf::Space s;
    s.name = "long-date-formats";
    s.n = 170 * 3;  // longer examples are left out of the message
    auto fmt = [](uint64_t i) {
        static const char* P[] = {"x", "%Y-%m-%d %H:%M:%S ", "%% "};
        string r = P[i % 3];
        for (size_t k = 0; k < (size_t)(i / 3); k++) r += (char)('a' + k % 26);
        return r;
    };
    s.run = [=](uint64_t i, Case& c) {
        string f = fmt(i);
        Table t;
        t.e = {{pm::DATE, "d", nullptr, 0, 1}};
        pm::Real R(t);
        { vf::InLib g; arg_freetable(&R.at[0], 1); R.at[0] = arg_date0("d", nullptr, f.c_str(), nullptr, "x"); }
        vf::Str v("-dnonsense");
        parse(R, {v.p}, c);
        if (R.end->count && R.end->parent[0] == R.at[0]) check_errors(c, R, "prog", f.c_str());
        else c.fail("a malformed date is not reported");
    };
    s.desc = [=](uint64_t i) { return "date format " + quote(fmt(i)); };
    S.push_back(s);
}

// every byte in every kind of offending text, in spellings and in the program name
static void bytes(std::vector<vf::Space>& S) {
    const unsigned NW = 22;
    vf::Space s;
    s.name = "bytes";
    s.n = 255 * 3 * NW;
    struct X { string one, sh, lo, dt, prog; std::vector<string> l; Table t; };
    auto mk = [](uint64_t i, X& x) {
        using namespace pm;
        char b = (char)(i / (3 * NW) + 1);
        int pos = (int)(i / NW % 3);
        unsigned w = (unsigned)(i % NW);
        x.one = pos == 0 ? string(1, b) : pos == 1 ? string(1, b) + "x" : string("x") + b;
        string& a = x.one;
        x.prog = w == 17 ? a : "prog";
        x.t.cap = 6;
        x.t.e = {{INT, "i", "int", 0, 1}, {DBL, "d", "dbl", 0, 1}, {STR, "s", "str", 0, 1}, {REX, "r", "rex", 0, 1}, {DATE, "t", "time", 0, 1}, {FIL, "f", "file", 0, 1}, {LIT, nullptr, "lion,lit", 0, 1}, {LIT, nullptr, "link", 0, 1}};
        switch (w) {
            case 0: x.l = {"--", a}; break;
            case 1: x.l = {"--zz" + a}; break;
            case 2: x.l = {"--li=" + a}; break;
            case 3: x.l = {string("-") + (b == '-' ? '_' : b)}; break;
            case 4: x.l = {"-i", a}; break;
            case 5: x.l = {"-i", "99999999999" + a}; break;
            case 6: x.l = {"-d", a}; break;
            case 7: x.l = {"-r", a}; break;
            case 8: x.l = {"-t", a}; break;
            case 9: x.l = {"-s1", "--str=" + a}; break;
            case 10: x.l = {"-f1", "-f", a}; break;
            case 11: x.l = {"-i1", "-i", a}; break;
            case 12: x.l = {"-d1", "-d", a}; break;
            case 13: x.l = {"-t2001-02-03", "-t", a}; break;
            case 14: x.l = {"-rabc", "-r", a}; break;
            case 15: x.t.e.push_back({INT, nullptr, nullptr, 0, 1}); x.l = {"--", a}; break;
            case 16: x.t.e.push_back({STR, nullptr, nullptr, 0, 1}); x.l = {"--", "y", a}; break;
            case 17: x.l = {"--zz", "-q", "-ix", "-dx", "-rx", "-tx", "op"}; break;
            case 18: case 19: case 20: case 21:
                x.dt = a; x.lo = a; for (auto& q : x.lo) if (q == ',') q = '.';
                if (w == 18) x.t.e = {{STR, "s", "str", 1, 1, false, x.dt.c_str()}};
                else if (w == 19) x.t.e = {{INT, nullptr, x.lo.c_str(), 1, 1}};
                else if (w == 20) x.t.e = {{LIT, nullptr, x.lo.c_str(), 1, 1}};
                else { x.t.e = {{FIL, nullptr, nullptr, 1, 1, false, x.dt.c_str()}}; }
                break;
        }
    };
    s.run = [=](uint64_t i, Case& c) {
        auto x = std::make_unique<X>();
        mk(i, *x);
        std::vector<vf::Str> toks;
        toks.reserve(x->l.size());
        std::vector<const char*> line;
        for (auto& y : x->l) { toks.emplace_back(y); line.push_back(toks.back().p); }
        pm::Real R(x->t);
        parse(R, line, c);
        check_errors(c, R, x->prog);
    };
    s.desc = [=](uint64_t i) { auto x = std::make_unique<X>(); mk(i, *x); string r = pm::show(x->t); for (auto& y : x->l) r += " " + quote(y); return r + " printed as " + quote(x->prog); };
    S.push_back(s);
}
// missing and excess occurrences for every pair of bounds
static void bounds(std::vector<vf::Space>& S, int max) {
    vf::Space s;
    s.name = "bounds";
    s.n = (uint64_t)(max + 1) * (uint64_t)(max + 1) * (uint64_t)(max + 3) * 7 * 3;
    auto mk = [=](uint64_t i, Table& t, std::vector<string>& l) {
        using namespace pm;
        int k = (int)(i % 7), form = (int)(i / 7 % 3);
        i /= 21;
        int mn = (int)(i % (uint64_t)(max + 1)), mx = (int)(i / (uint64_t)(max + 1) % (uint64_t)(max + 1)), n = (int)(i / (uint64_t)(max + 1) / (uint64_t)(max + 1));
        if (k == LIT && form == 2) form = 0;
        t.cap = 2 * max + 5;
        t.e = {{(Kind)k, form == 0 ? "k" : nullptr, form == 1 ? "key" : nullptr, mn, mx}, {LIT, "z", nullptr, 1, 1}};
        for (int q = 0; q < n; q++) {
            string v = k == REX ? "ab" : k == DATE ? "2001-02-03" : strf("%d", q);
            l.push_back(k == LIT ? (form ? "--key" : "-k") : form == 0 ? "-k" + v : form == 1 ? "--key=" + v : v);
        }
    };
    s.run = [=](uint64_t i, Case& c) {
        Table t;
        std::vector<string> l;
        mk(i, t, l);
        std::vector<vf::Str> toks;
        toks.reserve(l.size());
        std::vector<const char*> line;
        for (auto& y : l) { toks.emplace_back(y); line.push_back(toks.back().p); }
        pm::Real R(t);
        parse(R, line, c);
        check_errors(c, R, "prog");
    };
    s.desc = [=](uint64_t i) { Table t; std::vector<string> l; mk(i, t, l); return pm::show(t) + strf(" given %zu times", l.size()); };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C20";
    c.rule = "every line up to the bound over tables of every type with tokens that contain every kind of error, every combination of error kinds up to the bound, every pair of bounds with every number of occurrences, every byte in each text, every length of each offending text, value name, spelling and program name (plain and with format characters), and date formats; the messages printed to a stream and appended to a dynamic string are compared with those the recorded errors call for; outcomes are distinct by the printed text";
    c.assumptions = {"the program name is not NULL", "options rendered longer than 198 characters may be cut at 190 to 199 characters", "the message for a missing switch may be followed by an empty line", "the wording of the messages is the present one"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        lines(S, q ? 4 : 5);
        combos(S, q ? 4 : 5);
        odd(S, q ? 3 : 4);
        lengths(S, q ? 450 : 1500, q ? 16384 : 65536);
        spellings(S, q ? 230 : 500);
        many(S, q ? 150 : 400, q ? 1024 : 4096);
        bytes(S);
        bounds(S, q ? 6 : 10);
        dates(S);
        longdates(S);
    };
    return vf::run(c, argc, argv);
}
