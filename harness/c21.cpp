// C21: help and error screens follow the module name, version and table.
#include "rd.hpp"
using namespace rd;

static int noproc(int, char**, arg_dstr_t, void*) { return 0; }
struct Ver { int a, b, c; string tag; };
static std::vector<string>& NAMES() { static std::vector<string> v = {"mod", "", "a %s %n b", string(300, 'M'), "x", "mud"}; return v; }
static std::vector<Ver>& VERS() { static std::vector<Ver> v = {{1, 2, 3, "tag"}, {0, 0, 0, ""}, {-1, INT_MAX, INT_MIN, "%d%s"}, {10, 200, 3000, string(250, 'T')}, {1, 2, 4, "tag"}, {1, 2, 3, ""}, {1, 2, 4, ""}}; return v; }
static string verstr(const Ver& v) { return strf("%d.%d.%d.", v.a, v.b, v.c) + v.tag; }
static void set_name(const string& n) { vf::Str s(n); LIBV(arg_set_module_name(s.p)); memset(s.p, '!', s.n); }
static void set_ver(const Ver& v) { vf::Str s(v.tag); LIBV(arg_set_module_version(v.a, v.b, v.c, s.p)); memset(s.p, '!', s.n); }
static string shown_name(const string& n) { return n.empty() ? "<name>" : n; }
static string hint(const string& n, const string& v) { return shown_name(n) + " v" + v + "\nPlease type '" + shown_name(n) + " help' to get more information.\n"; }
static string get_hint() {
    arg_dstr_t d = LIB(arg_dstr_create());
    LIBV(arg_dstr_cat(d, "pre\n"));
    LIBV(arg_make_get_help_msg(d));
    string r = LIB(arg_dstr_cstr(d));
    LIBV(arg_dstr_destroy(d));
    return r;
}
// histories that begin in a fresh process, run before anything is set here
struct Fresh { std::vector<int> ops; string got, want; };
static std::vector<Fresh> g_fresh;
static void run_fresh() {
    unsigned nops = (unsigned)(NAMES().size() + VERS().size());
    for (uint64_t i = 0; i < vf::seq_count(nops, 2); i++) {
        Fresh f;
        f.ops = vf::seq_at(i, nops, 2);
        string n, v = "0.0.0.0";
        for (int o : f.ops) { if (o < (int)NAMES().size()) n = NAMES()[(size_t)o]; else v = verstr(VERS()[(size_t)o - NAMES().size()]); }
        f.want = "pre\n" + hint(n, v);
        int p[2];
        if (pipe(p)) continue;
        fflush(stdout);
        pid_t pid = fork();
        if (!pid) {
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1); dup2(nul, 2);
            alarm(60);
            for (int o : f.ops) { if (o < (int)NAMES().size()) set_name(NAMES()[(size_t)o]); else set_ver(VERS()[(size_t)o - NAMES().size()]); }
            string r = get_hint();
            if (write(p[1], r.data(), r.size()) < 0) {}
            _exit(0);
        }
        close(p[1]);
        char b[4096];
        ssize_t k;
        while ((k = read(p[0], b, sizeof b)) > 0) f.got.append(b, (size_t)k);
        close(p[0]);
        int st;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) f.got += strf("[process ended abnormally: status %x]", st);
        g_fresh.push_back(f);
    }
    set_name("initial");
    set_ver({9, 9, 9, "initial"});
}
static void fresh(std::vector<vf::Space>& S) {
    vf::Space s;
    s.name = "fresh-process";
    s.n = g_fresh.size();
    s.run = [](uint64_t i, Case& c) { Fresh& f = g_fresh[(size_t)i]; c.steps += f.ops.size() + 1; c.mix(f.got); if (f.got != f.want) c.fail("the hint is " + quote(f.got) + ", expected " + quote(f.want)); };
    s.desc = [](uint64_t i) { string r = "in a fresh process:"; for (int o : g_fresh[(size_t)i].ops) r += strf(" set %s %d", o < (int)NAMES().size() ? "name" : "version", o); return r; };
    S.push_back(s);
}
static void identity(std::vector<vf::Space>& S, unsigned len) {
    unsigned nops = (unsigned)(NAMES().size() + VERS().size());
    vf::Space s;
    s.name = strf("identity-%u", len);
    s.n = vf::ipow(nops, len);
    s.run = [=](uint64_t i, Case& c) {
        int d[10];
        vf::digits(i, nops, len, d);
        string n = "start", v = "7.7.7.start";
        set_name(n);
        set_ver({7, 7, 7, "start"});
        for (unsigned k = 0; k <= len && !c.failed; k++) {
            string got = get_hint(), want = "pre\n" + hint(n, v);
            c.steps += 2;
            c.mix(got);
            if (got != want) c.fail("the hint is " + quote(got) + ", expected " + quote(want));
            if (k == len) break;
            if (d[k] < (int)NAMES().size()) { n = NAMES()[(size_t)d[k]]; set_name(n); }
            else { v = verstr(VERS()[(size_t)d[k] - NAMES().size()]); set_ver(VERS()[(size_t)d[k] - NAMES().size()]); }
        }
    };
    s.desc = [=](uint64_t i) { int d[10]; vf::digits(i, nops, len, d); string r = "set:"; for (unsigned k = 0; k < len; k++) r += d[k] < (int)NAMES().size() ? " name " + quote(NAMES()[(size_t)d[k]]) : " version " + quote(verstr(VERS()[(size_t)d[k] - NAMES().size()])); return r; };
    S.push_back(s);
}
// every pair of versions over a grid of numbers and tags
static void version_pairs(std::vector<vf::Space>& S, bool thorough) {
    auto v = std::make_shared<std::vector<Ver>>();
    std::vector<int> nums = thorough ? std::vector<int>{0, 1, 2, 10, -1, 99} : std::vector<int>{0, 1, 9, 10, -1};
    std::vector<string> tags = {"", "a", "b", "ab", "1"};
    for (int a : nums) for (int b : nums) for (int d : nums) for (auto& t : tags) v->push_back({a, b, d, t});
    vf::Space s;
    s.name = "version-pairs";
    uint64_t n = v->size();
    s.n = n * n;
    s.run = [=](uint64_t i, Case& c) {
        const Ver &a = (*v)[(size_t)(i / n)], &b = (*v)[(size_t)(i % n)];
        set_name("m");
        set_ver(a);
        set_ver(b);
        string got = get_hint(), w = "v" + verstr(b) + "\n";
        c.steps += 3;
        c.mix(got);
        c.mix((uint64_t)(i / n));
        if (got.find(w) == string::npos) c.fail("the hint is " + quote(got) + ", expected to show " + quote(w));
    };
    s.desc = [=](uint64_t i) { return "version " + quote(verstr((*v)[(size_t)(i / n)])) + " then " + quote(verstr((*v)[(size_t)(i % n)])); };
    S.push_back(s);
}
static std::vector<Table> tables() {
    using namespace pm;
    std::vector<Table> v;
    auto add = [&](std::initializer_list<Entry> e) { Table t; t.e = e; t.cap = 5; v.push_back(t); };
    add({});
    add({{LIT, "h", "help", 0, 1, false, nullptr, "print this help and exit"}});
    add({{LIT, "h", "help", 0, 1, false, nullptr, "help"}, {INT, "n", "number", 1, 2, false, "N", "a number"}, {FIL, nullptr, nullptr, 1, 3, false, nullptr, nullptr}});
    add({{STR, nullptr, "name,alias", 0, 5, true, "%s", "100%d"}, {REM, nullptr, nullptr, 0, 0, false, "note", "remark"}});
    add({{DBL, "xyz", nullptr, 2, 2, false, nullptr, ""}, {REX, nullptr, "rex", 0, 1, false, "<r>", "very long description that is not wrapped in this kind of glossary because it uses a plain column format"}});
    add({{LIT, "a", "an-option-with-a-long-name", 1, 1, false, nullptr, "x"}, {DATE, "d", nullptr, 0, 1, false, nullptr, nullptr}});
    return v;
}
static std::vector<std::vector<const char*>> LINES() {
    using pm::TS;
    return {TS({}), TS({"-h"}), TS({"-q"}), TS({"x", "y"}), TS({"-n", "bad"}), TS({"--zz", "-q", "-q", "%s", "%n"}), TS({"-h", "-h"})};
}
static void screens(std::vector<vf::Space>& S) {
    auto tb = std::make_shared<std::vector<Table>>(tables());
    auto ln = std::make_shared<std::vector<std::vector<const char*>>>(LINES());
    static const int HELP[] = {0, 1, 2, -1};
    static const int NE[] = {-2, 0, 1, 3, -1};  // -2: the parse's own result
    static std::vector<std::pair<string, string>> CMD = {{"cmd", "does something"}, {"", ""}, {"%s%d", string(255, 'D')}, {string(99, 'c'), "100%"}};
    vf::Space s;
    s.name = "screens";
    uint64_t nt = tb->size(), nl = ln->size(), nn = NAMES().size();
    s.n = nt * nl * nn * 4 * 4 * 5 * 4;
    s.run = [=](uint64_t i, Case& c) {
        uint64_t j = i;
        auto take = [&](uint64_t b) { uint64_t r = j % b; j /= b; return (size_t)r; };
        const Table& t = (*tb)[take(nt)];
        auto& line = (*ln)[take(nl)];
        const string& name = NAMES()[take(nn)];
        auto& cmd = CMD[take(4)];
        int help = HELP[take(4)], ne = NE[take(5)];
        size_t reg = take(4);
        set_name(name);
        LIBV(arg_cmd_init());
        if (reg) {
            vf::Str a(cmd.first), b(cmd.second);
            if (reg == 3) { vf::Str o("first " + cmd.second.substr(0, 200)); LIBV(arg_cmd_register(a.p, noproc, o.p, nullptr)); }
            LIBV(arg_cmd_register(a.p, reg == 2 ? nullptr : noproc, b.p, nullptr));
        }
        LIBV(arg_cmd_register("other", noproc, "another one", nullptr));
        {
            pm::Real R(t);
            std::vector<char*> av;
            static char pr[] = "prog";
            av.push_back(pr);
            for (auto x : line) av.push_back((char*)x);
            av.push_back(nullptr);
            int n = LIB(arg_parse((int)line.size() + 1, av.data(), R.at.data()));
            if (ne != -2) n = ne;
            string N = shown_name(name);
            // the errors as the library prints them (see C20 for their text)
            arg_dstr_t e = LIB(arg_dstr_create());
            LIBV(arg_print_errors_ds(e, R.end, N.c_str()));
            string errs = LIB(arg_dstr_cstr(e));
            LIBV(arg_dstr_destroy(e));
            string help_want = (reg ? cmd.first + ": " + cmd.second + "\n" : "") + "Usage:\n  " + N + syntaxv(t, "\n \nAvailable options:\n") + glossary(t, "  %-23s %s\n") + "\n";
            string err_want = errs + "Usage: \n  " + N + syntaxv(t, "\n") + "\n";
            vf::Str cn(cmd.first);
            auto text = [&](const std::function<void(arg_dstr_t)>& f) {
                arg_dstr_t d = LIB(arg_dstr_create());
                LIBV(arg_dstr_cat(d, "pre\n"));
                { vf::InLib g; f(d); }
                string r = LIB(arg_dstr_cstr(d));
                LIBV(arg_dstr_destroy(d));
                c.steps++;
                return r;
            };
            string got = text([&](arg_dstr_t d) { arg_make_help_msg(d, cn.p, R.at.data()); });
            c.mix(got);
            if (got != "pre\n" + help_want) c.fail("help screen " + quote(got) + ", expected " + quote("pre\n" + help_want));
            got = text([&](arg_dstr_t d) { arg_make_syntax_err_msg(d, R.at.data(), R.end); });
            c.mix(got);
            if (got != "pre\n" + err_want) c.fail("error screen " + quote(got) + ", expected " + quote("pre\n" + err_want));
            int code = 77, ret = 0;
            got = text([&](arg_dstr_t d) { ret = arg_make_syntax_err_help_msg(d, cn.p, help, n, R.at.data(), R.end, &code); });
            c.mix(got);
            c.mix(code);
            string want = "pre\n" + (help > 0 ? help_want : n > 0 ? err_want : string());
            int wc = help > 0 ? EXIT_SUCCESS : n > 0 ? EXIT_FAILURE : 77;
            if (got != want) c.fail(strf("help %d, %d errors: screen ", help, n) + quote(got) + ", expected " + quote(want));
            else if (code != wc) c.fail(strf("help %d, %d errors: exit code %d, expected %d%s", help, n, code, wc, wc == 77 ? " (unchanged)" : ""));
            else if (!!ret != (help > 0 || n > 0)) c.fail(strf("help %d, %d errors: returned %d", help, n, ret));
        }
        LIBV(arg_cmd_uninit());
    };
    s.desc = [=](uint64_t i) {
        uint64_t j = i;
        auto take = [&](uint64_t b) { uint64_t r = j % b; j /= b; return (size_t)r; };
        string r = pm::show((*tb)[take(nt)]);
        r += " " + pm::show((*ln)[take(nl)]);
        r += " module " + quote(NAMES()[take(nn)]);
        r += " command " + quote(CMD[take(4)].first);
        r += strf(" help %d", HELP[take(4)]);
        int ne = NE[take(5)];
        r += ne == -2 ? string(" errors as parsed") : strf(" errors %d", ne);
        static const char* REG[] = {" not registered", " registered", " registered without a procedure", " registered twice"};
        return r + REG[take(4)];
    };
    S.push_back(s);
}
// every length of name and tag
static void lengths(std::vector<vf::Space>& S, int dense, int max) {
    auto pt = std::make_shared<std::vector<int>>(vf::points(dense, max));
    pt->insert(pt->begin(), 0);
    vf::Space s;
    s.name = "lengths";
    s.n = pt->size() * 2;
    s.run = [=](uint64_t i, Case& c) {
        string a;
        for (int k = 0; k < (*pt)[i / 2]; k++) a += (char)('a' + k % 26);
        string n = i % 2 ? a : "m";
        Ver v{1, -2, 30000, i % 2 ? "t" : a};
        set_name(n);
        set_ver(v);
        string got = get_hint(), want = "pre\n" + hint(n, verstr(v));
        c.steps += 3;
        c.mix(got);
        if (got != want) c.fail("the hint is " + quote(got) + ", expected " + quote(want));
    };
    s.desc = [=](uint64_t i) { return strf("%s of length %d", i % 2 ? "name" : "version tag", (*pt)[i / 2]); };
    S.push_back(s);
}

// every byte in the name, the tag, the command and its description
static void bytes(std::vector<vf::Space>& S) {
    vf::Space s;
    s.name = "bytes";
    s.n = 255 * 6;
    s.run = [=](uint64_t i, Case& c) {
        char b = (char)(i / 6 + 1);
        string w(1, b);
        switch (i % 6) { case 0: break; case 1: w += "x"; break; case 2: w = "x" + w; break; case 3: w = "x" + w + "y"; break; case 4: w = w + w; break; case 5: w = "\n" + w + "\n"; break; }
        Ver v{1, 2, 3, w};
        set_name(w);
        set_ver(v);
        string got = get_hint(), want = "pre\n" + hint(w, verstr(v));
        c.steps += 3;
        c.mix(got);
        if (got != want) { c.fail("the hint is " + quote(got) + ", expected " + quote(want)); return; }
        LIBV(arg_cmd_init());
        vf::Str n(w), d("about " + w + " it");
        LIBV(arg_cmd_register(n.p, noproc, d.p, nullptr));
        {
            Table t;
            t.cap = 2;
            t.e = {{pm::LIT, "h", "help", 0, 1, false, nullptr, "x"}, {pm::STR, nullptr, "name", 0, 1, false, w.c_str(), w.c_str()}};
            pm::Real R(t);
            arg_dstr_t ds = LIB(arg_dstr_create());
            LIBV(arg_make_help_msg(ds, n.p, R.at.data()));
            got = LIB(arg_dstr_cstr(ds));
            LIBV(arg_dstr_destroy(ds));
            c.mix(got);
            want = w + ": about " + w + " it\nUsage:\n  " + w + syntaxv(t, "\n \nAvailable options:\n") + glossary(t, "  %-23s %s\n") + "\n";
            if (got != want) c.fail("help screen " + quote(got) + ", expected " + quote(want));
        }
        LIBV(arg_cmd_uninit());
    };
    s.desc = [=](uint64_t i) { return strf("byte %d in the names, variant %d", (int)(i / 6) + 1, (int)(i % 6)); };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C21";
    c.rule = "every sequence of the bound length over setting six names and seven versions, every pair of versions over a grid of numbers and tags, with the hint compared after each step, all histories of up to two settings in a fresh process, every length of name and tag, every byte in them and in a command and its description, and every combination of table, command line, module name, command, help count, error count and registration for the help and error screens; outcomes are distinct by the text produced and the exit code";
    c.assumptions = {"the sub-command registry is initialized when a help screen is made", "the text of the errors themselves is that of arg_print_errors_ds (C20)"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        run_fresh();
        fresh(S);
        for (unsigned l = 1; l <= (q ? 5u : 6u); l++) identity(S, l);
        version_pairs(S, !q);
        screens(S);
        bytes(S);
        lengths(S, q ? 700 : 3000, q ? 65536 : 1 << 18);
    };
    return vf::run(c, argc, argv);
}
