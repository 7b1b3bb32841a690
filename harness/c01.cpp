// C01: option occurrences reach exactly the designated entry and value.
#include "pm.hpp"
using namespace pm;

static const int WHAT = M_TAGGED | M_RET0;

// every single-entry table of each kind and spelling, with every line over its alphabet
static void singles(std::vector<vf::Space>& S, unsigned len) {
    auto f = std::make_shared<Family>();
    for (int k = LIT; k <= DATE; k++)
        for (int sp = 0; sp < 6; sp++)
            for (int opt = 0; opt < (k == LIT ? 1 : 2); opt++) {
                static const char* SH[] = {"a", nullptr, "a", "ab", nullptr, "abc"};
                static const char* LO[] = {nullptr, "alpha", "alpha", "alpha,beta", "alpha,al,beta", nullptr};
                Table t;
                t.e.push_back({(Kind)k, SH[sp], LO[sp], 0, 3, opt != 0});
                f->add(t, alphabet(t), len);
            }
    S.push_back(family_space("single", f, WHAT));
}

// ordered pairs of entries from a list of specifications
static void pairs(std::vector<vf::Space>& S, unsigned len) {
    std::vector<Entry> A = {
        {LIT, "a", nullptr, 0, 9},           {LIT, "a", "alpha", 0, 9},   {LIT, nullptr, "alp", 0, 9},       {INT, "a", nullptr, 0, 9},
        {INT, nullptr, "alpha", 0, 9},       {INT, "a", "al", 0, 9, true}, {STR, "a", "alpha,beta", 0, 9},    {STR, nullptr, "a", 0, 9, true},
        {FIL, "ab", nullptr, 0, 9},          {DBL, "a", "alpha", 0, 9}};
    std::vector<Entry> B = {
        {LIT, "b", nullptr, 0, 9},           {LIT, "B", "alphabet", 0, 9}, {LIT, nullptr, "al", 0, 9},        {INT, "b", nullptr, 0, 9},
        {INT, nullptr, "alps", 0, 9},        {STR, "b", "alphabet", 0, 9, true}, {STR, "A", "ALPHA", 0, 9},     {REX, "b", "bravo", 0, 9},
        {LIT, "b", "alpha-beta", 0, 9},      {STR, nullptr, "alpha", 0, 9}};
    auto f = std::make_shared<Family>();
    AlphaOpt o;
    o.badvals = false;
    for (auto& x : A)
        for (auto& y : B)
            for (int ord = 0; ord < 2; ord++) {
                Table t;
                t.e.push_back(ord ? y : x);
                t.e.push_back(ord ? x : y);
                f->add(t, alphabet(t, o), len);
            }
    S.push_back(family_space("pairs", f, WHAT));
}

// long names that are prefixes of each other, in every order, with every prefix of every name
static void prefixes(std::vector<vf::Space>& S, unsigned n, unsigned len) {
    static const char* N[] = {"al", "alp", "alpha", "alphabet", "alps", "beta", "a", "alpha-x"};
    auto f = std::make_shared<Family>();
    std::vector<int> pick(n, 0);
    uint64_t tot = vf::ipow(8, n);
    for (uint64_t i = 0; i < tot; i++) {
        std::vector<int> d(n);
        vf::digits(i, 8, n, d.data());
        bool dup = false;
        for (unsigned x = 0; x < n; x++) for (unsigned y = x + 1; y < n; y++) if (d[x] == d[y]) dup = true;
        if (dup) continue;
        for (int kinds = 0; kinds < 2; kinds++) {
            Table t;
            std::vector<std::string> a;
            auto add = [&](const std::string& s) { for (auto& y : a) if (y == s) return; a.push_back(s); };
            for (unsigned x = 0; x < n; x++) {
                t.e.push_back({(int)(x % 2) == kinds ? LIT : STR, nullptr, N[d[x]], 0, 9});
                std::string s = N[d[x]];
                for (size_t l = 1; l <= s.size(); l++) { add("--" + s.substr(0, l)); add("--" + s.substr(0, l) + "=v"); }
                add("--" + s + "x");
            }
            std::vector<const char*> al;
            for (auto& s : a) al.push_back(T(s));
            f->add(t, al, len);
        }
    }
    S.push_back(family_space("prefixes", f, WHAT));
}
// two names in one entry: a prefix shared only within the entry is not ambiguous
static void aliases(std::vector<vf::Space>& S, unsigned len) {
    auto f = std::make_shared<Family>();
    static const char* LO[] = {"color,colour", "col,color,colour", "x,xx,xxx", "colour,beta,color", "beta,colour", "co", "b,be,bet,beta", "color,colour,colored,coloured,c"};
    for (int i = 0; i < 8; i++)
        for (int j = 0; j < 8; j++)
            for (int k = 0; k < 4; k++) {
                Table t;
                t.e.push_back({k & 1 ? STR : LIT, nullptr, LO[i], 0, 9});
                if (j != i) t.e.push_back({k & 2 ? STR : LIT, "c", LO[j], 0, 9});
                std::vector<const char*> al;
                for (auto s : {"--c", "--co", "--col", "--colo", "--color", "--colou", "--colour", "--colored", "--coloure", "--b", "--be", "--beta", "--x", "--xx", "--xxx", "--co=1", "--colou=2", "--bet=3", "-c", "v"}) al.push_back(T(s));
                f->add(t, al, len);
            }
    S.push_back(family_space("aliases", f, WHAT));
}
// clusters: every word of up to `len` letters over flags, value takers, optional takers and unknowns
static void clusters(std::vector<vf::Space>& S, unsigned len) {
    static const char L[] = "abvoz1=-";  // a,b flags; v value; o optional value; z unknown
    Table t;
    t.e = {{LIT, "a", nullptr, 0, 20}, {LIT, "bB", nullptr, 0, 20}, {STR, "v", nullptr, 0, 20}, {STR, "o", nullptr, 0, 20, true}, {STR, nullptr, nullptr, 0, 5}};
    auto tp = std::make_shared<Table>(t);
    uint64_t n = vf::seq_count(8, len);
    auto word = [=](uint64_t i, bool& bad) {
        std::string s = "-";
        bool val = false;
        bad = false;
        for (int d : vf::seq_at(i, 8, len)) {
            // '-' as an option letter is not part of the claim (except as part of a value)
            if (!val && L[d] == '-') bad = true;
            s += L[d];
            if (L[d] == 'v' || L[d] == 'o') val = true;
        }
        return s;
    };
    vf::Space s;
    s.name = "clusters";
    s.n = n * 3;
    s.run = [=](uint64_t i, Case& c) {
        bool bad;
        std::string w = word(i / 3, bad);
        if (bad) return;
        vf::Str x(w), y("next"), z("-a");
        std::vector<const char*> line = {x.p};
        if (i % 3) line.push_back(i % 3 == 1 ? y.p : z.p);
        Real R(*tp);
        check_parse(R, line, false, WHAT, c);
    };
    s.desc = [=](uint64_t i) { bool bad; return show(*tp) + " prog " + word(i / 3, bad) + (i % 3 == 1 ? " next" : i % 3 == 2 ? " -a" : ""); };
    S.push_back(s);
}
// a required value is the next token, whatever it looks like
static void values(std::vector<vf::Space>& S, unsigned len) {
    auto f = std::make_shared<Family>();
    std::vector<const char*> al = TS({"-s", "--str", "--str=-a", "--str=a=b", "--str==", "-s=x", "-s-a", "--", "-", "-a", "--lit", "--str=--", "-t", "x y", "--lit=1", "-as", "-at", "--opt", "--opt=1"});
    for (int o = 0; o < 4; o++) {
        Table t;
        t.e = {{LIT, "a", "lit", 0, 9}, {STR, "s", "str", 0, 9, (o & 1) != 0}, {FIL, "t", nullptr, 0, 9, (o & 2) != 0}, {STR, nullptr, "opt", 0, 9, true}, {STR, nullptr, nullptr, 0, 9}};
        f->add(t, al, len);
    }
    S.push_back(family_space("values", f, WHAT));
    S.push_back(family_space("values-posix", f, WHAT | M_PAST, true));
}
// every byte that can be an option letter
static void letters(std::vector<vf::Space>& S) {
    vf::Space s;
    s.name = "letters";
    s.n = 256 * 4;
    auto ok = [](int ch) { return !(ch <= 32 || ch == 127 || ch == '-' || ch == '?' || ch == ':' || ch == ';'); };
    s.run = [=](uint64_t i, Case& c) {
        int ch = (int)(i / 4), mode = (int)(i % 4);
        if (!ok(ch)) return;
        char sh[3] = {(char)ch, 0, 0}, other[2] = {(char)(ch == 'q' ? 'r' : 'q'), 0};
        Table t;
        t.e.push_back({LIT, other, nullptr, 0, 5});
        t.e.push_back({mode & 1 ? STR : LIT, sh, nullptr, 0, 5});
        t.e.push_back({LIT, nullptr, "other", 0, 5});
        vf::Str a(std::string("-") + (char)ch), b(std::string("-") + other + (char)ch), v("val"), d(std::string("-") + (char)ch + (char)ch);
        std::vector<const char*> line = {a.p};
        if (mode & 1) line.push_back(v.p);
        line.push_back(mode & 2 ? b.p : d.p);
        if ((mode & 3) == 3) line.push_back(v.p);
        Real R(t);
        check_parse(R, line, false, WHAT, c);
    };
    s.desc = [](uint64_t i) { return vf::strf("option letter with code %d, mode %d", (int)(i / 4), (int)(i % 4)); };
    S.push_back(s);
}
// tables and lines of growing size
static void ladder(std::vector<vf::Space>& S, int maxn) {
    vf::Space s;
    s.name = "big-tables";
    s.n = (uint64_t)maxn * 3;
    s.run = [](uint64_t i, Case& c) {
        int n = (int)(i / 3) + 1, mode = (int)(i % 3);
        Table t;
        t.cap = 5;
        std::vector<std::string> names((size_t)n), shorts((size_t)n);
        static const char LET[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
        for (int k = 0; k < n; k++) {
            names[(size_t)k] = strf("name%d", k);
            if (k < 62) shorts[(size_t)k] = std::string(1, LET[k]);
            t.e.push_back({k % 3 == 0 ? LIT : k % 3 == 1 ? INT : STR, k < 62 ? shorts[(size_t)k].c_str() : nullptr, names[(size_t)k].c_str(), 0, 4});
        }
        std::vector<vf::Str> toks;
        toks.reserve((size_t)n * 4);
        for (int q = 0; q < n; q++) {
            int k = mode == 0 ? q : mode == 1 ? n - 1 - q : (q * 7 + 3) % n;
            bool lit = k % 3 == 0;
            if (mode != 1 && k < 62) { toks.emplace_back("-" + shorts[(size_t)k]); if (!lit) toks.emplace_back(strf("%d", k)); }
            else if (lit) toks.emplace_back("--" + names[(size_t)k]);
            else if (q % 2) toks.emplace_back("--" + names[(size_t)k] + strf("=%d", k));
            else { toks.emplace_back("--" + names[(size_t)k]); toks.emplace_back(strf("%d", k)); }
        }
        std::vector<const char*> line;
        for (auto& x : toks) line.push_back(x.p);
        Real R(t);
        check_parse(R, line, false, WHAT, c);
    };
    s.desc = [](uint64_t i) { return strf("table of %d entries (mode %d), each given once", (int)(i / 3) + 1, (int)(i % 3)); };
    S.push_back(s);

    vf::Space l;
    l.name = "long-lines";
    l.n = (uint64_t)maxn * 4;
    l.run = [](uint64_t i, Case& c) {
        int n = (int)(i / 4) + 1, mode = (int)(i % 4);
        Table t;
        t.e = {{LIT, "a", "lit", 0, 1000}, {INT, "i", "int", 0, 1000}, {STR, "s", "str", 0, 1000}, {STR, nullptr, nullptr, 0, 1000}};
        std::vector<vf::Str> toks;
        toks.reserve((size_t)n * 2 + 2);
        if (mode == 3) toks.emplace_back("-" + std::string((size_t)n, 'a') + "s" + std::string((size_t)n, 'x'));
        else
            for (int k = 0; k < n; k++) {
                int w = (k * (mode + 1) + k / 5) % 5;
                if (w == 0) toks.emplace_back("-a");
                else if (w == 1) { toks.emplace_back("-i"); toks.emplace_back(strf("%d", k)); }
                else if (w == 2) toks.emplace_back(strf("--str=v%d", k));
                else if (w == 3) toks.emplace_back(strf("op%d", k));
                else toks.emplace_back("--int=" + strf("%d", -k));
            }
        std::vector<const char*> line;
        for (auto& x : toks) line.push_back(x.p);
        Real R(t);
        check_parse(R, line, false, WHAT, c);
    };
    l.desc = [](uint64_t i) { return strf("line of about %d arguments (mode %d)", (int)(i / 4) + 1, (int)(i % 4)); };
    S.push_back(l);
}

// one dimension grown far beyond the others: lengths of names, values and clusters, numbers of aliases, entries and occurrences
static void scale(std::vector<vf::Space>& S, int dense, int max) {
    static const char* M[] = {"long name given in full", "long name given by its longest prefix", "ambiguous prefix of that length", "two names differing in the last letter", "attached value", "value after '='", "value in the next argument", "cluster ending in a value option", "alias", "entry of a table", "occurrence", "long name with a value after '='", "unknown long name"};
    const unsigned NM = 13;
    auto pt = std::make_shared<std::vector<int>>(vf::points(dense, max));
    vf::Space s;
    s.name = "scale";
    s.n = pt->size() * NM;
    s.run = [=](uint64_t i, Case& c) {
        unsigned m = (unsigned)(i % NM);
        int n = (*pt)[i / NM];
        if ((m == 8 || m == 9) && n > 2100) return;
        std::string w, name, name2, list;
        for (int k = 0; k < n; k++) w += (char)('a' + k % 25);
        std::vector<std::string> l, names;
        Table t;
        t.cap = 3;
        switch (m) {
            case 0: name = w; l = {"--" + w}; break;
            case 1: name = w + "z"; l = {"--" + w}; break;
            case 2: name = w + "y"; name2 = w + "z"; l = {"--" + w}; break;
            case 3: name = w + "y"; name2 = w + "z"; l = {"--" + name2, "--" + name, "--" + name2}; break;
            case 4: l = {"-s" + w, "-as=" + w}; break;
            case 5: l = {"--str=" + w, "--s==" + w}; break;
            case 6: l = {"-s", w, "--str", "--" + w, "-as", "-" + w}; break;
            case 7: l = {"-" + std::string((size_t)n, 'a') + "s" + w}; break;
            case 8: for (int k = 0; k < n; k++) { list += strf("%sn%d", k ? "," : "", k); } l = {strf("--n%d", n - 1), "--n0", strf("--n%d", n / 2)}; name = list; break;
            case 9: for (int k = 0; k < n; k++) names.push_back(strf("e%dx", k)); l = {strf("--e%dx", n - 1), "--e0x", strf("--e%d", n - 1), strf("--e%dx", n / 2)}; break;
            case 10: for (int k = 0; k < n; k++) l.push_back(k % 3 ? "-a" : k % 2 ? "-t7" : "--str=v"); break;
            case 11: name = w; l = {"--" + w + "=" + w, "--str=q"}; break;
            case 12: name = w + "y"; l = {"--" + w + "x", "--str=q"}; break;
        }
        int mx = n + 3;
        t.e = {{LIT, "a", nullptr, 0, mx}, {STR, "s", "str", 0, m == 10 ? mx : 9}, {INT, "t", nullptr, 0, m == 10 ? mx : 9}};
        if (!name.empty()) t.e.push_back({m == 11 ? STR : LIT, nullptr, name.c_str(), 0, 9});
        if (!name2.empty()) t.e.push_back({LIT, nullptr, name2.c_str(), 0, 9});
        for (auto& x : names) t.e.push_back({LIT, nullptr, x.c_str(), 0, 9});
        std::vector<vf::Str> toks;
        toks.reserve(l.size());
        std::vector<const char*> line;
        for (auto& x : l) { toks.emplace_back(x); line.push_back(toks.back().p); }
        Real R(t);
        check_parse(R, line, false, WHAT, c);
    };
    s.desc = [=](uint64_t i) { return strf("size %d: %s", (*pt)[i / NM], M[i % NM]); };
    S.push_back(s);
}

// two related names with many others between, before and after them
static void distant(std::vector<vf::Space>& S, int dense, int max) {
    static const char* P[][3] = {{"alpha", "alps", "--alp"}, {"alp", "alpha", "--alp"}, {"alpha", "alp", "--alp"}, {"alpha", "beta", "--alp"}, {"beta", "alpha", "--alp"}, {"alpha", "alpha", "--alp"}};
    auto pt = std::make_shared<std::vector<int>>(vf::points(dense, max));
    vf::Space s;
    s.name = "distant-names";
    s.n = pt->size() * 6 * 4;
    s.run = [=](uint64_t i, Case& c) {
        int d = (*pt)[i / 24], before = (int)(i % 2) * 3, how = (int)(i / 2 % 2);
        const char** p = P[i / 4 % 6];
        std::vector<std::string> nm;
        std::string list;
        int n = before + d + 2;
        for (int k = 0; k < n; k++) nm.push_back(k == before ? p[0] : k == before + d ? p[1] : strf("f%dx", k));
        Table t;
        t.cap = 5;
        if (how == 0) for (auto& x : nm) t.e.push_back({LIT, nullptr, x.c_str(), 0, 9});
        else { for (int k = before + 1; k <= before + d; k++) list += (k > before + 1 ? "," : "") + nm[(size_t)k]; t.e = {{LIT, nullptr, p[0], 0, 9}, {LIT, nullptr, list.c_str(), 0, 9}}; }
        t.e.push_back({STR, "s", "str", 0, 2});
        auto line = TS({p[2], "--al", "--str=v", "--s=w"});
        line.push_back(T(std::string("--") + p[1]));
        line.push_back(T(std::string("--") + p[0]));
        Real R(t);
        check_parse(R, line, false, WHAT, c);
    };
    s.desc = [=](uint64_t i) { const char** p = P[i / 4 % 6]; return strf("names %s and %s %d apart, %d before, %s", p[0], p[1], (*pt)[i / 24], (int)(i % 2) * 3, i / 2 % 2 ? "the second in a list of names" : "in entries of their own"); };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C01";
    c.rule = "every table of the listed families with every line of up to the bound of tokens over the table's alphabet (all spellings, prefixes, attached and detached values, clusters, unknown options, '-' and '--'); outcomes are distinct by return value, counts, values and error records";
    c.assumptions = {"the reference model of option scanning in harness/pm.hpp states the GNU conventions correctly", "the sizes of names, values, tables and lines beyond the small spaces are varied one at a time, densely and then around powers of two", "option letters other than '-', '?', ':', ';' and control characters"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        singles(S, q ? 4 : 5);
        pairs(S, q ? 3 : 4);
        prefixes(S, 3, 2);
        if (!q) prefixes(S, 4, 1), S.back().name = "prefixes-4";
        aliases(S, q ? 2 : 3);
        clusters(S, q ? 6 : 7);
        values(S, q ? 4 : 5);
        letters(S);
        S.push_back(family_space("odd-tokens", odd_family(q ? 3 : 4), WHAT));
        S.push_back(family_space("remarks", remark_family(q ? 3 : 4), WHAT));
        S.push_back(program_names(q ? 3 : 4, WHAT));
        ladder(S, q ? 150 : 300);
        distant(S, q ? 270 : 600, 1024);
        scale(S, q ? 300 : 1100, q ? 8192 : 65536);
    };
    return vf::run(c, argc, argv);
}
