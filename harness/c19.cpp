// C19: glossaries list every described entry and wrapped text loses no words.
#include "rd.hpp"
using namespace rd;

// ---------------------------------------------------------------- wrapped text
// texts for which the exact layout is promised: no blanks at the edges of the text's own lines
static bool normal(const string& t) {
    for (size_t i = 0; i < t.size(); i++) {
        if (!space(t[i]) || t[i] == '\n') continue;
        if (i == 0 || i + 1 == t.size() || t[i - 1] == '\n' || t[i + 1] == '\n') return false;
    }
    return true;
}
static void check_wrap(Case& c, const string& got, unsigned l, unsigned r, const string& text) {
    size_t w = (size_t)(r - l) + 1;
    c.mix(got);
    if (normal(text)) {
        string want = text.empty() ? "\n" : wrap(l, r, text);
        if (got != want) c.fail("wrapped as " + quote(got) + ", expected " + quote(want));
        return;
    }
    string a, b;
    for (char x : text) if (!space(x)) a += x;
    for (char x : got) if (!space(x)) b += x;
    if (a != b) { c.fail("wrapping " + quote(text) + " gives other characters: " + quote(got)); return; }
    if (got.empty() || got.back() != '\n') { c.fail("the last line is not ended: " + quote(got)); return; }
    std::vector<string> lines;
    for (size_t p = 0; p < got.size();) { size_t q = got.find('\n', p); lines.push_back(got.substr(p, q - p)); p = q + 1; }
    for (size_t i = 0; i < lines.size(); i++) {
        string x = lines[i];
        if (i) { if (x.compare(0, l, string(l, ' ')) != 0 || x.size() < l) { c.fail(strf("line %zu is not indented by %u: ", i + 1, l) + quote(got)); return; } x = x.substr(l); }
        if (x.size() > w) { c.fail(strf("line %zu is wider than the column of %zu: ", i + 1, w) + quote(got)); return; }
    }
    // a break where the text has neither white space nor a word too long, or a missing break at a newline
    size_t k = 0;                       // position in text
    for (size_t i = 0; i < lines.size(); i++) {
        string x = i ? lines[i].substr(l) : lines[i];
        for (char ch : x) {
            if (space(ch)) continue;
            while (k < text.size() && space(text[k])) { k++; }
            if (k >= text.size() || text[k] != ch) return;
            k++;
        }
        // within a line no newline of the text may be crossed
        if (i + 1 < lines.size() && k < text.size() && k > 0 && !space(text[k]) && !x.empty()) {
            size_t b0 = k, e0 = k;
            while (b0 > 0 && !space(text[b0 - 1])) b0--;
            while (e0 < text.size() && !space(text[e0])) e0++;
            if (e0 - b0 <= w) { c.fail("a word that fits the column is broken: " + quote(got)); return; }
        }
    }
    size_t nl = 0;
    for (size_t i = 0; i < text.size(); i++) nl += text[i] == '\n' && i + 1 < text.size();
    if (lines.size() < nl + 1 && !(lines.size() == nl)) c.fail("a newline of the text is lost: " + quote(got));
}
static void wraps(std::vector<vf::Space>& S, const char* name, std::vector<string> alpha, unsigned len, unsigned maxl, unsigned maxw) {
    vf::Space s;
    uint64_t nt = vf::seq_count(alpha.size(), len);
    s.name = name;
    s.n = nt * (maxl + 1) * maxw;
    auto mk = [=](uint64_t i) { string t; for (int d : vf::seq_at(i % nt, alpha.size(), len)) t += alpha[(size_t)d]; return t; };
    s.run = [=](uint64_t i, Case& c) {
        string t = mk(i);
        unsigned l = (unsigned)(i / nt % (maxl + 1)), w = (unsigned)(i / nt / (maxl + 1)) + 1;
        vf::Str x(t);
        string got;
        both(c, got, [&](FILE* f) { arg_print_formatted(f, l, l + w - 1, x.p); }, nullptr);
        check_wrap(c, got, l, l + w - 1, t);
    };
    s.desc = [=](uint64_t i) { unsigned l = (unsigned)(i / nt % (maxl + 1)), w = (unsigned)(i / nt / (maxl + 1)) + 1; return strf("text %s, left margin %u, column of %u", quote(mk(i)).c_str(), l, w); };
    S.push_back(s);
}
// longer texts: words of one length, every text length, every column
static void longtexts(std::vector<vf::Space>& S, unsigned maxlen) {
    static const unsigned WL[] = {1, 3, 7, 11, 51, 52, 53, 54, 200};
    static const unsigned COL[][2] = {{0, 79}, {28, 79}, {0, 0}, {3, 13}, {10, 61}};
    vf::Space s;
    s.name = "long-texts";
    s.n = (uint64_t)maxlen * 9 * 5 * 2;
    auto mk = [=](uint64_t i) {
        unsigned n = (unsigned)(i % maxlen) + 1, wl = WL[i / maxlen % 9];
        string t;
        for (unsigned k = 0; k < n; k++) t += k % (wl + 1) == wl && k + 1 < n ? (i / maxlen / 45 % 2 && k % 40 > 30 ? '\n' : ' ') : (char)('a' + k % 26);
        return t;
    };
    s.run = [=](uint64_t i, Case& c) {
        string t = mk(i);
        const unsigned* m = COL[i / maxlen / 9 % 5];
        vf::Str x(t);
        string got;
        both(c, got, [&](FILE* f) { arg_print_formatted(f, m[0], m[1], x.p); }, nullptr);
        check_wrap(c, got, m[0], m[1], t);
    };
    s.desc = [=](uint64_t i) { const unsigned* m = COL[i / maxlen / 9 % 5]; return strf("text %s, margins %u and %u", quote(mk(i)).c_str(), m[0], m[1]); };
    S.push_back(s);
}

static void verylong(std::vector<vf::Space>& S, int from, int max) {
    static const unsigned WL[] = {7, 200};
    static const unsigned COL[][2] = {{0, 79}, {28, 79}};
    auto pt = std::make_shared<std::vector<int>>();
    for (int p : vf::points(0, max)) if (p >= from) pt->push_back(p);
    vf::Space s;
    s.name = "very-long-texts";
    s.n = pt->size() * 8;
    auto mk = [=](uint64_t i) {
        unsigned n = (unsigned)(*pt)[i / 8], wl = WL[i % 2];
        string t;
        for (unsigned k = 0; k < n; k++) t += k % (wl + 1) == wl && k + 1 < n ? (i / 4 % 2 && k % 40 > 30 ? '\n' : ' ') : (char)('a' + k % 26);
        return t;
    };
    s.run = [=](uint64_t i, Case& c) {
        string t = mk(i);
        const unsigned* m = COL[i / 2 % 2];
        vf::Str x(t);
        string got;
        both(c, got, [&](FILE* f) { arg_print_formatted(f, m[0], m[1], x.p); }, nullptr);
        check_wrap(c, got, m[0], m[1], t);
    };
    s.desc = [=](uint64_t i) { const unsigned* m = COL[i / 2 % 2]; return strf("text of %d characters in words of %u, margins %u and %u", (*pt)[i / 8], WL[i % 2], m[0], m[1]); };
    S.push_back(s);
}
// the same in a glossary: descriptions of every size
static string words(size_t n, size_t wl);
static void check_table(Case& c, const Table& t, bool all_formats);
static void verylong_gloss(std::vector<vf::Space>& S, int max) {
    auto pt = std::make_shared<std::vector<int>>(vf::points(100, max));
    vf::Space s;
    s.name = "very-long-descriptions";
    s.n = pt->size() * 2;
    s.run = [=](uint64_t i, Case& c) {
        string g = words((size_t)(*pt)[i / 2], i % 2 ? 8 : 70);
        Table t;
        t.cap = 1;
        t.e = {{pm::LIT, "1", nullptr, 0, 1, false, nullptr, "first"}, {pm::STR, "q", "quit", 0, 1, false, nullptr, g.c_str()}, {pm::LIT, "2", nullptr, 0, 1, false, nullptr, "last"}};
        check_table(c, t, i % 2);
    };
    s.desc = [=](uint64_t i) { return strf("description of %d characters", (*pt)[i / 2]); };
    S.push_back(s);
}

// ------------------------------------------------------------------ glossaries
static string words(size_t n, size_t wl) { string t; for (size_t k = 0; k < n; k++) t += k % (wl + 1) == wl && k + 1 < n ? ' ' : (char)('a' + k % 26); return t; }
static const char* G(size_t i) {
    static std::vector<string> v = {"short", "", words(52, 6), words(53, 6), words(130, 9), string(120, 'w'), "two\nlines", "100%d %s", words(51, 5) + " x", "well-known caf\xc3\xa9, na\xc3\xafve and r\xe9sum\xe9 \x80\xff for-the-purpose-of-hyphens, slashes/and.other;characters with\ttabs\vand such things"};
    return i == 0 ? nullptr : v[i - 1].c_str();
}
static const size_t NG = 11;
static const char* FMT[] = {nullptr, "  %-25s %s\n", "%s|%s\n", "%-10s %.5s;", "%60s %s\n"};
static const size_t NF = 5;
static void check_table(Case& c, const Table& t, bool all_formats) {
    pm::Real R(t);
    string got, want;
    for (size_t f = 0; f < (all_formats ? NF : 1) && !c.failed; f++) {
        if (both(c, got, [&](FILE* o) { arg_print_glossary(o, R.at.data(), FMT[f]); }, [&](arg_dstr_t d) { arg_print_glossary_ds(d, R.at.data(), FMT[f]); })) {
            want = glossary(t, FMT[f]);
            c.mix(got);
            if (got != want) c.fail("glossary " + quote(got) + ", expected " + quote(want));
        }
    }
    if (!c.failed && both(c, got, [&](FILE* o) { arg_print_glossary_gnu(o, R.at.data()); }, [&](arg_dstr_t d) { arg_print_glossary_gnu_ds(d, R.at.data()); })) {
        Table u = t;
        want = glossary_gnu(t);
        c.mix(got);
        if (got != want) c.fail("GNU glossary " + quote(got) + ", expected " + quote(want));
    }
}
static std::vector<Entry> catalogue(int level) {
    std::vector<Entry> r;
    std::vector<const char*> sh = {nullptr, "a", "abc"}, lo = {nullptr, "alpha", "alpha,beta"}, dt = {nullptr, "<v>", "TWELVECHARSX"};
    std::vector<pm::Kind> kinds = {pm::LIT, pm::INT, pm::DBL, pm::STR, pm::REX, pm::FIL, pm::DATE};
    if (level) { sh = {nullptr, "a"}; lo = {nullptr, "alpha"}; dt = {nullptr}; kinds = {pm::LIT, pm::INT}; }
    for (auto k : kinds) for (auto s : sh) for (auto l : lo) for (auto d : dt) for (int o = 0; o < 2; o++) for (size_t g = 0; g < NG; g++) {
        if (k == pm::LIT && (d || o || (!s && !l))) continue;
        if (level && (o || (g > 4 && g != 7) || (level > 1 && g > 3))) continue;
        r.push_back({k, s, l, 0, 1, o == 1, d, G(g)});
    }
    for (size_t g = 0; g < (level > 1 ? 3 : NG); g++) { r.push_back({pm::REM, nullptr, nullptr, 0, 0, false, "and so on", G(g)}); r.push_back({pm::REM, nullptr, nullptr, 0, 0, false, nullptr, G(g)}); }
    return r;
}
static void tables(std::vector<vf::Space>& S, int level, unsigned n) {
    auto cat = std::make_shared<std::vector<Entry>>(catalogue(level));
    vf::Space s;
    uint64_t b = cat->size();
    s.name = strf("tables-%u-of-%d", n, (int)b);
    s.n = vf::ipow(b, n);
    auto mk = [=](uint64_t i) { Table t; t.cap = 1; int d[8]; vf::digits(i, b, n, d); for (unsigned k = 0; k < n; k++) { Entry e = (*cat)[(size_t)d[k]]; static const char* A[] = {"a", "b", "c", "d"}; if (n > 1 && e.sh) e.sh = A[k]; t.e.push_back(e); } return t; };
    s.run = [=](uint64_t i, Case& c) { Table t = mk(i); check_table(c, t, n == 1); };
    s.desc = [=](uint64_t i) { Table t = mk(i); string r = pm::show(t); for (auto& e : t.e) r += " " + quote(e.gloss); return r; };
    S.push_back(s);
}
// every width of the option column and every length of the description, overlong options included
static void widths(std::vector<vf::Space>& S, unsigned maxw, unsigned maxg) {
    vf::Space s;
    s.name = "widths";
    s.n = (uint64_t)maxw * 4 * (maxg + 1);
    struct X { string sh, lo, dt, g; Table t; };
    auto mk = [=](uint64_t i, X& x) {
        size_t n = (size_t)(i % maxw);
        unsigned w = (unsigned)(i / maxw % 4);
        x.g = words((size_t)(i / maxw / 4), 8);
        string a;
        for (size_t k = 0; k < n; k++) a += (char)('a' + k % 26);
        x.lo = "l" + a;
        x.dt = a;
        Entry e{pm::STR, nullptr, nullptr, 0, 1, false, nullptr, x.g.c_str()};
        switch (w) {
            case 0: e.kind = pm::LIT; e.lo = x.lo.c_str(); break;
            case 1: e.sh = "q"; e.dt = x.dt.c_str(); break;
            case 2: e.sh = "q"; e.lo = x.lo.c_str(); e.dt = "V"; break;
            case 3: e.dt = x.dt.c_str(); break;
        }
        x.t.cap = 1;
        x.t.e = {{pm::LIT, "1", nullptr, 0, 1, false, nullptr, "first"}, e, {pm::LIT, "2", nullptr, 0, 1, false, nullptr, "last"}};
    };
    s.run = [=](uint64_t i, Case& c) {
        auto x = std::make_unique<X>();
        mk(i, *x);
        const Entry& e = x->t.e[1];
        string o = full_option(e, ", ");
        if (o.size() + 4 <= LIMIT) { check_table(c, x->t, false); return; }
        pm::Real R(x->t);
        string got;
        if (both(c, got, [&](FILE* f) { arg_print_glossary(f, R.at.data(), nullptr); }, [&](arg_dstr_t d) { arg_print_glossary_ds(d, R.at.data(), nullptr); })) {
            string pre = "  -1" + string(18, ' ') + " first\n  ", post = " " + x->g + "\n  -2" + string(18, ' ') + " last\n";
            if (!cut_ok(got, pre, o, post)) c.fail("glossary with an overlong option: " + quote(got));
            c.mix(got);
        }
        if (!c.failed && both(c, got, [&](FILE* f) { arg_print_glossary_gnu(f, R.at.data()); }, [&](arg_dstr_t d) { arg_print_glossary_gnu_ds(d, R.at.data()); })) {
            string pre = "  -1" + string(23, ' ') + " first\n  ", post = " \n" + string(28, ' ') + (x->g.empty() ? "\n" : wrap(28, 79, x->g)) + "  -2" + string(23, ' ') + " last\n\n";
            if (!e.sh && e.lo) o = "    " + o;
            if (!cut_ok(got, pre, o, post)) c.fail("GNU glossary with an overlong option: " + quote(got) + " expected around " + quote(pre) + quote(post));
            c.mix(got);
        }
    };
    s.desc = [=](uint64_t i) { X x; mk(i, x); return pm::show(x.t) + " " + quote(x.g); };
    S.push_back(s);
}

// every pair of counts: multiplicity does not matter to a glossary
static void counts(std::vector<vf::Space>& S, int max) {
    vf::Space s;
    s.name = "counts";
    s.n = (uint64_t)(max + 1) * (uint64_t)(max + 1) * 7 * 4;
    auto mk = [=](uint64_t i) {
        int w = (int)(i % 4), k = (int)(i / 4 % 7), mn = (int)(i / 28 % (uint64_t)(max + 1)), mx = (int)(i / 28 / (uint64_t)(max + 1));
        Table t;
        t.cap = 1;
        Entry e{(pm::Kind)k, w == 0 || k == 0 ? "a" : nullptr, w == 1 ? "alpha" : nullptr, mn, mx, w == 3 && k, nullptr, "some text"};
        t.e = {{pm::LIT, "1", nullptr, 0, 1, false, nullptr, "first"}, e, {pm::LIT, "2", nullptr, 1, 1, false, nullptr, "last"}};
        return t;
    };
    s.run = [=](uint64_t i, Case& c) { check_table(c, mk(i), false); };
    s.desc = [=](uint64_t i) { return pm::show(mk(i)); };
    S.push_back(s);
}
// every byte in each part of a described entry
static void bytes(std::vector<vf::Space>& S) {
    vf::Space s;
    s.name = "bytes";
    s.n = 255 * 3 * 6;
    struct X { string sh, lo, dt, g; Table t; };
    auto mk = [](uint64_t i, X& x) {
        char b = (char)(i / 18 + 1);
        int w = (int)(i % 6), pos = (int)(i / 6 % 3);
        string one = pos == 0 ? string(1, b) : pos == 1 ? string(1, b) + "x" : string("x") + b;
        Entry e{pm::STR, nullptr, nullptr, 0, 1, false, "V", "some text"};
        auto sh = [&](const string& s) { x.sh = s; e.sh = x.sh.c_str(); };
        auto lo = [&](string s) { for (auto& q : s) if (q == ',') q = ';'; x.lo = s; e.lo = x.lo.c_str(); };
        auto dt = [&](const string& s) { x.dt = s; e.dt = x.dt.c_str(); };
        switch (w) {
            case 0: sh(one); break;
            case 1: lo(one); break;
            case 2: dt(one); break;
            case 3: sh(one); lo(one); dt(one); e.opt = true; break;
            case 4: e.kind = pm::REM; dt(one); break;
            case 5: sh("k"); x.g = string("x") + one + "y zz"; e.gloss = x.g.c_str(); break;
        }
        x.t.cap = 1;
        x.t.e = {{pm::LIT, "1", nullptr, 0, 1, false, nullptr, "first"}, e, {pm::LIT, "2", nullptr, 0, 1, false, nullptr, "last"}};
    };
    s.run = [=](uint64_t i, Case& c) { auto x = std::make_unique<X>(); mk(i, *x); check_table(c, x->t, true); };
    s.desc = [=](uint64_t i) { auto x = std::make_unique<X>(); mk(i, *x); return pm::show(x->t) + quote(x->t.e[1].gloss); };
    S.push_back(s);
}
// a ladder of margins
static void margins(std::vector<vf::Space>& S, int dense, int max) {
    auto pt = std::make_shared<std::vector<int>>(vf::points(dense, max));
    static const unsigned W[] = {1, 2, 9, 52, 80, 300, 70000};
    vf::Space s;
    s.name = "margins";
    s.n = pt->size() * 7 * 2 * 4;
    auto mk = [=](uint64_t i, unsigned& l, unsigned& r) {
        unsigned p = (unsigned)(*pt)[i / 56], w = W[i / 8 % 7];
        if (i % 2) { l = p; r = l + w - 1; } else { l = w - 1 > 300 ? 0 : w - 1; r = l + p - 1; }
        switch (i / 2 % 4) {
            case 0: return string("one two\nthree fourteen");
            case 1: return words(300, 9);
            case 2: return string(400, 'w');
            default: return words(70, 3) + "\n\n" + words(150, 60);
        }
    };
    s.run = [=](uint64_t i, Case& c) {
        unsigned l, r;
        string t = mk(i, l, r);
        if (l > 300 && r - l < 8) { c.mix(1); t = t.substr(0, 20); }
        vf::Str x(t);
        string got;
        both(c, got, [&](FILE* f) { arg_print_formatted(f, l, r, x.p); }, nullptr);
        check_wrap(c, got, l, r, t);
    };
    s.desc = [=](uint64_t i) { unsigned l, r; string t = mk(i, l, r); return strf("text %s, margins %u and %u", quote(t).c_str(), l, r); };
    S.push_back(s);
}

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C19";
    c.rule = "wrapping: every text up to the bound length over letters, blanks and newlines, over words of several lengths, and over hyphens, commas, bytes beyond ASCII, control and format characters, for every column width and left margin up to the bounds, long texts of every length and a ladder of margins; glossaries: every pair of counts, every byte in each part, every table of one entry over the full catalogue of kinds, spellings, value names and descriptions with five formats, every table of two or three entries over reduced catalogues, every width of the option column with every description length; texts whose lines neither begin nor end with blanks must match the reference layout exactly, others its invariants; outcomes are distinct by the printed text";
    c.assumptions = {"the right margin is not left of the left margin", "the C locale's white space", "renderings longer than 198 characters may be cut at 190 to 199 characters"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        wraps(S, "characters", {"a", " ", "\n"}, q ? 8 : 11, 2, q ? 6 : 8);
        wraps(S, "words", {"a", "bcd", "efghi", " ", "\n", "\t", " j"}, q ? 5 : 6, q ? 1 : 3, q ? 10 : 14);
        wraps(S, "odd-characters", {"a", "-", " ", "\n", "\xc3\xa9", "\r", "\v", "%s", "b\x80", ",", "\x01"}, q ? 4 : 5, 1, q ? 6 : 8);
        margins(S, q ? 300 : 1200, q ? 4096 : 65536);
        counts(S, q ? 6 : 12);
        bytes(S);
        longtexts(S, q ? 500 : 1500);
        verylong(S, q ? 500 : 1500, q ? 65536 : 131072);
        verylong_gloss(S, q ? 8192 : 65536);
        tables(S, 0, 1);
        tables(S, 1, 2);
        tables(S, 2, 3);
        if (!q) tables(S, 1, 3);
        widths(S, q ? 230 : 420, q ? 130 : 400);
    };
    return vf::run(c, argc, argv);
}
