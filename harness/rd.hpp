// Reference model of what the library prints, and helpers to capture it.
#pragma once
#include "pm.hpp"

namespace rd {
using pm::Entry;
using pm::Table;
using vf::Case;
using vf::quote;
using vf::strf;
using std::string;

// the value name shown for an entry (nullptr: none)
inline const char* value_name(const Entry& e) {
    if (e.kind == pm::LIT) return nullptr;
    if (e.kind == pm::REM || e.dt) return e.dt;
    switch (e.kind) {
        case pm::INT: return "<int>";
        case pm::DBL: return "<double>";
        case pm::STR: return "<string>";
        case pm::FIL: return "<file>";
        case pm::REX: return pm::REXPAT;
        case pm::DATE: return pm::DATEFMT;
        default: return nullptr;
    }
}
inline std::vector<string> longs(const char* lo) {
    std::vector<string> r;
    while (lo) {
        const char* c = strchr(lo, ',');
        r.push_back(c ? string(lo, (size_t)(c - lo)) : string(lo));
        lo = c ? c + 1 : nullptr;
    }
    return r;
}
// all spellings, and the value name
inline string option(const char* sh, const char* lo, const char* dt, bool opt, const char* sep) {
    string r;
    for (const char* p = sh; p && *p; p++) { if (!r.empty()) r += sep; r += '-'; r += *p; }
    for (auto& l : longs(lo)) { if (!r.empty()) r += sep; r += "--" + l; }
    if (dt) {
        if (lo) r += "="; else if (sh) r += " ";
        r += opt ? "[" + string(dt) + "]" : string(dt);
    }
    return r;
}
inline string brief_option(const Entry& e) {
    const char* dt = value_name(e);
    string v = !dt ? "" : e.opt ? "[" + string(dt) + "]" : string(dt);
    if (e.sh) return string("-") + e.sh[0] + (dt ? " " + v : "");
    if (e.lo) return "--" + longs(e.lo)[0] + (dt ? "=" + v : "");
    return v;
}
inline string repeated(const string& x, int min, int max) {
    string r;
    for (int i = 0; i < min; i++) r += " " + x;
    switch (max - min) {
        case 0: break;
        case 1: r += " [" + x + "]"; break;
        case 2: r += " [" + x + "] [" + x + "]"; break;
        default: r += " [" + x + "]..."; break;
    }
    return r;
}
inline int minc(const Entry& e) { return e.kind == pm::REM ? 1 : e.min; }
inline int maxc(const Entry& e) { return e.kind == pm::REM ? 1 : e.max < e.min ? e.min : e.max; }
inline string syntax(const Table& t, const char* suffix) {
    string man, op, r;
    for (auto& e : t.e) if (e.sh && !e.hasval()) (e.min > 0 ? man : op) += e.sh[0];
    if (!man.empty()) r += " -" + man;
    if (!op.empty()) r += man.empty() ? " [-" + op + "]" : "[" + op + "]";
    for (auto& e : t.e) {
        if (e.sh && !e.hasval()) continue;
        string x = brief_option(e);
        if (!x.empty()) r += repeated(x, minc(e), maxc(e));
    }
    return r + (suffix ? suffix : "");
}
inline string full_option(const Entry& e, const char* sep) { return option(e.sh, e.lo, value_name(e), e.opt, sep); }
inline string syntaxv(const Table& t, const char* suffix) {
    string r;
    for (auto& e : t.e) r += repeated(full_option(e, "|"), minc(e), maxc(e));
    return r + (suffix ? suffix : "");
}
inline string glossary(const Table& t, const char* format) {
    string r;
    for (auto& e : t.e) if (e.gloss) {
        string o = full_option(e, ", ");
        char* p = nullptr;
        int n = asprintf(&p, format ? format : "  %-20s %s\n", o.c_str(), e.gloss);
        r += string(p, (size_t)n);
        free(p);
    }
    return r;
}
inline bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// Wrapping: each paragraph (between newlines) is broken greedily at the last white space that fits, runs of
// white space at a break vanish, a word longer than the column is cut. `nospace_edges` paragraphs only: see c19.
inline string wrap(unsigned l, unsigned r, const string& text) {
    if (text.empty()) return "\n";
    size_t w = (size_t)(r - l) + 1;
    string out;
    size_t p = 0, n = text.size();
    bool first = true;
    while (p < n) {
        size_t q = text.find('\n', p);
        size_t pe = q == string::npos ? n : q;
        if (!first) out += string(l, ' ');
        first = false;
        // one paragraph
        bool fl = true;
        size_t i = p;
        do {
            while (i < pe && space(text[i])) i++;
            size_t e = pe;
            if (e - i > w) {
                e = i + w;
                while (e > i && !space(text[e])) e--;
                if (e == i) e = i + w;
                else while (e > i && space(text[e - 1])) e--;
            }
            if (!fl) out += string(l, ' ');
            fl = false;
            out += text.substr(i, e - i) + "\n";
            i = e;
            while (i < pe && space(text[i])) i++;
        } while (i < pe);
        p = q == string::npos ? n : q + 1;
    }
    return out;
}
inline string glossary_gnu(const Table& t) {
    string r;
    for (auto& e : t.e) if (e.gloss) {
        string o = (!e.sh && e.lo ? "    " : "") + full_option(e, ", ");
        if (o.size() > 25) { r += "  " + o + " \n"; o.clear(); }
        r += "  " + o + string(25 - o.size(), ' ') + " " + wrap(28, 79, e.gloss);
    }
    return r + "\n";
}

// ------------------------------------------------------------------- messages
inline string date_example(const char* fmt) {
    struct tm tm;
    memset(&tm, 0, sizeof tm);
    tm.tm_year = 99; tm.tm_mon = 11; tm.tm_mday = 31; tm.tm_hour = 23; tm.tm_min = 59; tm.tm_sec = 59;
    char b[300];
    b[strftime(b, sizeof b, fmt, &tm)] = 0;
    return b;
}

// ------------------------------------------------------------------- capture
// Text printed to a stream. The stream never allocates, so allocations stay the library's.
struct Stream {
    static const size_t N = 1 << 20;
    char* buf;
    FILE* f;
    Stream() { buf = (char*)malloc(N + 1); f = fmemopen(buf, N, "w+"); setvbuf(f, nullptr, _IONBF, 0); }
    void begin() { rewind(f); }
    string end() { fflush(f); long n = ftell(f); return string(buf, (size_t)n); }
};
inline Stream& stream() { static Stream s; return s; }

// Runs a printing function twice, to a stream and into a dynamic string that already holds text; both must be equal.
inline bool both(Case& c, string& out, const std::function<void(FILE*)>& fp, const std::function<void(arg_dstr_t)>& ds) {
    Stream& s = stream();
    s.begin();
    { vf::InLib g; fp(s.f); }
    out = s.end();
    c.steps += 2;
    static const string pre = "before\n";
    string d;
    if (ds) {
        arg_dstr_t x = LIB(arg_dstr_create());
        LIBV(arg_dstr_cat(x, pre.c_str()));
        { vf::InLib g; ds(x); }
        d = LIB(arg_dstr_cstr(x));
        LIBV(arg_dstr_destroy(x));
        if (d != pre + out) { c.fail("printed to a stream: " + quote(out) + ", appended to a dynamic string: " + quote(d)); return false; }
    }
    return true;
}
// Compares with the model, where the piece `item` of the expected text may be cut off when it is overlong.
inline bool same(const string& got, const string& want) { return got == want; }
static const size_t LIMIT = 198;   // renderings up to this length are shown in full
// `pre` + cut(item) + `post`
inline bool cut_ok(const string& got, const string& pre, const string& item, const string& post) {
    if (item.size() <= LIMIT) return got == pre + item + post;
    if (got.size() < pre.size() + post.size() + 190 || got.size() > pre.size() + post.size() + 199) return false;
    return got.compare(0, pre.size(), pre) == 0 && got.compare(pre.size(), 190, item, 0, 190) == 0 && got.compare(got.size() - post.size(), post.size(), post) == 0;
}
}  // namespace rd
