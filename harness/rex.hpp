// Reference semantics of the regular expressions of arg_rex: a parser for the
// pattern notation, a matcher by position sets (exact language membership), and
// the analysis that says for which patterns the library promises completeness.
#pragma once
#include "vf.hpp"
#include <bitset>
#include <algorithm>
#include <iterator>
#include <ctype.h>

namespace rex {

typedef std::bitset<256> Set;
enum NT { SET, REP, OR, GROUP, BOL, EOL, WB };
struct Node;
typedef std::vector<std::shared_ptr<Node>> List;
struct Node {
    NT t;
    Set s;                // SET
    int min = 0, max = 0; // REP, max 0xFFFF: unbounded
    List a, b;            // REP: a (one node); GROUP: a; OR: a | b
};
typedef std::shared_ptr<Node> P;

struct Invalid {};

inline Set cclass(char k) {
    Set r;
    for (int c = 1; c < 256; c++) {
        bool v;
        switch (tolower(k)) {
            case 'a': v = c < 128 && isalpha(c); break;
            case 'w': v = c < 128 && (isalnum(c) || c == '_'); break;
            case 's': v = c < 128 && isspace(c); break;
            case 'd': v = c < 128 && isdigit(c); break;
            case 'x': v = c < 128 && isxdigit(c); break;
            case 'c': v = c < 128 && iscntrl(c); break;
            case 'p': v = c < 128 && ispunct(c); break;
            case 'l': v = c < 128 && islower(c); break;
            default: v = c < 128 && isupper(c); break;
        }
        if (k >= 'A' && k <= 'Z') v = !v;
        if (v) r.set((size_t)c);
    }
    return r;
}
struct Parser {
    const char* p;
    bool icase;
    bool wb = false;
    Set one(char c) {
        Set r;
        r.set((unsigned char)c);
        if (icase) { r.set((unsigned char)tolower((unsigned char)c)); r.set((unsigned char)toupper((unsigned char)c)); }
        return r;
    }
    static char ctrl(char c) { switch (c) { case 'n': return '\n'; case 't': return '\t'; case 'r': return '\r'; case 'f': return '\f'; case 'v': return '\v'; } return 0; }
    static bool is_class(char c) { return c && strchr("aAwWsSdDxXcCpPlu", c); }
    // one character or class; ch = the character or -1 for a class
    Set charset(bool inclass, int& ch, bool& isWB, bool& positive) {
        isWB = false;
        if (*p == '\\') {
            p++;
            if (!*p) throw Invalid();
            char c = *p++;
            if (ctrl(c)) { ch = ctrl(c); return one((char)ch); }
            if (is_class(c)) { ch = -1; return cclass(c); }
            if ((c == 'b' || c == 'B') && !inclass) { isWB = true; wb = true; positive = c == 'b'; ch = -1; return Set(); }
            ch = c;
            return one(c);
        }
        if (!*p || !isprint((unsigned char)*p) || (unsigned char)*p > 127) throw Invalid();
        ch = *p++;
        return one((char)ch);
    }
    Set klass() {
        bool neg = false;
        if (*p == '^') { neg = true; p++; }
        if (*p == ']') throw Invalid();
        Set r;
        int first = -2;  // -2: none, -1: class
        bool dummy, dummy2;
        while (*p && *p != ']') {
            if (*p == '-' && first != -2) {
                p++;
                if (*p == ']') throw Invalid();
                if (first == -1) throw Invalid();
                int hi;
                if (*p == '\\') {
                    p++;
                    if (!*p) throw Invalid();
                    char c = *p++;
                    hi = ctrl(c) ? ctrl(c) : c;
                } else {
                    if (!*p || !isprint((unsigned char)*p)) throw Invalid();
                    hi = *p++;
                }
                if (first > hi) throw Invalid();
                for (int c = first; c <= hi; c++) r |= one((char)c);
                first = -2;
            } else r |= charset(true, first, dummy, dummy2);
        }
        if (neg) { r.flip(); r.reset(0); }
        return r;
    }
    int number() { int v = 0; while (isdigit((unsigned char)*p)) { v = v * 10 + (*p++ - '0'); if (v > 0xFFFF) throw Invalid(); } return v; }
    P element(List& rest) {
        auto n = std::make_shared<Node>();
        if (*p == '(') {
            p++;
            if (*p == '?') { p++; if (*p != ':') throw Invalid(); p++; }
            n->t = GROUP;
            n->a = list();
            if (*p != ')') throw Invalid();
            p++;
        } else if (*p == '[') {
            p++;
            n->t = SET;
            n->s = klass();
            if (*p != ']') throw Invalid();
            p++;
        } else if (*p == '$') { p++; n->t = EOL; }
        else if (*p == '.') { p++; n->t = SET; n->s.set(); n->s.reset(0); }
        else {
            int ch;
            bool w, pos = false;
            n->s = charset(false, ch, w, pos);
            n->t = w ? WB : SET;
            n->min = pos;
        }
        int mn = -1, mx = 0;
        switch (*p) {
            case '*': mn = 0; mx = 0xFFFF; p++; break;
            case '+': mn = 1; mx = 0xFFFF; p++; break;
            case '?': mn = 0; mx = 1; p++; break;
            case '{':
                p++;
                if (!isdigit((unsigned char)*p)) throw Invalid();
                mn = mx = number();
                if (*p == '}') { p++; break; }
                if (*p != ',') throw Invalid();
                p++;
                mx = 0xFFFF;
                if (isdigit((unsigned char)*p)) mx = number();
                if (*p != '}') throw Invalid();
                p++;
                break;
        }
        if (mn >= 0) {
            auto r = std::make_shared<Node>();
            r->t = REP; r->min = mn; r->max = mx; r->a = {n};
            n = r;
        }
        rest.push_back(n);
        if (*p != '|' && *p != ')' && *p != '*' && *p != '+' && *p) element(rest);
        return n;
    }
    List list() {
        List l;
        if (*p == '^') { p++; auto n = std::make_shared<Node>(); n->t = BOL; l.push_back(n); }
        element(l);
        if (*p == '|') {
            p++;
            auto n = std::make_shared<Node>();
            n->t = OR;
            n->a = l;
            n->b = list();
            return {n};
        }
        return l;
    }
};
// false: the pattern is not valid
inline bool parse(const std::string& pat, bool icase, List& out, bool* wb = nullptr) {
    Parser q{pat.c_str(), icase};
    try {
        out = q.list();
        if (*q.p) return false;
    } catch (Invalid&) { return false; }
    if (wb) *wb = q.wb;
    return true;
}

// ---------------------------------------------------------------- membership
typedef uint64_t Mask;  // set of positions in a text of at most 62 characters
struct Matcher {
    const char* t;
    int n;
    Mask list(const List& l, Mask m) { for (auto& x : l) { if (!m) return 0; m = node(*x, m); } return m; }
    Mask node(const Node& x, Mask m) {
        Mask r = 0;
        switch (x.t) {
            case SET: for (int i = 0; i < n; i++) if ((m >> i & 1) && x.s[(unsigned char)t[i]]) r |= Mask(1) << (i + 1); return r;
            case BOL: return m & 1;
            case EOL: return m & (Mask(1) << n);
            case WB: return m;  // position tests are not modelled; see uses
            case GROUP: return list(x.a, m);
            case OR: return list(x.a, m) | list(x.b, m);
            case REP: {
                Mask cur = m;
                int k = 0;
                for (; k < x.min && k < n + 2; k++) cur = node(*x.a[0], cur);
                Mask acc = cur;
                int left = x.max == 0xFFFF ? n + 2 : x.max - x.min;
                if (x.max < x.min) return 0;
                for (int j = 0; j < left && j < n + 2; j++) { cur = node(*x.a[0], cur); if ((acc | cur) == acc) break; acc |= cur; }
                return acc;
            }
        }
        return 0;
    }
};
// the same for texts of any length
struct LongMatcher {
    const char* t;
    int n;
    typedef std::vector<int> V;  // sorted
    V list(const List& l, V m) { for (auto& x : l) { if (m.empty()) return m; m = node(*x, m); } return m; }
    static V join(const V& a, const V& b) { V r; r.reserve(a.size() + b.size()); std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); return r; }
    V node(const Node& x, const V& m) {
        V r;
        switch (x.t) {
            case SET: for (int i : m) if (i < n && x.s[(unsigned char)t[i]]) r.push_back(i + 1); return r;
            case BOL: if (!m.empty() && m[0] == 0) r.push_back(0); return r;
            case EOL: if (!m.empty() && m.back() == n) r.push_back(n); return r;
            case WB: return m;
            case GROUP: return list(x.a, m);
            case OR: return join(list(x.a, m), list(x.b, m));
            case REP: {
                if (x.max < x.min) return r;
                V cur = m;
                for (int k = 0; k < x.min && k < n + 2 && !cur.empty(); k++) cur = node(*x.a[0], cur);
                std::vector<char> acc((size_t)n + 1, 0);
                for (int i : cur) acc[(size_t)i] = 1;
                int left = x.max == 0xFFFF ? n + 2 : x.max - x.min;
                for (int j = 0; j < left && j < n + 2; j++) {
                    cur = node(*x.a[0], cur);
                    bool more = false;
                    for (int i : cur) if (!acc[(size_t)i]) { acc[(size_t)i] = 1; more = true; }
                    if (!more) break;
                }
                for (int i = 0; i <= n; i++) if (acc[(size_t)i]) r.push_back(i);
                return r;
            }
        }
        return r;
    }
};
inline bool member(const List& l, const std::string& text) {
    if (text.size() > 62) { LongMatcher m{text.data(), (int)text.size()}; auto r = m.list(l, {0}); return !r.empty() && r.back() == (int)text.size(); }
    Matcher m{text.data(), (int)text.size()};
    return (m.list(l, 1) >> text.size()) & 1;
}

// ---------------------------------------------------- promised completeness
inline bool nullable(const List& l);
inline bool nullable(const Node& x) {
    switch (x.t) {
        case SET: return false;
        case BOL: case EOL: case WB: return true;
        case GROUP: return nullable(x.a);
        case OR: return nullable(x.a) || nullable(x.b);
        case REP: return x.min == 0 || nullable(*x.a[0]);
    }
    return false;
}
inline bool nullable(const List& l) { for (auto& x : l) if (!nullable(*x)) return false; return true; }

// Glushkov positions of the pattern with counted repetitions unrolled
struct Glushkov {
    std::vector<Set> pos;
    std::vector<std::vector<int>> follow;
    bool too_big = false;
    struct R { bool null; std::vector<int> first, last; };
    void link(const std::vector<int>& a, const std::vector<int>& b) { for (int x : a) for (int y : b) { bool has = false; for (int z : follow[(size_t)x]) has |= z == y; if (!has) follow[(size_t)x].push_back(y); } }
    static void app(std::vector<int>& a, const std::vector<int>& b) { for (int y : b) { bool has = false; for (int z : a) has |= z == y; if (!has) a.push_back(y); } }
    R cat(R a, R b) {
        link(a.last, b.first);
        R r{a.null && b.null, a.first, b.last};
        if (a.null) app(r.first, b.first);
        if (b.null) app(r.last, a.last);
        return r;
    }
    R list(const List& l) { R r{true, {}, {}}; for (auto& x : l) r = cat(r, node(*x)); return r; }
    R node(const Node& x) {
        switch (x.t) {
            case SET: {
                if (pos.size() > 60) { too_big = true; return {true, {}, {}}; }
                pos.push_back(x.s); follow.push_back({});
                int k = (int)pos.size() - 1;
                return {false, {k}, {k}};
            }
            case BOL: case EOL: case WB: return {true, {}, {}};
            case GROUP: return list(x.a);
            case OR: { R a = list(x.a), b = list(x.b); R r{a.null || b.null, a.first, a.last}; app(r.first, b.first); app(r.last, b.last); return r; }
            case REP: {
                if (x.min > 6 || (x.max != 0xFFFF && x.max > 6)) { too_big = true; return {true, {}, {}}; }
                R r{true, {}, {}};
                if (x.max == 0xFFFF) {
                    for (int k = 0; k + 1 < x.min; k++) r = cat(r, node(*x.a[0]));
                    R s = node(*x.a[0]);
                    link(s.last, s.first);
                    if (x.min == 0) s.null = true;
                    return cat(r, s);
                }
                for (int k = 0; k < x.min; k++) r = cat(r, node(*x.a[0]));
                R tail{true, {}, {}};
                for (int k = x.min; k < x.max; k++) { R s = node(*x.a[0]); tail = cat(s, tail); tail.null = true; }
                // nested optional copies: built outside in, so link in order
                return cat(r, tail);
            }
        }
        return {true, {}, {}};
    }
    bool clash(const std::vector<int>& v) { for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) if ((pos[(size_t)v[i]] & pos[(size_t)v[j]]).any()) return true; return false; }
    bool deterministic(const List& l) {
        R r = list(l);
        if (too_big || clash(r.first)) return false;
        for (auto& f : follow) if (clash(f)) return false;
        return true;
    }
};
// Not promised: a repetition that may go on directly followed by a group that can match nothing,
// and alternatives after one that can match nothing (the first alternative that matches is taken).
inline bool stops_early(const List& l, const Node* next);
inline bool stops_early(const Node& x, const Node* next) {
    switch (x.t) {
        case GROUP: return stops_early(x.a, next);
        case OR: return nullable(x.a) || stops_early(x.a, nullptr) || stops_early(x.b, nullptr);
        case REP:
            if (x.max > 1 && x.max > x.min && next && !(next->t == REP && next->min == 0) && next->t != EOL && next->t != BOL && nullable(*next)) return true;
            return stops_early(*x.a[0], next);
        default: return false;
    }
}
inline bool stops_early(const List& l, const Node* next) {
    for (size_t i = 0; i < l.size(); i++) if (stops_early(*l[i], i + 1 < l.size() ? l[i + 1].get() : next)) return true;
    return false;
}
inline bool promised(const List& l) { Glushkov g; return !stops_early(l, nullptr) && g.deterministic(l); }

}  // namespace rex
