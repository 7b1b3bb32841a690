// Reference models of the value conversions, written from the documented behaviour.
#pragma once
#include "vf.hpp"
#include <ctype.h>
#include <time.h>

namespace conv {

// error codes recorded for built-in types (argtable3_private.h, in its order)
enum { OK = 0, MINCOUNT = 1, MAXCOUNT, BADINT, OVERFLOW_, BADDOUBLE, BADDATE, REGNOMATCH };

inline bool sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
inline int digit(char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'z') return c - 'a' + 10;
    if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
    return 99;
}
inline char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c - 'A' + 'a') : c; }

inline int model_int(const char* s, int* out) {
    const char* p = s;
    while (sp(*p)) p++;
    bool neg = false;
    if (*p == '+' || *p == '-') neg = *p++ == '-';
    int base = 10;
    if (*p == '0') {
        int b = low(p[1]) == 'x' ? 16 : low(p[1]) == 'o' ? 8 : low(p[1]) == 'b' ? 2 : 0;
        if (b && digit(p[2]) < b) { base = b; p += 2; }
    }
    if (digit(*p) >= base) return BADINT;
    const __int128 LIM = (__int128)1 << 90;
    __int128 v = 0;
    while (digit(*p) < base) { v = v * base + digit(*p++); if (v > LIM) v = LIM; }
    if (neg) v = -v;
    if (low(p[0]) == 'k' && low(p[1]) == 'b') { v *= 1024; p += 2; }
    else if (low(p[0]) == 'm' && low(p[1]) == 'b') { v *= 1048576; p += 2; }
    else if (low(p[0]) == 'g' && low(p[1]) == 'b') { v *= 1073741824; p += 2; }
    while (sp(*p)) p++;
    if (*p) return BADINT;
    if (v > INT_MAX || v < INT_MIN) return OVERFLOW_;
    *out = (int)v;
    return OK;
}

inline int model_dbl(const char* s, double* out) {
    char* e;
    double d = strtod(s, &e);
    if (e == s || *e) return BADDOUBLE;
    *out = d;
    return OK;
}

// offsets of base name and extension in s
inline void model_file(const char* s, size_t* base, size_t* ext) {
    size_t n = strlen(s), b = 0;
    for (size_t i = 0; i < n; i++) if (s[i] == '/') b = i + 1;
    std::string bn = s + b;
    if (bn == "." || bn == "..") b = n, bn = "";
    *base = b;
    *ext = n;
    size_t d = bn.rfind('.');
    if (d != std::string::npos && d > 0 && d + 1 < bn.size()) *ext = b + d;
}

// ------------------------------------------------------------------- dates
inline bool number(const char*& p, int lo, int hi, int* out) {
    int maxd = 0;
    for (int h = hi; h; h /= 10) maxd++;
    int v = 0, n = 0;
    while (n < maxd && *p >= '0' && *p <= '9' && v * 10 <= hi) { v = v * 10 + (*p++ - '0'); n++; }
    if (!n || v < lo || v > hi) return false;
    *out = v;
    return true;
}
inline bool ci_prefix(const char* name, const char* p) {
    for (; *name; name++, p++) if (low(*name) != low(*p)) return false;
    return true;
}
inline const char* model_strptime(const char* p, const char* f, struct tm& t) {
    static const char* D[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
    static const char* M[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
    int century = -1, yy = -1;
    for (; *f; f++) {
        if (sp(*f)) { while (sp(*p)) p++; continue; }
        if (*f != '%') { if (*p != *f) return nullptr; p++; continue; }
        f++;
        char mod = 0;
        if (*f == 'E' || *f == 'O') { mod = *f++; }
        if (mod == 'E' && !(*f && strchr("cXxCYy", *f))) return nullptr;
        if (mod == 'O' && !(*f && strchr("deHIMmSUWwy", *f))) return nullptr;
        int v;
        const char* sub = nullptr;
        switch (*f) {
            case '%': if (*p != '%') return nullptr; p++; break;
            case 'n': case 't': while (sp(*p)) p++; break;
            case 'c': sub = "%m/%d/%y %H:%M:%S"; break;
            case 'D': case 'x': sub = "%m/%d/%y"; break;
            case 'R': sub = "%H:%M"; break;
            case 'r': sub = "%I:%M:%S %p"; break;
            case 'T': case 'X': sub = "%H:%M:%S"; break;
            case 'a': case 'A': {
                int i = 0;
                for (; i < 7; i++) {
                    if (ci_prefix(D[i], p)) { p += strlen(D[i]); break; }
                    if (ci_prefix(std::string(D[i], 3).c_str(), p)) { p += 3; break; }
                }
                if (i == 7) return nullptr;
                t.tm_wday = i;
                break;
            }
            case 'b': case 'B': case 'h': {
                int i = 0;
                for (; i < 12; i++) {
                    if (ci_prefix(M[i], p)) { p += strlen(M[i]); break; }
                    if (ci_prefix(std::string(M[i], 3).c_str(), p)) { p += 3; break; }
                }
                if (i == 12) return nullptr;
                t.tm_mon = i;
                break;
            }
            case 'd': case 'e': if (!number(p, 1, 31, &t.tm_mday)) return nullptr; break;
            case 'H': case 'k': if (!number(p, 0, 23, &t.tm_hour)) return nullptr; break;
            case 'I': case 'l': if (!number(p, 1, 12, &v)) return nullptr; t.tm_hour = v % 12; break;
            case 'j': if (!number(p, 1, 366, &v)) return nullptr; t.tm_yday = v - 1; break;
            case 'M': if (!number(p, 0, 59, &t.tm_min)) return nullptr; break;
            case 'm': if (!number(p, 1, 12, &v)) return nullptr; t.tm_mon = v - 1; break;
            case 'p':
                if (ci_prefix("AM", p)) { if (t.tm_hour > 11) return nullptr; }
                else if (ci_prefix("PM", p)) { if (t.tm_hour > 11) return nullptr; t.tm_hour += 12; }
                else return nullptr;
                p += 2;
                break;
            case 'S': if (!number(p, 0, 61, &t.tm_sec)) return nullptr; break;
            case 'U': case 'W': if (!number(p, 0, 53, &v)) return nullptr; break;
            case 'w': if (!number(p, 0, 6, &t.tm_wday)) return nullptr; break;
            case 'Y': if (!number(p, 0, 9999, &v)) return nullptr; t.tm_year = v - 1900; break;
            case 'C':
                if (!number(p, 0, 99, &century)) return nullptr;
                t.tm_year = century * 100 + (yy >= 0 ? yy : 0) - 1900;
                break;
            case 'y':
                if (!number(p, 0, 99, &yy)) return nullptr;
                t.tm_year = century >= 0 ? century * 100 + yy - 1900 : yy <= 68 ? yy + 100 : yy;
                break;
            default: return nullptr;
        }
        if (sub) { p = model_strptime(p, sub, t); if (!p) return nullptr; }
    }
    return p;
}
inline int model_date(const char* s, const char* fmt, struct tm& t) {
    struct tm c = t;
    const char* e = model_strptime(s, fmt, c);
    if (!e || *e) return BADDATE;
    t = c;
    return OK;
}
inline bool tm_eq(const struct tm& a, const struct tm& b) {
    return a.tm_sec == b.tm_sec && a.tm_min == b.tm_min && a.tm_hour == b.tm_hour && a.tm_mday == b.tm_mday && a.tm_mon == b.tm_mon && a.tm_year == b.tm_year &&
           a.tm_wday == b.tm_wday && a.tm_yday == b.tm_yday;
}
inline std::string tm_str(const struct tm& t) {
    return vf::strf("{year %d mon %d mday %d hour %d min %d sec %d wday %d yday %d}", t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, t.tm_wday, t.tm_yday);
}

}  // namespace conv
