// C11: date arguments.
#include "pm.hpp"
using namespace pm;

// Each process keeps one table per format.
struct Fmt { struct arg_date* e; struct arg_end* end; void* tab[2]; };
static Fmt& table(const std::string& f, bool null) {
    static std::vector<std::pair<std::string, Fmt>> all;
    std::string key = null ? "\1" : f;
    for (size_t k = all.size(); k-- > 0;) if (all[k].first == key) return all[k].second;
    if (all.size() >= 20) { for (auto& p : all) { arg_freetable(p.second.tab, 2); } all.clear(); }
    Fmt x;
    all.reserve(20);
    vf::Str* fs = new vf::Str(f);
    x.e = arg_daten("d", "date", null ? nullptr : fs->p, nullptr, 0, 3, nullptr);
    x.end = arg_end(8);
    x.tab[0] = x.e;
    x.tab[1] = x.end;
    all.push_back({key, x});
    Fmt& r = all.back().second;
    r.tab[0] = r.e; r.tab[1] = r.end;
    return r;
}
// what a second two-digit year in one format, or %E% and %O%, mean is not claimed
static bool unclaimed(const std::string& f) {
    int n = 0;
    for (size_t i = 0; i + 1 < f.size(); i++) if (f[i] == '%') { i++; if ((f[i] == 'E' || f[i] == 'O') && i + 1 < f.size()) { i++; if (f[i] == '%') return true; } if (f[i] == 'y') n++; }
    return n > 1;
}
static void check(const std::string& fmt, const std::string& s, Case& c, bool null = false) {
    if (unclaimed(fmt)) return;
    Fmt& f = table(fmt, null);
    vf::Str x(s);
    static char prog[] = "prog", o[] = "-d";
    char* a[] = {prog, o, x.p, nullptr};
    memset(f.e->tmval, 0, 3 * sizeof(struct tm));
    int ret = LIB(arg_parse(3, a, f.tab));
    c.steps++;
    struct tm t, z;
    memset(&t, 0, sizeof t);
    memset(&z, 0, sizeof z);
    int rc = conv::model_date(s.c_str(), null ? "%x" : fmt.c_str(), t);
    c.mix(rc);
    if (!rc) { int v[] = {t.tm_sec, t.tm_min, t.tm_hour, t.tm_mday, t.tm_mon, t.tm_year, t.tm_wday, t.tm_yday}; c.mix(v, sizeof v); }
    if (rc == 0) {
        if (ret || f.e->count != 1) c.fail(strf("rejected (code %d), expected %s", ret ? f.end->error[0] : 0, conv::tm_str(t).c_str()));
        else if (!conv::tm_eq(f.e->tmval[0], t)) c.fail("stored as " + conv::tm_str(f.e->tmval[0]) + ", expected " + conv::tm_str(t));
    } else if (ret != 1 || f.end->error[0] != rc || f.end->parent[0] != f.e) c.fail(ret ? strf("rejected with code %d, expected bad date", f.end->error[0]) : "accepted as " + conv::tm_str(f.e->tmval[0]) + ", expected a rejection");
    else if (f.e->count || memcmp(&f.e->tmval[0], &z, sizeof z)) c.fail(strf("rejected, but count is %d and a value was changed", f.e->count));
    if (memcmp(&f.e->tmval[1], &z, sizeof z) || memcmp(&f.e->tmval[2], &z, sizeof z)) c.fail("a value beyond the first was written");
    if (c.trace) c.log("format " + quote(fmt) + " text " + quote(s) + strf(": returned %d, count %d, model code %d ", ret, f.e->count, rc) + conv::tm_str(t));
}
// several occurrences in one parse, with slots that hold something before: a conversion sets its field, the others stay
static void series(std::vector<vf::Space>& S, unsigned len) {
    static const std::vector<std::string> F = {"%H:%M", "%Y-%m-%d", "%d", "%C", "%y", "%C%y", "%b %d", "%a", "%j", "%I %p", "%T", "%D", "%U", "%n", "x", "%Y", "%w:%S"};
    static const std::vector<std::string> X = {"10:11", "2001-02-03", "7", "19", "20", "70", "1999", "Feb 8", "Tue", "200", "5 PM", "12 AM", "10:11:12", "12/31/99", "", "x", "bad", "10:99", "2001-02-", "12/31/99 "};
    vf::Space s;
    s.name = strf("series-%u", len);
    uint64_t nx = X.size(), per = vf::ipow(nx, len);
    s.n = F.size() * 3 * per;
    s.run = [=](uint64_t i, Case& c) {
        int d[4];
        vf::digits(i % per, nx, len, d);
        const std::string& fmt = F[i / per / 3];
        int pre = (int)(i / per % 3);
        Fmt& f = table(fmt, false);
        static char prog[] = "prog", o[] = "-d";
        std::vector<vf::Str> st;
        st.reserve(len);
        std::vector<char*> a = {prog};
        for (unsigned k = 0; k < len; k++) { st.emplace_back(X[(size_t)d[k]]); a.push_back(o); a.push_back(st.back().p); }
        a.push_back(nullptr);
        struct tm want[3];
        for (int k = 0; k < 3; k++) {
            struct tm& t = f.e->tmval[k];
            memset(&t, 0, sizeof t);
            if (pre) { t.tm_sec = 30 + k; t.tm_min = 40 + k; t.tm_hour = 6 + k; t.tm_mday = 20 + k; t.tm_mon = 3 + k; t.tm_year = pre == 1 ? 85 + k : -450 + k; t.tm_wday = 1 + k; t.tm_yday = 300 + k; t.tm_isdst = -1; }
            want[k] = t;
        }
        int ret = LIB(arg_parse((int)a.size() - 1, a.data(), f.tab));
        c.steps++;
        int n = 0, e = 0;
        for (unsigned k = 0; k < len && !c.failed; k++) {
            int rc = n == 3 ? 2 : conv::model_date(X[(size_t)d[k]].c_str(), fmt.c_str(), want[n < 3 ? n : 2]);
            c.mix(rc);
            if (rc == 0) n++;
            else if (e >= ret || f.end->parent[e] != f.e || f.end->argval[e] != st[k].p || (n < 3 && f.end->error[e] != rc)) c.fail(strf("occurrence %u is not reported as expected", k + 1));
            else e++;
        }
        if (c.failed) return;
        if (ret != e || f.e->count != n) { c.fail(strf("returned %d with count %d, expected %d and %d", ret, f.e->count, e, n)); return; }
        for (int k = 0; k < 3 && !c.failed; k++) {
            if (!conv::tm_eq(f.e->tmval[k], want[k]) || f.e->tmval[k].tm_isdst != want[k].tm_isdst) c.fail(strf("slot %d holds ", k) + conv::tm_str(f.e->tmval[k]) + ", expected " + conv::tm_str(want[k]));
            c.mix(want[k].tm_year); c.mix(want[k].tm_hour); c.mix(want[k].tm_mday);
        }
    };
    s.desc = [=](uint64_t i) { int d[4]; vf::digits(i % per, nx, len, d); std::string r = "format " + quote(F[i / per / 3]) + strf(" preset %d", (int)(i / per % 3)); for (unsigned k = 0; k < len; k++) r += " " + quote(X[(size_t)d[k]]); return r; };
    S.push_back(s);
}
typedef std::function<void(uint64_t, std::string&, std::string&)> Mk;
static void list(std::vector<vf::Space>& S, const std::string& name, uint64_t n, Mk mk, bool null = false) {
    vf::Space s;
    s.name = name;
    s.n = n;
    s.run = [=](uint64_t i, Case& c) { std::string f, x; mk(i, f, x); check(f, x, c, null); };
    s.desc = [=](uint64_t i) { std::string f, x; mk(i, f, x); return "format " + (null ? "(default)" : quote(f)) + " text " + quote(x); };
    S.push_back(s);
}
// the numeric conversions, and what each needs around it (%p is only defined after a 12-hour conversion)
static const std::vector<std::string> NUM = {"%d", "%e", "%H", "%k", "%I", "%l", "%j", "%M", "%m", "%S", "%U", "%W", "%w", "%Y", "%C", "%y", "%Od", "%OH", "%Oy", "%EY", "%EC", "%Ey", "%Om", "%OU", "%Ow", "%Oe", "%OI", "%OM", "%OS", "%OW"};

int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C11";
    c.rule = "every numeric conversion with every digit string and every short string over digits and signs; every name conversion with every name, abbreviation, case variant, truncation and extension; every ordered pair of conversions with every pair of boundary texts and separators; composites with every combination of boundary fields; every short format string over format characters with a set of texts; outcomes are distinct by verdict and the resulting fields";
    c.assumptions = {"the reference model in harness/conv.hpp states the conversions (English names, ranges and digit counts of NetBSD's strptime)", "%p is used after a 12-hour conversion", "at most one two-digit year conversion per format", "the C locale"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        // all digit strings of 1..5 digits
        unsigned dl = q ? 4 : 5;
        uint64_t nd = vf::seq_count(10, dl);
        list(S, "digits", NUM.size() * nd, [=](uint64_t i, std::string& f, std::string& x) { f = NUM[i / nd]; x.clear(); for (int d : vf::seq_at(i % nd, 10, dl)) x += (char)('0' + d); });
        static const std::string NA = "019- +:xA";
        uint64_t na = vf::seq_count(NA.size(), q ? 4 : 5);
        list(S, "digits-junk", NUM.size() * na, [=](uint64_t i, std::string& f, std::string& x) { f = NUM[i / na]; x.clear(); for (int d : vf::seq_at(i % na, NA.size(), q ? 4 : 5)) x += NA[(size_t)d]; });
        // a digit string taken apart by two adjacent conversions
        uint64_t n6 = vf::ipow(10, q ? 4 : 6);
        list(S, "adjacent", 14 * 14 * n6, [=](uint64_t i, std::string& f, std::string& x) { static const size_t K[] = {0, 2, 4, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 21}; uint64_t p = i / n6; f = NUM[K[p % 14]] + NUM[K[p / 14]]; x = strf("%0*d", q ? 4 : 6, (int)(i % n6)); });
        // names
        static std::vector<std::string> names;
        if (names.empty()) {
            std::vector<std::string> base = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December", "AM", "PM", "Xyz", "Sept"};
            for (auto& b : base)
                for (size_t l = 0; l <= b.size() + 1; l++)
                    for (int cs = 0; cs < 4; cs++) {
                        std::string s = b.substr(0, l);
                        if (l > b.size()) s += "x";
                        for (size_t k = 0; k < s.size(); k++) { if (cs == 1) s[k] = (char)toupper(s[k]); if (cs == 2) s[k] = (char)tolower(s[k]); if (cs == 3) s[k] = (char)(k % 2 ? toupper(s[k]) : tolower(s[k])); }
                        names.push_back(s);
                    }
        }
        static const std::vector<std::string> NF = {"%a", "%A", "%b", "%B", "%h", "%I%p", "%l %p", "%a %d", "%A,%B", "%B%Y", "%b%a", "%r", "x%ay", "%Ea", "%Ob"};
        static const std::vector<std::string> PRE = {"", "5", "12", "5 ", "x", "01:02:03 ", " "};
        static const std::vector<std::string> POST = {"", "7", " 7", ",May", "2001", "y", "Mon", " "};
        uint64_t nn = names.size();
        list(S, "names", NF.size() * nn * PRE.size() * POST.size(), [=](uint64_t i, std::string& f, std::string& x) { uint64_t per = nn * PRE.size() * POST.size(); f = NF[i / per]; i %= per; x = PRE[i % PRE.size()]; i /= PRE.size(); std::string post = POST[i % POST.size()]; i /= POST.size(); x += names[i] + post; });
        // 12-hour clock: every hour, AM and PM, in both orders of minutes
        static const std::vector<std::string> TF = {"%I:%M %p", "%l%p", "%I%p:%M", "%r", "%I %p %M", "%Y %I%p"};
        static const std::vector<std::string> AP = {"AM", "PM", "am", "pm", "aM", "A", "P", "M", "", "AMx", "XM", " AM"};
        list(S, "clock12", 26 * 6 * 12 * 3, [=](uint64_t i, std::string& f, std::string& x) {
            int h = (int)(i % 26); i /= 26;
            f = TF[i % 6]; uint64_t k = i % 6; i /= 6;
            std::string ap = AP[i % 12]; i /= 12;
            static const int MN[] = {0, 30, 59};
            int m = MN[i];
            switch (k) { case 0: x = strf("%d:%02d ", h, m) + ap; break; case 1: x = strf("%d", h) + ap; break; case 2: x = strf("%02d", h) + ap + strf(":%d", m); break; case 3: x = strf("%d:%02d:%02d ", h, m, m) + ap; break; case 4: x = strf("%d ", h) + ap + strf(" %d", m); break; default: x = strf("2001 %d", h) + ap; }
        });
        // century and year, in both orders, all values
        list(S, "centuries", 100 * 100 * 3, [=](uint64_t i, std::string& f, std::string& x) { int a = (int)(i % 100), b = (int)(i / 100 % 100); switch (i / 10000) { case 0: f = "%C%y"; break; case 1: f = "%y %C"; break; default: f = "%C/%m/%y"; } x = i / 10000 == 0 ? strf("%02d%02d", a, b) : i / 10000 == 1 ? strf("%02d %02d", a, b) : strf("%d/7/%d", a, b); });
        list(S, "years", 10001, [](uint64_t i, std::string& f, std::string& x) { f = "%Y"; x = std::to_string(i); });
        // composites: every combination of boundary fields
        static const std::vector<std::string> FV = {"0", "00", "1", "12", "13", "23", "24", "31", "32", "59", "60", "61", "62", "68", "69", "99", "100", "", "5x", " 5", "-1"};
        struct Comp { const char* f; int n; const char* sep; };
        static const Comp C[] = {{"%D", 3, "//"}, {"%x", 3, "//"}, {"%T", 3, "::"}, {"%X", 3, "::"}, {"%R", 2, ":"}, {"%Y-%m-%d", 3, "--"}, {"%H:%M:%S", 3, "::"}, {"%Ex", 3, "//"}, {"%EX", 3, "::"}, {"%d %H %y", 3, "  "}, {"%m/%d", 2, "/"}, {"%j,%U,%w", 3, ",,"}};
        uint64_t fv = FV.size(), f3 = fv * fv * fv;
        list(S, "composites", 12 * f3, [=](uint64_t i, std::string& f, std::string& x) { const Comp& k = C[i / f3]; uint64_t j = i % f3; f = k.f; x = FV[j % fv] + k.sep[0] + FV[j / fv % fv]; if (k.n == 3) x += k.sep[1] + FV[j / fv / fv]; });
        list(S, "default-format", f3, [=](uint64_t j, std::string& f, std::string& x) { f = ""; x = FV[j % fv] + "/" + FV[j / fv % fv] + "/" + FV[j / fv / fv]; }, true);
        static const std::vector<std::string> CF = {"01", "12", "31", "00", "99", "23"};
        list(S, "full", 46656 * 2, [=](uint64_t i, std::string& f, std::string& x) { f = i / 46656 ? "%Ec" : "%c"; uint64_t j = i % 46656; std::string v[6]; for (int k = 0; k < 6; k++) { v[k] = CF[j % 6]; j /= 6; } x = v[0] + "/" + v[1] + "/" + v[2] + " " + v[3] + ":" + v[4] + ":" + v[5]; });
        // every pair of conversions with every separator
        static const std::vector<std::string> ALL = {"%a", "%A", "%b", "%B", "%C", "%c", "%D", "%d", "%e", "%H", "%h", "%I", "%j", "%k", "%l", "%M", "%m", "%n", "%R", "%r", "%S", "%T", "%t", "%U", "%W", "%w", "%X", "%x", "%Y", "%y", "%%", "%Q", "%E", "%O", "%Ed", "%OY", "%", "%i", "%5"};
        static const std::vector<std::string> TX = {"Mon", "monday", "Feb", "12", "7", "366", "2001", "01/02/03", "10:11", "10:11:12", "10:11:12 PM", "01/02/03 10:11:12", "%", "", " "};
        static const std::vector<std::string> SP = {"", " ", "-", "  ", ":"};
        uint64_t na2 = ALL.size(), nt = TX.size(), ns = SP.size();
        list(S, "pairs", na2 * na2 * ns * nt * nt * ns, [=](uint64_t i, std::string& f, std::string& x) {
            x = TX[i % nt]; i /= nt;
            std::string s2 = SP[i % ns]; i /= ns;
            x += s2 + TX[i % nt]; i /= nt;
            f = ALL[i % na2]; i /= na2;
            f += SP[i % ns]; i /= ns;
            f += ALL[i];
        });
        // every conversion character with every modifier
        static const std::vector<std::string> MO = {"", "E", "O", "EE", "EO", "OE", "OO", "-", "0", "2"};
        static const std::vector<std::string> AR = {"%", "%H ", "x%"};
        list(S, "modifiers", MO.size() * 255 * nt * 2, [=](uint64_t i, std::string& f, std::string& x) {
            x = TX[i % nt]; i /= nt;
            bool after = i % 2; i /= 2;
            f = "%" + MO[i / 255] + std::string(1, (char)(i % 255 + 1));
            if (after) { f = "%M " + f; x = "17 " + x; }
        });
        // raw formats
        static const std::string RF = "%dHYT :xEy";
        static const std::vector<std::string> RT = {"", "1", "12", "01:02", "2001", "x", "%", " 5", "5x", "d", "H:Y", "10:11:12", "E", "T", "1 2", "12:", "x5", "::"};
        unsigned rl = q ? 4 : 5;
        uint64_t nr = vf::seq_count(RF.size(), rl);
        list(S, "raw-formats", nr * RT.size(), [=](uint64_t i, std::string& f, std::string& x) { x = RT[i % RT.size()]; f.clear(); for (int d : vf::seq_at(i / RT.size(), RF.size(), rl)) f += RF[(size_t)d]; });
        // white space
        static const std::string WS = " \t\n5:";
        static const std::vector<std::string> WF = {"%H %M", "%H%n%M", "%t%H", " %H ", "%H\t:%M", "%H : %M", "%Y %n %d"};
        uint64_t nw = vf::seq_count(WS.size(), q ? 6 : 7);
        list(S, "white-space", nw * WF.size(), [=](uint64_t i, std::string& f, std::string& x) { f = WF[i % WF.size()]; x.clear(); for (int d : vf::seq_at(i / WF.size(), WS.size(), q ? 6 : 7)) x += WS[(size_t)d]; });
        series(S, 1);
        series(S, 2);
        series(S, 3);
        // long formats and texts
        auto pt = vf::points(q ? 300 : 600, q ? 8192 : 65536);
        list(S, "lengths", pt.size() * 10, [pt](uint64_t i, std::string& f, std::string& x) {
            size_t n = (size_t)pt[i / 10];
            switch (i % 10) {
                case 0: f = "%H %M"; x = "12" + std::string(n, " \t\n"[n % 3]) + "34"; break;
                case 1: f = std::string(n, ' ') + "%H"; x = "5"; break;
                case 2: f = std::string(n, 'x') + "%H"; x = std::string(n, 'x') + "23"; break;
                case 3: f = "%H" + std::string(n, 'x'); x = "23" + std::string(n - 1, 'x') + "y"; break;
                case 4: for (size_t k = 0; k < n; k++) { f += "%%"; x += "%"; } f += "%d"; x += "7"; break;
                case 5: for (size_t k = 0; k < n; k++) { f += "%M,"; x += strf("%d,", (int)(k % 60)); } break;
                case 6: for (size_t k = 0; k < n; k++) { f += "%n%d"; x += strf(" %02d", (int)(k % 31 + 1)); } break;
                case 7: f = "%Y"; x = "2001" + std::string(n, ' '); break;
                case 8: f = "%S"; x = std::string(n, '0') + "9"; break;
                default: f = "%d"; x = std::string(n, ' ') + "9"; break;
            }
        });
        // every byte put into, or in place of a byte of, a valid text at every position; alone and before more format
        struct Edit { std::string f, x; size_t pos; int kind; };
        static std::vector<Edit> ed;
        if (ed.empty()) {
            static const std::vector<std::pair<const char*, const char*>> V = {{"%a", "Mon"}, {"%a", "Wednesday"}, {"%A", "sat"}, {"%A", "THURSDAY"}, {"%b", "Feb"}, {"%B", "september"}, {"%h", "May"}, {"%C", "19"}, {"%c", "01/02/03 10:11:12"}, {"%D", "12/31/99"}, {"%x", "1/2/70"}, {"%d", "31"}, {"%e", "7"}, {"%H", "23"}, {"%k", "0"}, {"%I", "12"}, {"%I%p", "12PM"}, {"%l %p", "5 am"}, {"%j", "366"}, {"%M", "59"}, {"%m", "12"}, {"%R", "23:59"}, {"%r", "11:22:33 PM"}, {"%S", "61"}, {"%T", "01:02:03"}, {"%X", "1:2:3"}, {"%U", "53"}, {"%W", "0"}, {"%w", "6"}, {"%Y", "2001"}, {"%y", "68"}, {"%Ey", "70"}, {"%%", "%"}, {"%n", " "}, {"%b%d", "Jan31"}, {"at", "at"}};
            static const std::vector<std::pair<const char*, const char*>> AFT = {{"", ""}, {" %M", " 8"}, {"%n%B", " Mar"}, {"z", "z"}, {".%w", ".4"}};
            for (auto& v : V) for (auto& a : AFT) for (auto& b : {"", "%S,"}) {
                std::string f = std::string(b) + v.first + a.first, x = std::string(*b ? "9," : "") + v.second + a.second;
                for (size_t p = 0; p <= x.size(); p++) for (int k = 0; k < 2; k++) if (k == 0 || p < x.size()) ed.push_back({f, x, p, k});
            }
        }
        list(S, "edits", ed.size() * 255, [=](uint64_t i, std::string& f, std::string& x) { const Edit& e = ed[i / 255]; f = e.f; x = e.x; x.replace(e.pos, e.kind ? 1 : 0, 1, (char)(i % 255 + 1)); });
        list(S, "deletions", ed.size(), [=](uint64_t i, std::string& f, std::string& x) { const Edit& e = ed[i]; f = e.f; x = e.x; if (e.kind) x.erase(e.pos, 1); else x.erase(e.pos); });
        list(S, "bytes", 255 * 12, [=](uint64_t i, std::string& f, std::string& x) { static const char* F[] = {"%d", "%d", "%a", "%H:%M", "x%d", "%Y"}; static const char* X[] = {"?", "1?", "Mo?", "1?2", "?1", "200?"}; f = F[i / 255 % 6]; x = X[i / 255 % 6]; for (auto& ch : x) if (ch == '?') ch = (char)(i % 255 + 1); if (i / 255 >= 6) { f += (char)(i % 255 + 1 == '%' ? 'q' : i % 255 + 1); x += (char)(i % 255 + 1 == '%' ? 'q' : i % 255 + 1); } });
    };
    return vf::run(c, argc, argv);
}
