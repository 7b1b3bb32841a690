// C10: file arguments.
#include "pm.hpp"
using namespace pm;

static void check(const std::string& s, int how, Case& c) {
    static struct arg_file* it = arg_filen("f", "file", nullptr, 0, 3, nullptr);
    static struct arg_file* un = arg_filen(nullptr, nullptr, nullptr, 0, 3, nullptr);
    static struct arg_end* end = arg_end(8);
    static void* t1[] = {it, end};
    static void* t2[] = {un, end};
    vf::Str x(how == 1 || how == 4 ? "-f" + s : how == 2 ? "--file=" + s : s);
    const char* given = x.p + (how == 1 ? 2 : how == 2 ? 7 : 0);
    static char prog[] = "prog", o[] = "-f", first[] = "d/e.f", dd[] = "--";
    char* a0[] = {prog, o, first, o, x.p, nullptr};
    char* a1[] = {prog, o, first, x.p, nullptr};
    char* a3[] = {prog, first, dd, x.p, nullptr};
    if (how && s.empty()) return;
    if (how >= 4) {  // the same path twice (4: attached to short options, 5: operands), in different buffers
        vf::Str y(how == 4 ? "-f" + s : s), z(how == 4 ? "-f" + s : s);
        size_t off = how == 4 ? 2 : 0;
        char* a4[] = {prog, y.p, x.p, z.p, nullptr};
        char* a5[] = {prog, dd, y.p, x.p, z.p, nullptr};
        struct arg_file* f = how == 4 ? it : un;
        int r = LIB(how == 4 ? arg_parse(4, a4, t1) : arg_parse(5, a5, t2));
        c.steps++;
        if (r || f->count != 3) { c.fail(strf("returned %d with count %d", r, f->count)); return; }
        size_t b, e;
        conv::model_file(s.c_str(), &b, &e);
        const char* g[] = {y.p + off, x.p + off, z.p + off};
        for (int k = 0; k < 3; k++) if (f->filename[k] != g[k] || f->basename[k] != g[k] + b || f->extension[k] != g[k] + e) c.fail(strf("occurrence %d of the same path does not refer to its own argument", k));
        c.mix((uint64_t)(s.size() - b));
        c.mix((uint64_t)(s.size() - e));
        return;
    }
    struct arg_file* e = how == 3 ? un : it;
    int ret = LIB(how == 0 ? arg_parse(5, a0, t1) : how == 3 ? arg_parse(4, a3, t2) : arg_parse(4, a1, t1));
    c.steps++;
    if (ret || e->count != 2) { c.fail(strf("returned %d with count %d", ret, e->count)); return; }
    size_t b, y;
    conv::model_file(s.c_str(), &b, &y);
    c.mix((uint64_t)(s.size() - b));
    c.mix((uint64_t)(s.size() - y));
    c.mix(std::string(e->basename[1]));
    if (e->filename[0] != first || strcmp(e->basename[0], "e.f") || strcmp(e->extension[0], ".f")) c.fail("the file given before it changed");
    if (e->filename[1] != given) c.fail("file name is not the given string: " + quote(e->filename[1]));
    if (e->basename[1] != given + b) c.fail("base name is " + quote(e->basename[1]) + ", expected " + quote(given + b));
    if (e->extension[1] != given + y) c.fail("extension is " + quote(e->extension[1]) + ", expected " + quote(given + y));
    if (c.trace) c.log("path " + quote(s) + ": base name " + quote(e->basename[1]) + ", extension " + quote(e->extension[1]));
}
static void list(std::vector<vf::Space>& S, const std::string& name, uint64_t n, std::function<std::string(uint64_t)> mk, bool all) {
    vf::Space s;
    s.name = name;
    s.n = n * (all ? 6 : 1);
    s.run = [=](uint64_t i, Case& c) { check(mk(all ? i / 6 : i), all ? (int)(i % 6) : 0, c); };
    s.desc = [=](uint64_t i) { return "path " + quote(mk(all ? i / 6 : i)) + (all ? strf(" delivery %d", (int)(i % 6)) : ""); };
    S.push_back(s);
}
// many files in one line, each with its own path
static void many(std::vector<vf::Space>& S, int dense, int max) {
    auto pt = std::make_shared<std::vector<int>>(vf::points(dense, max));
    static const char* F[] = {"d/?", "?.e", "d.x/?.tar.gz", "?", "./?", "/a/b/?.c", ".?", "?/", "?."};
    vf::Space s;
    s.name = "many";
    s.n = pt->size() * 9 * 4;
    s.run = [=](uint64_t i, Case& c) {
        int n = (*pt)[i / 36], how = (int)(i % 4), f = (int)(i / 4 % 9);
        static char prog[] = "prog", o[] = "-f";
        std::vector<std::string> path;
        std::vector<vf::Str> toks;
        toks.reserve((size_t)n);
        std::vector<char*> av = {prog};
        std::vector<const char*> g;
        for (int k = 0; k < n; k++) {
            std::string p;
            for (const char* x = F[(f + k * (f % 3)) % 9]; *x; x++) if (*x == '?') p += strf("n%d", k); else p += *x;
            path.push_back(p);
            toks.emplace_back(how == 1 ? "-f" + p : how == 2 ? "--file=" + p : p);
            if (how == 0) av.push_back(o);
            av.push_back(toks.back().p);
            g.push_back(toks.back().p + (how == 1 ? 2 : how == 2 ? 7 : 0));
        }
        av.push_back(nullptr);
        struct arg_file* e;
        struct arg_end* end;
        { vf::InLib lib; e = how == 3 ? arg_filen(nullptr, nullptr, nullptr, 0, n, nullptr) : arg_filen("f", "file", nullptr, n, n, nullptr); end = arg_end(3); }
        void* t[] = {e, end};
        int r = LIB(arg_parse((int)av.size() - 1, av.data(), t));
        c.steps += (uint64_t)n;
        if (r || e->count != n) c.fail(strf("returned %d with count %d for %d files", r, e->count, n));
        else
            for (int k = 0; k < n && !c.failed; k++) {
                size_t b, y;
                conv::model_file(path[(size_t)k].c_str(), &b, &y);
                if (e->filename[k] != g[(size_t)k] || e->basename[k] != g[(size_t)k] + b || e->extension[k] != g[(size_t)k] + y) c.fail(strf("file %d of %d, ", k, n) + quote(path[(size_t)k]) + ", does not have its own name, base name and extension");
                c.mix((uint64_t)b * 64 + y);
            }
        LIBV(arg_freetable(t, 2));
    };
    s.desc = [=](uint64_t i) { return strf("%d files, form %d, delivery %d", (*pt)[i / 36], (int)(i / 4 % 9), (int)(i % 4)); };
    S.push_back(s);
}
int main(int argc, char** argv) {
    vf::Check c;
    c.property = "C10";
    c.rule = "each path given once after another one and (short ones) three times in different buffers, and many different ones in one line: every string up to the bound length over path characters, every byte in path templates, and long components; base name and extension are compared by pointer; outcomes are distinct by base name and lengths";
    c.assumptions = {"'/' is the directory separator (the platform is not Windows)"};
    c.define = [](vf::Tier t, std::vector<vf::Space>& S) {
        bool q = t == vf::QUICK;
        auto strings = [&](const char* nm, const std::string& A, unsigned len, bool all) { list(S, nm, vf::seq_count(A.size(), len), [=](uint64_t i) { std::string r; for (int d : vf::seq_at(i, A.size(), len)) r += A[(size_t)d]; return r; }, all); };
        strings("strings", "/.a", q ? 12 : 14, false);
        strings("strings-all", "/.ab\\:", q ? 6 : 7, true);
        strings("strings-wide", "/.a \\:-~", q ? 6 : 7, false);
        static const char* F[] = {"?", "a?b", "?.c", "a.?", "/?", "?/", "d/?.e", "d.?/e", "d/.?", "..?", "?..", ".?."};
        list(S, "bytes", 255 * 12, [](uint64_t i) { std::string r = F[i / 255]; for (auto& x : r) if (x == '?') x = (char)(i % 255 + 1); return r; }, true);
        uint64_t n = q ? 24 : 40;
        list(S, "lengths", n * n * n * 4, [=](uint64_t i) {
            static const size_t L[] = {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 500, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2000, 4095, 4096};
            uint64_t k = i / 4;
            std::string d((size_t)L[k % n], 'd'), b((size_t)L[k / n % n], 'b'), e((size_t)L[k / n / n], 'e');
            switch (i % 4) { case 0: return d + "/" + b + "." + e; case 1: return d + "." + b + "/" + e; case 2: return "/" + d + "//" + b + ".." + e; default: return d + "." + b + "." + e; }
        }, false);
        many(S, q ? 270 : 1100, q ? 1024 : 4096);
        auto pt = vf::points(600, q ? 131072 : 1 << 20);
        list(S, "long", pt.size() * 8, [pt](uint64_t i) {
            std::string x((size_t)pt[i / 8], 'n');
            switch (i % 8) {
                case 0: return x; case 1: return x + "/b.e"; case 2: return "d/" + x + ".e"; case 3: return "d/b." + x; case 4: return "d." + x + "/b"; case 5: return x + "." + x;
                case 6: for (size_t k = 0; k < x.size(); k += 2) x[k] = '/'; return x + ".e";
                default: for (size_t k = 0; k < x.size(); k += 2) x[k] = '.'; return "d/" + x;
            }
        }, false);
    };
    return vf::run(c, argc, argv);
}
