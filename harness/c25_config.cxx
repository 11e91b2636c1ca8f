// C25: configuration files - every value a program asks for is the one written, in full, or the program is told.
#include <sys/wait.h>
#include <fstream>
#include "common/matrix_defs.h"
#include "utils/config.h"
#include "vh.h"
namespace mc {
using utils::Config;
template <class F>
static bool refuses(F f)
{
    fflush(stdout), fflush(stderr);
    const pid_t p = fork();
    if (p == 0)
    {
        const int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1), dup2(nul, 2);
        try
        {
            f();
        }
        catch (...)
        {
            _exit(255);
        }
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 255;
}
// the document, kept apart from the parser under test
struct Doc
{
    enum Kind { MAP, INT, DBL, STR, BOOL, LIST, ROWS } kind = MAP;
    std::vector<std::pair<std::string, Doc>> kids;
    long i = 0;
    double d = 0;
    std::string s;
    bool b = false;
    std::vector<double> list;
    std::vector<Vec3> rows;
    int odd = -1, odd_len = 0;  // a row of another length
};
static std::string num(double v) { return vh::strf("%.17g", v); }
static double val(vh::Rng& r) { return r.chance(.3) ? (double)r.range(-50, 50) : r.gauss() * std::pow(10., (double)r.range(-9, 9)); }
static Doc make(vh::Rng& r, int depth)
{
    Doc d;
    const int k = depth == 0 ? 0 : (int)r.range(depth < 4 ? 0 : 1, 6);
    d.kind = (Doc::Kind)k;
    switch (d.kind)
    {
        case Doc::MAP:
            for (int n = (int)r.range(depth ? 0 : 3, 6), i = 0; i < n; ++i) d.kids.emplace_back(vh::strf("%s%d", r.pick<const char*>({"k", "P0_stdev", "rate", "x y", "a.b"}), i), make(r, depth + 1));
            break;
        case Doc::INT: d.i = r.range(-2000000000, 2000000000); break;
        case Doc::DBL: d.d = r.gauss() * std::pow(10., (double)r.range(-9, 9)) + 1e-13; break;
        case Doc::STR: d.s = r.pick<std::string>({"../logs/", "a b c", "text: with colon", "x#y", "two words", "path/to/file"}); break;
        case Doc::BOOL: d.b = r.chance(.5); break;
        case Doc::LIST:
            for (int n = (int)r.pick<int>({0, 1, 2, 3, 3, 4, 6, 9, 12, 12, 13}), i = 0; i < n; ++i) d.list.push_back(val(r));
            break;
        case Doc::ROWS:
            for (int n = (int)r.range(1, 4), i = 0; i < n; ++i) d.rows.push_back(Vec3(val(r), val(r), val(r)));
            if (r.chance(.3)) d.odd = (int)r.range(0, d.rows.size() - 1), d.odd_len = r.pick<int>({0, 1, 2, 4, 4, 5, 6});
            break;
    }
    return d;
}
static std::string flow(const Doc& d)
{
    std::string o;
    switch (d.kind)
    {
        case Doc::MAP:
            o = "{";
            for (auto& k : d.kids) o += (o.size() > 1 ? ", \"" : "\"") + k.first + "\": " + flow(k.second);
            return o + "}";
        case Doc::INT: return vh::strf("%ld", d.i);
        case Doc::DBL: return num(d.d);
        case Doc::STR: return "\"" + d.s + "\"";
        case Doc::BOOL: return d.b ? "true" : "false";
        case Doc::LIST:
            o = "[";
            for (auto v : d.list) o += (o.size() > 1 ? ", " : "") + num(v);
            return o + "]";
        case Doc::ROWS:
            o = "[";
            for (int k = 0; k < (int)d.rows.size(); ++k)
            {
                o += k ? ", [" : "[";
                for (int q = 0, n = k == d.odd ? d.odd_len : 3; q < n; ++q) o += (q ? ", " : "") + num(d.rows[k][q % 3]);
                o += "]";
            }
            return o + "]";
    }
    return o;
}
static std::string block(const Doc& d, int ind = 0)
{
    std::string o;
    for (auto& k : d.kids)
    {
        o += std::string(ind, ' ') + "\"" + k.first + "\":";
        if (k.second.kind == Doc::MAP && !k.second.kids.empty())
            o += "\n" + block(k.second, ind + 2);
        else if (k.second.kind == Doc::LIST && !k.second.list.empty())
        {
            o += "  # a list\n";
            for (auto v : k.second.list) o += std::string(ind + 2, ' ') + "- " + num(v) + "\n";
        }
        else
            o += " " + flow(k.second) + "\n";
    }
    return o;
}
static const Doc* find(const Doc& d, const std::vector<std::string>& path)
{
    const Doc* at = &d;
    for (auto& p : path)
    {
        if (at->kind != Doc::MAP) return nullptr;
        const Doc* n = nullptr;
        for (auto& k : at->kids)
            if (k.first == p) n = &k.second;
        if (!n) return nullptr;
        at = n;
    }
    return at;
}
static void paths(const Doc& d, std::vector<std::string> p, std::vector<std::vector<std::string>>& out)
{
    for (auto& k : d.kids)
    {
        auto q = p;
        q.push_back(k.first);
        out.push_back(q);
        paths(k.second, q, out);
    }
}
// what a request of each type must answer: 1 the value, 0 refused, -1 left open
static int want(const Doc* d, double& o) { return !d ? 0 : d->kind == Doc::DBL ? (o = d->d, 1) : d->kind == Doc::INT ? (o = (double)d->i, 1) : 0; }
static int want(const Doc* d, int& o) { return !d ? 0 : d->kind == Doc::INT ? (o = (int)d->i, 1) : d->kind == Doc::DBL ? (d->d == std::floor(d->d) ? -1 : 0) : 0; }
static int want(const Doc* d, bool& o) { return !d ? 0 : d->kind == Doc::BOOL ? (o = d->b, 1) : 0; }
static int want(const Doc* d, std::string& o)
{
    if (!d) return 0;
    if (d->kind == Doc::STR) return o = d->s, 1;
    if (d->kind == Doc::INT) return o = vh::strf("%ld", d->i), 1;
    return d->kind == Doc::MAP || d->kind == Doc::LIST || d->kind == Doc::ROWS ? 0 : -1;
}
static int want(const Doc* d, std::vector<double>& o) { return !d ? 0 : d->kind == Doc::LIST ? (o = d->list, 1) : d->kind == Doc::ROWS ? 0 : d->kind == Doc::MAP ? -1 : 0; }
static int want(const Doc* d, std::vector<Vec3>& o)
{
    if (!d) return 0;
    if (d->kind == Doc::ROWS) return d->odd >= 0 ? 0 : (o = d->rows, 1);
    return d->kind == Doc::MAP || (d->kind == Doc::LIST && d->list.empty()) ? -1 : 0;
}
template <int R, int C>
static int want(const Doc* d, Eigen::Matrix<double, R, C>& o)
{
    if (!d) return 0;
    if (d->kind == Doc::MAP) return -1;
    if (d->kind != Doc::LIST || (int)d->list.size() != R * C) return 0;
    for (int i = 0; i < R; ++i)
        for (int j = 0; j < C; ++j) o(i, j) = d->list[i * C + j];
    return 1;
}
template <class T>
static void sentinel(T& x) { std::memset(&x, 0x5a, sizeof x); }
static void sentinel(bool& x) { x = true; }
static void sentinel(std::string& s) { s = "before"; }
static void sentinel(std::vector<double>& s) { s = {-1.5}; }
static void sentinel(std::vector<Vec3>& s) { s = {Vec3(-1, -2, -3)}; }
template <class T>
static void ask(vh::Ctx& c, const Config& cfg0, const Doc& doc, const std::string& key, const Doc* d, const char* type)
{
    Config& cfg = const_cast<Config&>(cfg0);
    T expected, got, before;
    sentinel(got), sentinel(before), sentinel(expected);
    const int w = want(d, expected);
    const bool req = c.rng.chance(.15);
    if (req && w == 0)
    {
        c.expect(refuses([&] { cfg.get(key, make_out(got), true); }), "required", vh::strf("%s as %s: accepted although %s", key.c_str(), type, d ? "it is something else" : "it is absent"));
        c.count("required values refused");
        return;
    }
    bool ok = false;
    try
    {
        ok = cfg.get(key, make_out(got), req && w == 1);
    }
    catch (const std::exception& e)
    {
        c.violate("throws", vh::strf("%s as %s: %s", key.c_str(), type, e.what()));
        return;
    }
    if (w < 0) return;
    c.expect(ok == (w > 0), w > 0 ? "found" : "absent_or_unfit", vh::strf("%s as %s: answered %d", key.c_str(), type, (int)ok));
    if (ok && w > 0) c.expect(got == expected, "value", vh::strf("%s as %s differs from what is written", key.c_str(), type));
    if (!ok) c.expect(got == before, "untouched", vh::strf("%s as %s: output changed", key.c_str(), type));
    c.count(ok ? "values delivered" : "requests declined");
}

VH_GROUP(values)
{
    for (int i = 0; i < c.n(700, 40000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const Doc doc = make(r, 0);
        const std::string text = r.chance(.5) ? flow(doc) : block(doc), file = c.scratch + "/c.yaml";
        std::unique_ptr<Config> cfg;
        if (r.chance(.5))
        {
            std::ofstream(file) << text;
            cfg = std::make_unique<Config>(file);
        }
        else
            cfg = std::make_unique<Config>(YAML::Load(text));
        std::vector<std::vector<std::string>> all;
        paths(doc, {}, all);
        for (int k = 0; k < 30; ++k)
        {
            std::vector<std::string> p;
            const double u = r.unit();
            if (u < .8) p = all[r.range(0, all.size() - 1)];
            else if (u < .9) p = all[r.range(0, all.size() - 1)], p.push_back(r.chance(.5) ? "k0" : "nothing");
            else p = {r.chance(.5) ? "nothing" : "k77", "k0"};
            if (u >= .9 && r.chance(.5)) p.pop_back();
            std::string key;
            for (auto& s : p) key += (key.empty() ? "" : "/") + s;
            const Doc* d = find(doc, p);
            // ask mostly for what is there
            int kind = (int)r.range(0, 11);
            if (d && r.chance(.6))
                kind = d->kind == Doc::INT ? 1 : d->kind == Doc::DBL ? 0 : d->kind == Doc::STR ? 3 : d->kind == Doc::BOOL ? 2 : d->kind == Doc::ROWS ? 5
                     : d->kind == Doc::LIST ? (d->list.size() == 3 ? 6 : d->list.size() == 2 ? 7 : d->list.size() == 6 ? 8 : d->list.size() == 9 ? 9 : d->list.size() == 12 ? (int)r.range(10, 11) : 4) : kind;
            switch (kind)
            {
                case 0: ask<double>(c, *cfg, doc, key, d, "a number"); break;
                case 1: ask<int>(c, *cfg, doc, key, d, "an integer"); break;
                case 2: ask<bool>(c, *cfg, doc, key, d, "a switch"); break;
                case 3: ask<std::string>(c, *cfg, doc, key, d, "text"); break;
                case 4: ask<std::vector<double>>(c, *cfg, doc, key, d, "a list"); break;
                case 5: ask<std::vector<Vec3>>(c, *cfg, doc, key, d, "a list of points"); break;
                case 6: ask<Vec3>(c, *cfg, doc, key, d, "a 3-vector"); break;
                case 7: ask<Vec2>(c, *cfg, doc, key, d, "a 2-vector"); break;
                case 8: ask<Vec6>(c, *cfg, doc, key, d, "a 6-vector"); break;
                case 9: ask<Eigen::Matrix3d>(c, *cfg, doc, key, d, "a 3x3 matrix"); break;
                case 10: ask<Eigen::Matrix<double, 3, 4>>(c, *cfg, doc, key, d, "a 3x4 matrix"); break;
                case 11: ask<Eigen::Matrix<double, 4, 3>>(c, *cfg, doc, key, d, "a 4x3 matrix"); break;
            }
            c.nontrivial(vh::fnv(text.data(), text.size()) ^ vh::fnv(key.data(), key.size()) ^ kind);
        }
    }
}
// a block of a larger vector or matrix can be the destination, and only that block is written
VH_GROUP(parts)
{
    for (int i = 0; i < c.n(1500, 60000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        std::vector<double> v;
        const int n = r.pick<int>({2, 3, 3, 3, 4});
        std::string t = "a: {b: [";
        for (int k = 0; k < n; ++k) v.push_back(val(r)), t += (k ? "," : "") + num(v[k]);
        Config cfg(YAML::Load(t + "]}"));
        Vec6 x, y;
        x.setConstant(-7), y = x;
        const bool head = r.chance(.5);
        const bool ok = head ? cfg.get("a/b", make_out(x.head<3>())) : cfg.get("a/b", make_out(x.tail<3>()));
        c.expect(ok == (n == 3), "part_size", vh::strf("%d values for three: %d", n, (int)ok));
        if (n == 3)
            for (int k = 0; k < 3; ++k) y[(head ? 0 : 3) + k] = v[k];
        c.expect(x == y, "part_value", "");
        Eigen::Matrix<double, 4, 4> m, e;
        m.setConstant(9), e = m;
        std::string s = "m: [";
        for (int a = 0; a < 6; ++a)
        {
            const double w = val(r);
            s += (a ? "," : "") + num(w);
            e(1 + a / 3, a % 3) = w;
        }
        Config cm(YAML::Load(s + "]"));
        c.expect(cm.get("m", make_out(m.block<2, 3>(1, 0))), "block", "");
        c.expect(m == e, "block_value", "");
        c.nontrivial(vh::fnv(t.data(), t.size()));
    }
}
// files that are not there or not YAML are reported, never taken for an empty configuration
VH_GROUP(files)
{
    for (int i = 0; i < c.n(150, 3000); ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        std::string text = flow(make(r, 0));
        text.pop_back();  // the brace is never closed
        const std::string path = c.scratch + "/f.yaml";
        bool thrown = false;
        const bool missing = r.chance(.3);
        if (missing)
            unlink(path.c_str());
        else
            std::ofstream(path) << (r.chance(.5) ? "root: " : "") << text << "\n";
        try
        {
            Config cfg(path);
        }
        catch (const YAML::Exception&)
        {
            thrown = true;
        }
        c.expect(thrown, missing ? "missing_file" : "broken_file", missing ? std::string("no complaint") : "no complaint about\n" + text);
        c.nontrivial(vh::fnv(text.data(), text.size()));
    }
}
}  // namespace mc
