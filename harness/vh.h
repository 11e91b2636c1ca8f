// Common runtime-monitoring support: seeded generator, case ledger, violation recorder.
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

inline std::string strf(const char* fmt, ...)
{
    char buf[4096];
    va_list ap, aq;
    va_start(ap, fmt);
    va_copy(aq, ap);
    const int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    std::string s(buf);
    if (n >= (int)sizeof buf)
    {
        s.assign(n + 1, 0);
        vsnprintf(&s[0], n + 1, fmt, aq);
        s.resize(n);
    }
    va_end(aq);
    return s;
}

inline uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    const uint8_t* b = static_cast<const uint8_t*>(p);
    for (size_t i = 0; i < n; ++i)
    {
        h ^= b[i];
        h *= 1099511628211ULL;
    }
    return h;
}

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t u64() { return splitmix(s); }
    // inclusive range
    int64_t range(int64_t lo, int64_t hi)
    {
        const uint64_t w = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1;
        if (w == 0) return static_cast<int64_t>(u64());
        return static_cast<int64_t>(static_cast<uint64_t>(lo) + u64() % w);
    }
    bool chance(double p) { return unit() < p; }
    double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
    double gauss()
    {
        double u1 = unit(), u2 = unit();
        if (u1 < 1e-300) u1 = 1e-300;
        return std::sqrt(-2 * std::log(u1)) * std::cos(2 * M_PI * u2);
    }
    template <class T>
    const T& pick(const std::vector<T>& v)
    {
        return v[u64() % v.size()];
    }
};

struct Progress
{
    uint64_t case_no;
    char desc[4000];
};

class Ctx
{
 public:
    std::string group, tier;
    uint64_t seed = 1;
    Rng rng{1};
    int64_t only_case = -1;  // replay a single case
    uint64_t evals = 0;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> counters;
    struct Viol
    {
        std::string key, msg;
        uint64_t case_no;
        std::string desc;
    };
    std::vector<Viol> viols;
    std::map<std::string, int> viol_count;
    Progress* prog = nullptr;
    Progress local_;
    std::string scratch;

    bool thorough() const { return tier == "thorough"; }
    // case budgets (counts, never wall clock)
    int n(int quick, int th) const { return thorough() ? th : quick; }

    // start a new case; desc identifies the input. The per-case generator depends only on
    // (seed, group, case number), so one case can be replayed alone.
    bool begin(const std::string& desc = "")
    {
        ++evals;
        prog->case_no = evals;
        note(desc);
        uint64_t s = seed * 0x9E3779B97F4A7C15ULL + fnv(group.data(), group.size()) + evals * 1000003ULL;
        splitmix(s);
        rng = Rng(s);
        if (only_case >= 0 && static_cast<uint64_t>(only_case) != evals) return false;
        return true;
    }
    void note(const std::string& desc)
    {
        strncpy(prog->desc, desc.c_str(), sizeof prog->desc - 1);
        prog->desc[sizeof prog->desc - 1] = 0;
    }
    // a case that is non-trivial by the check's rule, identified by its content hash
    void nontrivial(uint64_t h) { distinct.insert(h); }
    void nontrivial(const std::string& s) { distinct.insert(fnv(s.data(), s.size())); }
    void sample(const std::string& s)
    {
        if (samples.size() < 6) samples.push_back(s);
    }
    void count(const std::string& k, uint64_t n = 1) { counters[k] += n; }
    void violate(const std::string& key, const std::string& msg)
    {
        int& c = viol_count[key];
        if (++c <= 3) viols.push_back({key, msg, prog->case_no, prog->desc});
    }
    bool expect(bool ok, const std::string& key, const std::string& msg)
    {
        if (!ok) violate(key, msg);
        return ok;
    }
};

struct GroupDef
{
    const char* name;
    void (*fn)(Ctx&);
};
inline std::vector<GroupDef>& groups()
{
    static std::vector<GroupDef> g;
    return g;
}
struct Reg
{
    Reg(const char* n, void (*f)(Ctx&)) { groups().push_back({n, f}); }
};
#define VH_GROUP(NAME)                                     \
    static void vh_group_##NAME(vh::Ctx&);                 \
    static vh::Reg vh_reg_##NAME(#NAME, vh_group_##NAME);  \
    static void vh_group_##NAME([[maybe_unused]] vh::Ctx& c)

inline std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\')
        {
            o += '\\';
            o += ch;
        }
        else if (ch == '\n')
            o += "\\n";
        else if (ch < 32 || ch > 126)
            o += strf("\\u%04x", ch);
        else
            o += ch;
    }
    return o;
}

inline int run(int argc, char** argv)
{
    Ctx c;
    std::string out, prog;
    c.tier = "quick";
    bool list = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--list")
            list = true;
        else if (a == "--group")
            c.group = nx();
        else if (a == "--seed")
            c.seed = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--tier")
            c.tier = nx();
        else if (a == "--out")
            out = nx();
        else if (a == "--progress")
            prog = nx();
        else if (a == "--case")
            c.only_case = atoll(nx().c_str());
        else if (a == "--scratch")
            c.scratch = nx();
    }
    if (list)
    {
        for (auto& g : groups()) printf("%s\n", g.name);
        return 0;
    }
    memset(&c.local_, 0, sizeof c.local_);
    c.prog = &c.local_;
    if (!prog.empty())
    {
        int fd = open(prog.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, sizeof(Progress)) == 0)
        {
            void* p = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) c.prog = static_cast<Progress*>(p);
        }
    }
    bool found = false;
    for (auto& g : groups())
    {
        if (c.group == g.name)
        {
            g.fn(c);
            found = true;
        }
    }
    if (!found) return 77;
    std::string j = "{";
    j += strf("\"group\":\"%s\",\"evaluations\":%" PRIu64 ",\"distinct\":%zu,", c.group.c_str(),
              c.evals, c.distinct.size());
    j += "\"samples\":[";
    for (size_t i = 0; i < c.samples.size(); ++i)
        j += (i ? "," : "") + ("\"" + jesc(c.samples[i]) + "\"");
    j += "],\"counters\":{";
    bool first = true;
    for (auto& kv : c.counters)
    {
        j += (first ? "" : ",") + ("\"" + jesc(kv.first) + "\":") + std::to_string(kv.second);
        first = false;
    }
    j += "},\"violations\":[";
    for (size_t i = 0; i < c.viols.size(); ++i)
    {
        auto& v = c.viols[i];
        j += (i ? "," : "") + ("{\"key\":\"" + jesc(v.key) + "\",\"msg\":\"" + jesc(v.msg) +
                               "\",\"case\":" + std::to_string(v.case_no) + ",\"desc\":\"" +
                               jesc(v.desc) + "\",\"count\":" +
                               std::to_string(c.viol_count[v.key]) + "}");
    }
    j += "]}";
    if (!out.empty())
    {
        std::ofstream f(out);
        f << j << "\n";
    }
    else
        printf("%s\n", j.c_str());
    return 0;
}

}  // namespace vh

#ifndef VH_NO_MAIN
int main(int argc, char** argv)
{
    return vh::run(argc, argv);
}
#endif
