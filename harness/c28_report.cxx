// C28: failures and messages. Messages are captured from the real file descriptors, failing checks
// run in a forked child, error values are followed through random call trees by a shadow model.
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <map>
#include <memory>
#include <sstream>

#include "c28_level.h"
#include "common/check.h"
#include "common/error.h"
#include "common/error_result.h"
#include "common/out.h"
#include "vh.h"

using namespace mc;
using vh::strf;

static std::map<int, std::pair<SayFn, std::string>>& sayers()
{
    static std::map<int, std::pair<SayFn, std::string>> m;
    return m;
}
SayReg::SayReg(int level, SayFn fn, const char* file) { sayers()[level] = {fn, file}; }

static std::string slurp(const std::string& p)
{
    std::string s;
    if (FILE* f = fopen(p.c_str(), "r"))
    {
        char b[4096];
        size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
        fclose(f);
    }
    return s;
}
static std::string plain(const std::string& s)  // without colours
{
    std::string o;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] == '\x1b')
        {
            while (i < s.size() && s[i] != 'm') ++i;
            continue;
        }
        o += s[i];
    }
    return o;
}

struct Seen
{
    int status = 0;  // exit status of a forked run, -1 if it died by a signal
    std::string out, err;
};

struct Redirect
{
    int o, e;
    explicit Redirect(const std::string& dir)
    {
        fflush(stdout), fflush(stderr);
        o = dup(1), e = dup(2);
        const int a = open((dir + "/o").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        const int b = open((dir + "/e").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(a, 1), dup2(b, 2);
        close(a), close(b);
    }
    ~Redirect()
    {
        fflush(stdout), fflush(stderr);
        dup2(o, 1), dup2(e, 2);
        close(o), close(e);
    }
};

template <typename F>
static Seen here(vh::Ctx& c, F&& f)
{
    Seen s;
    {
        Redirect r(c.scratch);
        f();
    }
    s.out = slurp(c.scratch + "/o"), s.err = slurp(c.scratch + "/e");
    return s;
}

template <typename F>
static Seen child(vh::Ctx& c, F&& f)
{
    Seen s;
    fflush(stdout), fflush(stderr);
    const pid_t p = fork();
    if (p == 0)
    {
        Redirect* r = new Redirect(c.scratch);
        (void)r;
        f();
        fflush(stdout), fflush(stderr);
        _exit(77);
    }
    int st = 0;
    waitpid(p, &st, 0);
    s.status = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    s.out = slurp(c.scratch + "/o"), s.err = slurp(c.scratch + "/e");
    return s;
}

static const char* FN[] = {"dbg", "info", "warn", "error", "fatal", "base_print"};

VH_GROUP(messages)
{
    for (int i = 0; i < c.n(6000, 60000); ++i)
    {
        const int level = i % 6, fn = (i / 6) % 6, form = (i / 36) % 4;
        if (!c.begin(strf("level %d function %s form %d", level, FN[fn], form))) continue;
        if (!sayers().count(level)) continue;
        std::string a;
        for (int k = (int)c.rng.range(0, 20); k > 0; --k) a += (char)c.rng.range(32, 126);
        if (c.rng.chance(.02)) a += std::string(c.rng.range(100, 6000), 'x');
        const int b = (int)c.rng.u64();
        std::string raw = c.rng.pick<std::string>({"plain", "two words", "", "a\nb"});
        if (c.rng.chance(.05)) raw += std::string(c.rng.range(60, 5000), 'y');
        int line = 0;
        const Seen s = here(c, [&]() { sayers()[level].first(fn, form, a, b, raw.c_str(), &line); });
        // levels: 0 everything .. 4 fatal only, 5 (ten) nothing
        const bool shown = (fn == 5 || fn >= level) && (form != 2 || fn == 5);
        const std::string body = form == 3 && fn != 5 ? raw : strf("a %s b %d", a.c_str(), b);
        const std::string want = shown ? sayers()[level].second + ":" + std::to_string(line) + " " + body + "\n" : "";
        const bool on_err = fn == 3 || fn == 4;
        const std::string got = plain(on_err ? s.err : s.out), other = plain(on_err ? s.out : s.err);
        c.nontrivial(vh::fnv(a.data(), a.size()) + i % 144);
        c.count(shown ? "messages_shown" : "messages_withheld");
        c.expect(other.empty(), "stream", strf("%s also wrote to the other stream: %s", FN[fn], other.substr(0, 99).c_str()));
        if (!shown)
            c.expect(got.empty(), "withheld", strf("%s at level %d form %d printed %s", FN[fn], level, form, got.substr(0, 200).c_str()));
        else
        {
            size_t at = 0;
            while (at < got.size() && at < want.size() && got[at] == want[at]) ++at;
            const size_t from = at < 80 ? 0 : at - 80;
            c.expect(got == want, "text", strf("%s at level %d form %d (%zu characters, %zu wanted, first wrong %zu): '%s' instead of '%s'", FN[fn],
                                               level, form, got.size(), want.size(), at, got.substr(from, 160).c_str(),
                                               want.substr(from, 160).c_str()));
        }
    }
}

VH_GROUP(checks)
{
    for (int i = 0; i < c.n(300, 3000); ++i)
    {
        if (!c.begin()) continue;
        const int kind = i % 6;
        const int x = (int)c.rng.range(-1000, 1000);
        const std::string word = c.rng.pick<std::string>({"alpha", "be ta", "", "g{}"});
        c.note(strf("kind %d x %d '%s'", kind, x, word.c_str()));
        c.nontrivial(strf("%d %d", kind, x) + word);
        int line = 0;
        // what the code after the check would do
        const auto after = [&]() { ::fmt::print(stderr, "went on"); };
        const std::string file = __FILE__;
        Seen s;
        std::string text;
        switch (kind)
        {
            case 0:
                line = __LINE__ + 1;
                s = child(c, [&]() { check(x > 5000, "value {} of {}", mc::fmt(x, word)); after(); });
                text = strf("value %d of %s", x, word.c_str());
                break;
            case 1:
                line = __LINE__ + 1;
                s = child(c, [&]() { check(false); after(); });
                break;
            case 2:
                line = __LINE__ + 1;
                s = child(c, [&]() { check(x < -5000, "no arguments"); after(); });
                text = "no arguments";
                break;
            case 3: s = child(c, [&]() { check(x < 5000, "value {}", mc::fmt(x)); after(); }); break;
            case 4:
                line = __LINE__ + 1;
                s = child(c, [&]() { weak_check(x > 5000, "value {} of {}", mc::fmt(x, word)); after(); });
                text = strf("value %d of %s", x, word.c_str());
                break;
            case 5: s = child(c, [&]() { weak_check(x < 5000, "value {}", mc::fmt(x)); after(); }); break;
        }
        const std::string err = plain(s.err);
        const bool failing = kind <= 2;
        c.count(failing ? "checks_failed" : "checks_passed");
        if (failing)
        {
            c.expect(s.status > 0 && s.status != 77, "goes_on", strf("a failed check ended with status %d", s.status));
            c.expect(err.find("went on") == std::string::npos, "goes_on", "the program went on after a failed check");
        }
        else
            c.expect(s.status == 77 && err.find("went on") != std::string::npos, "ends", strf("ended with status %d", s.status));
        if (failing || kind == 4)
            c.expect(err.find(file + ":" + std::to_string(line) + " ") != std::string::npos && err.find(text) != std::string::npos,
                     "not_told", strf("kind %d: '%s' (want %d, '%s')", kind, err.substr(0, 300).c_str(), line, text.c_str()));
        else
            c.expect(err == "went on" && s.out.empty(), "noise", strf("kind %d printed '%s'", kind, err.substr(0, 300).c_str()));
    }
}

// ---------------------------------------------------------------- error values
static constexpr char E0[] = "first failure";
static constexpr char E1[] = "second failure, longer";
static constexpr char E2[] = "3";
static Error make(int k)
{
    return k == 0 ? Error::create(E0) : k == 1 ? Error::create(E1) : k == 2 ? Error::create(E2) : Error::none();
}
static const char* text(int k) { return k == 0 ? E0 : k == 1 ? E1 : k == 2 ? E2 : nullptr; }

// a random tree of steps, each leaf succeeding or failing; run by the real macros, and by a model
struct Step
{
    int result = 3;  // leaf: 0..2 an error, 3 success
    int form = 0;
    std::vector<Step> sub;
    static Step random(vh::Rng& r, int depth)
    {
        Step s;
        s.form = (int)r.range(0, 3);
        if (depth == 0 || r.chance(.3))
            s.result = r.chance(.12) ? (int)r.range(0, 2) : 3;
        else
            for (int k = (int)r.range(1, 4); k > 0; --k) s.sub.push_back(random(r, depth - 1));
        return s;
    }
    int size() const
    {
        int n = 1;
        for (auto& s : sub) n += s.size();
        return n;
    }
};
static int model(const Step& s, std::vector<const Step*>& trace)
{
    trace.push_back(&s);
    for (auto& k : s.sub)
    {
        const int r = model(k, trace);
        if (r != 3) return r;
    }
    return s.sub.empty() ? s.result : 3;
}
static Error real(const Step& s, std::vector<const Step*>& trace)
{
    trace.push_back(&s);
    for (auto& k : s.sub)
    {
        if (s.form == 0) RETURN_IF_NOT_OK(real(k, trace));
        if (s.form == 1)
        {
            const Error err = real(k, trace);  // a variable of the caller's choosing
            RETURN_IF_NOT_OK(err);
        }
        if (s.form == 2)
        {
            const Error e = real(k, trace);
            if (!e.ok()) return e;
        }
        if (s.form == 3)
        {
            Error e = Error::none();
            e = real(k, trace);
            RETURN_IF_NOT_OK(e);
        }
    }
    return s.sub.empty() ? make(s.result) : Error::none();
}

VH_GROUP(errors)
{
    for (int i = 0; i < c.n(20000, 200000); ++i)
    {
        if (!c.begin()) continue;
        const int a = (int)c.rng.range(0, 3), b = (int)c.rng.range(0, 3);
        const Error ea = make(a), eb = make(b), copy = ea;
        c.expect(ea.ok() == (a == 3), "ok", strf("error %d", a));
        c.expect((ea == eb) == (a == b) && (ea != eb) == (a != b), "equality", strf("errors %d and %d", a, b));
        c.expect(copy == ea && !(copy != ea), "equality", "a copy differs");
        if (a != 3)
        {
            std::ostringstream os;
            os << ea;
            c.expect(std::string(ea.what()) == text(a) && os.str() == text(a), "what", os.str());
            if (b != 3)
                c.expect((ea == text(b)) == (a == b) && (ea != text(b)) == (a != b), "equality", "with a message");
        }
        const Step t = Step::random(c.rng, (int)c.rng.range(0, 5));
        std::vector<const Step*> m, r;
        c.note(strf("tree of %d steps", t.size()));
        const int want = model(t, m);
        const Error got = real(t, r);
        c.expect(got.ok() == (want == 3) && (want == 3 || got == make(want)), "propagation",
                 strf("a tree of %d steps ends with '%s' instead of '%s'", t.size(), got.ok() ? "ok" : got.what(),
                      want == 3 ? "ok" : text(want)));
        c.expect(m == r, "steps", strf("%zu steps run instead of %zu", r.size(), m.size()));
        c.count("steps", m.size());
        if (m.size() > 2) c.nontrivial(c.rng.u64());
    }
}

struct Live
{
    static int& n()
    {
        static int v = 0;
        return v;
    }
    std::unique_ptr<int> v;
    explicit Live(int k) : v(new int(k)) { ++n(); }
    Live(const Live& o) : v(new int(*o.v)) { ++n(); }
    Live& operator=(const Live& o)
    {
        *v = *o.v;
        return *this;
    }
    ~Live() { --n(); }
    bool operator==(const Live& o) const { return *v == *o.v; }
};
static int calls;

template <typename T>
static ErrorResult<T> result(int err, const T& val)
{
    ++calls;
    if (err != 3) return make(err);
    return val;
}

template <typename T>
static Error assign(int err, const T& val, std::vector<T>& out, int twice)
{
    out.push_back(RETURN_OR_ASSIGN(result<T>(err, val)));
    if (twice >= 0)
    {
        const ErrorResult<T> held = result<T>(twice, val);
        const T again = RETURN_OR_ASSIGN(held);
        out.push_back(again);
    }
    return Error::none();
}

template <typename T>
static void results(vh::Ctx& c, const char* what, const std::vector<T>& vals)
{
    std::vector<std::pair<int, ErrorResult<T>>> kept;
    std::vector<int> which;
    for (int k = 0; k < 12; ++k)
    {
        const int err = (int)c.rng.range(0, 6) >= 3 ? 3 : (int)c.rng.range(0, 2);
        const int vi = (int)c.rng.range(0, (int)vals.size() - 1);
        ErrorResult<T> r = result<T>(err, vals[vi]);
        if (!kept.empty() && c.rng.chance(.5))
        {
            const int j = (int)c.rng.range(0, (int)kept.size() - 1);
            kept[j].second = r;  // an error may replace a value and the other way round
            kept[j].first = err;
            which[j] = vi;
        }
        else
        {
            kept.emplace_back(err, r);
            which.push_back(vi);
        }
        for (size_t j = 0; j < kept.size(); ++j)
        {
            const ErrorResult<T> cp = kept[j].second;
            const int e = kept[j].first;
            c.expect(cp.ok() == (e == 3), "result_ok", what);
            bool threw = false;
            if (e == 3)
            {
                c.expect(cp.res() == vals[which[j]], "result_value", what);
                try { (void)cp.err(); } catch (const std::exception&) { threw = true; }
            }
            else
            {
                c.expect(cp.err() == make(e), "result_error", what);
                try { (void)cp.res(); } catch (const std::exception&) { threw = true; }
            }
            c.expect(threw, "result_other", std::string(what) + ": the part that is not there was given out");
            c.count("results");
        }
        // the macro
        std::vector<T> out;
        const int twice = c.rng.chance(.5) ? -1 : (c.rng.chance(.5) ? 3 : (int)c.rng.range(0, 2));
        calls = 0;
        const Error got = assign<T>(err, vals[vi], out, twice);
        const int want = err != 3 ? err : twice < 0 ? 3 : twice;
        const size_t nout = err != 3 ? 0 : twice == 3 ? 2 : 1;
        c.expect(got == make(want), "assign_error", std::string(what) + ": wrong error handed on");
        c.expect(out.size() == nout, "assign_value", std::string(what) + ": assigned although it failed, or not");
        for (auto& v : out) c.expect(v == vals[vi], "assign_value", what);
        const int ncalls = err != 3 || twice < 0 ? 1 : 2;
        c.expect(calls == ncalls, "assign_once", strf("%s: the expression was evaluated %d times instead of %d", what, calls, ncalls));
    }
}

VH_GROUP(results)
{
    for (int i = 0; i < c.n(4000, 40000); ++i)
    {
        if (!c.begin()) continue;
        const int live = Live::n();
        c.nontrivial(c.rng.u64());
        switch (i % 4)
        {
            case 0: results<double>(c, "double", {0., -1.5, 1e300}); break;
            case 1: results<std::string>(c, "string", {"", "short", std::string(100, 'x')}); break;
            case 2: results<std::vector<int>>(c, "vector", {{}, {1, 2, 3}, std::vector<int>(50, 7)}); break;
            default: results<Live>(c, "object", {Live(1), Live(2), Live(3)});
        }
        c.expect(Live::n() == live, "result_lifetime", strf("%d objects left over", Live::n() - live));
    }
    // a result cannot be formed from "no error"
    if (c.begin("result from no error"))
    {
        const Seen s = child(c, [&]() {
            const ErrorResult<double> r = Error::none();
            (void)r;
        });
        c.expect(s.status > 0 && s.status != 77, "result_none", strf("accepted, status %d", s.status));
    }
}

// ---------------------------------------------------------------- output arguments
struct Plain
{
    int before = 11, v = 0, after = 22;
};
static void put(Out<int> o, int v) { *o = v; }
static void pass_on(Out<int> o, int v) { put(o, v); }
static void arrow(Out<Plain> o, int v) { o->v = v; }

template <typename T, int R, int C>
static void write(MatOut<T, R, C> m, double v)
{
    for (int i = 0; i < m->rows(); ++i)
        for (int j = 0; j < m->cols(); ++j) (*m)(i, j) = v + i * 10 + j;
}

VH_GROUP(outputs)
{
    for (int i = 0; i < c.n(10000, 100000); ++i)
    {
        if (!c.begin()) continue;
        const int v = (int)c.rng.u64();
        Plain p;
        pass_on(make_out(p.v), v);
        c.expect(p.v == v && p.before == 11 && p.after == 22, "out", "pass on");
        arrow(make_out(p), v / 2);
        c.expect(p.v == v / 2 && p.before == 11 && p.after == 22, "out", "arrow");
        // blocks of a matrix: exactly the elements named are written
        const int R = (int)c.rng.range(4, 8), C = (int)c.rng.range(4, 8);
        Eigen::MatrixXd m = Eigen::MatrixXd::Constant(R, C, -1.5);
        const int r0 = (int)c.rng.range(0, R - 4), c0 = (int)c.rng.range(0, C - 4);
        int nr = 0, nc = 0;
        const double base = c.rng.uni(0, 100);
        const int kind = i % 6;
        switch (kind)
        {
            case 0: write(make_out(m.block<2, 3>(r0, c0)), base), nr = 2, nc = 3; break;
            case 1:
                nr = (int)c.rng.range(1, 4), nc = (int)c.rng.range(1, 4);
                write(make_out(m.block(r0, c0, nr, nc)), base);
                break;
            case 2: write(make_out(m.col(c0).segment<3>(r0)), base), nr = 3, nc = 1; break;
            case 3: write(MatOut<Eigen::Block<Eigen::MatrixXd>, 2, 4>(m.block(r0, c0, 2, 4)), base), nr = 2, nc = 4; break;
            case 4: write(MatOut<Eigen::Block<Eigen::MatrixXd>, Eigen::Dynamic, 3>(m.block(r0, c0, 4, 3)), base), nr = 4, nc = 3; break;
            default: write(make_out(m.row(r0).segment<4>(c0)), base), nr = 1, nc = 4;
        }
        bool ok = true;
        for (int a = 0; a < R; ++a)
            for (int b = 0; b < C; ++b)
            {
                const bool in = a >= r0 && a < r0 + nr && b >= c0 && b < c0 + nc;
                ok &= m(a, b) == (in ? base + (a - r0) * 10 + (b - c0) : -1.5);
            }
        c.nontrivial(c.rng.u64());
        c.count("matrix_outputs");
        c.expect(ok, "matrix_out", strf("kind %d: %dx%d at %d,%d", kind, nr, nc, r0, c0));
    }
    // a destination of the wrong size is never accepted
    for (int i = 0; i < c.n(160, 800); ++i)
    {
        if (!c.begin()) continue;
        const int r = (int)c.rng.range(0, 5), k = (int)c.rng.range(0, 5), kind = i % 4;
        c.note(strf("size %dx%d kind %d", r, k, kind));
        bool fits = false;
        const Seen s = child(c, [&]() {
            Eigen::MatrixXd m(r, k);
            Eigen::VectorXd v(r);
            Eigen::Matrix<double, 3, Eigen::Dynamic> w(3, k);
            switch (kind)
            {
                case 0: { MatOut<Eigen::MatrixXd, 2, 3> o(m); (void)o; break; }
                case 1: { MatOut<Eigen::VectorXd, 3, 1> o(v); (void)o; break; }
                case 2: { MatOut<Eigen::Matrix<double, 3, Eigen::Dynamic>, 3, 4> o(w); (void)o; break; }
                default: { MatOut<Eigen::MatrixXd, Eigen::Dynamic, 2> o(m); (void)o; }
            }
        });
        fits = kind == 0 ? r == 2 && k == 3 : kind == 1 ? r == 3 : kind == 2 ? k == 4 : k == 2;
        c.nontrivial(strf("%d %d %d", r, k, kind));
        c.count(fits ? "sizes_accepted" : "sizes_refused");
        c.expect((s.status == 77) == fits && s.status >= 0, "size", strf("kind %d: %dx%d ended with status %d", kind, r, k, s.status));
    }
}
