// C03: a circular buffer is a bounded double-ended queue. Oracle: std::deque of values plus an
// object-lifetime ledger (every construction, copy and destruction is reported by the elements).
#include "vh.h"

#include <deque>
#include <string>
#include <Eigen/Core>

#include "common/circular_buffer.h"

using namespace mc;

static vh::Ctx* g_ctx = nullptr;
static std::set<const void*> g_live;
static std::string g_ops;

static void bad(const char* key, const char* what)
{
    if (g_ctx) g_ctx->violate(key, std::string(what) + " after " + g_ops);
}

// element that reports its own life
struct Tracked
{
    const Tracked* self;
    int v;
    std::string payload;
    void born()
    {
        if (!g_live.insert(this).second) bad("double_construct", "object built over a live one");
        self = this;
    }
    Tracked() : v(-1) { born(); }
    explicit Tracked(int x) : v(x), payload("payload-long-enough-to-allocate-" + std::to_string(x))
    {
        born();
    }
    Tracked(const Tracked& o) : v(o.v), payload(o.payload)
    {
        if (!g_live.count(&o)) bad("copy_dead", "copied from a dead object");
        born();
    }
    Tracked& operator=(const Tracked& o)
    {
        if (!g_live.count(this)) bad("assign_dead", "assigned to a dead object");
        if (!g_live.count(&o)) bad("copy_dead", "assigned from a dead object");
        v = o.v;
        payload = o.payload;
        return *this;
    }
    ~Tracked()
    {
        if (!g_live.erase(this)) bad("double_destroy", "destroyed an object that is not alive");
    }
};
struct Aligned
{
    Eigen::Vector2d x;  // needs 16 byte alignment
    int v;
    explicit Aligned(int k = -1) : x(k, -k), v(k) {}
};
static int val(const Tracked& t) { return t.v; }
static int val(const Aligned& t) { return t.x(0) == t.v ? t.v : -999; }
static int val(int t) { return t; }
static Tracked* mk(Tracked*, int v) { return new Tracked(v); }
static Aligned* mk(Aligned*, int v) { return new Aligned(v); }
static int* mk(int*, int v) { return new int(v); }

template <class T, int N>
static void compare(vh::Ctx& c, const char* who, CircularBuffer<T, N>& b, const std::deque<int>& m)
{
    const CircularBuffer<T, N>& cb = b;
    auto ex = [&](bool ok, const char* key) {
        c.expect(ok, std::string(who) + key, "after " + g_ops);
    };
    ex(b.size() == m.size(), "size");
    ex(b.empty() == m.empty(), "empty");
    ex(b.full() == (m.size() == N - 1), "full");
    ex(b.max_size() == N - 1 && b.capacity() == N - 1, "capacity");
    if (b.size() != m.size()) return;
    size_t i = 0;
    for (auto& x : b)
    {
        ex(i < m.size() && val(x) == m[i], "iteration");
        ++i;
        if (i > m.size() + 1) break;
    }
    ex(i == m.size(), "iteration_length");
    i = 0;
    for (const auto& x : cb)
    {
        ex(i < m.size() && val(x) == m[i], "const_iteration");
        if (++i > m.size() + 1) break;
    }
    for (size_t k = 0; k < m.size(); ++k)
    {
        ex(val(b[(int)k]) == m[k] && val(cb[(int)k]) == m[k], "index");
        ex(val(b.at((int)k)) == m[k] && val(cb.at((int)k)) == m[k], "at");
        ex(val(*(b.begin() + k)) == m[k], "it_plus");
        ex(val(*(b.end() - (m.size() - k))) == m[k], "it_minus");
        auto it = b.begin();
        it += k;
        ex(val(*it) == m[k], "it_pluseq");
        auto jt = b.end();
        jt -= m.size() - k;
        ex(val(*jt) == m[k] && it == jt, "it_minuseq");
        ex((int)(it - b.begin()) == (int)k, "it_diff");
        ex((b.begin() < it) == (k > 0) && it < b.end() && it <= it && it >= b.begin(), "it_order");
        ex(b.end() > it && !(it > b.end()) && it != b.end(), "it_order2");
    }
    if (!m.empty())
    {
        ex(val(b.front()) == m.front() && val(cb.front()) == m.front(), "front");
        ex(val(b.back()) == m.back() && val(cb.back()) == m.back(), "back");
        auto it = b.end();
        for (size_t k = m.size(); k-- > 0;)
        {
            --it;
            ex(val(*it) == m[k], "it_dec");
        }
        ex(it == b.begin(), "it_dec_end");
    }
}

template <class T, int N>
static void drive(vh::Ctx& c, int cases, int len)
{
    g_ctx = &c;
    for (int i = 0; i < cases; ++i)
    {
        if (!c.begin()) continue;
        g_ops.clear();
        g_live.clear();
        {
            CircularBuffer<T, N> b;
            std::deque<int> m;
            int next = 1;
            size_t wraps = 0, evictions = 0;
            const double bias = c.rng.uni(0.2, 0.8);
            for (int k = 0; k < len; ++k)
            {
                const bool full = m.size() == N - 1;
                switch (c.rng.range(0, 11))
                {
                case 0:
                case 1:
                case 2:
                {
                    g_ops += "B";
                    T* e = mk((T*)nullptr, next);
                    if (full) m.pop_front(), ++evictions;
                    b.push_back(*e);
                    m.push_back(next++);
                    delete e;
                    break;
                }
                case 3:
                    g_ops += "b";
                    if (full) m.pop_front(), ++evictions;
                    b.emplace_back(next);
                    m.push_back(next++);
                    break;
                case 4:
                {
                    g_ops += "F";
                    if (full) m.pop_back(), ++evictions;
                    T* e = mk((T*)nullptr, next);
                    b.push_front(*e);
                    delete e;
                    m.push_front(next++);
                    break;
                }
                case 5:
                    g_ops += "f";
                    if (full) m.pop_back(), ++evictions;
                    b.emplace_front(next);
                    m.push_front(next++);
                    break;
                case 6:
                    if (m.empty() || c.rng.chance(bias)) break;
                    g_ops += "x";
                    b.pop_front();
                    m.pop_front();
                    ++wraps;
                    break;
                case 7:
                    if (m.empty() || c.rng.chance(bias)) break;
                    g_ops += "y";
                    b.pop_back();
                    m.pop_back();
                    break;
                case 8:
                    if (!c.rng.chance(0.08)) break;
                    g_ops += "C";
                    b.clear();
                    m.clear();
                    break;
                case 9:
                {
                    // push a copy of one of its own elements
                    if (m.empty() || !c.rng.chance(0.3)) break;
                    const bool fr = c.rng.chance(0.5);
                    g_ops += fr ? "S" : "s";
                    if (fr)
                    {
                        const int v = m.front();
                        if (full) m.pop_front(), ++evictions;
                        b.push_back(b.front());
                        m.push_back(v);
                    }
                    else
                    {
                        const int v = m.back();
                        if (full) m.pop_back(), ++evictions;
                        b.push_front(b.back());
                        m.push_front(v);
                    }
                    break;
                }
                case 10:
                {
                    // a copy is independent of its source
                    if (!c.rng.chance(0.15)) break;
                    g_ops += "K";
                    CircularBuffer<T, N> k2(b);
                    std::deque<int> m2 = m;
                    compare(c, "copy_", k2, m2);
                    if (m2.size() == N - 1) m2.pop_front();
                    k2.emplace_back(next);
                    m2.push_back(next++);
                    compare(c, "copy_mod_", k2, m2);
                    CircularBuffer<T, N> k3;
                    k3.emplace_back(0);
                    k3 = b;
                    compare(c, "assign_", k3, m);
                    k3.clear();
                    break;
                }
                default:
                    if (m.empty()) break;
                    {
                        // writing through references and iterators is visible
                        const int at = (int)c.rng.range(0, (int)m.size() - 1);
                        T* e = mk((T*)nullptr, next);
                        g_ops += "w";
                        switch (c.rng.range(0, 2))
                        {
                        case 0: b[at] = *e; break;
                        case 1: *(b.begin() + at) = *e; break;
                        default: b.at(at) = *e; break;
                        }
                        m[at] = next++;
                        delete e;
                    }
                    break;
                }
                if (g_ops.size() > 600) g_ops = "..." + g_ops.substr(g_ops.size() - 400);
                c.note(g_ops);
                compare(c, "", b, m);
                if (std::is_same<T, Tracked>::value && g_live.size() != m.size())
                {
                    c.violate("live_count", vh::strf("%zu live objects for %zu elements after ",
                                                     g_live.size(), m.size()) + g_ops);
                    break;
                }
            }
            c.count("evictions", evictions);
            c.count("front_pops", wraps);
            if (evictions && wraps) c.nontrivial(g_ops);
            if (i < 2) c.sample(g_ops.substr(0, 120));
        }
        if (!g_live.empty()) c.violate("leak", "elements outlive the buffer after " + g_ops);
    }
    g_ctx = nullptr;
    g_live.clear();
}

VH_GROUP(tracked4) { drive<Tracked, 4>(c, c.n(1500, 40000), 60); }
VH_GROUP(tracked9) { drive<Tracked, 9>(c, c.n(700, 20000), 120); }
VH_GROUP(aligned7) { drive<Aligned, 7>(c, c.n(700, 20000), 100); }
VH_GROUP(ints100) { drive<int, 100>(c, c.n(25, 800), 700); }
VH_GROUP(ints2) { drive<int, 2>(c, c.n(1000, 20000), 40); }
// every operation sequence of a small alphabet, exhaustively
VH_GROUP(exhaustive3)
{
    const int L = c.n(7, 9);
    g_ctx = &c;
    long total = 1;
    for (int i = 0; i < L; ++i) total *= 5;
    for (long s = 0; s < total; ++s)
    {
        if (!c.begin()) continue;
        g_ops.clear();
        g_live.clear();
        {
            CircularBuffer<Tracked, 3> b;
            std::deque<int> m;
            long x = s;
            int next = 1;
            for (int i = 0; i < L; ++i, x /= 5)
            {
                switch (x % 5)
                {
                case 0:
                    if (m.size() == 2) m.pop_front();
                    {
                        Tracked e(next);
                        b.push_back(e);
                    }
                    m.push_back(next++);
                    g_ops += "B";
                    break;
                case 1:
                    if (m.size() == 2) m.pop_back();
                    {
                        Tracked e(next);
                        b.push_front(e);
                    }
                    m.push_front(next++);
                    g_ops += "F";
                    break;
                case 2:
                    if (m.size()) b.pop_front(), m.pop_front(), g_ops += "x";
                    break;
                case 3:
                    if (m.size()) b.pop_back(), m.pop_back(), g_ops += "y";
                    break;
                default:
                    b.clear();
                    m.clear();
                    g_ops += "C";
                    break;
                }
                if (g_live.size() != m.size()) c.violate("live_count", g_ops);
            }
            c.note(g_ops);
            compare(c, "", b, m);
            c.nontrivial(g_ops);
        }
        if (!g_live.empty()) c.violate("leak", g_ops);
    }
    c.sample(vh::strf("all %ld sequences of length %d over push/pop/clear", total, L));
    g_ctx = nullptr;
    g_live.clear();
}
