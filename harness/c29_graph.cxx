// C29: the graph's variables, factors and nodes. A ledger of the variables a factor was built from is
// compared with what the factor's typed and generic accessors lead to, after every change.
#include <cstring>
#include <memory>
#include <type_traits>

#include "common/hetero_collection.h"
#include "common/math/jet.h"
#include "common/math/two_jet.h"
#include "core/factor_graph.h"
#include "core/factors/factors.h"
#include "core/states/states.h"
#include "vh.h"

using namespace mc;
using vh::strf;
namespace st = mc::states;
namespace fa = mc::factors;

template <typename T>
static void fill(vh::Ctx& c, T& s)
{
    for (int i = 0; i < T::DIM; ++i) s.data()[i] = c.rng.uni(-100, 100);
}

struct World
{
    std::vector<std::unique_ptr<st::Pose>> pose;
    std::vector<std::unique_ptr<st::Velocity>> vel;
    std::vector<std::unique_ptr<st::ClockBias>> clk;
    std::vector<std::unique_ptr<st::AntennaPosition>> ant;
    std::vector<std::unique_ptr<st::GnssSwitch>> sw;
    std::vector<std::unique_ptr<st::ImuBias>> bias;
    template <typename T>
    static void grow(std::vector<std::unique_ptr<T>>& v, int n)
    {
        for (int i = 0; i < n; ++i) v.emplace_back(new T());
    }
    explicit World(int n) { grow(pose, n), grow(vel, n), grow(clk, n), grow(ant, n), grow(sw, n), grow(bias, n); }
    std::vector<st::State*> all()
    {
        std::vector<st::State*> o;
        for (auto& p : pose) o.push_back(p.get());
        for (auto& p : vel) o.push_back(p.get());
        for (auto& p : clk) o.push_back(p.get());
        for (auto& p : ant) o.push_back(p.get());
        for (auto& p : sw) o.push_back(p.get());
        for (auto& p : bias) o.push_back(p.get());
        return o;
    }
};

// the numbers of a variable, read from its own members
static std::vector<double> members(const st::State* s)
{
    std::vector<double> o;
    const auto put = [&](const auto& v) { for (int i = 0; i < (int)v.size(); ++i) o.push_back(v(i)); };
    if (auto p = dynamic_cast<const st::Pose*>(s))
    {
        // real part (w, x, y, z), then dual part
        const auto& q = p->pose;
        for (const auto* h : {&q.real(), &q.dual()})
            o.push_back(h->w()), o.push_back(h->x()), o.push_back(h->y()), o.push_back(h->z());
    }
    else if (auto p = dynamic_cast<const st::Velocity*>(s)) put(p->vel);
    else if (auto p = dynamic_cast<const st::ClockBias*>(s)) put(p->clk);
    else if (auto p = dynamic_cast<const st::AntennaPosition*>(s)) put(p->p_b2g);
    else if (auto p = dynamic_cast<const st::ImuBias*>(s)) put(p->bias);
    else if (auto p = dynamic_cast<const st::GnssSwitch*>(s)) o.push_back(p->sw);
    return o;
}

static int id_of(const st::State* s)
{
    if (dynamic_cast<const st::Pose*>(s)) return st::Pose::ID;
    if (dynamic_cast<const st::Velocity*>(s)) return st::Velocity::ID;
    if (dynamic_cast<const st::ClockBias*>(s)) return st::ClockBias::ID;
    if (dynamic_cast<const st::AntennaPosition*>(s)) return st::AntennaPosition::ID;
    if (dynamic_cast<const st::ImuBias*>(s)) return st::ImuBias::ID;
    return st::GnssSwitch::ID;
}

template <typename T>
static const T& pickp(vh::Ctx& c, const std::vector<std::unique_ptr<T>>& v)
{
    return *v[c.rng.range(0, (int)v.size() - 1)];
}

template <typename F, size_t... I>
static void typed(vh::Ctx& c, const char* what, const F& f, const std::vector<const st::State*>& want,
                  std::index_sequence<I...>)
{
    const st::State* get[] = {static_cast<const st::State*>(&f.template get<I>())...};
    const st::State* base[] = {f.template get_base<I>()...};
    for (size_t i = 0; i < want.size(); ++i)
    {
        c.expect(get[i] == want[i], "typed", strf("%s: get<%zu> is another variable", what, i));
        c.expect(base[i] == want[i], "typed_base", strf("%s: get_base<%zu> is another variable", what, i));
    }
}

template <size_t N, typename F>
static void factor(vh::Ctx& c, const char* what, const F& f, const std::vector<const st::State*>& want)
{
    typed(c, what, f, want, std::make_index_sequence<N>());
    const fa::Factor& generic = f;
    const auto items = generic.base_items();
    c.expect(items.size() == want.size(), "count", strf("%s: %zu variables instead of %zu", what, items.size(), want.size()));
    for (size_t i = 0; i < items.size() && i < want.size(); ++i)
    {
        const st::State& s = items[i].get();
        c.expect(&s == want[i], "items", strf("%s: variable %zu is another one", what, i));
        c.expect(s.ID == id_of(want[i]), "id", strf("%s: variable %zu has the identity of another kind", what, i));
        const std::vector<double> m = members(want[i]);
        c.expect(s.DIM == (int)m.size(), "dim", strf("%s: variable %zu says %d numbers, has %zu", what, i, s.DIM, m.size()));
        c.expect(!memcmp(s.data(), m.data(), sizeof(double) * m.size()), "values",
                 strf("%s: variable %zu shows other numbers than it holds", what, i));
        c.count("variables_followed");
    }
}

VH_GROUP(factors)
{
    static_assert(!std::is_copy_constructible<st::Pose>::value && !std::is_copy_assignable<st::Pose>::value &&
                  !std::is_copy_constructible<st::GnssSwitch>::value && !std::is_move_constructible<st::Velocity>::value,
                  "variables are not copied");
    for (int i = 0; i < c.n(4000, 40000); ++i)
    {
        if (!c.begin()) continue;
        World w((int)c.rng.range(1, 5));
        auto all = w.all();
        const auto shake = [&]() {
            for (auto s : all)
                if (c.rng.chance(.6))
                    for (int k = 0; k < s->DIM; ++k) s->data()[k] = c.rng.uni(-100, 100);
        };
        shake();
        const auto& p1 = pickp(c, w.pose);
        const auto& p2 = pickp(c, w.pose);
        const auto& v1 = pickp(c, w.vel);
        const auto& v2 = pickp(c, w.vel);
        const auto& c1 = pickp(c, w.clk);
        const auto& c2 = pickp(c, w.clk);
        const auto& a1 = pickp(c, w.ant);
        const auto& s1 = pickp(c, w.sw);
        const auto& s2 = pickp(c, w.sw);
        const auto& b1 = pickp(c, w.bias);
        const auto m = [](const auto& x) -> auto& { return const_cast<std::decay_t<decltype(x)>&>(x); };
        c.nontrivial(c.rng.u64());
        const fa::Gnss g(p1, v1, c1, a1);
        const fa::Imu im(m(p1), m(p2), m(v1), m(v2), m(b1));
        const fa::GnssSwitch gs(m(s1), m(s2));
        const fa::RelativeCarrierPhase rc(m(p1), m(p2), m(a1), m(c1), m(c2), m(s1), m(s2));
        for (int round = 0; round < 3; ++round)
        {
            c.note(strf("%zu variables, round %d", all.size(), round));
            factor<4>(c, "Gnss", g, {&p1, &v1, &c1, &a1});
            factor<5>(c, "Imu", im, {&p1, &p2, &v1, &v2, &b1});
            factor<2>(c, "GnssSwitch", gs, {&s1, &s2});
            factor<7>(c, "RelativeCarrierPhase", rc, {&p1, &p2, &a1, &c1, &c2, &s1, &s2});
            c.expect(&g.pose == &p1 && &g.vel == &v1 && &g.clock_bias == &c1 && &g.antenna_position == &a1, "members", "Gnss");
            c.expect(&im.pose1 == &p1 && &im.pose2 == &p2 && &im.vel1 == &v1 && &im.vel2 == &v2 && &im.imu_bias == &b1, "members", "Imu");
            c.expect(&gs.switch1 == &s1 && &gs.switch2 == &s2, "members", "GnssSwitch");
            c.expect(&rc.pose1 == &p1 && &rc.pose2 == &p2 && &rc.antenna_position == &a1 && &rc.clock_bias1 == &c1 &&
                     &rc.clock_bias2 == &c2 && &rc.switch1 == &s1 && &rc.switch2 == &s2, "members", "RelativeCarrierPhase");
            shake();
        }
        // variables by themselves: what is written through the generic interface is what the members show, and nothing else moves
        for (auto s : all)
        {
            std::vector<std::vector<double>> before;
            for (auto o : all) before.push_back(members(o));
            const int k = (int)c.rng.range(0, s->DIM - 1);
            const double v = c.rng.uni(-9, 9);
            s->data()[k] = v;
            for (size_t q = 0; q < all.size(); ++q)
            {
                std::vector<double> now = members(all[q]);
                if (all[q] == s) before[q][k] = v;
                c.expect(now == before[q], "write", strf("writing number %d of a %d-vector", k, s->DIM));
            }
            const st::State* cs = s;
            c.expect(cs->data() == s->data(), "data", "the constant view is elsewhere");
        }
        for (auto x : all)
            for (auto y : all)
                c.expect((x->ID == y->ID) == (id_of(x) == id_of(y) && typeid(*x) == typeid(*y)), "id", "identities are not unique per kind");
        // the factors of a variable
        std::vector<fa::Factor*> fs;
        fa::Factor* pool[] = {const_cast<fa::Gnss*>(&g), const_cast<fa::Imu*>(&im), const_cast<fa::GnssSwitch*>(&gs)};
        for (int k = (int)c.rng.range(0, 6); k > 0; --k) fs.push_back(pool[c.rng.range(0, 2)]);
        for (auto f : fs) all[0]->factors.push_back(f);
        c.expect(all[0]->base_items() == fs, "factors_of", "a variable lists other factors than it was given");
        auto listed = all[0]->base_items();
        listed.clear();
        c.expect(all[0]->base_items() == fs, "factors_of", "the list handed out is the variable's own");
    }
}

// an arbitrary collection
struct Base
{
    int tag = 0;
    virtual ~Base() {}
};
struct Pad
{
    double p[3] = {1, 2, 3};
};
struct A : Base
{
    double a = 0;
};
struct B : Pad, Base  // the base is not at the start
{
    char b = 0;
};
struct CParent
{
    virtual ~CParent() {}
    virtual const std::vector<std::reference_wrapper<const Base>> base_items() const = 0;
};
struct Coll : HeteroCollection<CParent, Base, A, B, A, B, B>
{
    Coll(const A& a, const B& b, const A& d, const B& e, const B& f)
        : HeteroCollection<CParent, Base, A, B, A, B, B>(a, b, d, e, f)
    {
    }
};

VH_GROUP(collection)
{
    for (int i = 0; i < c.n(5000, 50000); ++i)
    {
        if (!c.begin()) continue;
        std::vector<A> a(1 + c.rng.range(0, 3));
        std::vector<B> b(1 + c.rng.range(0, 3));
        const int i0 = (int)c.rng.range(0, a.size() - 1), i2 = (int)c.rng.range(0, a.size() - 1);
        const int i1 = (int)c.rng.range(0, b.size() - 1), i3 = (int)c.rng.range(0, b.size() - 1), i4 = (int)c.rng.range(0, b.size() - 1);
        std::unique_ptr<Coll> first(new Coll(a[i0], b[i1], a[i2], b[i3], b[i4]));
        const Coll coll = *first;  // a copy refers to the same things
        first.reset();
        c.nontrivial(strf("%zu %zu %d%d%d%d%d", a.size(), b.size(), i0, i1, i2, i3, i4));
        for (int round = 0; round < 3; ++round)
        {
            for (auto& x : a) x.tag = (int)c.rng.u64(), x.a = c.rng.unit();
            for (auto& x : b) x.tag = (int)c.rng.u64(), x.b = (char)c.rng.u64();
            c.expect(&coll.get<0>() == &a[i0] && &coll.get<1>() == &b[i1] && &coll.get<2>() == &a[i2] &&
                     &coll.get<3>() == &b[i3] && &coll.get<4>() == &b[i4], "typed", "collection");
            const Base* want[] = {&a[i0], &b[i1], &a[i2], &b[i3], &b[i4]};
            c.expect(coll.get_base<0>() == want[0] && coll.get_base<1>() == want[1] && coll.get_base<2>() == want[2] &&
                     coll.get_base<3>() == want[3] && coll.get_base<4>() == want[4], "typed_base", "collection");
            const CParent& g = coll;
            const auto items = g.base_items();
            c.expect(items.size() == 5, "count", strf("%zu", items.size()));
            for (size_t k = 0; k < items.size() && k < 5; ++k)
                c.expect(&items[k].get() == want[k] && items[k].get().tag == want[k]->tag, "items", strf("item %zu", k));
            c.count("items", 5);
        }
    }
}

VH_GROUP(node)
{
    for (int i = 0; i < c.n(4000, 40000); ++i)
    {
        if (!c.begin()) continue;
        core::FactorGraph::Options o;
        o.Xi_r2n_.setConstant(c.rng.unit());
        o.t0_ = UTCTime((int64_t)c.rng.range(0, 2000000000), (int64_t)c.rng.range(0, 999999999));
        const auto vec = [&](auto& v) { for (int k = 0; k < v.size(); ++k) v(k) = c.rng.uni(-1e3, 1e3); };
        Vec6 xi;
        vec(xi);
        const bool def = c.rng.chance(.15);
        if (!def)
        {
            o.x0_ = math::DQuat<double>::exp(xi * 1e-3);
            vec(o.vel0_), vec(o.clk0_), vec(o.p_b2g0_);
            for (int k = 0; k < 6; ++k) o.imu_bias0_(k) = c.rng.uni(-1, 1);
            o.T_r2n0_ = math::DQuat<double>::exp(Vec6(-xi * 2e-3));
        }
        const auto want = o;
        std::unique_ptr<core::FactorGraph> g(new core::FactorGraph(o));
        o.vel0_.setConstant(NAN), o.clk0_.setConstant(NAN), o.t0_ = UTCTime(1, 1);
        o.x0_ = math::DQuat<double>::exp(Vec6(Vec6::Constant(.5)));
        std::unique_ptr<core::FactorGraph> g2;
        const core::FactorGraph* use = g.get();
        const core::Node& n = use->lastNode();
        c.nontrivial(c.rng.u64());
        c.expect(n.t == want.t0_, "node_time", "the first node is at another time");
        const bool same = n.T_n2b == want.x0_;
        c.expect(same, "node_pose", "the first node is at another pose");
        c.expect(n.vel == want.vel0_, "node_velocity", "the first node has another velocity");
        c.expect(n.clk == want.clk0_, "node_clock", "the first node has another clock");
        bool on = true;
        for (double s : n.sw) on &= s == 1.0;
        c.expect(on && n.sw.size() == (size_t)core::Node::MAX_SAT, "node_switches", "a satellite starts switched off");
        c.expect((uintptr_t)&n % alignof(core::Node) == 0, "node_alignment", "misaligned");
        // the bias: accelerometer first, gyroscope second, assigned from any expression
        core::ImuBias b = core::ImuBias::Zero();
        Vec6 r;
        vec(r);
        b = r * 2.0 - Vec6::Ones();
        bool ok = true;
        for (int k = 0; k < 3; ++k) ok &= b.accel()(k) == r(k) * 2 - 1 && b.gyro()(k) == r(k + 3) * 2 - 1;
        b.accel() = Vec3(1, 2, 3), b.gyro()(2) = 9;
        ok &= b(0) == 1 && b(2) == 3 && b(3) == r(3) * 2 - 1 && b(5) == 9;
        const core::ImuBias b2 = r.cwiseAbs();
        ok &= b2(4) == std::abs(r(4));
        c.expect(ok, "bias", "accelerometer and gyroscope biases are not the two halves");
        c.count("nodes");
        // jets: equal to themselves and to nothing that differs in one part
        const auto jet = [&](auto J) {
            using T = decltype(J);
            T x = T::Random(), y = x;
            c.expect(x == y, "jet", "a copy differs");
            y.dx(c.rng.range(0, 5)) += 1e-3;
            c.expect(!(x == y), "jet", "a different rate is equal");
            const T id = T::Identity();
            c.expect(id.dx.isZero(0) && Vec6(id.x.log()).norm() < 1e-12, "jet", "identity");
            y = x;
            Vec6 d = Vec6::Zero();
            d(c.rng.range(0, 5)) = 1e-2;
            y.x = y.x * math::DQuat<double>::exp(d);
            c.expect(!(x == y), "jet", "a different pose is equal");
        };
        jet(math::Jet<double>());
        jet(math::TwoJet<double>());
        math::TwoJet<double> a = math::TwoJet<double>::Random(), z = a;
        z.d2x(c.rng.range(0, 5)) -= 1e-3;
        c.expect(!(a == z) && math::TwoJet<double>::Identity().d2x.isZero(0), "jet", "second rate");
    }
}
