// C20: the estimator that orders delayed measurements.  The filter underneath is replaced by a
// recorder: a state carries the identity of the exact sequence of operations that produced it, so
// two histories are the same if and only if the numbers are.
#include <map>

#include "common/logging/log_reader.h"
#include "core/ekf/rtk_ekf_estimator.h"
#include "sat_common.h"
#include "utils/wgs84.h"

namespace mc {
namespace ekf {

// ---- the recorder ---------------------------------------------------------------------------
struct Op
{
    int parent, kind;  // kind: 0 predict, 1 point pos, 2 fix and hold, 3 observations
    int64_t sec, nsec;
    std::vector<double> what;
    bool operator<(const Op& o) const
    {
        return std::tie(parent, kind, sec, nsec, what) < std::tie(o.parent, o.kind, o.sec, o.nsec, o.what);
    }
};
static std::map<Op, int> gOps;
static std::vector<Op> gNode(1);
static int cons(Op o)
{
    auto it = gOps.find(o);
    if (it != gOps.end()) return it->second;
    gNode.push_back(o);
    return gOps[o] = (int)gNode.size() - 1;
}
static std::string gBad;  // what the recorder objects to
static long gPredicts, gUpdates;
static std::map<int, std::vector<std::vector<double>>> gSeen;  // measurements applied, by kind
static const double HALF = TIME_QUANTIZATION / 2;
static double since(const UTCTime& a, const UTCTime& b) { return (double)(a.sec - b.sec) + 1e-9 * (double)(a.nsec - b.nsec); }
static int idOf(const State& x) { return (int)x.acc_bias[0]; }
static void put(State& x, int id) { x.acc_bias << id, 0, 0; }

Error predict(const Snapshot& in, const UTCTime& t, const Input& u, const ProcessCovariance&, const InputCovariance&,
              Out<Snapshot> out)
{
    ++gPredicts;
    if (since(t, in.x.t) <= HALF) gBad = vh::strf("predicts by %.9f s", since(t, in.x.t));
    const Snapshot keep = in;
    *out = keep;
    out->x.t = t;
    out->u = u;
    put(out->x, cons({idOf(keep.x), 0, t.sec, t.nsec, {u.accel[0], u.gyro[0]}}));
    return Error::none();
}
template <>
Error doUpdate<pointPosMeas>(Out<Snapshot> s, const pointPosMeas::ZType& z, const pointPosMeas::Jac&,
                             const pointPosMeas::Covariance&, const pointPosMeas::Residual&)
{
    ++gUpdates;
    gSeen[1].push_back({z[0]});
    put(s->x, cons({idOf(s->x), 1, 0, 0, {z[0]}}));
    return Error::none();
}
template <>
Error doUpdate<fixAndHoldMeas>(Out<Snapshot> s, const fixAndHoldMeas::ZType& z, const fixAndHoldMeas::Jac&,
                               const fixAndHoldMeas::Covariance&, const fixAndHoldMeas::Residual&)
{
    ++gUpdates;
    std::vector<double> w;
    for (auto& e : z) w.push_back(e[0]);
    gSeen[2].push_back(w);
    put(s->x, cons({idOf(s->x), 2, 0, 0, w}));
    return Error::none();
}
struct Who
{
    int gnss, sat;
    UTCTime t;
};
static std::map<double, Who> gWhose;  // by pseudorange
static std::map<int, const SatelliteBase*> gSats;
static Vec3 gRec;
template <>
Error doUpdate<obsMeas>(Out<Snapshot> s, const obsMeas::ZType& z, const obsMeas::Jac&, const obsMeas::Covariance&,
                        const obsMeas::Residual&)
{
    ++gUpdates;
    std::vector<double> w;
    for (auto& e : z) w.push_back(e.z[0]), w.push_back(e.z[1]);
    for (size_t i = 0; i < w.size(); i += 2) gSeen[3].push_back({w[i], w[i + 1]});
    put(s->x, cons({idOf(s->x), 3, 0, 0, w}));
    return Error::none();
}
template <>
pointPosMeas::Residual h<pointPosMeas, Input>(const pointPosMeas::ZType& z, const State&, pointPosMeas::Jac* j, const Input&)
{
    j->setZero();
    return z * 0.25;
}
template <>
obsMeas::Residual h<obsMeas, Input>(const obsMeas::ZType& z, const State&, obsMeas::Jac* j, const Input&)
{
    j->setZero();
    obsMeas::Residual r = obsMeas::Residual::Zero();
    for (size_t i = 0; i < z.size(); ++i)
    {
        r.segment<2>(2 * i) = 0.25 * z[i].z;
        const auto who = gWhose.find(z[i].z[0]);
        if (who == gWhose.end()) { gBad = "an observation nobody made"; continue; }
        if (z[i].gnss_id != who->second.gnss)
            gBad = vh::strf("constellation %d observation modelled as constellation %d", who->second.gnss, z[i].gnss_id);
        SatelliteCache want;
        want.update(who->second.t, gRec, *gSats.at(who->second.gnss * 256 + who->second.sat));
        if (!((z[i].sat.state.pos - want.state.pos).norm() < 0.1))
            gBad = vh::strf("satellite %d/%d is %.3g m from where it was", who->second.gnss, who->second.sat,
                            (z[i].sat.state.pos - want.state.pos).norm());
    }
    return r;
}
template <>
fixAndHoldMeas::Residual h<fixAndHoldMeas>(const fixAndHoldMeas::ZType& z, const State&, fixAndHoldMeas::Jac* j)
{
    j->setZero();
    fixAndHoldMeas::Residual r = fixAndHoldMeas::Residual::Zero();
    for (size_t i = 0; i < z.size(); ++i) r[i] = 0.25 * z[i][0];
    return r;
}

// ---- the reference: every accepted measurement in order, once -----------------------------------
struct M
{
    UTCTime t;
    int type;  // order of types at one instant: 0 imu, 1 observations, 2 point pos, 3 fix and hold
    int serial;
    std::vector<meas::GnssObservation> obs;
    int nfix = 0;
};
static bool before(const M& a, const M& b) { return a.t < b.t || (a.t == b.t && a.type < b.type); }
struct Fold
{
    int id;
    UTCTime t;
    double u;
    std::vector<UTCTime> states;
};
static Fold fold(const UTCTime& t0, double u0, const std::vector<M>& sorted)
{
    Fold f{0, t0, u0, {t0}};
    for (const M& m : sorted)
    {
        const bool later = since(m.t, f.t) > HALF;
        if (m.type == 0 && !later) continue;
        if (later)
        {
            if (m.type == 0) f.u = m.serial;
            f.id = cons({f.id, 0, m.t.sec, m.t.nsec, {f.u, f.u == u0 ? 0.0 : -f.u}});
            f.t = m.t;
            f.states.push_back(m.t);
        }
        std::vector<double> w;
        if (m.type == 1)
        {
            for (auto& o : m.obs) w.push_back(o.pseudorange), w.push_back(o.doppler);
            f.id = cons({f.id, 3, 0, 0, w});
        }
        if (m.type == 2) f.id = cons({f.id, 1, 0, 0, {(double)m.serial}});
        if (m.type == 3)
        {
            for (int i = 0; i < m.nfix; ++i) w.push_back(m.serial + i);
            f.id = cons({f.id, 2, 0, 0, w});
        }
    }
    return f;
}
static std::string story(int id, int most = 14)
{
    std::string s;
    for (; id > 0 && most-- > 0; id = gNode[id].parent)
    {
        const Op& o = gNode[id];
        static const char* const NAME[] = {"predict", "pointpos", "fixhold", "obs"};
        s = vh::strf("%s(%.0f)%s ", NAME[o.kind], o.what.empty() ? 0 : o.what[0],
                     o.kind ? "" : vh::strf("@%lld.%06lld", (long long)o.sec % 1000, (long long)o.nsec / 1000).c_str()) + s;
    }
    return (id > 0 ? "... " : "") + s;
}

struct World
{
    vh::Ctx& c;
    RtkEkfEstimator est;
    UTCTime t0;
    static constexpr double U0 = -9.80665;
    std::vector<M> accepted;  // sorted
    UTCTime newest;
    int serial = 1;
    bool has_newest = false, over = false;
    int late = 0, refused = 0, tied = 0;
    std::string tape;

    World(vh::Ctx& cc, UTCTime t, logging::Logger* log = nullptr) : c(cc), t0(t)
    {
        gOps.clear();
        gNode.resize(1);
        gBad.clear();
        gSeen.clear();
        State x = State::Identity();
        put(x, 0);
        x.p_b2g = gRec;
        Covariance P = Covariance::Identity();
        est.init(t0, x, P, Vec6::Ones(), Vec2::Ones(), Vec1::Ones(), InputCovariance::Zero(), ProcessCovariance::Zero(), log);
        Input u;
        u.accel << U0, 0, 0;
        u.gyro.setZero();
        est.u() = u;
    }
    static size_t window() { return 99; }
    bool add(M m)
    {
        m.serial = serial;
        serial += 40;
        const int id = idOf(est.x());
        const UTCTime t = est.t(), front = est.states_.front().x.t;
        const size_t n = est.measurements_.size();
        tape += vh::strf("%d@%.6f ", m.type, since(m.t, t0));
        c.note("types@arrivals (0 imu 1 obs 2 pointpos 3 fixhold): " + (tape.size() > 3000 ? "..." + tape.substr(tape.size() - 3000) : tape));
        Error e = Error::none();
        if (m.type == 0)
        {
            ImuMeas z;
            z.z.accel << m.serial, 0, 0;
            z.z.gyro << -m.serial, 0, 0;
            e = est.addMeasurement(m.t, z);
        }
        else if (m.type == 1)
        {
            for (auto& o : m.obs)
            {
                o.t = m.t;
                o.pseudorange = 2e7 + m.serial + (&o - &m.obs[0]);
                o.doppler = -m.serial;
                gWhose[o.pseudorange] = Who{o.gnss_id, o.sat_num, o.t};
            }
            e = est.addMeasurement(m.t, m.obs);
        }
        else if (m.type == 2)
        {
            pointPosMeas z;
            z.z.setConstant(m.serial);
            e = est.addMeasurement(m.t, z);
        }
        else
        {
            fixAndHoldMeas z;
            for (int i = 0; i < m.nfix; ++i) z.z.push_back(Vec1(m.serial + i));
            e = est.addMeasurement(m.t, z);
        }
        if (!gBad.empty())
        {
            c.violate("recorder", gBad);
            return false;
        }
        c.count(e.ok() ? "accepted" : "refused");
        if (!e.ok())
        {
            ++refused;
            c.expect(idOf(est.x()) == id && est.t() == t && est.measurements_.size() == n, "refused_changes_nothing", "");
            // whatever lies after the oldest state that is kept can be placed
            c.expect(since(m.t, front) <= HALF + 1e-12, "refused_too_early",
                     vh::strf("%.6f s after the oldest state", since(m.t, front)));
            return true;
        }
        c.expect(since(m.t, front) >= -HALF - 1e-12, "accepted_stale", vh::strf("%.6f s before the oldest state", since(front, m.t)));
        if (has_newest && since(newest, m.t) > 0) ++late, c.count("out_of_order");
        auto at = std::upper_bound(accepted.begin(), accepted.end(), m, before);
        for (auto& o : accepted)
            if (o.t == m.t && o.type != m.type) ++tied;
        accepted.insert(at, m);
        if (!has_newest || newest < m.t) newest = m.t;
        has_newest = true;
        const Fold f = fold(t0, U0, accepted);
        const int got = idOf(est.x());
        if (got != f.id)
            c.violate("history", "the filter went through: " + story(got) + "; in order it is: " + story(f.id));
        c.expect((UTCTime)est.t() == f.t, "time", vh::strf("%.6f, in order %.6f", since(est.t(), t0), since(f.t, t0)));
        c.expect(est.u().accel[0] == f.u, "held_input", vh::strf("%.0f, in order %.0f", est.u().accel[0], f.u));
        // a second of delay can be handled
        size_t k = 0;
        for (auto& s : f.states)
            if (since(newest, s) <= 1.0 - 1e-9) ++k;
        if (k == 0 || k > 90) c.count("window_beyond_buffer");
        else
        {
            const UTCTime want = f.states[f.states.size() - k];
            if (since(est.states_.front().x.t, want) > 1e-9)
                // states may have been lost to the buffer's capacity before
                over = over || f.states.size() > 90;
            c.expect(over || since(est.states_.front().x.t, want) <= 1e-9, "forgets_too_early",
                     vh::strf("oldest state %.6f, newest measurement %.6f", since(est.states_.front().x.t, t0), since(newest, t0)));
        }
        return got == f.id;
    }
};

static std::vector<ephemeris::GPSEphemeris> gGps;
static std::vector<ephemeris::GalileoEphemeris> gGal;
static std::vector<ephemeris::GlonassEphemeris> gGlo;
static std::vector<std::unique_ptr<SatelliteBase>> gOwned;
// satellite numbers of the present sky (all numbers of the constellation are possible, those equal
// modulo a power of two in particular)
static std::vector<int> gNum[3];
static std::vector<int> numbers(vh::Rng& r, int n, int max)
{
    std::vector<int> v;
    const auto add = [&](int s) {
        if (s >= 1 && s <= max && (int)v.size() < n && std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s);
    };
    while ((int)v.size() < n)
    {
        const int s = (int)r.range(1, max);
        add(s);
        if (r.chance(.6)) add(s + (int)r.pick<int>({32, 16, 8, -32, -16}));
    }
    return v;
}
static UTCTime makeSky(vh::Rng& r)
{
    gNum[0] = numbers(r, 14, 32), gNum[1] = numbers(r, 14, 36), gNum[2] = numbers(r, 6, 24);
    gGps.clear(), gGal.clear(), gGlo.clear(), gSats.clear(), gOwned.clear(), gWhose.clear();
    UTCTime t = UTCTime::fromGPS((int)r.range(1900, 2500), (int)r.range(0, 80) * 7200000);
    for (int i = 0; i < 14; ++i)
    {
        ephemeris::GPSEphemeris e(gNum[0][i]);
        kepler(r, e, false);
        e.gnssID = GnssID::GPS, e.sat = gNum[0][i];
        e.toe = e.toc = t;
        gGps.push_back(e);
        auto* s = new Satellite<ephemeris::GPSEphemeris>(GnssID::GPS, e.sat);
        s->addEph(e);
        gOwned.emplace_back(s);
        gSats[GnssID::GPS * 256 + e.sat] = s;
        ephemeris::GalileoEphemeris g(gNum[1][i]);
        kepler(r, g, true);
        g.gnssID = GnssID::Galileo, g.sat = gNum[1][i];
        g.toe = g.toc = t;
        gGal.push_back(g);
        auto* sg = new Satellite<ephemeris::GalileoEphemeris>(GnssID::Galileo, g.sat);
        sg->addEph(g);
        gOwned.emplace_back(sg);
        gSats[GnssID::Galileo * 256 + g.sat] = sg;
    }
    for (int i = 0; i < 6; ++i)
    {
        ephemeris::GlonassEphemeris e(gNum[2][i]);
        glonass(r, e);
        e.gnssID = GnssID::Glonass, e.sat = gNum[2][i];
        e.toe = e.tof = t;
        gGlo.push_back(e);
        auto* s = new Satellite<ephemeris::GlonassEphemeris>(GnssID::Glonass, e.sat);
        s->addEph(e);
        gOwned.emplace_back(s);
        gSats[GnssID::Glonass * 256 + e.sat] = s;
    }
    gRec = utils::WGS84::lla2ecef(Vec3(r.uni(-1.4, 1.4), r.uni(-3, 3), r.uni(0, 3000)));
    return t + UTCTime(r.range(-600, 600), r.range(0, 999999) * 1000);
}
static void giveSky(RtkEkfEstimator& e)
{
    for (auto& x : gGps) e.ephCb(x);
    for (auto& x : gGal) e.ephCb(x);
    for (auto& x : gGlo) e.ephCb(x);
}
static std::vector<meas::GnssObservation> bundle(vh::Rng& r, int n)
{
    std::vector<meas::GnssObservation> v;
    for (int i = 0; i < n; ++i)
    {
        meas::GnssObservation o;
        o.setZero();
        const int w = (int)r.range(0, 2);
        o.gnss_id = w == 0 ? GnssID::GPS : w == 1 ? GnssID::Galileo : GnssID::Glonass;
        o.sat_num = gNum[w].empty() ? 1 + (int)r.range(0, 5) : gNum[w][r.range(0, (int)gNum[w].size() - 1)];
        v.push_back(o);
    }
    return v;
}
static M make(vh::Rng& r, UTCTime t, int type)
{
    M m{t, type, 0, {}, 0};
    if (type == 1) m.obs = bundle(r, r.chance(.15) ? 30 : (int)r.range(0, 5));
    if (type == 3) m.nfix = (int)r.range(0, 30);
    return m;
}
static void skipSky(vh::Ctx& c)
{
    gGps.clear(), gGal.clear(), gGlo.clear();
    gRec = Vec3(6378137, 0, 0);
    (void)c;
}

// every arrival order of a few measurements with ties in time
VH_GROUP(permutations)
{
    skipSky(c);
    const int N = c.n(60, 1500);
    for (int i = 0; i < N; ++i)
    {
        const int k = 2 + i % 4;
        std::vector<std::pair<int, int>> what;  // slot, type
        const bool near = c.rng.chance(.4);
        for (int j = 0; j < k; ++j)
            what.push_back({(int)c.rng.range(near ? 1 : 0, near ? 3 : 4), c.rng.chance(.4) ? 0 : c.rng.chance(.6) ? 2 : 3});
        std::vector<int> order(k);
        for (int j = 0; j < k; ++j) order[j] = j;
        const int64_t step = near ? 20000 : 100000000;  // within the quantum, or far apart
        do
        {
            if (!c.begin()) continue;
            World w(c, UTCTime(1500000000, 0));
            std::string s;
            for (int j : order)
            {
                const UTCTime t = w.t0 + UTCTime(0, what[j].first * step + (near ? 100000000 : 0));
                s += vh::strf("%d@%d ", what[j].second, what[j].first);
                if (!w.add(make(c.rng, t, what[j].second))) break;
            }
            c.count("arrival_orders");
            if (w.late || w.tied) c.nontrivial(vh::strf("%d ", near) + s);
            if (i == 1) c.sample(s);
        } while (std::next_permutation(order.begin(), order.end()));
    }
}
// sensors at their own rates with their own delays
VH_GROUP(streams)
{
    const int N = c.n(60, 1500);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const UTCTime t0 = makeSky(r);
        World w(c, t0);
        giveSky(w.est);
        std::vector<std::pair<double, M>> q;
        const double span = r.uni(0.5, 4);
        const int64_t imu = r.chance(.3) ? 5000000 : r.range(8, 100) * 1000000 + (r.chance(.5) ? 0 : r.range(0, 999) * 1000);
        const double gap0 = r.chance(.2) ? r.uni(0, span) : 1e9, gap1 = gap0 + r.uni(0.3, 2.5);
        std::vector<int64_t> stamps;
        const double jit = r.chance(.5) ? 0 : r.uni(0, 0.03);
        for (int64_t n = imu; n * 1e-9 < span; n += imu)
        {
            if (n * 1e-9 > gap0 && n * 1e-9 < gap1) continue;
            stamps.push_back(n);
            q.push_back({n * 1e-9 + (r.chance(.1) ? jit : 0), make(r, t0 + UTCTime(0, n), 0)});
        }
        for (int type = 1; type <= 3; ++type)
        {
            const double rate = r.uni(1, 12), delay = r.chance(.3) ? 0 : r.uni(0, 0.4);
            for (double s = r.uni(0, 1 / rate); s < span; s += 1 / rate)
            {
                if (s > gap0 && s < gap1 && r.chance(.7)) continue;
                int64_t n = (int64_t)(s * 1e6) * 1000;
                static const int64_t OFF[] = {0, 0, 0, 20000, -20000, 45000, -45000, 55000, -55000, 90000, -90000};
                if (!stamps.empty() && r.chance(.6))
                    n = std::max<int64_t>(0, stamps[r.range(0, (int)stamps.size() - 1)] + OFF[r.range(0, 10)]);
                double d = delay * r.uni(0.5, 1.5);
                if (r.chance(.04)) d += 1.5;
                if (r.chance(.1)) d = 0;
                q.push_back({n * 1e-9 + d, make(r, t0 + UTCTime(0, n), type)});
            }
        }
        std::stable_sort(q.begin(), q.end(), [](auto& a, auto& b) { return a.first < b.first; });
        bool ok = true;
        for (auto& e : q)
            if (!(ok = w.add(e.second))) break;
        if (w.late) c.nontrivial(vh::fnv(w.tape.data(), w.tape.size()));
        if (w.refused) c.count("runs_with_refusals");
        if (i < 2) c.sample(vh::strf("%zu measurements, %d late, %d tied, %d refused", q.size(), w.late, w.tied, w.refused));
    }
}
// no order at all: random instants over a few seconds in random order
VH_GROUP(chaos)
{
    const int N = c.n(70, 3000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const UTCTime t0 = makeSky(r);
        World w(c, t0);
        giveSky(w.est);
        const int n = (int)r.range(5, 120);
        const double span = r.chance(.5) ? 0.9 : r.uni(0.01, 3);
        for (int j = 0; j < n; ++j)
        {
            int64_t ns = r.chance(.5) ? (int64_t)(r.uni(0, span) * 20) * 50000000 : (int64_t)(r.uni(0, span) * 1e6) * 1000;
            if (r.chance(.3)) ns += r.range(-4, 4) * 21000;
            if (ns < 0) ns = 0;
            if (!w.add(make(r, t0 + UTCTime(0, ns), r.chance(.4) ? 0 : (int)r.range(1, 3)))) break;
        }
        if (w.late) c.nontrivial(vh::fnv(w.tape.data(), w.tape.size()));
    }
}
// the residuals in the log are those of the measurements applied
VH_GROUP(residual_log)
{
    const int N = c.n(30, 500);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const UTCTime t0 = makeSky(r);
        logging::Logger log(t0, c.scratch);
        const std::string dir = c.scratch + "/" + log.logId();
        World w(c, t0, &log);
        giveSky(w.est);
        const int n = (int)r.range(5, 40);
        for (int j = 0; j < n; ++j)
            if (!w.add(make(r, t0 + UTCTime(0, (int64_t)(r.uni(0, .9) * 1e6) * 1000), r.chance(.3) ? 0 : (int)r.range(1, 3)))) break;
        log.close(w.newest);
        logging::LogReader rd(dir);
        size_t at[4] = {};
        auto next = [&](int kind) -> const std::vector<double>* {
            return at[kind] < gSeen[kind].size() ? &gSeen[kind][at[kind]++] : nullptr;
        };
        rd.setCallback(logging::POINT_POS_RESIDUAL, [&](const UTCTime&, int, logging::StreamReader& s) {
            Vec6 res, z, zhat;
            s.get(res, z, zhat);
            const auto* want = next(1);
            c.expect(want && z[0] == (*want)[0] && res == 0.25 * z && (z - zhat - res).norm() < 1e-9 * z.norm(), "pointpos_log", "");
        });
        rd.setCallback(logging::GPS_OBS_RESIDUAL, [&](const UTCTime&, int, logging::StreamReader& s) {
            int sat;
            Vec2 res, z, zhat;
            s.get(sat, res, z, zhat);
            const auto* want = next(3);
            c.expect(want && z[0] == (*want)[0] && z[1] == (*want)[1] && res == 0.25 * z && (z - zhat - res).norm() < 1e-9 * z.norm() &&
                         gWhose.count(z[0]) && gWhose.at(z[0]).sat == sat, "obs_log", "");
        });
        rd.setCallback(logging::FIX_AND_HOLD_RESIDUAL, [&](const UTCTime&, int, logging::StreamReader& s) {
            Vec<fixAndHoldMeas::MAX_SIZE> res, z, zhat;
            s.get(res, z, zhat);
            const auto* want = next(2);
            bool ok = want != nullptr;
            for (int k = 0; ok && k < z.size(); ++k)
                ok = k < (int)want->size() ? z[k] == (*want)[k] && res[k] == 0.25 * z[k] && std::abs(z[k] - zhat[k] - res[k]) < 1e-9 * z[k]
                                           : std::isnan(z[k]) && std::isnan(zhat[k]);
            c.expect(ok, "fixhold_log", "");
        });
        rd.read();
        c.expect(at[1] == gSeen[1].size() && at[2] == gSeen[2].size() && at[3] == gSeen[3].size(), "residual_count",
                 vh::strf("%zu/%zu %zu/%zu %zu/%zu", at[1], gSeen[1].size(), at[2], gSeen[2].size(), at[3], gSeen[3].size()));
        c.count("residuals", at[1] + at[2] + at[3]);
        if (at[1] && at[2] && at[3]) c.nontrivial(vh::fnv(w.tape.data(), w.tape.size()));
    }
}
// what is not acceptable is refused and nothing else happens
VH_GROUP(refusals)
{
    const int N = c.n(40, 400);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        auto& r = c.rng;
        const UTCTime t0 = makeSky(r);
        World w(c, t0);
        giveSky(w.est);
        w.add(make(r, t0 + UTCTime(0, 10000000), 0));
        auto attempt = [&](const char* key, std::vector<meas::GnssObservation> v, bool good) {
            const UTCTime t = t0 + UTCTime(0, 20000000 + 1000000 * r.range(0, 9));
            for (auto& o : v) o.t = t, o.pseudorange = 3e7 + (&o - &v[0]), gWhose[o.pseudorange] = Who{o.gnss_id, o.sat_num, o.t};
            const int id = idOf(w.est.x());
            const size_t n = w.est.measurements_.size();
            const long u = gUpdates;
            const Error e = w.est.addMeasurement(t, v);
            c.expect(e.ok() == good, key, vh::strf("%zu observations", v.size()));
            if (!good) c.expect(idOf(w.est.x()) == id && w.est.measurements_.size() == n && gUpdates == u, std::string(key) + "_kept", "");
            c.expect(gBad.empty(), "recorder", gBad);
        };
        const int what = i % 4;
        if (what == 0)
        {
            auto v = bundle(r, (int)r.range(1, 8));
            v[r.range(0, (int)v.size() - 1)].sat_num = 40 + r.range(0, 100);
            attempt("unknown_satellite", v, false);
        }
        else if (what == 1)
            attempt("thirty", bundle(r, 30), true);
        else if (what == 2)
            attempt("too_many", bundle(r, 31 + (int)r.range(0, 60)), false);
        else
        {
            // a full buffer drops satellites: observing one of those must not be fatal
            for (int s = 60; s < 60 + 40; ++s)
            {
                ephemeris::GPSEphemeris e = gGps[0];
                e.sat = s;
                w.est.ephCb(e);
            }
            const SatelliteBase* sat = nullptr;
            std::vector<meas::GnssObservation> v = bundle(r, 1);
            v[0].gnss_id = GnssID::GPS, v[0].sat_num = 1;
            const bool there = w.est.sat_manager_.getSat(GnssID::GPS, 1, make_out(sat)).ok();
            attempt("dropped_satellite", v, there);
        }
        c.nontrivial(vh::strf("%d %d", what, i));
    }
}
}  // namespace ekf
}  // namespace mc
