// C13: the almanac: whatever the order ephemerides arrive in, the state is computed from the
// latest copy of the one closest in time; foreign ephemerides are refused.
#include "core/sat_manager.h"
#include "sat_common.h"

template <class E>
static void mk(vh::Rng& r, E& e);
template <>
void mk(vh::Rng& r, GPSEphemeris& e)
{
    kepler(r, e, false);
    e.gnssID = GnssID::GPS;
}
template <>
void mk(vh::Rng& r, GalileoEphemeris& e)
{
    kepler(r, e, true);
    e.gnssID = GnssID::Galileo;
}
template <>
void mk(vh::Rng& r, GlonassEphemeris& e)
{
    glonass(r, e);
}
static bool sameState(const SatelliteState& a, const SatelliteState& b)
{
    return (a.pos - b.pos).norm() < 5e-2 && (a.vel - b.vel).norm() < 1e-3 && (a.clk - b.clk).norm() < 1e-12;
}
static double tagOf(const KeplerianEphemeris& e) { return e.m0; }
static double tagOf(const GlonassEphemeris& e) { return e.pos[0]; }

template <class E>
static void almanac(vh::Ctx& c, int gnss)
{
    const int N = c.n(2500, 80000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const int num = (int)c.rng.range(1, 32);
        Satellite<E> sat(gnss, num);
        std::vector<E, Eigen::aligned_allocator<E>> kept;
        const UTCTime base(1500000000 + c.rng.range(0, 100000000), 0);
        std::string seq;
        // now and then a day's worth, so that nothing may be forgotten
        const int n = (int)(c.rng.chance(0.02) ? c.rng.range(30, 120) : c.rng.range(1, 12));
        const int far = n > 12 ? 60 : 6;
        const int grid = (int)c.rng.range(1, 4);
        for (int k = 0; k < n; ++k)
        {
            E e;
            mk(c.rng, e);
            e.sat = num;
            // few distinct reference times, so replacements and out-of-order arrivals are common
            const int slot = (int)c.rng.range(-far, far);
            e.toe = base + slot * (grid == 1 ? 900 : grid == 2 ? 7200 : grid == 3 ? 3600 : 0);
            if (grid == 4) e.toe = base + UTCTime(0, (int64_t)(slot + far) * 300000000 % 1000000000) + (slot + far) * 3 / 10;
            seq += vh::strf("%d ", slot);
            c.note(seq);
            c.expect(sat.addEph(e).ok(), "add", "refused its own ephemeris");
            bool rep = false;
            for (auto& o : kept)
                if (o.toe == e.toe)
                {
                    o = e;
                    rep = true;
                }
            if (!rep) kept.push_back(e);
            c.expect(sat.almanacSize() == (int)kept.size(), "size",
                     vh::strf("%d entries, %zu distinct", sat.almanacSize(), kept.size()));
            for (int q = 0; q < 4; ++q)
            {
                UTCTime t = base + c.rng.uni(-far - .5, far + .5) * (grid == 1 ? 900 : grid == 2 ? 7200 : grid == 3 ? 3600 : 1);
                if (c.rng.chance(0.2)) t = kept[c.rng.range(0, (int)kept.size() - 1)].toe;
                const E& got = sat.findClosestEphemeris(t);
                double best = 1e300, mine = std::abs((t - got.toe).toSec());
                bool known = false;
                for (auto& o : kept)
                {
                    best = std::min(best, std::abs((t - o.toe).toSec()));
                    known = known || (o.toe == got.toe && tagOf(o) == tagOf(got));
                }
                c.count("queries");
                c.expect(known, "content", "returned an ephemeris that is not the latest copy");
                c.expect(mine <= best + 1e-9, "closest",
                         vh::strf("%.3f s away, another is %.3f s away", mine, best));
                if (best < 7100 && known)
                {
                    SatelliteState a, b;
                    sat.getState(t, Out<SatelliteState>(a));
                    eph2Sat(t, got, Out<SatelliteState>(b));
                    c.expect(sameState(a, b), "state", "state is not that of the closest ephemeris");
                }
            }
        }
        c.nontrivial(seq + std::to_string(grid));
        if (i < 2) c.sample(seq);
    }
}
VH_GROUP(gps) { almanac<GPSEphemeris>(c, GnssID::GPS); }
VH_GROUP(galileo) { almanac<GalileoEphemeris>(c, GnssID::Galileo); }
VH_GROUP(glonass) { almanac<GlonassEphemeris>(c, GnssID::Glonass); }
VH_GROUP(refusal)
{
    const int N = c.n(6, 60);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const int num = (int)c.rng.range(1, 32);
        GPSEphemeris e;
        mk(c.rng, e);
        e.sat = num;
        c.expect(!refuses([&] { Satellite<GPSEphemeris> s(GnssID::GPS, num); s.addEph(e); }), "own", "");
        c.expect(refuses([&] { Satellite<GPSEphemeris> s(GnssID::GPS, num + 1); s.addEph(e); }), "number",
                 "took the ephemeris of another satellite");
        GPSEphemeris g = e;
        g.gnssID = GnssID::Galileo;
        c.expect(refuses([&] { Satellite<GPSEphemeris> s(GnssID::GPS, num); s.addEph(g); }), "system",
                 "took the ephemeris of another system");
        c.expect(refuses([&] { Satellite<GPSEphemeris> s(GnssID::Glonass, num); }), "ctor_gps", "");
        c.expect(refuses([&] { Satellite<GalileoEphemeris> s(GnssID::GPS, num); }), "ctor_gal", "");
        c.expect(refuses([&] { Satellite<GlonassEphemeris> s(GnssID::GPS, num); }), "ctor_glo", "");
        SatelliteState st;
        c.expect(refuses([&] { Satellite<GPSEphemeris> s(GnssID::GPS, num);
                               s.getState(e.toe, Out<SatelliteState>(st)); }),
                 "empty", "a state from an empty almanac");
        const double late = 7200.5 + c.rng.uni(0, 1e5);
        c.expect(refuses([&] { Satellite<GPSEphemeris> s(GnssID::GPS, num); s.addEph(e);
                               s.getState(e.toe + (i % 2 ? late : -late), Out<SatelliteState>(st)); }),
                 "stale", vh::strf("extrapolated %.1f s", late));
        c.nontrivial((uint64_t)i);
    }
}

// The manager of all satellites: each request is answered by the satellite asked for, with what that
// satellite was told; nobody else's; unknown ones are reported.
template <class E>
static void give(vh::Ctx& c, SatelliteManager& m, int gnss, int num, const UTCTime& toe, E& e)
{
    mk(c.rng, e);
    e.gnssID = gnss;
    e.sat = num;
    e.toe = toe;
    m.ephCb(e);
}
VH_GROUP(satman)
{
    const int N = c.n(400, 12000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        auto m = std::make_unique<SatelliteManager>();
        const int systems[3] = {GnssID::GPS, GnssID::Galileo, GnssID::Glonass};
        // first come: the order in which satellites became known, per system
        std::vector<int> order[3];
        struct Last { GPSEphemeris g; GalileoEphemeris a; GlonassEphemeris r; };
        std::map<std::pair<int, int>, std::vector<UTCTime>> toes;
        std::map<std::pair<int, int>, Last> last;
        const UTCTime base(1500000000 + c.rng.range(0, 100000000), 0);
        const int span = (int)c.rng.pick<int>({3, 12, 29, 31, 36});
        const int steps = (int)c.rng.range(1, span > 12 ? 160 : 60);
        const int rot = (int)c.rng.range(0, 2);
        std::string seq = vh::strf("span %d:", span);
        for (int k = 0; k < steps; ++k)
        {
            const int which = c.rng.chance(0.6) ? rot : (int)c.rng.range(0, 2);
            const int num = (int)c.rng.range(1, span);
            const int gnss = systems[which];
            seq += vh::strf(" %d/%d", gnss, num);
            if (k % 32 == 0) c.note(seq);
            const auto id = std::make_pair(gnss, num);
            if (!toes.count(id))
            {
                if (order[which].size() == 29)
                {
                    // the oldest satellite makes room
                    c.count("evicted");
                    toes.erase({gnss, order[which][0]});
                    order[which].erase(order[which].begin());
                }
                order[which].push_back(num);
            }
            const UTCTime toe = base + (double)(900 * (int)c.rng.range(0, 3));
            Last& l = last[id];
            if (which == 0) give(c, *m, gnss, num, toe, l.g);
            if (which == 1) give(c, *m, gnss, num, toe, l.a);
            if (which == 2) give(c, *m, gnss, num, toe, l.r);
            auto& t = toes[id];
            if (std::find(t.begin(), t.end(), toe) == t.end()) t.push_back(toe);
            for (int q = 0; q < 6; ++q)
            {
                const int w = (int)c.rng.range(0, 2), n = q ? (int)c.rng.range(1, span + 2) : num;
                const int g = q ? systems[w] : gnss;
                const SatelliteBase* s = nullptr;
                const Error er = m->getSat(g, n, Out<const SatelliteBase*>(s));
                const auto it = toes.find({g, n});
                c.count(it == toes.end() ? "unknown" : "known");
                c.expect(er.ok() == (it != toes.end()), er.ok() ? "invented" : "forgotten",
                         vh::strf("satellite %d/%d", g, n));
                if (!er.ok() || it == toes.end() || !s) continue;
                c.expect(s->gnssId() == g && s->sat_num() == n, "other_satellite",
                         vh::strf("asked for %d/%d, got %d/%d", g, n, s->gnssId(), s->sat_num()));
                c.expect(s->almanacSize() == (int)it->second.size(), "almanac",
                         vh::strf("%d of %zu", s->almanacSize(), it->second.size()));
                if (q == 0)
                {
                    SatelliteState a, b;
                    const UTCTime at = toe + c.rng.uni(-400, 400);
                    s->getState(at, Out<SatelliteState>(a));
                    if (which == 0) eph2Sat(at, l.g, Out<SatelliteState>(b));
                    if (which == 1) eph2Sat(at, l.a, Out<SatelliteState>(b));
                    if (which == 2) eph2Sat(at, l.r, Out<SatelliteState>(b));
                    c.expect(sameState(a, b), "state", vh::strf("satellite %d/%d", g, n));
                }
            }
            const SatelliteBase* s = nullptr;
            const int bad = (int)c.rng.pick<int>({1, 3, 4, 5, 7, -1, 255});
            c.expect(!m->getSat(bad, num, Out<const SatelliteBase*>(s)).ok(), "system", vh::strf("system %d", bad));
        }
        c.nontrivial(seq);
        if (i < 1) c.sample(seq.substr(0, 100));
    }
}
