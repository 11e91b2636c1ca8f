// C07: GPS decoding. Whatever the history of received subframes, an ephemeris is reported exactly
// when subframes 1-3 of one issue are at hand, and every field is that issue's broadcast value.
#include "eph_common.h"
using namespace mc;
using namespace mc::ephemeris;

struct Latest
{
    bool have[4] = {};
    Bits sf[4] = {Bits(240), Bits(240), Bits(240), Bits(240)};
    int iode(int id) const
    {
        return (int)(id == 1 ? sf[1].get(168, 8) : id == 2 ? sf[2].get(48, 8) : sf[3].get(216, 8));
    }
};

static void compare(vh::Ctx& c, const GPSEphemeris& e, const Latest& l, int sat)
{
    const Bits &a = l.sf[1], &b = l.sf[2], &d = l.sf[3];
    const double PI = 3.1415926535897932;
    auto eq = [&](const char* f, double got, double want) {
        const bool ok = std::abs(got - want) <= 1e-12 * std::abs(want);
        if (!ok) c.violate(std::string("field_") + f, vh::strf("decoded %.17g, broadcast %.17g", got, want));
    };
    auto P = [](int n) { return std::ldexp(1.0, n); };
    eq("sat", e.sat, sat);
    eq("gnssID", e.gnssID, GnssID::GPS);
    const int week = (int)a.get(48, 10) + 2048;
    eq("week", e.week, week);
    eq("code_on_L2", e.code_on_L2, a.get(58, 2));
    eq("ura", e.ura, a.get(60, 4));
    eq("health", e.health, a.get(64, 6));
    eq("iodc", e.iodc, a.get(70, 2) * 256 + a.get(168, 8));
    eq("L2_P_data_flag", e.L2_P_data_flag, a.get(72, 1));
    eq("tgd", e.tgd, a.gets(160, 8) == -128 ? 0 : a.gets(160, 8) * P(-31));
    eq("tocs", e.tocs, a.get(176, 16) * 16);
    eq("af2", e.af2, a.gets(192, 8) * P(-55));
    eq("af1", e.af1, a.gets(200, 16) * P(-43));
    eq("af0", e.af0, a.gets(216, 22) * P(-31));
    eq("iode", e.iode, b.get(48, 8));
    eq("crs", e.crs, b.gets(56, 16) * P(-5));
    eq("delta_n", e.delta_n, b.gets(72, 16) * P(-43) * PI);
    eq("m0", e.m0, b.gets(88, 32) * P(-31) * PI);
    eq("cuc", e.cuc, b.gets(120, 16) * P(-29));
    eq("ecc", e.ecc, b.get(136, 32) * P(-33));
    eq("cus", e.cus, b.gets(168, 16) * P(-29));
    eq("sqrta", e.sqrta, b.get(184, 32) * P(-19));
    eq("toes", e.toes, b.get(216, 16) * 16);
    eq("fit_interval_flag", e.fit_interval_flag, b.get(232, 1) ? 0 : 4);
    eq("cic", e.cic, d.gets(48, 16) * P(-29));
    eq("omega0", e.omega0, d.gets(64, 32) * P(-31) * PI);
    eq("cis", e.cis, d.gets(96, 16) * P(-29));
    eq("i0", e.i0, d.gets(112, 32) * P(-31) * PI);
    eq("crc", e.crc, d.gets(144, 16) * P(-5));
    eq("w", e.w, d.gets(160, 32) * P(-31) * PI);
    eq("omegadot", e.omegadot, d.gets(192, 24) * P(-43) * PI);
    eq("idot", e.idot, d.gets(224, 14) * P(-43) * PI);
    // project time scale: 6 Jan 1980 plus 18 s
    const int64_t w0 = 315964818 + (int64_t)week * 604800;
    eq("toe", e.toe.sec, w0 + b.get(216, 16) * 16);
    eq("toc", e.toc.sec, w0 + a.get(176, 16) * 16);
    eq("toe_nsec", e.toe.nsec, 0);
    eq("toc_nsec", e.toc.nsec, 0);
}

static void history(vh::Ctx& c, bool hostile)
{
    const int sat = (int)c.rng.range(1, 32);
    GPSEphemeris e(sat);
    Latest l;
    // issues in play; small pools make mixtures, repeats and the value 0 likely
    std::vector<int> pool;
    for (int i = 0, n = (int)c.rng.range(1, 3); i < n; ++i)
        pool.push_back(c.rng.chance(0.3) ? 0 : (int)c.rng.range(0, 255));
    std::map<int, std::array<std::unique_ptr<Bits>, 4>> issue;
    std::string seq;
    bool reported = false;
    const int N = (int)c.rng.range(3, 40);
    int cur = 0, next = 1;
    for (int k = 0; k < N; ++k)
    {
        int id, ic = cur;
        if (hostile)
        {
            id = (int)c.rng.range(1, 3);
            ic = pool[c.rng.range(0, (int)pool.size() - 1)];
            if (c.rng.chance(0.15)) id = (int)c.rng.range(0, 7);
        }
        else
        {
            // the broadcast order 1 2 3 4 5, with losses and issue changes at any point
            id = next;
            next = next % 5 + 1;
            if (c.rng.chance(0.1)) cur = pool[c.rng.range(0, (int)pool.size() - 1)];
            ic = cur;
            if (c.rng.chance(0.15)) continue;
        }
        const bool usable = id >= 1 && id <= 3;
        // within one issue the content repeats
        auto& slot = issue[ic][usable ? id : 0];
        if (!slot || !usable || c.rng.chance(0.02)) slot.reset(new Bits(gpsSubframe(c.rng, id, ic)));
        Bits d = *slot;
        bool preamble = true;
        if (c.rng.chance(hostile ? 0.1 : 0.03))
        {
            d.set(0, 8, 0x8B ^ (1 << c.rng.range(0, 7)));
            preamble = false;
        }
        seq += vh::strf("%d:%d%s ", id, ic, preamble ? "" : "!");
        c.note(seq);
        const Bytes m = gpsMessage(d, c.rng);
        // the receiver's buffer has exactly 40 bytes, at any alignment
        const int off = (int)c.rng.range(0, 3);
        std::unique_ptr<uint8_t[]> buf(new uint8_t[off + 40]);
        memcpy(buf.get() + off, m.data(), 40);
        const bool done = e.parse(buf.get() + off, 40);
        c.count("subframes");
        if (preamble && usable)
        {
            l.have[id] = true;
            l.sf[id] = d;
        }
        const bool want = preamble && usable && l.have[1] && l.have[2] && l.have[3] &&
                          l.iode(1) == l.iode(2) && l.iode(2) == l.iode(3);
        if (done && !want)
        {
            const bool all = l.have[1] && l.have[2] && l.have[3];
            c.violate(all ? "mixed_issues" : "incomplete",
                      vh::strf("reported with issues %d %d %d at hand", l.have[1] ? l.iode(1) : -1,
                               l.have[2] ? l.iode(2) : -1, l.have[3] ? l.iode(3) : -1));
            l = Latest();
            return;
        }
        if (want && !done) c.violate("not_reported", "all three subframes of one issue received");
        if (done)
        {
            compare(c, e, l, sat);
            c.count("ephemerides");
            reported = true;
            for (bool& h : l.have) h = false;
        }
        if (want && !done) return;
    }
    if (reported) c.nontrivial(seq);
    if (c.evals < 4) c.sample(seq);
}
VH_GROUP(broadcast_order)
{
    const int N = c.n(6000, 200000);
    for (int i = 0; i < N; ++i)
        if (c.begin()) history(c, false);
}
VH_GROUP(hostile_order)
{
    const int N = c.n(6000, 200000);
    for (int i = 0; i < N; ++i)
        if (c.begin()) history(c, true);
}
// every field exactly, single clean issue, any order of the three subframes
VH_GROUP(fields)
{
    const int N = c.n(6000, 200000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const int sat = (int)c.rng.range(1, 32), iode = (int)c.rng.range(0, 255);
        GPSEphemeris e(sat);
        Latest l;
        int order[3] = {1, 2, 3};
        for (int j = 2; j > 0; --j) std::swap(order[j], order[c.rng.range(0, j)]);
        bool done = false;
        for (int id : order)
        {
            l.sf[id] = gpsSubframe(c.rng, id, iode);
            if (c.rng.chance(0.1))  // all-ones and all-zero payloads
            {
                const int v = (int)c.rng.range(0, 1);
                const Bits s = l.sf[id];
                for (size_t k = 48; k < 240; ++k) l.sf[id].b[k] = v;
                if (id == 1) l.sf[1].set(168, 8, iode), l.sf[1].set(176, 16, s.get(176, 16));
                if (id == 2) l.sf[2].set(48, 8, iode), l.sf[2].set(216, 16, s.get(216, 16));
                if (id == 3) l.sf[3].set(216, 8, iode);
            }
            const Bytes m = gpsMessage(l.sf[id], c.rng);
            c.expect(!done, "early", "reported before the third subframe");
            done = e.parse(m.data(), m.size());
        }
        c.expect(done, "not_reported", "three subframes of one issue");
        if (done) compare(c, e, l, sat);
        c.nontrivial(vh::strf("%d %d %d%d%d %.17g", sat, iode, order[0], order[1], order[2], e.m0));
    }
}
