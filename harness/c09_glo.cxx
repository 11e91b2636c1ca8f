// C09: GLONASS decoding: strings of different superframes are never combined, fields and times are
// the broadcast ones, damaged strings change nothing.
#include "eph_common.h"
using namespace mc;
using namespace mc::ephemeris;

static void compare(vh::Ctx& c, const GlonassEphemeris& e, const Bits* s, int sat)
{
    auto P = [](int n) { return std::ldexp(1.0, n); };
    auto eq = [&](const std::string& f, double got, double want) {
        if (!(std::abs(got - want) <= 1e-12 * std::abs(want)))
            c.violate("field_" + f, vh::strf("decoded %.17g, broadcast %.17g", got, want));
    };
    eq("sat", e.sat, sat);
    eq("gnssID", e.gnssID, GnssID::Glonass);
    for (int i = 0; i < 3; ++i)
    {
        eq("vel" + std::to_string(i), e.vel[i], s[i + 1].getm(21, 24) * P(-20) * 1e3);
        eq("acc" + std::to_string(i), e.acc[i], s[i + 1].getm(45, 5) * P(-30) * 1e3);
        eq("pos" + std::to_string(i), e.pos[i], s[i + 1].getm(50, 27) * P(-11) * 1e3);
    }
    eq("svh", e.svh, s[2].get(5, 3));
    eq("iode", e.iode, s[2].get(9, 7));
    eq("gamn", e.gamn, s[3].getm(6, 11) * P(-40));
    eq("taun", e.taun, s[4].getm(5, 22) * P(-30));
    eq("dtaun", e.dtaun, s[4].getm(27, 5) * P(-30));
    eq("age", e.age, s[4].get(32, 5));
    eq("sva", e.sva, s[4].get(52, 4));
    eq("slot", e.slot, s[4].get(70, 5));
    // N4 counts four-year periods from 1996, NT days within it, in Moscow time (UTC+3h)
    const int64_t day0 = 820454400 + ((int64_t)s[5].get(49, 5) - 1) * 1461 * 86400 +
                         ((int64_t)s[4].get(59, 11) - 1) * 86400 - 3 * 3600;
    eq("toe", e.toe.sec, day0 + (int64_t)s[2].get(9, 7) * 900);
    eq("tof", e.tof.sec,
       day0 + (int64_t)(s[1].get(9, 5) * 3600 + s[1].get(14, 6) * 60 + s[1].get(20, 1) * 30));
    eq("toe_nsec", e.toe.nsec, 0);
    eq("tof_nsec", e.tof.nsec, 0);
}

static bool feed(vh::Ctx& c, const Bits& m, GlonassEphemeris& e)
{
    const Bytes b = words(m);
    const int off = (int)c.rng.range(0, 3);
    std::unique_ptr<uint8_t[]> buf(new uint8_t[off + 16]);
    memcpy(buf.get() + off, b.data(), 16);
    c.count("strings");
    return e.parse(buf.get() + off, 16);
}
static Bytes image(const GlonassEphemeris& e)
{
    Bytes b(sizeof e);
    memcpy(b.data(), (const void*)&e, sizeof e);
    return b;
}

static void history(vh::Ctx& c, bool hostile)
{
    const int sat = (int)c.rng.range(1, 24);
    GlonassEphemeris e(sat);
    int sf = (int)c.rng.range(0, 65535);
    int mark = -1;
    bool have[6] = {};
    Bits s[6] = {Bits(128), Bits(128), Bits(128), Bits(128), Bits(128), Bits(128)};
    bool reported = false;
    std::string seq;
    Bits cur[6] = {Bits(128), Bits(128), Bits(128), Bits(128), Bits(128), Bits(128)};
    auto fresh = [&]() {
        for (int i = 1; i <= 5; ++i) cur[i] = gloString(c.rng, i, sf);
        // the almanac day is the current day or one before
        if (c.rng.chance(0.5)) cur[5].set(5, 11, cur[4].get(59, 11));
        gloHamming(cur[5]);
    };
    fresh();
    const int N = (int)c.rng.range(5, 60);
    int next = (int)c.rng.range(1, 15);
    for (int k = 0; k < N; ++k)
    {
        int num = next;
        next = next % 15 + 1;
        if (hostile) num = (int)c.rng.range(1, c.rng.chance(0.9) ? 5 : 15);
        if (c.rng.chance(hostile ? 0.08 : 0.03))
        {
            sf = c.rng.chance(0.5) ? sf ^ (1 << c.rng.range(0, 15)) : (int)c.rng.range(0, 65535);
            fresh();
        }
        if (!hostile && c.rng.chance(0.05)) continue;
        Bits m = num <= 5 ? cur[num] : gloString(c.rng, num, sf);
        seq += vh::strf("%d@%d ", num, sf);
        c.note(seq);
        const bool chkflip = c.rng.chance(0.02);
        if (chkflip) m.b[85 - (int)c.rng.range(1, 7)] ^= 1;  // one wrong check bit is correctable
        const bool done = feed(c, m, e);
        if (num <= 5)
        {
            if (mark != sf)
                for (bool& h : have) h = false;
            mark = sf;
            have[num] = true;
            s[num] = m;
        }
        const bool all = have[1] && have[2] && have[3] && have[4] && have[5];
        if (done && num > 5) c.violate("foreign_string", vh::strf("reported on string %d", num));
        if (done && !all)
            c.violate("incomplete", "reported without all strings of one superframe");
        if (!done && all && num == 5)
            c.violate("not_reported", "all five strings of one superframe received");
        if (done && all)
        {
            compare(c, e, s, sat);
            c.count("ephemerides");
            reported = true;
        }
        if (c.rng.chance(0.1))
        {
            // one or two wrong bits, at least one of them outside the check bits
            Bits d = gloString(c.rng, (int)c.rng.range(1, 5), c.rng.chance(0.7) ? sf : 7);
            const int a = 85 - (int)c.rng.range(9, 84);
            d.b[a] ^= 1;
            if (c.rng.chance(0.5))
            {
                int b = 85 - (int)c.rng.range(1, 84);
                if (b != a) d.b[b] ^= 1;
            }
            const Bytes before = image(e);
            const bool r = feed(c, d, e);
            c.count("damaged_strings");
            c.expect(!r, "damaged_reported", "a damaged string completed an ephemeris");
            c.expect(image(e) == before, "damaged_used", "a damaged string changed the decoder");
        }
    }
    if (reported) c.nontrivial(seq);
    if (c.evals < 3) c.sample(seq);
}
VH_GROUP(broadcast_order)
{
    const int N = c.n(3000, 80000);
    for (int i = 0; i < N; ++i)
        if (c.begin()) history(c, false);
}
VH_GROUP(hostile_order)
{
    const int N = c.n(3000, 80000);
    for (int i = 0; i < N; ++i)
        if (c.begin()) history(c, true);
}
VH_GROUP(wavelength)
{
    for (int slot = -7; slot <= 24; ++slot)
    {
        if (!c.begin(vh::strf("slot %d", slot))) continue;
        GlonassEphemeris e(3);
        e.slot = slot;
        const double C = 299792458.0;
        auto eq = [&](const char* f, double got, double want) {
            c.expect(std::abs(got - want) <= 1e-12 * want, f, vh::strf("%.17g vs %.17g", got, want));
        };
        eq("L1", e.getWavelength(GlonassEphemeris::L1), C / (1602e6 + 562500.0 * slot));
        eq("L2", e.getWavelength(GlonassEphemeris::L2), C / (1246e6 + 437500.0 * slot));
        eq("L3", e.getWavelength(GlonassEphemeris::L3), C / 1202.025e6);
        c.nontrivial((uint64_t)(slot + 100));
    }
}
