// C08: Galileo I/NAV decoding: reported exactly when a consistent set of words is at hand, fields
// are the broadcast ones, and pages that fail a check change nothing.
#include "eph_common.h"
using namespace mc;
using namespace mc::ephemeris;

// The last 16 bits of a word as the decoder of the recorded finding reads them: bits 106..121 of
// the odd page (end of the CRC field, SSP and tail) instead of bits 2..17.
struct Word
{
    Bits d{128};
    Bits page{288};
    bool have = false;
    Bits shifted() const
    {
        Bits s = d;
        for (int i = 0; i < 16; ++i) s.b[112 + i] = page.b[128 + 106 + i];
        return s;
    }
};

static void compare(vh::Ctx& c, const GalileoEphemeris& e, const Word* w, int sat)
{
    const double PI = M_PI;
    auto P = [](int n) { return std::ldexp(1.0, n); };
    // affected: the field reaches into the last 16 bits of its word
    auto eq = [&](const char* f, double got, double want, double finding, bool affected) {
        if (std::abs(got - want) <= 1e-12 * std::abs(want)) return;
        if (affected && std::abs(got - finding) <= 1e-12 * std::abs(finding))
        {
            c.count("last16_wrong");
            c.violate("last16", vh::strf("%s decoded %.17g, broadcast %.17g", f, got, want));
            return;
        }
        c.violate(std::string("field_") + f, vh::strf("decoded %.17g, broadcast %.17g", got, want));
    };
    const Bits s[6] = {w[0].shifted(), w[1].shifted(), w[2].shifted(),
                       w[3].shifted(), w[4].shifted(), w[5].shifted()};
#define U(i, p, n) w[i].d.get(p, n)
#define EQ(f, expr_d)                                            \
    {                                                            \
        auto ev = [&](auto G) -> double { return expr_d; };      \
        const double want = ev([&](int i) -> const Bits& { return w[i].d; }); \
        const double find = ev([&](int i) -> const Bits& { return s[i]; });   \
        eq(#f, e.f, want, find, want != find);                   \
    }
    eq("sat", e.sat, sat, 0, false);
    eq("gnssID", e.gnssID, GnssID::Galileo, 0, false);
    const int iod = (int)U(1, 6, 10);
    eq("iodc", e.iodc, iod, 0, false);
    eq("iode", e.iode, iod & 0xFF, 0, false);
    EQ(toes, G(1).get(16, 14) * 60)
    EQ(m0, G(1).gets(30, 32) * P(-31) * PI)
    EQ(ecc, G(1).get(62, 32) * P(-33))
    EQ(sqrta, G(1).get(94, 32) * P(-19))
    EQ(omega0, G(2).gets(16, 32) * P(-31) * PI)
    EQ(i0, G(2).gets(48, 32) * P(-31) * PI)
    EQ(w, G(2).gets(80, 32) * P(-31) * PI)
    EQ(idot, G(2).gets(112, 14) * P(-43) * PI)
    EQ(omegadot, G(3).gets(16, 24) * P(-43) * PI)
    EQ(delta_n, G(3).gets(40, 16) * P(-43) * PI)
    EQ(cuc, G(3).gets(56, 16) * P(-29))
    EQ(cus, G(3).gets(72, 16) * P(-29))
    EQ(crc, G(3).gets(88, 16) * P(-5))
    EQ(crs, G(3).gets(104, 16) * P(-5))
    EQ(cic, G(4).gets(22, 16) * P(-29))
    EQ(cis, G(4).gets(38, 16) * P(-29))
    EQ(tocs, G(4).get(54, 14) * 60)
    EQ(af0, G(4).gets(68, 31) * P(-34))
    EQ(af1, G(4).gets(99, 21) * P(-46))
    EQ(af2, G(4).gets(120, 6) * P(-59))
    EQ(bgd_e1_e5a, G(5).gets(47, 10) * P(-32))
    EQ(bgd_e1_e5b, G(5).gets(57, 10) * P(-32))
    EQ(e5b_hs, G(5).get(67, 2))
    EQ(e1b_hs, G(5).get(69, 2))
    EQ(e5b_dvs, G(5).get(71, 1))
    EQ(e1b_dvs, G(5).get(72, 1))
    // week of the reference time, on the GPS week count; tow and toe are within half a week
    auto weekOf = [&](int64_t tow) {
        int64_t k = (int64_t)U(0, 96, 12);
        const int64_t dt = (int64_t)U(1, 16, 14) * 60 - tow;
        return k + 1024 + (dt > 302400 ? -1 : dt < -302400 ? 1 : 0);
    };
    const int64_t week = weekOf((int64_t)U(0, 108, 20));
    eq("week", e.week, week, weekOf((int64_t)s[0].get(108, 20)), true);
    eq("toe", e.toe.sec, 315964818 + week * 604800 + (int64_t)U(1, 16, 14) * 60,
       315964818 + weekOf((int64_t)s[0].get(108, 20)) * 604800 + (int64_t)U(1, 16, 14) * 60, true);
    eq("toc", e.toc.sec, 315964818 + week * 604800 + (int64_t)U(4, 54, 14) * 60,
       315964818 + weekOf((int64_t)s[0].get(108, 20)) * 604800 + (int64_t)U(4, 54, 14) * 60, true);
}

struct Session
{
    int sat;
    GalileoEphemeris e;
    Word w[6];
    std::string seq;
    explicit Session(int s) : sat(s), e(s) {}
};

// state a rejected page must not touch
static Bytes image(const GalileoEphemeris& e)
{
    Bytes b(sizeof e);
    memcpy(b.data(), &e, sizeof e);
    return b;
}

static bool feed(vh::Ctx& c, const Bits& page, GalileoEphemeris& e)
{
    const Bytes m = words(page);
    const size_t len = c.rng.chance(0.5) ? 32 : 36;
    const int off = (int)c.rng.range(0, 3);
    std::unique_ptr<uint8_t[]> buf(new uint8_t[off + len]);
    memcpy(buf.get() + off, m.data(), len);
    c.count("pages");
    return e.parse(buf.get() + off, len);
}

// what a page must lead to; false if the case is over
static bool step(vh::Ctx& c, Session& S, int type, const Bits& data)
{
    const Bits page = galPage(data, c.rng);
    S.seq += std::to_string(type) + ":" +
             (type >= 1 && type <= 4 ? std::to_string(data.get(6, 10)) : "-") + " ";
    c.note(S.seq);
    const bool foreign = type == 4 && (int)data.get(16, 6) != S.sat;
    const bool done = feed(c, page, S.e);
    if (type == 2)
        for (auto& x : S.w) x.have = false;
    if (type <= 5 && !foreign)
    {
        S.w[type].d = data;
        S.w[type].page = page;
        S.w[type].have = true;
    }
    bool all = true;
    for (auto& x : S.w) all = all && x.have;
    bool same = true;
    for (int i = 2; i <= 4; ++i)
        same = same && S.w[i].d.get(6, 10) == S.w[1].d.get(6, 10);
    if (done && !all) c.violate("incomplete", "reported without all of words 0-5");
    if (done && all && !same) c.violate("mixed_issues", "reported with different IODnav");
    if (done && all && same)
    {
        compare(c, S.e, S.w, S.sat);
        c.count("ephemerides");
    }
    return done;
}

static void setTimes(Bits& w0, Bits& w1, Bits& w4, vh::Rng& r)
{
    const int week = (int)r.range(0, 4095);
    const int64_t tow = r.chance(0.3) ? r.range(0, 7200) : r.chance(0.3) ? r.range(597600, 604799)
                                                                         : r.range(0, 604799);
    w0.set(96, 12, week);
    w0.set(108, 20, tow);
    const int64_t toe = ((tow + r.range(-7200, 7200) + 604800) % 604800) / 60;
    w1.set(16, 14, toe);
    w4.set(54, 14, r.chance(0.8) ? toe : r.range(0, 10079));
}

static void history(vh::Ctx& c, bool hostile)
{
    Session S((int)c.rng.range(1, 36));
    bool reported = false;
    const int cycles = (int)c.rng.range(1, 4);
    int iod = (int)c.rng.range(0, 1023);
    Bits w[7] = {Bits(128), Bits(128), Bits(128), Bits(128), Bits(128), Bits(128), Bits(128)};
    auto fresh = [&]() {
        for (int t = 0; t < 7; ++t) w[t] = galWord(c.rng, t, iod, S.sat);
        setTimes(w[0], w[1], w[4], c.rng);
    };
    fresh();
    for (int cy = 0; cy < cycles; ++cy)
    {
        std::vector<int> order = {2, 4, 6, 1, 3, 5, 0, 0, 0, 0};
        if (hostile)
        {
            order.clear();
            const int n = (int)c.rng.range(4, 25);
            for (int i = 0; i < n; ++i) order.push_back((int)c.rng.range(0, c.rng.chance(.3) ? 2 : 6));
        }
        bool lost = false;
        for (size_t k = 0; k < order.size(); ++k)
        {
            const int t = order[k];
            if (c.rng.chance(hostile ? 0.05 : 0.08))
            {
                lost = true;
                continue;
            }
            // the issue may change between any two words
            if (c.rng.chance(0.04))
            {
                iod = c.rng.chance(0.3) ? (iod ^ (1 << c.rng.range(0, 9))) : (int)c.rng.range(0, 1023);
                fresh();
                lost = true;
            }
            Bits d = w[t];
            if (t == 0)
            {
                const int64_t tow = (int64_t)d.get(108, 20);
                if (tow < 604798) w[0].set(108, 20, tow + 2);
            }
            if (t == 4 && c.rng.chance(0.06))
            {
                d = galWord(c.rng, 4, iod, (S.sat + (int)c.rng.range(1, 35)) % 64);
                setTimes(w[0], w[1], w[4], c.rng);
            }
            const bool done = step(c, S, t, d);
            reported = reported || done;
            // a full undisturbed cycle must have produced the ephemeris by its first word 0
            if (!hostile && k == 6 && !lost && !done)
            {
                bool all = true;
                for (auto& x : S.w) all = all && x.have;
                if (all) c.violate("not_reported", "a complete consistent cycle was received");
            }
            if (c.rng.chance(0.1))
            {
                // a damaged page: CRC covers 114 + 82 bits and its own 24
                Bits page = galPage(w[c.rng.range(0, 6)], c.rng);
                std::vector<int> cov;
                for (int i = 0; i < 114; ++i) cov.push_back(i);
                for (int i = 128; i < 234; ++i) cov.push_back(i);
                if (c.rng.chance(0.5))
                {
                    for (int i = 0, n = (int)c.rng.range(1, 3); i < n; ++i)
                        page.b[c.rng.pick(cov)] ^= 1;
                }
                else
                {
                    const int st = (int)c.rng.range(0, 219), ln = (int)c.rng.range(1, 24);
                    page.b[cov[st]] ^= 1;
                    for (int i = 1; i < ln && st + i < 220; ++i) page.b[cov[st + i]] ^= c.rng.u64() & 1;
                }
                std::vector<uint8_t> bits(page.b.begin(), page.b.begin() + 114);
                bits.insert(bits.end(), page.b.begin() + 128, page.b.begin() + 210);
                if (refCrc24(bits) != page.get(210, 24))
                {
                    const Bytes before = image(S.e);
                    const bool r = feed(c, page, S.e);
                    c.count("damaged_pages");
                    c.expect(!r, "damaged_reported", "a page with a wrong CRC completed an ephemeris");
                    c.expect(image(S.e) == before, "damaged_used",
                             "a page with a wrong CRC changed the decoder");
                }
            }
            if (c.rng.chance(0.05))
            {
                // words of other types are none of the ephemeris' business
                Bits d = w[c.rng.range(0, 6)];
                d.set(0, 6, (int)c.rng.range(7, 63));
                const Bytes before = image(S.e);
                const bool r = feed(c, galPage(d, c.rng), S.e);
                c.count("other_words");
                c.expect(!r, "other_reported", "a word of another type completed an ephemeris");
                c.expect(image(S.e) == before, "other_used", "a word of another type changed the decoder");
            }
            if (c.rng.chance(0.05))
            {
                // alert pages and swapped halves are skipped
                Bits page = galPage(w[c.rng.range(0, 6)], c.rng);
                const int which = (int)c.rng.range(0, 3);
                if (which == 0) page.b[1] = 1;
                if (which == 1) page.b[129] = 1;
                if (which == 2) page.b[0] = 1;
                if (which == 3) page.b[128] = 0;
                // sent that way, so the checksum is right
                std::vector<uint8_t> bits(page.b.begin(), page.b.begin() + 114);
                bits.insert(bits.end(), page.b.begin() + 128, page.b.begin() + 210);
                page.set(210, 24, refCrc24(bits));
                c.count("alert_pages");
                const Bytes before = image(S.e);
                const bool r = feed(c, page, S.e);
                c.expect(!r, "alert_reported", "an alert or misordered page completed an ephemeris");
                c.expect(image(S.e) == before, "alert_used", "an alert page changed the decoder");
            }
        }
    }
    if (reported) c.nontrivial(S.seq);
    if (c.evals < 3) c.sample(S.seq);
}
VH_GROUP(broadcast_order)
{
    const int N = c.n(2500, 60000);
    for (int i = 0; i < N; ++i)
        if (c.begin()) history(c, false);
}
VH_GROUP(hostile_order)
{
    const int N = c.n(2500, 60000);
    for (int i = 0; i < N; ++i)
        if (c.begin()) history(c, true);
}
