// C10: decoders on arbitrary bytes: no access outside the message, no undefined behaviour, and
// what they report is a function of the messages alone (not of earlier memory contents).
#include "eph_common.h"
#include "log_common.h"

static Bytes randomMessage(vh::Ctx& c, int sys, int sat)
{
    auto& r = c.rng;
    const int kind = (int)r.range(0, 9);
    Bytes m;
    if (kind <= 1)
    {
        m.resize(r.range(0, 48));
        for (auto& b : m) b = (uint8_t)r.u64();
        if (r.chance(0.3))
            for (auto& b : m) b = r.chance(0.5) ? 0 : 0xFF;
        return m;
    }
    if (sys == 0) m = gpsMessage(gpsSubframe(r, (int)r.range(0, 7), (int)r.range(0, 2)), r);
    if (sys == 1)
        m = words(galPage(galWord(r, (int)r.range(0, r.chance(0.8) ? 6 : 63), (int)r.range(0, 1), sat), r));
    if (sys == 2) m = words(gloString(r, (int)r.range(r.chance(0.1) ? 0 : 1, r.chance(0.1) ? 15 : 5), r.chance(0.97)));
    if (kind == 2) m.resize(r.range(0, (int)m.size()));
    if (kind == 3)
        for (int i = 0, n = (int)r.range(1, 40); i < n; ++i)
            m[r.range(0, (int)m.size() - 1)] ^= (uint8_t)r.u64();
    if (kind == 4) m.resize(m.size() + r.range(0, 9), 0x5A);
    return m;
}
static size_t need(int sys) { return sys == 0 ? 40 : sys == 1 ? 32 : 16; }

template <class E>
static void safety(vh::Ctx& c, int sys)
{
    const int N = c.n(1500, 60000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const int sat = (int)c.rng.range(0, 40);
        // two decoders living in memory with different earlier contents
        alignas(64) uint8_t ma[sizeof(E)], mb[sizeof(E)];
        memset(ma, 0x00, sizeof ma);
        memset(mb, 0xA5, sizeof mb);
        E* a = new (ma) E(sat);
        E* b = new (mb) E(sat);
        size_t reported = 0;
        const int n = (int)c.rng.range(1, 40);
        uint64_t h = 0;
        for (int k = 0; k < n; ++k)
        {
            const Bytes m = randomMessage(c, sys, sat);
            h = vh::fnv(m.data(), m.size(), h + 1);
            const int off = (int)c.rng.range(0, 3);
            std::unique_ptr<uint8_t[]> buf(new uint8_t[off + m.size()]);
            if (!m.empty()) memcpy(buf.get() + off, m.data(), m.size());
            c.note(vh::strf("message %d of %zu bytes at offset %d", k, m.size(), off));
            const bool ra = a->parse(buf.get() + off, m.size());
            const bool rb = b->parse(buf.get() + off, m.size());
            c.count("messages");
            c.expect(ra == rb, "depends_on_memory", "two fresh decoders disagree on the same messages");
            if (m.size() < need(sys))
                c.expect(!ra, "short_reported", vh::strf("%zu bytes completed an ephemeris", m.size()));
            if (ra && rb)
            {
                ++reported;
                const std::string d = same(*a, *b);
                c.expect(d.empty(), "unset_fields", "reported with fields never set: " + d);
            }
        }
        c.count("reported", reported);
        c.nontrivial(h);
        if (i < 2) c.sample(vh::strf("%d messages, %zu ephemerides", n, reported));
    }
}
VH_GROUP(gps) { safety<GPSEphemeris>(c, 0); }
VH_GROUP(galileo) { safety<GalileoEphemeris>(c, 1); }
VH_GROUP(glonass) { safety<GlonassEphemeris>(c, 2); }

// records as they reach a log file: default-constructed, then decoded
VH_GROUP(checksums)
{
    // every single and double bit error of a GLONASS string, every single error and every burst
    // of a Galileo page is refused
    const int N = c.n(3, 60);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin("glonass")) continue;
        Bits m = gloString(c.rng, (int)c.rng.range(1, 5), 3);
        auto ok = [&](const Bits& x) {
            GlonassEphemeris e(1);
            const Bytes b = words(x);
            e.parse(b.data(), b.size());
            return e.frame_flags_ != 0;
        };
        c.expect(ok(m), "glo_clean", "an undamaged string was refused");
        uint64_t bad = 0, tried = 0;
        for (int a = 1; a <= 85; ++a)
            for (int b = a; b <= 85; ++b)
            {
                if (b == a && a <= 8) continue;  // one wrong check bit is correctable
                if (a == b && a == 85) continue;
                Bits x = m;
                x.b[85 - a] ^= 1;
                if (b != a) x.b[85 - b] ^= 1;
                const int num = (int)x.get(1, 4);
                if (num < 1 || num > 5) continue;
                ++tried;
                if (ok(x) && !(b != a && a <= 8 && b <= 8))
                    if (++bad <= 2) c.violate("glo_accept", vh::strf("bits %d and %d wrong", a, b));
            }
        c.count("damaged_strings", tried);
        c.nontrivial((uint64_t)(i + 1000));
    }
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin("galileo")) continue;
        Bits m = galPage(galWord(c.rng, (int)c.rng.range(0, 5), 1, 7), c.rng);
        auto ok = [&](const Bits& x) {
            GalileoEphemeris e(7);
            const Bytes b = words(x);
            e.parse(b.data(), b.size());
            return e.collected_subframes != 0;
        };
        c.expect(ok(m), "gal_clean", "an undamaged page was refused");
        std::vector<int> cov;
        for (int k = 0; k < 114; ++k) cov.push_back(k);
        for (int k = 128; k < 234; ++k) cov.push_back(k);
        uint64_t bad = 0, tried = 0;
        for (size_t a = 0; a < cov.size(); ++a)
            for (size_t b = a; b < cov.size(); ++b)
            {
                Bits x = m;
                x.b[cov[a]] ^= 1;
                if (b != a) x.b[cov[b]] ^= 1;
                ++tried;
                if (ok(x))
                    if (++bad <= 2) c.violate("gal_accept", vh::strf("bits %d %d", cov[a], cov[b]));
            }
        c.count("damaged_pages", tried);
        c.nontrivial((uint64_t)(i + 5000));
    }
}
