// C02: comparisons with a quantised time: trichotomy with a +-half-resolution equality band.
#include "vh.h"

#include "common/quantized_time.h"
#include "common/utctime.h"

using namespace mc;
typedef __int128 i128;
static i128 ns(const UTCTime& t) { return (i128)t.sec * 1000000000 + t.nsec; }

VH_GROUP(band)
{
    const i128 HALF = (i128)llrint(TIME_QUANTIZATION * 1e9 / 2);
    const int N = c.n(80000, 2000000);
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        UTCTime a(c.rng.chance(0.5) ? c.rng.range(0, 5) : c.rng.range(1500000000, 1700000000),
                  c.rng.chance(0.4) ? (c.rng.chance(0.5) ? c.rng.range(0, 60000)
                                                         : 999999999 - c.rng.range(0, 60000))
                                    : c.rng.range(0, 999999999));
        int64_t off = 0;
        switch (c.rng.range(0, 4))
        {
        case 0: off = (int64_t)HALF + c.rng.range(-40, 40); break;
        case 1: off = -(int64_t)HALF + c.rng.range(-40, 40); break;
        case 2: off = c.rng.range(-200000, 200000); break;
        case 3: off = c.rng.range(-3000000000LL, 3000000000LL); break;
        default: off = c.rng.range(-(int64_t)HALF, (int64_t)HALF); break;
        }
        UTCTime b = a + UTCTime(0, 0);
        i128 tb = ns(a) + off;
        if (tb < 0) continue;
        b.sec = (int64_t)(tb / 1000000000);
        b.nsec = (int64_t)(tb % 1000000000);
        const i128 d = ns(a) - ns(b);
        const std::string w = vh::strf("(%lld,%lld) vs quantised (%lld,%lld)", (long long)b.sec,
                                       (long long)b.nsec, (long long)a.sec, (long long)a.nsec);
        c.note(w);
        const QuantizedTime q = a.quantized();
        c.expect(q.sec == a.sec && q.nsec == a.nsec, "quantized_keeps_instant", w);
        QuantizedTime q2;
        q2 = a;
        c.expect(q2.sec == a.sec && q2.nsec == a.nsec, "assign_keeps_instant", w);
        // exactly on the band edge the floating representation of the resolution decides
        const i128 ad = d < 0 ? -d : d;
        if (ad >= HALF - 2 && ad <= HALF + 2)
        {
            c.count("on_edge");
        }
        else
        {
            const bool eq = ad < HALF, gt = !eq && d > 0, lt = !eq && d < 0;
            auto six = [&](bool g, bool ge, bool l, bool le, bool e, bool n, const char* who,
                           bool G, bool L) {
                c.expect(g == G, std::string(who) + "_gt", w);
                c.expect(ge == (G || eq), std::string(who) + "_ge", w);
                c.expect(l == L, std::string(who) + "_lt", w);
                c.expect(le == (L || eq), std::string(who) + "_le", w);
                c.expect(e == eq, std::string(who) + "_eq", w);
                c.expect(n == !eq, std::string(who) + "_ne", w);
            };
            six(q > b, q >= b, q < b, q <= b, q == b, q != b, "q_op_t", gt, lt);
            six(b > q, b >= q, b < q, b <= q, b == q, b != q, "t_op_q", lt, gt);

        }
        // mutual consistency must hold on the edge too
        c.expect((q < b) + (q > b) + (q == b) == 1, "trichotomy", w);
        c.expect((q != b) == !(q == b), "ne_is_not_eq", w);
        c.expect((q <= b) == !(q > b) && (q >= b) == !(q < b), "weak_is_complement", w);
        c.expect((q < b) == (b > q) && (q > b) == (b < q) && (q == b) == (b == q), "mirror", w);
        c.expect((b <= q) == !(b > q) && (b >= q) == !(b < q) && (b != q) == !(b == q), "weak_is_complement_t", w);
        c.expect((q <= b) == (b >= q) && (q >= b) == (b <= q) && (q != b) == (b != q), "mirror_weak", w);
        c.nontrivial(w);
        if (i < 2) c.sample(w);
    }
}

// INVALID_TIME / MIN_TIME / MAX_TIME mark "no time yet" and open ends all over the library: they have
// to compare with real times without overflowing
VH_GROUP(sentinels)
{
    const i128 HALF = (i128)llrint(TIME_QUANTIZATION * 1e9 / 2);
    const int64_t LO = std::numeric_limits<int64_t>::min(), HI = std::numeric_limits<int64_t>::max();
    const int N = c.n(20000, 400000);
    auto draw = [&]() {
        UTCTime t;
        switch (c.rng.range(0, 9))
        {
        case 0: return INVALID_TIME;
        case 1: return MAX_TIME;
        case 2: return UTCTime::max();
        case 3: t.sec = LO + c.rng.range(0, 2); break;
        case 4: t.sec = HI - c.rng.range(0, 2); break;
        case 5: t.sec = LO / 2 + c.rng.range(-2, 2); break;
        case 6: t.sec = HI / 2 + c.rng.range(-2, 2); break;
        case 7: t.sec = c.rng.range(-3, 3); break;
        default: t.sec = c.rng.range(1500000000, 1700000000); break;
        }
        t.nsec = c.rng.chance(0.4) ? 0 : c.rng.chance(0.5) ? 999999999 : c.rng.range(0, 999999999);
        return t;
    };
    for (int i = 0; i < N; ++i)
    {
        if (!c.begin()) continue;
        const UTCTime a = draw(), b = c.rng.chance(0.1) ? a : draw();
        const i128 d = ns(a) - ns(b), ad = d < 0 ? -d : d;
        const std::string w = vh::strf("quantised (%lld,%lld) vs (%lld,%lld)", (long long)a.sec,
                                       (long long)a.nsec, (long long)b.sec, (long long)b.nsec);
        c.note(w);
        const QuantizedTime q = a.quantized();
        if (ad >= HALF - 2 && ad <= HALF + 2) continue;
        const bool eq = ad < HALF, gt = !eq && d > 0, lt = !eq && d < 0;
        c.expect((q == b) == eq && (q != b) == !eq && (b == q) == eq && (b != q) == !eq, "far_eq", w);
        c.expect((q < b) == lt && (q <= b) == !gt && (b > q) == lt && (b >= q) == !gt, "far_lt", w);
        c.expect((q > b) == gt && (q >= b) == !lt && (b < q) == gt && (b <= q) == !lt, "far_gt", w);
        c.count(eq ? "equal" : ad > ((i128)HI) * 1000000000 ? "difference_beyond_int64" : "ordered");
        c.nontrivial(w);
        if (i < 2) c.sample(w);
    }
}
