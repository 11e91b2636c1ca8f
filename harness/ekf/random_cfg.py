"""Random filter configurations for C18, each with the C++ description its monitor works from."""
import random

DX = {"DQuat": 6, "SE3": 6, "Quat": 3, "SO3": 3}


def dx(t):
    return DX[t] if t in DX else int(t[3:])


def camel(name, cap=False):
    """The naming rule users of the generator rely on (pose_se3 -> poseSe3, dPoseSe3_dVelB)."""
    w = name.split("_")
    out = w[0] + "".join(x.capitalize() for x in w[1:])
    return out[0].upper() + out[1:] if cap else out


class S:
    def __init__(self, name, typ, n=0):
        self.name, self.type, self.n, self.dx = name, typ, n, dx(typ)

    def kind(self):
        return "Var<%s, %d>" % (self.type, self.n) if self.n else self.type


FIXED = ["Vec2", "Vec3", "Vec4", "Vec5", "Vec6", "DQuat", "Quat", "SO3", "SE3"]
BUNDLED = ["Vec1", "Vec2", "Vec3", "Vec5", "Quat", "SO3", "DQuat", "SE3"]
NAMES = ["pose", "vel_b", "gyro_bias", "clk", "lever_arm_x", "heading", "T_I2e", "wind2", "amb_l1_l2", "q_b2c",
         "acc", "marker", "long_name_with_many_words", "att", "drift", "vec3", "bb"]
INPUTS = ["accel", "gyro", "wheel_speed", "cmd", "thrust_b"]
MEAS = ["fix", "gps_obs", "baro2", "cam_features", "hold", "zupt", "range_rate_x"]


def make(seed, k, big):
    r = random.Random(1000003 * seed + 7919 * k + 17)
    names = r.sample(NAMES, len(NAMES))
    nv = [0, 2, 1, 3, 2, 1][k % 6] if not big else r.randint(0, 3)
    nf = r.choice([1, 2, 3, 4]) if big else 3 if nv == 0 else 1 if nv == 3 else r.choice([1, 2])
    states = [S(names.pop(), r.choice(FIXED)) for _ in range(nf)]
    while "T_I2e" in names:
        names.remove("T_I2e")  # bundles carry a counter, whose name is derived from a lower-case name
    states += [S(names.pop(), r.choice(BUNDLED), r.choice([1, 2, 3, 4])) for _ in range(nv)]
    while sum(s.dx * max(1, s.n) for s in states) > 34:
        b = max(states, key=lambda s: s.dx * max(1, s.n))
        b.type = "Vec2"
        b.dx = 2
    r.shuffle(states)  # the configuration lists them in any order
    order = [s for s in states if not s.n] + [s for s in states if s.n]
    ins = [S(n, "Vec%d" % r.choice([2, 3, 3, 4])) for n in r.sample(INPUTS, r.choice([1, 2, 3]))]
    dyn = {}
    dens = r.choice([.25, .5, .5, .8, 1])
    for s in states:
        dyn[s.name] = ([c.name for c in r.sample(states, len(states)) if r.random() < dens],
                       [c.name for c in r.sample(ins, len(ins)) if r.random() < dens])
    if not any(a for a, _ in dyn.values()):
        dyn[states[0].name][0].append(states[-1].name)
    if not any(b for _, b in dyn.values()):
        dyn[states[0].name][1].append(ins[0].name)
    meas = []
    mnames = r.sample(MEAS, len(MEAS))
    for i in range(2 if not big else r.randint(2, 4)):
        if i == 0 or r.random() < .3:
            m = S(mnames.pop(), r.choice(["Vec2", "Vec3", "Vec4", "Vec6", "Quat", "SE3"]))
        else:
            m = S(mnames.pop(), r.choice(["Vec1", "Vec2", "Vec2", "Vec3", "Quat"]), r.choice([1, 2, 3, 5]))
            if m.dx == 1 and m.n == 1:
                m.n = 2  # one number alone is refused by the generator, fixed or bundled
        m.prob = r.choice([1.0, .95, .999, .5]) if m.dx * max(1, m.n) > 1 else 1.0
        m.states = [s.name for s in r.sample(states, r.randint(1, len(states)))]
        m.meta = r.random() < .4
        m.const = r.random() < .3
        m.disabled = i > 0 and r.random() < .15
        m.arg = r.random() < .3
        meas.append(m)
    sn, en, inn = r.choice([("State", "ErrorState", "Input"), ("FilterState", "FilterError", "Drive"), ("State", "Dx", "Control")])
    fname = r.choice(["anyf", "any_filter"])
    # ------------------------------------------------------------------ configuration
    y = ["namespaces: [mc, ekf, NSNAME]", "includes:"]
    y += ["  - common/" + h for h in ("defs.h", "math/dquat.h", "math/so3.h", "math/se3.h", "math/quat.h")]
    y += ["state_name: " + sn, "error_state_name: " + en, "input_name: " + inn, "state_composition:"]
    y += ["  %s: %s" % (s.name, s.kind()) for s in states]
    y += ["input:"] + ["  %s: %s" % (s.name, s.type) for s in ins]
    y += ["dynamics:"] + ["  %s: [[%s], [%s]]" % (a, ", ".join(b), ", ".join(c)) for a, (b, c) in
                          sorted(dyn.items(), key=lambda _: r.random())]
    y += ["measurements:"]
    for m in meas:
        y += ["  %s:" % m.name, "    type: " + m.kind(), "    gating_probability: %s" % m.prob,
              "    states: [%s]" % ", ".join(m.states)]
        if m.meta:
            y += ["    metadata:", "      - [int, tag]", "      - [double, weight_x]"]
        if m.const:
            y += ["    constants:", "      - [int, magic, 4711]"]
        if m.disabled:
            y += ["    disabled: True"]
    # ------------------------------------------------------------------ description
    idx = {s.name: i for i, s in enumerate(order)}
    var = [s for s in order if s.n]
    off = {}
    o = 0
    for s in ins:
        off[s.name] = o
        o += s.dx
    nu = o

    def cnt(*ss):
        return ", ".join(dict.fromkeys("l.n[%d]" % idx[s.name] for s in ss if s.n))

    def blk(obj, member, rs, cs, r_at, c_at):
        a = cnt(*[s for s in (rs, cs) if s is not None and s.n])
        return "    f(%s.%s%s, %s, %s);" % (obj, member, "(%s)" % a if a else "", r_at, c_at)

    d = ["#pragma once", '#include "vh.h"', '#include "gen_any/%s.h"' % fname, "namespace mc {", "namespace ekf {", "namespace NSNAME {"]
    d += ["using AState = %s;" % sn, "using AError = %s;" % en, "using AInput = %s;" % inn]
    d += ["constexpr int NS = %d, NU = %d;" % (len(order), nu)]
    d += ["static const int BASE[NS] = {%s};" % ", ".join(str(s.dx) for s in order)]
    d += ["static const int MAXN[NS] = {%s};" % ", ".join(str(s.n) for s in order)]
    d += ["static const char* const NAME[NS] = {%s};" % ", ".join('"%s"' % s.name for s in order)]
    d += ["struct Lay {", "    int n[NS], at[NS], N = 0;",
          "    explicit Lay(const std::array<int, NS>& c) { for (int i = 0; i < NS; ++i) n[i] = MAXN[i] ? c[i] : 1, at[i] = N, N += n[i] * BASE[i]; }",
          "};"]
    d += ["template <class X>", "static Lay lay(const X& x)", "{", "    std::array<int, NS> c;", "    c.fill(1);"]
    d += ["    c[%d] = (int)x.num_%s;" % (idx[s.name], s.name) for s in var] + ["    return Lay(c);", "}"]
    d += ["static void setCount(AState& x, int k, int n)", "{"]
    d += ["    if (k == %d) x.num_%s = n;" % (idx[s.name], s.name) for s in var] + ["}"]
    d += ["static bool limitsAsConfigured()", "{", "    bool ok = true;"]
    d += ["    ok &= AState::MAX_%s == %d;" % (s.name.upper(), s.n) for s in var] + ["    return ok;", "}"]
    d += ["template <class X, class F>", "static void elems(X& x, F f)  // all of them, used or not", "{"]
    for i, s in enumerate(order):
        d += ["    f(%d, 0, x.%s);" % (i, s.name)] if not s.n else [
            "    for (int i = 0; i < %d; ++i) f(%d, i, x.%s[i]);" % (s.n, i, s.name)]
    d += ["}", "template <class J, class F>", "static void blocksA(J& j, const Lay& l, F f)", "{", "    (void)l;"]
    by = {s.name: s for s in states + ins}
    for a in dyn:
        for b in dyn[a][0]:
            d.append(blk("j", "d%s_d%s" % (camel(a, 1), camel(b, 1)), by[a], by[b], "l.at[%d]" % idx[a], "l.at[%d]" % idx[b]))
    d += ["}", "template <class J, class F>", "static void blocksB(J& j, const Lay& l, F f)", "{", "    (void)l;"]
    for a in dyn:
        for b in dyn[a][1]:
            d.append(blk("j", "d%s_d%s" % (camel(a, 1), camel(b, 1)), by[a], None, "l.at[%d]" % idx[a], off[b]))
    d += ["}", "template <class C, class F>", "static void blocksP(C& c, const Lay& l, F f)", "{"]
    for i, a in enumerate(order):
        for b in order[i:]:
            d.append(blk("c", "%s_%s" % (camel(a.name), camel(b.name)), a, b, "l.at[%d]" % i, "l.at[%d]" % idx[b.name]))
    d += ["}", "template <class X, class F>", "static void blocksDx(X& x, const Lay& l, F f)", "{"]
    for i, s in enumerate(order):
        d.append("    f(x.%s, l.at[%d], 0);" % (s.name, i) if not s.n else
                 "    for (int i = 0; i < l.n[%d]; ++i) f(x.%s(i), l.at[%d] + %d * i, 0);" % (i, s.name, i, s.dx))
    d += ["}", "template <class X, class F>", "static void bundlesDx(X& x, const Lay& l, F f)", "{", "    (void)x, (void)l, (void)f;"]
    d += ["    f(x.%s_vec(l.n[%d]), l.at[%d], 0);" % (s.name, idx[s.name], idx[s.name]) for s in var]
    d += ["}", "template <class Q, class F>", "static void variances(Q&& q, F f)", "{"]
    d += ["    f(%d, q.%s);" % (i, camel(s.name)) for i, s in enumerate(order)]
    d += ["}", "template <class U, class F>", "static void inputs(U&& u, F f)", "{"]
    d += ["    f(%d, u.%s);" % (off[s.name], s.name) for s in ins]
    d += ["}", "template <class U, class F>", "static void inputVariances(U&& u, F f)", "{"]
    d += ["    f(%d, u.%s);" % (off[s.name], camel(s.name)) for s in ins]
    counts = ", ".join("l.n[%d]" % idx[s.name] for s in var)
    d += ["}", "#define COUNTS(l) " + counts]
    d += ["#define COUNTS_WITH(n, l) n" + (", " + counts if counts else "")]
    d += ["template <class M>", "struct MT;"]
    for m in meas:
        M = camel(m.name) + "Meas"
        d += ["template <>", "struct MT<%s>" % M, "{",
              "    static constexpr int ROWS = %d, MAX = %d, TOTAL = %d;" % (m.dx, m.n, m.dx * max(1, m.n)),
              "    static constexpr double PROB = %s;" % m.prob,
              "    static constexpr bool META = %s, MANIFOLD = %s, DISABLED = %s, ARG = %s, MAGIC = %s;" % tuple(
                  str(bool(v)).lower() for v in (m.meta, m.type in DX, m.disabled, m.arg, m.const)),
              '    static constexpr const char* NAME = "%s";' % m.name,
              "    template <class J, class F>",
              "    static void blocks(J& j, int n, const Lay& l, F f)", "    {", "        (void)n;"]
        if m.n:
            d.append("        for (int i = 0; i < n; ++i)\n        {")
            for s in m.states:
                a = cnt(by[s])
                d.append("            f(j.d%s(i%s), i * ROWS, l.at[%d]);" % (camel(s, 1), ", " + a if a else "", idx[s]))
            d.append("        }")
        else:
            for s in m.states:
                d.append("    " + blk("j", "d" + camel(s, 1), None, by[s], "0", "l.at[%d]" % idx[s]))
        d += ["    }", "    template <class J, class F>", "    static void whole(J& j, int n, const Lay& l, F f)", "    {", "        (void)n;"]
        for s in m.states:
            if m.n:
                a = cnt(by[s])
                d.append("        f(j.d%s_all(n%s), 0, l.at[%d]);" % (camel(s, 1), ", " + a if a else "", idx[s]))
            else:
                d.append("    " + blk("j", "d" + camel(s, 1), None, by[s], "0", "l.at[%d]" % idx[s]))
        d += ["    }", "};"]
    d += ["#define CFG_MEAS(X) " + " ".join("X(%sMeas)" % camel(m.name) for m in meas)]
    d += ["AError dynamics(const AState& x, const AInput& u, StateJac* dxdx, InputJac* dxdu);"]
    d += ["template <class M>", "typename M::Residual measured(const typename M::ZType& z, const AState& x, typename M::Jac* j, int arg);"]
    for m in meas:
        M = camel(m.name) + "Meas"
        d += ["template <>", "%s::Residual h<%s%s>(const %s::ZType& z, const AState& x, %s::Jac* j%s)" % (
            M, M, ", int" if m.arg else "", M, M, ", const int& a" if m.arg else ""),
            "{", "    return measured<%s>(z, x, j, %s);" % (M, "a" if m.arg else "0"), "}"]
    d += ["}}}", ""]
    ns = fname.replace("_", "")
    return fname, "\n".join(y).replace("NSNAME", ns) + "\n", "\n".join(d).replace("NSNAME", ns), ns


if __name__ == "__main__":
    import sys
    f, y, d, n = make(int(sys.argv[1]), int(sys.argv[2]), len(sys.argv) > 3)
    print(y)
    print(d)
