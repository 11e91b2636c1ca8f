"""Registry of checks: what each one builds from /repo and how its cases are made."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "ekf"))
import random_cfg  # noqa: E402

UTIL = ["common/check.cxx", "common/print.cxx", "common/utctime.cxx", "common/quantized_time.cxx"]

CHECKS = {}


def add(cid, **kw):
    CHECKS[cid] = kw


add("C01", src=["c01_time.cxx"], repo=["common/utctime.cxx", "common/quantized_time.cxx"],
    rule="random instants from six populations (second edges, week edges, present day, negative), "
         "all operators and scale conversions judged by 128-bit integer nanoseconds; every "
         "distinct operand tuple counts")
add("C02", src=["c02_qtime.cxx"], repo=["common/utctime.cxx", "common/quantized_time.cxx"],
    rule="pairs of instants concentrated around the +-half-resolution band edge and around second "
         "boundaries; every distinct pair counts")
add("C03", src=["c03_circ.cxx"], repo=[],
    rule="random and exhaustive operation sequences on buffers of several sizes and element types, "
         "compared after every operation with a std::deque and a ledger of object lifetimes; a "
         "case is non-trivial when it both evicted and popped (or is a distinct exhaustive "
         "sequence)")
LOG = UTIL + ["common/logging/*.cxx", "common/ephemeris/*.cxx",
              "utils/*.cxx"]
add("C04", src=["c04_log.cxx"], repo=LOG, libs=["-lstdc++fs"],
    rule="random logs (1-6 streams of 11 record kinds, 0-1500 records, ties, unsorted stamps, "
         "partial subscriptions) written by Logger and read by LogReader; non-trivial: more than "
         "one stream and record")
add("C05", src=["c05_logdesc.cxx"], repo=LOG, libs=["-lstdc++fs"],
    flags=['-DVH_DIR="%s"' % __import__("os").path.join(
        __import__("os").path.dirname(__import__("os").path.abspath(__file__)), "harness")],
    rule="every record kind written with random content; the header's field list is summed "
         "against the file size and the python reader's values are compared one by one")
add("C06", src=["c06_logcut.cxx"], repo=LOG, libs=["-lstdc++fs"], level="fault_enumeration",
    rule="chains of 1-4 amending logs with shadowed streams, and every byte position at which a "
         "data file can be cut (strided for long records in the quick tier)")
EPH = UTIL + ["common/ephemeris/*.cxx", "utils/*.cxx"]
add("C07", src=["c07_gps.cxx"], repo=EPH, libs=["-lstdc++fs"],
    rule="histories of 3-40 GPS subframes from up to three issues (in broadcast order with losses, "
         "or arbitrary order with foreign ids and broken preambles); a history is non-trivial when "
         "an ephemeris was reported and its 36 fields were compared")
add("C08", src=["c08_gal.cxx"], repo=EPH, libs=["-lstdc++fs"],
    rule="1-4 Galileo I/NAV cycles (broadcast order with losses, or arbitrary word order) with issue "
         "changes between any two words, foreign satellites, alert pages and CRC-damaged pages; "
         "non-trivial when an ephemeris was reported and compared")
add("C09", src=["c09_glo.cxx"], repo=EPH, libs=["-lstdc++fs"],
    rule="5-60 GLONASS strings (broadcast order with losses or arbitrary order) with superframe "
         "changes at any point and damaged strings; non-trivial when an ephemeris was reported")
add("C10", src=["c10_decsafe.cxx"], repo=LOG, libs=["-lstdc++fs"],
    rule="sequences of 1-40 messages of random size, alignment and content (valid, truncated, "
         "mutated, padded) to two decoders in differently filled memory; plus every one- and "
         "two-bit error of sample messages")
add("C11", src=["c11_bits.cxx"], repo=[],
    rule="every field length the templates accept at every bit offset, on exact-size buffers; each "
         "length is one case")
SAT = EPH + ["common/satellite/*.cxx"]
add("C12", src=["c12_satstate.cxx"], repo=SAT,
    rule="random broadcast ephemerides (eccentricity 0-0.5, zero anomalies, clock epoch apart from "
         "orbit epoch) at times across the validity window; every distinct (ephemeris, time) counts")
add("C13", src=["c13_almanac.cxx"], repo=SAT + ["core/sat_manager.cxx"],
    rule="1-12 (sometimes 120) ephemerides with few distinct reference times in random order, queried after every "
         "insertion, and constellations of up to 36 satellites through the manager; distinct arrival sequences count")
add("C14", src=["c14_satcache.cxx"], repo=SAT,
    rule="random receiver positions (poles, date line, below sea level), look angles, times and "
         "satellites; each distinct geometry counts")
add("C15", src=["c15_lie.cxx"], repo=[],
    rule="rotation vectors of every size (0, thresholds, up to exactly pi), both quaternion signs, "
         "translations up to Earth radius; each distinct element or pair counts")
add("C16", src=["c16_wgs84.cxx"], repo=["utils/wgs84.cxx"],
    rule="positions over the whole Earth (poles, equator, date line, ocean floor to 100000 km) and "
         "pairs of them; each distinct position or pair counts")
add("C17", src=["c17_lambda.cxx"], repo=UTIL + ["core/solver/*.cxx"],
    rule="random covariances of 1-5 ambiguities solved exhaustively, up to 30 ambiguities disguised "
         "by a unimodular transform, and the factorisation, reduction and search alone; each "
         "distinct problem counts")


def any_filters(seed, tier):
    """Filters of random configurations, each in a binary of its own."""
    out = []
    for k in range(4 if tier == "quick" else 24):
        fname, yaml, desc, ns = random_cfg.make(seed, k, tier != "quick" and k >= 12)
        out.append(("cfg%d" % k, dict(src=["c18_any.cxx"], opt=["-O0"], files={fname + ".yaml": yaml, "any_desc.h": desc},
                                      flags=["-DCFG_NS=" + ns], gen=[("@%s.yaml" % fname, "gen_any", None, seed + k)])))
    return out


add("C18", variants=any_filters, opt=["-O0"], src=["c18_ekfgen.cxx"], repo=UTIL, cxx="clang++", gen_san=["-fsanitize=address"],
    gen=[("ekf/mon.yaml", "gen_mon", "mon", 7)], gen_is_subject=True,
    rule="random states, covariances, Jacobians and noise for filters generated from a "
         "configuration with fixed, manifold and bundled states of every kind and from random ones; every distinct "
         "prediction, update or run counts")
add("C20", src=["c20_estimator.cxx"], libs=["-lstdc++fs"], repo=SAT + ["common/logging/*.cxx", "core/ekf/rtk_ekf_estimator.cxx", "core/sat_manager.cxx", "utils/wgs84.cxx"],
    gen=[()], gen_skip=["rtk_ekf.cxx"],
    rule="all arrival orders of small sets of measurements with ties, sensor streams with delays and "
         "gaps, and random instants in random order; distinct arrival sequences with at least one "
         "late or tied measurement count")
add("C19", src=["c19_rtkmodel.cxx"], libs=["-lstdc++fs"], repo=SAT + ["core/ekf/rtk_ekf_impl.cxx", "utils/wgs84.cxx"],
    gen=[()], gen_skip=["rtk_ekf.cxx"],
    rule="random states, inputs and satellites over flight-like ranges; every distinct state or "
         "measurement counts")
add("C21", src=["c21_imu.cxx"], libs=["-lstdc++fs"], repo=["models/imu_model.cxx", "models/imu_state.cxx"] + UTIL,
    rule="random sample streams (rates, jitter, manoeuvres), poses, velocities and biases; every distinct stream counts")
add("C22", src=["c22_models.cxx"], libs=["-lstdc++fs"], repo=SAT + ["models/*.cxx"],
    rule="random satellites of three systems, receivers, poses, lever arms, clocks, weights and subsets of Jacobians; every distinct problem counts")
add("C23", src=["c23_ubx.cxx"], libs=["-lstdc++fs"], stubs=True, tsan=["threads"],
    repo=["parsers/ubx/ubx.cxx"] + LOG,
    rule="streams of valid, damaged, cut, overlong and foreign messages in random chunks, arbitrary bytes, "
         "command sessions, a receiver on another thread, and whole recordings; distinct streams count")
add("C24", src=["c24_sim.cxx"], libs=["-lstdc++fs"],
    repo=sorted(set(SAT + LOG)) + ["sim/sim.cxx", "sim/sensors/*.cxx", "sim/dynamics/*.cxx", "sim/controllers/*.cxx"],
    rule="random vehicle states, skies, rates, options and whole simulated runs; every distinct sample counts")
add("C25", src=["c25_config.cxx"], libs=["-lstdc++fs"], repo=UTIL + ["utils/config.cxx", "utils/split_string.cxx"],
    rule="random documents in two layouts from file or memory, requests of twelve types for present, absent, "
         "unfit and over-deep keys, required or not; distinct (document, key, type) count")
INIT = ("_ZN2mc3ekf15RtkEkfEstimator4initERKNS_7UTCTimeERKNS0_5StateERKNS0_10CovarianceERKN5Eigen6MatrixIdLi6ELi1ELi0ELi6ELi1EEE"
        "RKNSC_IdLi2ELi1ELi0ELi2ELi1EEERKNSC_IdLi1ELi1ELi0ELi1ELi1EEERKNS0_15InputCovarianceERKNS0_17ProcessCovarianceEPNS_7logging6LoggerE")
add("C26", src=["c26_tools.cxx", "c26_simulate.cxx", "c26_post_process.cxx", "c26_verify_ephemeris.cxx"], cxx="clang++", libs=["-lstdc++fs", "-Wl,--wrap=" + INIT],
    repo=sorted(set(SAT + LOG)) + ["sim/sim.cxx", "sim/sensors/*.cxx", "sim/dynamics/*.cxx", "sim/controllers/*.cxx", "utils/config.cxx",
                                   "core/ekf/rtk_ekf_impl.cxx", "core/ekf/rtk_ekf_estimator.cxx", "core/sat_manager.cxx"],
    gen=[()], gen_san=["-fno-sanitize=all"],
    rule="random configurations, skies and drives through the real simulate, post_process and verify_ephemeris programs; every distinct run counts")
add("C27", src=["c27_tools.cxx"], repo=["utils/split_string.cxx", "utils/strip_string.cxx"],
    rule="functions between vectors and the four Lie groups with random coefficients and base points, random matrices with "
         "special values, random ranges, random strings; every distinct input counts")
add("C28", src=["c28_report.cxx"] + ["c28_level%d.cxx" % k for k in range(6)],
    repo=["common/check.cxx", "common/print.cxx"], libs=["-lfmt"],
    rule="messages of every severity at every verbosity with random text, failing and passing checks in forked children, "
         "random trees of fallible calls, results of four types, matrix outputs of every size; every distinct case counts")
add("C29", src=["c29_graph.cxx"], repo=["core/factor_graph.cxx", "core/states/*.cxx", "core/factors/*.cxx"] + UTIL,
    rule="factors of the four kinds and collections over random, partly shared variables that keep changing; random initial "
         "options; every distinct case counts")
