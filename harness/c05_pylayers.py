"""Loads a (layered) log with the repository's python reader, by number and by name, and compares
which records each stream has."""
import contextlib
import io
import sys

import numpy as np

with contextlib.redirect_stdout(io.StringIO()):
    from common.logging.log_reader import load
    from plotting.plot_keys import LOG_KEYS

logdir, normalize, exp = sys.argv[1], sys.argv[2] == "1", sys.argv[3]
with contextlib.redirect_stdout(io.StringIO()):
    log = load(logdir, normalize_time=normalize)

bad = 0
want = {}
for line in open(exp).read().splitlines():
    f = line.split()
    if f[0] == "key":  # key <number> <name or -> <records>
        cur = want.setdefault(int(f[1]), [])
        if f[2] != "-" and LOG_KEYS.get(f[2]) != int(f[1]):
            print("%s is key %s for the writer, %s in python" % (f[2], f[1], LOG_KEYS.get(f[2])))
            bad += 1
    else:
        cur.append((int(f[0]), int(f[1])))
if sorted(want) != sorted(log):
    print("streams %s instead of %s" % (sorted(log), sorted(want)))
    bad += 1
n = 0
for key, stamps in want.items() if not bad else []:
    data = log[key]
    field = "stamp" if normalize else "t"
    got = [(int(s), int(u)) for s, u in zip(np.atleast_1d(data[field]["sec"]),
                                            np.atleast_1d(data[field]["nsec"]))]
    n += len(stamps)
    if got != stamps:
        print("key %d: %d records instead of %d, or other ones" % (key, len(got), len(stamps)))
        bad += 1
    elif normalize:
        for (s, u), t in zip(stamps, np.atleast_1d(data["t"])):
            if abs(float(t) - (s + u * 1e-9)) > 1e-6:
                print("key %d: time %r instead of %d.%09d" % (key, t, s, u))
                bad += 1
                break
print("CHECKED %d" % n)
sys.exit(1 if bad else 0)
