"""Reads a log with the repository's python reader and compares every expected value."""
import contextlib
import io
import math
import re
import sys

import numpy as np

from common.logging.log_reader import load

logdir, key, exp = sys.argv[1], int(sys.argv[2]), sys.argv[3]
with contextlib.redirect_stdout(io.StringIO()):
    data = load(logdir)[key]


def flat(v):
    """all scalars of a field in storage order"""
    if isinstance(v, np.void):
        out = []
        for n in v.dtype.names:
            out += flat(v[n])
        return out
    return list(np.asarray(v).reshape(-1))


lines = [l.rsplit(" ", 1) for l in open(exp).read().splitlines()]
recs = 1 + max(int(p.split("/")[0]) for p, _ in lines)
bad = 0
if len(data) != recs:
    print("reader returned %d records instead of %d" % (len(data), recs))
    bad += 1
for path, val in lines if not bad else []:
    parts = path.split("/")
    v = data[int(parts[0])]
    try:
        for p in parts[1:]:
            m = re.match(r"(.*?)(\[(\d+),(\d+)\]|\{(\d+)\})?$", p)
            name = m.group(1)
            # normalising the time axis renames every field called t
            if name == "t" and isinstance(v, np.void) and "t" not in (v.dtype.names or ()):
                name = "stamp"
            # a one-field group may be collapsed by the reader
            if isinstance(v, np.void) and v.dtype.names and name in v.dtype.names:
                v = v[name]
            elif isinstance(v, np.void):
                raise KeyError(name)
            if m.group(3) is not None:
                v = np.asarray(v)
                v = v[int(m.group(3)), int(m.group(4))] if v.ndim == 2 else v[int(m.group(3))]
            elif m.group(5) is not None:
                v = flat(v)[int(m.group(5))]
        got = v
        if re.match(r"-?\d+$", val) and not np.issubdtype(np.asarray(got).dtype, np.floating):
            ok = int(got) == int(val)
        else:
            w = float(val)
            g = float(got)
            ok = g == w or (math.isnan(w) and math.isnan(g)) or \
                abs(g - w) <= 1e-12 * max(1, abs(w))
    except Exception as e:
        ok, got = False, repr(e)
    if not ok:
        bad += 1
        if bad < 12:
            print("%s: logged %s, read %s" % (path, val, got))
print("CHECKED %d" % len(lines))
sys.exit(1 if bad else 0)
