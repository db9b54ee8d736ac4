"""Monitors: what is checked, counted and reported. No TensorFlow here."""
import collections
import json
import math

import numpy as np


class Stop(Exception):
    """Raised by Mon.need: the rest of the case makes no sense."""


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, np.ndarray):
        if x.size > 24:
            return {"shape": list(x.shape), "head": jsonable(x.ravel()[:8])}
        return jsonable(x.tolist())
    if isinstance(x, (np.floating, float)):
        return float(x) if math.isfinite(x) else repr(float(x))
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, complex):
        return repr(x)
    if x is None or isinstance(x, (str, int, bool)):
        return x
    return repr(x)[:300]


class Mon:
    """Collects the verdicts and observations of one case."""

    MAX_VIOL = 12

    def __init__(self, case=None):
        self.case = case
        self.ev = collections.Counter()
        self.notes = collections.Counter()
        self.dist = set()
        self.viol = []
        self.acc = {}
        self.samples = []

    # -- verdicts
    def fail(self, key, msg, **data):
        if len(self.viol) < self.MAX_VIOL:
            self.viol.append({"key": key, "msg": str(msg)[:600],
                              "data": jsonable(data)})

    def check(self, ok, key, msg="", n=1, **data):
        self.ev[key] += n
        if not bool(ok):
            self.fail(key, msg or key, **data)
        return bool(ok)

    def need(self, ok, key, msg="", **data):
        if not self.check(ok, key, msg, **data):
            raise Stop()

    def shape(self, key, x, want):
        got = tuple(int(i) for i in np.shape(x))
        want = tuple(int(i) for i in want)
        self.need(got == want, key, f"shape {got}, expected {want}")

    def close(self, key, got, want, rtol=0.0, atol=0.0, msg="", **data):
        """|got-want| <= atol + rtol*|want| elementwise (inf equals inf)."""
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            try:
                want = np.broadcast_to(want, got.shape)
            except ValueError:
                self.ev[key] += 1
                self.fail(key, f"{msg} shape {got.shape} vs {want.shape}", **data)
                return False
        n = max(1, got.size)
        if got.dtype == bool or want.dtype == bool:
            bad = got != want
            err = bad.astype(float)
        else:
            with np.errstate(all="ignore"):
                err = np.abs(got - want)
                bad = ~(err <= atol + rtol * np.abs(want))
                bad &= ~(got == want)
        self.ev[key] += n
        if bad.any():
            idx = np.argwhere(bad)
            with np.errstate(all="ignore"):
                e = np.where(bad, np.where(np.isnan(err), np.inf, err), -1.0)
            w = np.unravel_index(int(np.argmax(e)), got.shape) if got.ndim else ()
            self.fail(key, f"{msg or key}: {int(bad.sum())} of {n} differ; "
                      f"worst at {tuple(int(i) for i in w)}: "
                      f"got {got[w]!r}, expected {want[w]!r} "
                      f"(rtol {rtol:g}, atol {atol:g})", first=idx[:3], **data)
            return False
        return True

    def angle_close(self, key, got, want, atol, period=360.0, msg="", **data):
        got, want = np.asarray(got, float), np.asarray(want, float)
        if got.shape != want.shape:
            self.ev[key] += 1
            self.fail(key, f"{msg} shape {got.shape} vs {want.shape}", **data)
            return False
        d = np.mod(got - want + period / 2, period) - period / 2
        return self.close(key, d, np.zeros_like(d), atol=atol, msg=msg, **data)

    # -- observations
    def count(self, name, n=1):
        self.notes[name] += int(n)

    def seen(self, *key):
        self.dist.add("|".join(str(k) for k in key))

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(jsonable(kw))

    def add(self, name, values):
        """Accumulate sums: vectors of the same name are added elementwise."""
        v = np.asarray(values, float)
        if name in self.acc:
            self.acc[name] = self.acc[name] + v
        else:
            self.acc[name] = v.copy()

    def moments(self, name, x):
        """Accumulate n, sum, sum2 (and 3rd, 4th) of the values x."""
        x = np.asarray(x, float).ravel()
        self.add(name, [x.size, x.sum(), (x**2).sum(), (x**3).sum(), (x**4).sum()])

    # -- transport
    def dump(self):
        return {"ev": dict(self.ev), "notes": dict(self.notes),
                "dist": sorted(self.dist), "viol": self.viol,
                "acc": {k: v.tolist() for k, v in self.acc.items()},
                "samples": self.samples}

    def merge(self, d):
        for k, v in d["ev"].items():
            self.ev[k] += v
        for k, v in d["notes"].items():
            self.notes[k] += v
        self.dist.update(d["dist"])
        for k, v in d["acc"].items():
            self.add(k, v)
        if len(self.samples) < 4:
            self.samples.extend(d["samples"][:1])


def zscore_mean(acc, mean, std):
    """z-score of the sample mean against N(mean, std^2/n)."""
    n, s1 = acc[0], acc[1]
    return (s1 / n - mean) / (std / math.sqrt(n))


def zscore_var_normal(acc, mean, std):
    """z-score of the second central moment about a known mean, Gaussian law."""
    n, s1, s2 = acc[0], acc[1], acc[2]
    v = s2 / n - 2 * mean * s1 / n + mean**2
    return (v / std**2 - 1.0) * math.sqrt(n / 2.0)


def dumps(x):
    return json.dumps(jsonable(x), sort_keys=True)
