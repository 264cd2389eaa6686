"""Facets (executable statements over generated cases), their registry, and comparison helpers."""
import json, hashlib, math, traceback
import numpy as np

REG = {}          # property id -> list of Facet, in definition order
SERVING = False   # true in a process that runs cases with the compiled extensions (see native.py)


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The check itself is broken (never counts as a verdict)."""


class Skip(Exception):
    """The generated case is outside the property's preconditions."""


class Facet(object):
    def __init__(self, pid, name, strategy, fn, quick, thorough, shards, rule, case_timeout):
        self.pid, self.name, self.strategy, self.fn = pid, name, strategy, fn
        self.quick, self.thorough, self.shards, self.rule = quick, thorough, shards, rule
        self.case_timeout = case_timeout


def facet(pid, strategy, quick=200, thorough=None, shards=2, rule="", name=None, case_timeout=90):
    def deco(fn):
        REG.setdefault(pid, []).append(
            Facet(pid, name or fn.__name__, strategy, fn, quick,
                  thorough or quick * 15, shards, rule, case_timeout))
        return fn
    return deco


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


class Ctx(object):
    """Handed to a facet for one case: collects whether the case was non-trivial, and compares."""

    def __init__(self):
        self.is_nontrivial = False
        self.tags = []
        self.worst = {}

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def tag(self, t):
        self.tags.append(str(t))

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg)

    def close(self, got, want, tol=1e-9, what="value", scale=None, note=None):
        """|got - want| <= tol * scale, element-wise in the max norm; scale defaults to max(1, |want|)."""
        try:
            g = np.asarray(got, dtype=complex)
        except Exception as e:                       # got something that is no array at all
            raise Violation("%s: result %r is not numeric (%s)" % (what, type(got), e))
        w = np.asarray(want, dtype=complex)
        if g.shape != w.shape:
            raise Violation("%s: shape %r instead of %r" % (what, g.shape, w.shape))
        if g.size == 0:
            return 0.
        if not np.all(np.isfinite(w)):
            raise Violation("%s: the reference, computed from the reported state, is not finite" % what)
        if not np.all(np.isfinite(g)):
            raise Violation("%s: non-finite result" % what)
        if scale is None:
            scale = max(1., float(abs(w).max()))
        d = float(abs(g - w).max())
        self.worst[what] = max(self.worst.get(what, 0.), d / scale if scale else d)
        if not d <= tol * scale:
            i = np.unravel_index(abs(g - w).argmax(), g.shape)
            raise Violation("%s: off by %.3g (allowed %.3g); got %s, expected %s at index %s%s"
                            % (what, d, tol * scale, g[i], w[i], i, "; " + note if note else ""))
        return d / scale if scale else d

    def le(self, a, b, what="value"):
        a = complex(a).real
        b = complex(b).real
        if not (a <= b):
            raise Violation("%s: %r should not exceed %r" % (what, a, b))


def short_tb(e, limit=6):
    tb = traceback.extract_tb(e.__traceback__)
    lines = ["%s:%s in %s" % (f.filename, f.lineno, f.name) for f in tb[-limit:]]
    return "%s: %s [%s]" % (type(e).__name__, e, " <- ".join(reversed(lines)))
