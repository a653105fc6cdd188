"""Small explorer framework shared by every check.

A check module (mc/checks/cXX_*.py) supplies

  PROPERTY, LEVEL, RULE, ASSUMPTIONS
  shards(tier)        -> list of (shard_id, params): the complete, finite space, partitioned
  run(ctx, params)    -> explores one shard completely, reporting through ctx

Nothing is sampled: every shard enumerates its own finite space and the runner fails if a shard did not
finish.  All violations become replay files (shard + key + observed/expected), replayable with
`./check CXX --replay FILE`.
"""
import contextlib
import hashlib
import json
import math
import os
import sys
import time
import traceback

import numpy as np

VERIF = os.environ.get("MC_VERIF", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("MC_REPO", "/repo")


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, (np.floating, np.integer)):
        return jsonable(x.item())
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist() if x.size <= 60 else x.ravel()[:60].tolist() + ["..."], depth)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in x]
    return repr(x)[:300]


class StopShard(Exception):
    pass


class Ctx:
    """Per-shard accounting and reporting."""

    MAX_VIOL = 25

    def __init__(self, shard_id, tier, seed):
        self.shard_id = shard_id
        self.tier = tier
        self.seed = seed
        self.evaluations = 0
        self.transitions = 0
        self.validated = 0
        self._states = set()
        self._outcomes = set()
        self.violations = []
        self.samples = []
        self.notes = {}
        self._nviol_by_key = {}

    # ---- accounting
    def ev(self, n=1):
        self.evaluations += n

    def step(self, n=1):
        self.transitions += n

    def valid(self, n=1):
        self.validated += n

    @staticmethod
    def _h(key):
        return hashlib.blake2b(repr(key).encode(), digest_size=8).digest()

    def state(self, key):
        self._states.add(self._h(key))

    def outcome(self, *arrays):
        """Register a distinct observed outcome (rounded so that round-off does not inflate the count)."""
        parts = []
        for a in arrays:
            if isinstance(a, str):
                parts.append(a)
                continue
            a = np.asarray(a, dtype=float).ravel()
            parts.append(tuple(float("%.6g" % v) for v in a[:64]))
        self._outcomes.add(self._h(tuple(parts)))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    # ---- verdicts
    def violation(self, key, message, **detail):
        n = self._nviol_by_key.get(key, 0)
        self._nviol_by_key[key] = n + 1
        if n == 0:
            self.violations.append(
                dict(key=key, shard=self.shard_id, message=str(message)[:2000], detail=jsonable(detail))
            )
        if len(self.violations) >= self.MAX_VIOL:
            raise StopShard()

    def close(self, key, got, want, rtol=1e-9, atol=0.0, what="", **detail):
        """got == want to round-off; NaN / shape mismatch is a violation. Returns True when equal."""
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        self.validated += 1
        try:
            got_b, want_b = np.broadcast_arrays(got, want)
        except ValueError:
            if got.size == want.size:
                got_b, want_b = got.ravel(), want.ravel()
            else:
                self.violation(key, f"{what}: shape {got.shape} where {want.shape} expected", **detail)
                return False
        if got.size != want.size and want.size != 1:
            self.violation(key, f"{what}: shape {got.shape} where {want.shape} expected", **detail)
            return False
        err = np.abs(got_b - want_b)
        tol = atol + rtol * np.abs(want_b)
        bad = ~(err <= tol)
        if np.any(bad):
            i = int(np.argmax(np.where(np.isnan(err), np.inf, err - tol)))
            g, w = float(got_b.ravel()[i]), float(want_b.ravel()[i])
            self.violation(
                key,
                f"{what}: got {g!r}, expected {w!r} (flat index {i}, {int(bad.sum())}/{bad.size} entries off, "
                f"rtol={rtol:g} atol={atol:g})",
                got=got_b,
                expected=want_b,
                **detail,
            )
            return False
        return True

    def true(self, key, cond, message="", **detail):
        self.validated += 1
        if not bool(cond):
            self.violation(key, message, **detail)
            return False
        return True

    def pack(self):
        return dict(
            shard=self.shard_id,
            evaluations=self.evaluations,
            transitions=self.transitions,
            validated=self.validated,
            states=self._states,
            outcomes=self._outcomes,
            violations=self.violations,
            samples=self.samples,
            notes=self.notes,
        )


def exc_key(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in tb:
        if "/openconcept/" in fr.filename:
            where = os.path.basename(fr.filename) + ":" + fr.name
    return f"{type(e).__name__}@{where}"


def run_shard(args):
    modname, shard_id, params, tier, seed = args
    import importlib

    mod = importlib.import_module(modname)
    ctx = Ctx(shard_id, tier, seed)
    t0 = time.time()
    wd = os.path.join(os.getcwd(), "w%d" % os.getpid())
    os.makedirs(wd, exist_ok=True)
    old = os.getcwd()
    os.chdir(wd)
    try:
        np.random.seed(seed % (2**32))
        with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
            mod.run(ctx, params)
    except StopShard:
        pass
    except Exception as e:  # an exception escaping from the code under test is a failure of the case
        ctx.violations.append(
            dict(
                key=f"exception:{shard_id}:{exc_key(e)}",
                shard=shard_id,
                message=f"unexpected {type(e).__name__}: {e}"[:1500],
                detail={"traceback": traceback.format_exc()[-6000:]},
            )
        )
    finally:
        os.chdir(old)
    out = ctx.pack()
    out["wall"] = time.time() - t0
    return out


def load_known(prop):
    """Known findings: `KNOWN-FINDING: property=C05 key=<key> :: <what fails>`."""
    known = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("KNOWN-FINDING:"):
                continue
            rest = line[len("KNOWN-FINDING:") :].strip()
            head, _, what = rest.partition(" :: ")
            p, _, key = head.partition(" key=")
            if p == f"property={prop}":
                known[key.strip()] = what.strip()
    return known
