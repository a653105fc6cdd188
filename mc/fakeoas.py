"""Cheap analytic stand-ins for OpenConcept's VLM and Aerostruct groups (they look up the group in their own
module at call time), a process-free multiprocessing pool, an analysis counter and a fault injector.

Every stand-in output depends on every input entry with its own weight, so an entry that is dropped, reordered,
stale or taken from another problem changes the result; along each surrogate dimension it is at most a cubic, so
that a cubic spline through four points reproduces it exactly."""
import contextlib
import multiprocessing

import numpy as np
import openmdao.api as om


class Fault(Exception):
    pass


class Count:
    """Analyses run so far in this process; `fail_at`: the analysis, counted from now, that raises."""
    n = 0
    fail_at = None

    @classmethod
    def tick(cls):
        cls.n += 1
        if cls.fail_at is not None:
            cls.fail_at -= 1
            if cls.fail_at == 0:
                cls.fail_at = None
                raise Fault("injected analysis failure")


class Pool:
    """Runs everything in this process, in order."""

    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, it, chunksize=1):
        return [f(x) for x in it]

    def imap(self, f, it, chunksize=1):
        return (f(x) for x in it)

    def imap_unordered(self, f, it, chunksize=1):
        return reversed([f(x) for x in it])  # any order is allowed: take the least convenient one

    def starmap(self, f, it, chunksize=1):
        return [f(*x) for x in it]

    def close(self):
        pass

    join = terminate = close


def w(n, salt):
    k = np.arange(n)
    return 1.0 + 0.5 * np.sin(1.7 * k + salt)


def dot(x, salt):
    x = np.ravel(x)
    return np.sum(w(x.size, salt) * x) / x.size


def vlm(x, opts=None):
    """x: SI/degree values of M, a, h, T, mesh, toverc (possibly complex)."""
    o = opts or {}
    M, a, h = x["M"], x["a"], x["h"] / 1e4
    gm, gt, T = dot(x["mesh"], 0.3), dot(x["toverc"], 0.9), x["T"] / 10
    CL = o.get("CL0", 0.0) + a * (0.08 + 0.002 * gm) * (1 + 0.3 * M**2 - 0.1 * M**3) + 2e-4 * a**2 * (1 + h) + 0.3 * gt * (1 + M) + 0.02 * T * (1 + 0.5 * M * h)
    CL = CL + 0.03 * h * (1 - 0.3 * h**2) * (1 + M**3)
    CD = o.get("CD0", 0.0) + 0.01 + 3e-4 * a**2 * (1 + 0.1 * gm + M**2) + 0.02 * gt * (1 + h**2) + 1e-3 * gm * M**3 + 1e-3 * T * (1 + M) + 2e-6 * a**3 * h
    n = np.size(x["toverc"])
    sec = CL * (1 + 0.1 * w(n, 2.0)) + 0.2 * np.ravel(x["toverc"])
    return {"CL": CL, "CD": CD, "sec": sec}


AS_KEYS = ["S", "AR", "taper", "sweep", "twist", "toverc", "skin", "spar"]


def aerostruct(x, opts=None):
    o = opts or {}
    M, a, h = x["M"], x["a"], x["h"] / 1e4
    g = {"S": x["S"] / 400, "AR": x["AR"] / 10, "taper": x["taper"], "sweep": x["sweep"] / 30, "twist": dot(x["twist"], 0.1),
         "toverc": dot(x["toverc"], 0.5), "skin": 50 * dot(x["skin"], 1.1), "spar": 50 * dot(x["spar"], 1.9)}
    T = x["T"] / 10
    s = sum((0.3 + 0.11 * i) * g[k] for i, k in enumerate(AS_KEYS))
    r = sum((0.9 - 0.07 * i) * g[k] for i, k in enumerate(AS_KEYS))
    CL = o.get("CL0", 0.0) + a * (0.08 + 0.004 * s) * (1 + 0.3 * M**2 - 0.1 * M**3) + 2e-4 * a**2 * (1 + h) + 0.02 * r * (1 + M) + 0.02 * T * (1 + 0.5 * M * h) + 0.03 * h * (1 - 0.3 * h**2)
    CD = o.get("CD0", 0.0) + 0.01 + 3e-4 * a**2 * (1 + 0.1 * r + M**2) + 2e-3 * s * (1 + h**2) + 1e-3 * T * (1 + M) + 2e-6 * a**3 * h
    fail = -0.5 + 0.03 * a * s * (1 + M**2) + 0.1 * r * r + 0.01 * T + 0.05 * h**3 - 1e-4 * a**3
    W = 3000 + 900 * r + 500 * s * s  # does not depend on the flight condition
    return {"CL": CL, "CD": CD, "failure": fail, "W": W}


class _Fake(om.ExplicitComponent):
    """INS: (name, key, units, shape function of options, default); OUTS: (name, key, units, shape function)."""
    counted = True

    def setup(self):
        for n, _, u, sh, v in self.INS:
            self.add_input(n, val=v, shape=sh(self.options), units=u)
        for n, _, u, sh in self.OUTS:
            self.add_output(n, shape=sh(self.options), units=u)
        self.declare_partials("*", "*")

    def x(self, inputs, dtype=float):
        d = {}
        for n, k, _, sh, _ in self.INS:
            v = np.array(inputs[n], dtype=dtype)
            d[k] = v.reshape(())[()] if v.size == 1 and k in "M a h T S AR taper sweep".split() else v
        return d

    def opts(self):
        return self.options["surf_options"] or {}

    def compute(self, inputs, outputs):
        if self.counted:
            Count.tick()
        r = type(self).FUN(self.x(inputs), self.opts())
        for n, k, _, _ in self.OUTS:
            outputs[n] = r[k]

    def compute_partials(self, inputs, partials):
        x = self.x(inputs, complex)
        for n, k, _, _, _ in self.INS:
            arr = np.atleast_1d(np.array(x[k], dtype=complex))
            cols = {o: [] for o, _, _, _ in self.OUTS}
            for i in range(arr.size):
                p = arr.copy()
                p.flat[i] += 1e-30j
                r = type(self).FUN({**x, k: p if np.ndim(x[k]) else p[0]}, self.opts())
                for o, ok, _, _ in self.OUTS:
                    cols[o].append(np.imag(np.ravel(r[ok])) / 1e-30)
            for o in cols:
                partials[o, n] = np.array(cols[o]).T


one = lambda o: (1,)


class FakeVLM(_Fake):
    FUN = staticmethod(vlm)
    INS = [("fltcond|M", "M", None, one, 0.1), ("fltcond|alpha", "a", "deg", one, 0.0), ("fltcond|h", "h", "m", one, 0.0), ("fltcond|TempIncrement", "T", "degC", one, 0.0),
           ("ac|geom|wing|OAS_mesh", "mesh", "m", lambda o: (int(o["num_x"]) + 1, int(o["num_y"]) + 1, 3), 0.0), ("ac|geom|wing|toverc", "toverc", None, lambda o: (int(o["num_y"]),), 0.12)]
    OUTS = [("fltcond|CL", "CL", None, one), ("fltcond|CD", "CD", None, one), ("sectional_CL", "sec", None, lambda o: (int(o["num_y"]),))]

    def initialize(self):
        self.options.declare("num_x", default=2)
        self.options.declare("num_y", default=6)
        self.options.declare("surf_options", default=None)


class _FakeAS(_Fake):
    FUN = staticmethod(aerostruct)
    INS = FakeVLM.INS[:4] + [("ac|geom|wing|S_ref", "S", "m**2", one, 1.0), ("ac|geom|wing|AR", "AR", None, one, 1.0), ("ac|geom|wing|taper", "taper", None, one, 1.0), ("ac|geom|wing|c4sweep", "sweep", "deg", one, 1.0)] + [
        (f"ac|geom|wing|{n}", k, u, (lambda q: lambda o: (int(o[q]),))(q), 0.0) for n, k, u, q in
        [("twist", "twist", "deg", "num_twist"), ("toverc", "toverc", None, "num_toverc"), ("skin_thickness", "skin", "m", "num_skin"), ("spar_thickness", "spar", "m", "num_spar")]]
    OUTS = [("fltcond|CL", "CL", None, one), ("fltcond|CD", "CD", None, one), ("failure", "failure", None, one), ("ac|weights|W_wing", "W", "kg", one)]

    def initialize(self):
        as_options(self)


def as_options(s):
    for n, v in [("num_x", 2), ("num_y", 6), ("num_twist", 4), ("num_toverc", 4), ("num_skin", 4), ("num_spar", 4), ("surf_options", None)]:
        s.options.declare(n, default=v)


class FakeAerostruct(om.Group):
    def initialize(self):
        as_options(self)

    def setup(self):
        self.add_subsystem("fake", _FakeAS(**{k: self.options[k] for k in ["num_x", "num_y", "num_twist", "num_toverc", "num_skin", "num_spar", "surf_options"]}), promotes=["*"])
        pt = self.add_subsystem("aerostruct_point", om.Group())
        c = pt.add_subsystem("coupled", om.Group())
        c.nonlinear_solver = om.NonlinearBlockGS(iprint=0)
        c.add_subsystem("idle", om.ExecComp("y = x"))


@contextlib.contextmanager
def installed(pool=True):
    """Put the stand-ins in place of the analyses (and of the process pool)."""
    from openconcept.aerodynamics.openaerostruct import CL_max_critical_section as cm
    from openconcept.aerodynamics.openaerostruct import aerostructural as am
    from openconcept.aerodynamics.openaerostruct import drag_polar as dm

    old = [(m, n, getattr(m, n)) for m, n in [(dm, "VLM"), (cm, "VLM"), (am, "Aerostruct"), (multiprocessing, "Pool")]]
    # The data generators of one process have to agree on their surface options (documented): each case starts afresh
    classes = [c for m in (dm, am) for c in vars(m).values() if isinstance(c, type)]
    kept = [(c, c.surf_options) for c in classes if "surf_options" in vars(c)]
    for c, _ in kept:
        del c.surf_options
    try:
        dm.VLM = cm.VLM = FakeVLM
        am.Aerostruct = FakeAerostruct
        if pool:
            multiprocessing.Pool = Pool
            for m in (dm, am):
                if "Pool" in vars(m):
                    old.append((m, "Pool", m.Pool))
                    m.Pool = Pool
        Count.n, Count.fail_at = 0, None
        yield dm, am, cm
    finally:
        for m, n, v in old:
            setattr(m, n, v)
        for c in classes:
            if "surf_options" in vars(c):
                del c.surf_options
        for c, v in kept:
            c.surf_options = v
