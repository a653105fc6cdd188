"""C24: liquid hydrogen tank."""
import itertools

import numpy as np

from mc import catalog as C
from mc.cat_hydrogen import HYDROGEN as ENTRIES, tank, volume
from mc.omx import om

PROPERTY = "C24"
LEVEL = "exploration"
RULE = C.VALUE_RULE + " Missions: every sequence of one to three linked phases, each with one of the listed flow histories, carries the liquid left over from phase to phase; total mass is the initial mass less what was drawn."
BOUNDS = C.VALUE_BOUNDS + "; phases <= 3, 3 flow histories, 1/3/5 nodes, two tank sizes"
ASSUMPTIONS = C.VALUE_ASSUMPTIONS
_shards, _run = C.value_check(ENTRIES)


def shards(tier):
    return _shards(tier) + [(f"phases[n={n},cfg={c}]", dict(phases=n, fill=c)) for n in ((3, 5, 7) if tier == "thorough" else (3, 5)) for c in (None, 0.6)]


def run(ctx, prm):
    if "phases" in prm:
        return phases(ctx, prm["phases"], prm["fill"])
    return _run(ctx, prm)


def phases(ctx, nn, fill):
    from openconcept.energy_storage.hydrogen.LH2_tank_no_boil_off import LH2TankNoBoilOff
    from openconcept.mission.mission_groups import PhaseGroup, TrajectoryGroup

    kw = {} if fill is None else dict(fill_level_init=fill)
    flows = [lambda s: 0.0 * s, lambda s: 0.02 + 0.05 * s**2, lambda s: -0.01 + 0.03 * s]
    areas = [0.0, 0.02 + 0.05 / 3, -0.01 + 0.015]
    s = np.linspace(0, 1, nn)

    class Phase(PhaseGroup):
        def setup(self):
            self.add_subsystem("ivc", om.IndepVarComp("duration", val=1.0, units="s"), promotes_outputs=["duration"])
            self.add_subsystem("tank", LH2TankNoBoilOff(num_nodes=nn, **kw), promotes_inputs=["*"], promotes_outputs=["*"])

    class Traj(TrajectoryGroup):
        def initialize(self):
            self.options.declare("k")

        def setup(self):
            ph = [self.add_subsystem(f"ph{i}", Phase(num_nodes=nn)) for i in range(self.options["k"])]
            for a, b in zip(ph, ph[1:]):
                self.link_phases(a, b)

    for k in (1, 2, 3):
        p = om.Problem(reports=False)
        p.model = Traj(k=k)
        p.setup(check=False)
        for r, L in ((1.0, 0.5), (0.6, 2.0)):
            for i in range(k):
                for n, v, u in (("radius", r, "m"), ("length", L, "m"), ("vacuum_gap", 5.0, "cm"), ("N_layers", 20.0, None), ("environment_design_pressure", 1e5, "Pa"), ("max_expected_operating_pressure", 3e5, "Pa")):
                    p.set_val(f"ph{i}.{n}", v, units=u)
                p.set_val(f"ph{i}.duration", 1000.0 * (i + 1), units="s")
            w = tank({}, dict(radius=r, length=L, vacuum_gap=0.05, N_layers=20.0, environment_design_pressure=1e5, max_expected_operating_pressure=3e5))
            for word in itertools.product(range(3), repeat=k):
                for i, f in enumerate(word):
                    p.set_val(f"ph{i}.m_dot_liq", flows[f](s), units="kg/s")
                p.run_model()
                ctx.ev()
                ctx.state((nn, fill, k, r, word))
                m0 = (0.95 if fill is None else fill) * 70.85 * volume(r, L)
                left = m0
                for i, f in enumerate(word):
                    m = p.get_val(f"ph{i}.m_liq", units="kg")
                    d = 1000.0 * (i + 1)
                    key = f"LH2TankNoBoilOff:phases{k}"
                    ctx.close(key + ":start", m[0], left, 1e-10, 1e-10, f"phase {i} of flows {word} starts with the liquid left by the one before", flows=word)
                    left = left - d * areas[f]
                    ctx.close(key + ":end", m[-1], left, 1e-10, 1e-10, f"phase {i} of flows {word} ends with what was not drawn", flows=word)
                    ctx.close(key + ":total", p.get_val(f"ph{i}.total_weight", units="kg"), m + w, 1e-10, 1e-10, "tank and liquid weight", flows=word)
                    ctx.close(key + ":fill", p.get_val(f"ph{i}.fill_level"), m / 70.85 / volume(r, L), 1e-10, 1e-12, "fill level", flows=word)
                    ctx.outcome(m[-1])
