"""Small trajectories made from a component under test and given time histories."""
import numpy as np
import openmdao.api as om
from openconcept.mission import PhaseGroup, TrajectoryGroup


def chain(make, inputs, phases, extra=None, link=True):
    """Problem with phases p0, p1, ... each holding `make()` as subsystem "x" (all promoted).

    inputs: names fed per node; phases: list of dict(duration=, <input>=(values, units)).
    """
    nn = len(np.atleast_1d(phases[0][inputs[0]][0]))

    class Ph(PhaseGroup):
        def initialize(self):
            self.options.declare("num_nodes", default=nn)
            self.options.declare("data")

        def setup(self):
            d = self.options["data"]
            iv = self.add_subsystem("iv", om.IndepVarComp(), promotes_outputs=["*"])
            iv.add_output("duration", val=d["duration"], units="s")
            for k in inputs:
                iv.add_output(k, val=np.asarray(d[k][0], dtype=float), units=d[k][1])
            self.add_subsystem("x", make(), promotes=["*"])

    class Tr(TrajectoryGroup):
        def setup(self):
            ph = [self.add_subsystem("p%d" % i, Ph(num_nodes=nn, data=d), promotes_inputs=list(extra or [])) for i, d in enumerate(phases)]
            if link:
                for a, b in zip(ph, ph[1:]):
                    self.link_phases(a, b)

    p = om.Problem(Tr(), reports=False)
    p.setup(check=False)
    return p
