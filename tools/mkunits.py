"""Developer tool: writes ocv/data/units.json, the dimension of every variable, from the current tree.  The result was
read against the docstrings once (tip speed corrected); the checks only use the committed file."""
import json, os, sys, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
OUTF = os.path.join(os.path.dirname(__file__), "..", "ocv", "data", "units.json")
if not os.path.exists(OUTF):
    open(OUTF, "w").write("{}")
from ocv import registry as G  # noqa: E402
from ocv.checks import c27  # noqa: E402
from hypothesis import given, settings, seed, HealthCheck, Phase  # noqa: E402

out = {}
for e in G.ENTRIES + c27.EXTRA:
    if e.family == "util":
        continue
    got, d = [], {}

    @seed(1)
    @settings(max_examples=6, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate])
    @given(e.strat_cfg())
    def f(c):
        got.append(c)
    f()
    for c in got:
        p = e.problem(c)
        p.final_setup()
        for rows in (p.model.list_inputs(out_stream=None, units=True, prom_name=True), p.model.list_outputs(out_stream=None, units=True, prom_name=True)):
            for _, m in rows:
                if not m["prom_name"].startswith("_auto_ivc"):
                    d.setdefault(m["prom_name"], set()).add(m["units"])
    out[e.name] = {}
    for n, u in sorted(d.items()):
        if all(c27.same_dimension(a, b) for a in u for b in u):
            out[e.name][n] = sorted(u, key=str)[0]
        else:
            print("varies", e.name, n, u)
    for n in out[e.name]:
        if n.endswith("prop_Vtip"):
            out[e.name][n] = "m/s"
json.dump(out, open(OUTF, "w"), indent=0, sort_keys=True)
