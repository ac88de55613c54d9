"""Writes MANIFEST.json: a check for every property that has a module in ocv/checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = dict(
    C01="Generated configurations and points for every shipped component and group; supplied derivatives against Richardson-extrapolated central differences of the real compute. Trusts OpenMDAO's assembly of totals; points where the difference quotient does not converge (kinks, solver noise) are counted and skipped.",
    C02="Generated integrator configurations and histories against an independent reference integrator plus exactness, linearity and unit relations.",
    C03="Generated segment layouts against a segment-by-segment reference.",
    C04="Generated polynomials up to the stated order, exactness at every node.",
    C05="Generated equation systems with mixed sizes and units against direct numpy evaluation; malformed requests must be refused.",
    C06="Generated mixed-altitude vectors against the closed-form 1976 standard atmosphere and gas-law definitions.",
    C07="Generated aircraft, profiles and propulsion; converged missions re-derived from their outputs by independent flight mechanics.",
    C08="Generated takeoff problems; converged phases checked against equations of motion re-derived from their outputs.",
    C09="Generated group trees with tagged states against a reference model of integration and linking.",
    C10="Generated vectors for every vectorised component: joint evaluation against node-by-node evaluation, permutation and extension.",
    C11="Generated operating points and options against power balance and published laws; propeller maps against an independent copy of the published tables.",
    C12="Generated inputs for every assembled propulsion system; balances recomputed from its outputs.",
    C13="Generated operating points and options; energy and mass balances and bounds recomputed independently.",
    C14="Generated heat exchangers and ducts; energy balance, isentropic relations and correlations recomputed independently.",
    C15="Generated load histories against an independent energy ledger.",
    C16="Generated flow histories and tank designs against an independent mass ledger and pressure-vessel formulas.",
    C17="Generated planforms and meshes against polygon geometry computed independently.",
    C18="Generated aircraft parameters against independent evaluation of the published regressions.",
    C19="Generated configurations against independent drag build-ups.",
    C20="Generated small VLM problems: training data against direct analysis, over sequences of changes.",
    C21="Generated operating points; deck reproduction, continuity and scaling relations.",
    C22="Generated mission and aircraft data against the documented cost formulas.",
    C23="Generated histories of evaluations on one problem against a fresh problem at the last point.",
    C24="Generated missions; total derivatives against re-solved perturbed missions.",
    C25="Generated trajectories; every drawn curve read back from matplotlib and compared.",
    C26="Generated nested dictionaries and relabelled variables against direct look-up.",
    C27="Metamorphic: every shipped component, system and utility is evaluated twice on the same physical values, in its own units and in randomly drawn compatible ones (set or connected), and the results compared in randomly drawn units; dimensions against a table.",
    C28="Generated requests, well-posed or with one defect, and operating vectors with an offending value at a generated node; refusals and warnings compared with the documented limits, in both directions.",
)
TECH = "property-based testing (Hypothesis generators, independent oracle, shrinking to a JSON replay)"
claimed, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "ocv", "checks", i.lower() + ".py")):
        claimed.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i, technique=TECH,
                            level="exploration", level_note=NOTE[i], evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="bash -c '. ./env.sh && /opt/venv/bin/python -c \"import hypothesis, openmdao\"'", checks=claimed, not_applicable=na,
         notes="Every check imports openconcept from /repo's working tree (editable install); nothing is compiled. known_findings.json lists findings and repairs.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed,", len(na), "not")
