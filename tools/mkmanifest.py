"""Regenerates /verif/MANIFEST.json from the property modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "online reference-model monitor (80-bit definitional oracle) on generated executions",
 "C02": "online reference-model monitor (80-bit definitional oracle) on generated executions",
 "C03": "online reference-model monitor (literal extend/detrend/reflect oracle) on generated executions",
 "C04": "online reference-model monitor (window extremes oracle) on generated executions",
 "C05": "metamorphic monitor: paired executions under transformations",
 "C06": "cross-estimator relation monitor on paired executions",
 "C07": "metamorphic monitor: paired phase/frequency executions and converter oracles",
 "C08": "monitor of requests against an independent selection oracle",
 "C09": "state-snapshot, repetition, aliasing and thread-stress monitors",
 "C10": "online trace checker: streaming object against batch oracle after every sample",
 "C11": "online reference-model monitor under injected gap patterns",
 "C12": "reference-model and algebraic relation monitors",
 "C13": "inverse-CDF residual monitor and seeded coverage statistics",
 "C14": "independent Greenhall/SP1065 reimplementation plus exact quadratic-form oracle",
 "C15": "reference recursion monitor and seeded identification statistics on simulated noise",
 "C16": "inverse-filter (whitening) monitors and Parseval oracle on generated series",
 "C17": "inverse-filter (whitening) monitor on generated series and seeded statistics",
 "C18": "numerical transfer-function integral oracle and seeded statistics",
 "C19": "numerical quadrature oracle and metamorphic relations",
 "C20": "closed-form integral oracle and round-trip monitor",
 "C21": "seeded spectral-ratio monitor on synthesised series",
 "C22": "stateful history checker over datasets, parsed result files and figure artists",
 "C23": "table oracle swept over averaging times incl. boundaries",
 "C24": "refusal monitor under hostile input and sanity monitor of everything returned",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python run.py %s" % i,
                           thorough_cmd="VERIF_TIER=thorough /opt/venv/bin/python run.py %s" % i,
                           evidence_file="evidence/%s.json" % i, technique="runtime monitoring: " + T[i],
                           level="exploration",
                           level_note="The property held on every monitored execution of the real library listed in the evidence file; "
                                      "inputs are generated from VERIF_SEED. Trusts the reference oracle in /verif, numpy/scipy and IEEE arithmetic."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python tools/selftest.py", checks=checks, not_applicable=na,
               notes="No hooks are needed: the monitors observe the public interface from outside."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
