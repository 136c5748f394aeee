import json
ps=[json.loads(l) for l in open('/verif/properties.jsonl')]
how={
"P01":"TLC checks group axioms over all signed permutations (MCSymmetry); the element labels of the code are inferred by TLC from the action on a probe and every table entry is compared",
"P02":"TLC checks coset decompositions of all documented pairs (MCCosets); every subgroup and coset table of the code is judged by the specification",
"P03":"every recorded action on grid signals is compared entry by entry with the action defined in Actions.tla",
"P04":"every recorded action on group signals, on all domain groups, is compared entry by entry with Actions.tla",
"P05":"sampled outputs of recorded calls against the defining sum over group and grid in LayerSem.tla; TLC checks the sum itself (MCConv)",
"P06":"TLC checks over all configurations up to the bound that admissible padding implies equivariance and that refusing is necessary (MCConv, loose, sharp); recorded calls judged on signals and their transforms",
"P07":"as P06 for transposed convolutions; recorded values against LayerSem.tla",
"P08":"TLC checks equivariance of pooling over all small configurations (MCPool); recorded values and equivariance judged",
"P09":"TLC checks invariance of global pooling (MCPool__global); recorded values and invariance judged",
"P10":"TLC checks soundness and minimality of the padding rule (MCPadding); recorded paddings compared exactly",
"P11":"all inferred shapes judged by LayerSem!OutShape",
"P12":"recreated layers (from_config, JSON, saved files, clones) continue as the same layer of the state machine GroCo.tla",
"P13":"TLC explores all interleavings of calls (Threads) and histories (MCLifecycle); its behaviours, with failures injected inside calls, are replayed on the code; concurrent sessions of the code judged",
"P14":"histories generated by TLC from MCLifecycle replayed on the code, every observation judged by GroCo.tla",
"P15":"gradients, counts and penalties of recorded layers against linearity of LayerSem.tla",
"P16":"TLC checks compositions of layers (MCStack); recorded networks judged layer by layer and end to end",
"P17":"the reported deviation against the one the specification computes from the recorded results of the function",
"P18":"TLC checks both formats agree (MCFormat); recorded pairs of layers judged",
"P19":"acceptance decided by Admissible/GConstructible of the specification for recorded misuse and spellings",
"P20":"TLC checks the laws of the axis operations (MCAxes); recorded results compared entry by entry with Axes.tla",
"P21":"compiled, symbolic and batched calls judged as the same Call action; recorded training against the gradient that LayerSem.tla implies",
}
m=dict(version=1,setup_cmd="./setup.sh",
 checks=[dict(property=p["id"],quick_cmd=f"./check {p['id']}",thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}",
   evidence_file=f"evidence/{p['id']}.json",technique="TLA+ specification checked with TLC, traces of the real code validated against it",
   level="model_checking",level_note=how[p["id"]]+". The models are exhaustive within their bounds; the code is bound by sampled sessions (random from VERIF_SEED), each judged by TLC. Trusts TLC, NumPy recording, and the installed Keras/JAX primitives.")
   for p in ps if p["id"] in how],
 not_applicable=[dict(property=p["id"],reason="not built yet") for p in ps if p["id"] not in how],
 notes="No hooks in /repo: everything is observed through the public interface. Known findings: known_findings.json. See DESIGN.md.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
