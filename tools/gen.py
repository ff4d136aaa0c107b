#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and harness/props.json.

usage: python3 tools/gen.py   (rewrites the three files; the checks do not run it)
"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mechanism, harness, level="model_checking",
         technique="stateless model checking of the instrumented implementation (delay-bounded schedules + environment choices)",
         note="", observe=None, state=None, thorough=True):
    assert len(title) <= 80, (id, len(title))
    assert 1 <= len(re.findall(r"[.!?](\s|$)", statement)) <= 3, (id, statement)
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(rec=dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                           why_tests_cant=why, anchors=a),
                  harness=harness, level=level, technique=technique, note=note, thorough=thorough))

SCHED = "stateless model checking of the instrumented implementation: all schedules and environment decisions up to an iterated deviation bound"
ENUM = "bounded exhaustive enumeration (explicit-state) of inputs/operation sequences on the real code against a reference model"
NOTE_SCHED = ("Bounded: every schedule/environment decision sequence within the completed deviation bound of each scenario "
              "(recorded per scenario in the evidence) was executed on the real, instrumented code; trusts the controlled runtime "
              "(channels, locks, timers, network) to model Go's semantics and that goroutine switches matter only at synchronisation operations.")
NOTE_ENUM = ("Bounded: every case of the stated finite spaces was executed on the real code and compared with an independent reference model; "
             "nothing is claimed beyond those spaces. Trusts the reference model.")

exec(open(os.path.join(here, "tools", "props.py")).read())

built = set(d for d in os.listdir(os.path.join(here, "harness")) if os.path.isdir(os.path.join(here, "harness", d)))
checks, na, ph = [], [], {}
for p in P:
    id = p["rec"]["id"]
    hs = [h for h in p["harness"]]
    if hs and all(h in built for h in hs):
        c = {"property": id, "quick_cmd": f"bash run.sh check {id} quick", "thorough_cmd": f"bash run.sh check {id} thorough",
             "technique": p["technique"], "level": p["level"], "level_note": p["note"] or (NOTE_ENUM if p["technique"] == ENUM else NOTE_SCHED)}
        checks.append(c)
        ph[id] = hs
    else:
        na.append({"property": id, "reason": "check not built yet (model checking applies)"})
man = {"version": 1, "setup_cmd": "bash run.sh selftest",
       "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks instrument a scratch copy of /repo's working tree (source-to-source) and build that", "source_commits": []},
       "checks": checks, "not_applicable": na}
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["rec"], ensure_ascii=False) + "\n")
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
json.dump(ph, open(os.path.join(here, "harness", "props.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
