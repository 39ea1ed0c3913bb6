#!/usr/bin/env python3
"""Single source of the property texts: writes properties.jsonl, MANIFEST.json and bin/props.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
def P(id, title, statement, over, text, why, files, mech, rule, assumptions, observe, note, technique="runtime monitor on randomised API histories (ASan+UBSan build), independent oracle", **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, rule=rule,
                      assumptions=assumptions, observe=observe, note=note, technique=technique, **kw))
exec(open(os.path.join(V, "tools", "props_text.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        json.dump(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                       why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                                            observe_at=p["observe"], hook_needed=None)), f)
        f.write("\n")
man = dict(version=1, setup_cmd="python3 bin/build.py asan tsan" if any(p.get("flavour") == "tsan" for p in PROPS) else "python3 bin/build.py asan",
           hooks=dict(guard="none", enable="no hooks: the checks compile /repo's own sources with sanitizers and observe through the public API", source_commits=[]),
           checks=[dict(property=p["id"], quick_cmd="VERIF_TIER=quick python3 bin/check.py " + p["id"],
                        thorough_cmd="VERIF_TIER=thorough python3 bin/check.py " + p["id"],
                        evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration", level_note=p["note"]) for p in PROPS],
           not_applicable=[], notes="See DESIGN.md. Every check rebuilds the monitored binary from /repo's working tree (ccache in .cache).")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
pr = {}
for p in PROPS:
    pr[p["id"]] = dict(rule=p["rule"], assumptions=p["assumptions"], **{k: p[k] for k in ("flavour", "env", "shards", "min_distinct") if k in p})
json.dump(pr, open(os.path.join(V, "bin", "props.json"), "w"), indent=1)
print(len(PROPS), "properties")
