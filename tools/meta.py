#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/meta.py"""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      technique=technique, note=note, na=na, state=state, observe=observe))


exec(open(os.path.join(V, "tools", "props_def.py")).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["state"]:
                a["state"] = p["state"]
            if p["observe"]:
                a["observe_at"] = [p["observe"]]
            fh.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                     quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                                     anchors=a)) + "\n")
    m = dict(version=1, setup_cmd="python3 -c 'import sys; sys.exit(0)'", checks=[], not_applicable=[])
    for p in PROPS:
        if p["na"]:
            m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
        else:
            m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                                    thorough_cmd="python3 check.py %s thorough" % p["id"], technique=p["technique"],
                                    level="other", level_note=p["note"]))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


main()
