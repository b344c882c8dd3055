"""Source of properties.jsonl and MANIFEST.json (python3 meta/props.py rewrites both)."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "cocotbext/pcie/core/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), level="", technique=""):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why,
              "anchors": {"files": list(files), "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None},
              "_level": level, "_technique": technique})


HYP = "property-based testing: Hypothesis-generated cases in an in-process simulator, "

exec(open(os.path.join(V, "meta", "list.py")).read())


def main():
    have = [p for p in P if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if not k.startswith("_")}
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    m = {"version": 1,
         "setup_cmd": "PYTHONHASHSEED=0 python3-vt harness/selftest.py",
         "checks": [{"property": p["id"],
                     "quick_cmd": "PYTHONHASHSEED=0 python3-vt harness/runner.py %s --tier quick" % p["id"],
                     "thorough_cmd": "PYTHONHASHSEED=0 python3-vt harness/runner.py %s --tier thorough" % p["id"],
                     "technique": p["_technique"], "level": "exploration", "level_note": p["_level"]} for p in have],
         "not_applicable": [{"property": p["id"], "reason": NA[p["id"]]} for p in P if p not in have]}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for l in open(os.path.join(V, "properties.jsonl")):
            jsonschema.validate(json.loads(l), s)
    except ImportError:
        print("jsonschema not available")
    except FileNotFoundError:
        pass
    print(len(P), "properties,", len(have), "checks")


main()
