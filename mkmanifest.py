"""writes MANIFEST.json from the table below (python3 mkmanifest.py)"""
import json
import os

CHECKS = {}
NA = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "manifest_table.py")).read())

if __name__ == "__main__":
    d = os.path.dirname(os.path.abspath(__file__))
    ids = [json.loads(l)["id"] for l in open(os.path.join(d, "properties.jsonl"))]
    out = dict(version=1, setup_cmd="python3 setup_check.py", checks=[], not_applicable=[],
               notes="Pure standard-library Python; every check re-reads and re-interprets /repo's sources.")
    for i in ids:
        if i in CHECKS:
            t, n = CHECKS[i]
            out["checks"].append(dict(property=i, quick_cmd="python3 checks/run.py %s quick" % i,
                                      thorough_cmd="python3 checks/run.py %s thorough" % i,
                                      technique=t, level="other", level_note=n))
        else:
            out["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
    json.dump(out, open(os.path.join(d, "MANIFEST.json"), "w"), indent=1)
