"""prints where cargo put the libraries named doodle and log (reads cargo's JSON messages)"""
import json
import sys

for line in sys.stdin:
    try:
        d = json.loads(line)
    except ValueError:
        continue
    if d.get("reason") == "compiler-artifact" and d["target"]["name"] in ("doodle", "log") and "lib" in d["target"]["kind"]:
        for f in d["filenames"]:
            if f.endswith(".rlib"):
                print("VERIF_%s_RLIB=%s" % (d["target"]["name"].upper(), f))
