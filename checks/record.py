"""Developer tool (never run by a check): list the violations of the last run of
a check in known-findings.json, after each has been confirmed as a defect of the
repository.  usage: record.py P10 [key-prefix ...]"""
import json, sys, re, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import VERIF, digest
pid, pre = sys.argv[1], sys.argv[2:]
kf = VERIF + "/known-findings.json"
known = json.load(open(kf))
for g, key, msg in json.load(open("%s/evidence/%s.violation.txt.json" % (VERIF, pid))):
    if pre and not any(key.startswith(p) for p in pre):
        continue
    known.append({"property": pid, "status": "known", "key": key, "digest": digest(msg),
                  "what": re.sub(r"/repo/", "", msg.split(" < ")[0])})
json.dump(known, open(kf, "w"), indent=1)
print(len(known))
