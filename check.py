#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  --  decides one property by running instrumented builds of /repo's working tree
and watching them with the monitors of /verif/harness.  Exit 0: held on everything explored; exit 1 + VIOLATION line;
exit 2: no answer (the instrumented build or the harness itself failed)."""
import os, sys, json, time, subprocess, tempfile, shutil, collections, re
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build, known
from profiles import PROFILES

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    prof = PROFILES[prop]
    tmp = tempfile.mkdtemp(prefix="bmlv-")
    os.chmod(tmp, 0o777)
    evd = os.path.join(VERIF, "evidence"); os.makedirs(evd, exist_ok=True)
    rpd = os.path.join(evd, "replay"); os.makedirs(rpd, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": prof.get("level", "exploration"),
          "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": prof["rule"], "samples": []}, "assumptions": prof.get("assumptions", []), "wall_s": 0, "violations": 0}
    ev["property"] = prop
    rc = 0
    try:
        res = Result(prop, tier, seed, tmp, rpd)
        for part in prof["parts"]:
            part(res)
        cov = ev["coverage"]
        cov["evaluations"] = res.evals; cov["distinct_nontrivial"] = len(res.distinct); cov["samples"] = res.samples[:6]
        for k, v in sorted(res.counts.items()): cov[k] = v
        cov["operations"] = dict(res.opcount)
        cov["blocked_cases"] = len(res.blocked); cov["blocked_examples"] = res.blocked[:5]
        cov["inconclusive"] = res.inconclusive[:10]
        viol = []
        for f in res.fails:
            k = known.match(prop, f)
            if k: res.known[k] += 1
            else: viol.append(f)
        for k in known.listed(prop): print(f"KNOWN-FINDING: property={prop} {k}")
        cov["known_findings_seen"] = dict(res.known)
        ev["violations"] = len(viol)
        for f in viol[:5]:
            print(f"VIOLATION property={prop} replay={f['replay']}")
            print("  " + f["text"][:1500].replace("\n", "\n  "))
        if viol: rc = 1
        elif res.evals == 0: print("no case ran"); rc = 2
    except build.BuildError as e:
        print("instrumented build failed:\n" + str(e)); ev["coverage"]["build_failed"] = str(e)[-800:]; rc = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(evd, prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{prop} {tier} seed={seed}: evaluations={ev['coverage']['evaluations']} distinct_nontrivial={ev['coverage']['distinct_nontrivial']} violations={ev['violations']} blocked={ev['coverage'].get('blocked_cases')} wall={ev['wall_s']}s exit={rc}")
    sys.exit(rc)

class Result:
    def __init__(self, prop, tier, seed, tmp, rpd):
        self.prop, self.tier, self.seed, self.tmp, self.rpd = prop, tier, seed, tmp, rpd
        self.evals = 0; self.distinct = set(); self.samples = []; self.counts = collections.Counter(); self.opcount = collections.Counter()
        self.fails = []; self.blocked = []; self.inconclusive = []; self.known = collections.Counter(); self.nrep = 0
    def fail(self, text, replay, **kw):
        p = os.path.join(self.rpd, f"{self.prop}-{self.tier}-{self.nrep}.txt"); self.nrep += 1
        with open(p, "w") as f: f.write(replay + "\n\n" + text + "\n")
        self.fails.append(dict(text=text, replay=p, **kw))
if __name__ == "__main__": main()
