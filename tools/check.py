#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's working tree (see DESIGN.md)."""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from tlc import *
from props import PROPS


def tail(s, n=60):
    return "\n".join(s.splitlines()[-n:])


def known_findings(prop):
    """Lines `known: property=ID <tag> <json args> -- text`."""
    out = []
    try:
        for l in open(VERIF + "/known_findings.txt"):
            if l.startswith("known: property=%s " % prop):
                out.append(l.strip())
    except OSError:
        pass
    return out


def replay(ses, run, viol):
    """Judge one logged call again, in a fresh driver, under the same operator.
    Returns True when the real code fails again."""
    p = ses.dir + "/replay.json"
    with open(p, "w") as f:
        json.dump({"tag": viol["tag"], "args": viol["args"]}, f)
    mod = ("---- MODULE Replay ----\nEXTENDS %s\nRInit == Init\nRNext == UNCHANGED vars\n"
           "RSpec == RInit /\\ [][RNext]_vars\n"
           "RInv == LET rc == ReplayCase(0) IN Check(rc.tag, rc.args)\n====\n") % run["module"]
    cfg = cfg_text("RSpec", run.get("constants"), ["RInv"])
    r = ses.tlc("Replay", cfg, driver=run.get("driver"), race=run.get("race", False), workers=1, replay=p,
                files={"Replay.tla": mod}, timeout=300, call_timeout=run.get("call_timeout"),
                binary=run.get("binary", False))
    if r["complete"]:
        return False, r
    return bool(r["violations"]), r


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ses = Session(prop, tier, seed)
    states = transitions = 0
    calls, counts, samples, runs_info = 0, {}, [], []
    status = 0
    exhaustive = False
    violations = 0
    try:
        for run in PROPS[prop]["runs"](tier, seed):
            consts = run.get("constants")
            cfg = cfg_text(run.get("spec", "Spec"), consts, run.get("invariants", ()), run.get("properties", ()),
                           run.get("extra", ""))
            r = ses.tlc(run["module"], cfg, driver=run.get("driver"), race=run.get("race", False),
                        timeout=run.get("timeout", 3000), workers=run.get("workers"), heap=run.get("heap", "6g"),
                        call_timeout=run.get("call_timeout"), binary=run.get("binary", False), env=None,
                        files=run["files"](ses) if run.get("files") else None)
            states += r["distinct"]
            transitions += max(0, r["states"] - 1)
            for k, v in r["counts"].items():
                counts[k] = counts.get(k, 0) + v
            n = sum(v for k, v in r["counts"].items() if ":" not in k)
            calls += n
            for k, s in r["samples"].items():
                if len(samples) < 12:
                    samples.append({"run": run["name"], "case": s})
            runs_info.append({"run": run["name"], "module": run["module"], "states": r["distinct"],
                              "transitions": r["states"], "calls": n, "wall_s": round(r["wall"], 1),
                              "bounds": {k: str(v)[:200] for k, v in (consts or {}).items()}})
            print("%s %s: %d states, %d calls of the implementation, %.1f s" %
                  (prop, run["name"], r["distinct"], n, r["wall"]), flush=True)
            if r["violations"]:
                viol = r["violations"][0]
                again = False
                for _ in range(3):
                    again, rr = replay(ses, run, viol)
                    if again:
                        break
                if not again:
                    # The recorded answer itself breaks the contract.  An answer the driver gave (a value, an error, a
                    # panic) counts although a fresh process does not repeat it: the failure depends on what the
                    # process did before, or on timing.  A lost driver or an expired call proves nothing by itself.
                    res = viol.get("result")
                    st = res.get("st") if isinstance(res, dict) else None
                    if st not in ("ok", "panic"):
                        print(tail(rr["out"]))
                        raise CheckError("a failing judgement was not reproduced: " + json.dumps(viol)[:2000])
                    print("note: not reproduced by this call alone in a fresh process (depends on history or timing)")
                os.makedirs(VERIF + "/evidence/replays", exist_ok=True)
                path = "%s/evidence/replays/%s.json" % (VERIF, prop)
                with open(path, "w") as f:
                    json.dump({"property": prop, "module": run["module"], "constants": consts,
                               "tag": viol["tag"], "args": viol["args"], "result": viol["result"]}, f, indent=1)
                print("failing call: %s %s -> %s" % (viol["tag"], json.dumps(viol["args"])[:1500],
                                                     json.dumps(viol["result"])[:1500]))
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
                violations, status = 1, 1
                break
            if not r["complete"]:
                print(tail(r["out"]))
                raise CheckError("run %s did not complete (rc=%d)" % (run["name"], r["rc"]))
            for name, least in run.get("expect", {}).items():
                if r["counts"].get(name, 0) >= least:
                    continue
                if name.startswith(("cov:", "info:")):     # depends on choices the implementation is free to make
                    print("note: run %s covered little of %s (%d, usually at least %d)" % (run["name"], name, r["counts"].get(name, 0), least))
                else:
                    raise CheckError("run %s is vacuous: %s = %d < %d" % (run["name"], name, r["counts"].get(name, 0), least))
        if status == 0:
            for l in known_findings(prop):
                name = l.split()[2]
                if counts.get("known:" + name, 0) > 0:
                    print("KNOWN-FINDING: property=%s %s" % (prop, l.split(" ", 2)[2]))
    except CheckError as e:
        print("ERROR property=%s: %s" % (prop, e))
        status = 3
    finally:
        ses.close()
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": transitions, "traces_validated_against_impl": calls,
                       "samples": samples or ["none"], "counters": counts, "runs": runs_info},
          "assumptions": PROPS[prop].get("assumptions", []), "wall_s": round(time.time() - t0, 1),
          "violations": violations}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
        json.dump(ev, f, indent=1)
    sys.exit(status)


main()
