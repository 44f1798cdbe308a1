#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]      decide one property on /repo's working tree
check.py --replay FILE                         run one recorded violation again"""
import json, os, sys, time, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, checks, report, models
from core import ToolError, VERIF, SEED


def expand(c, o):
    """The renders of a concurrent case, each as a case of its own: (case, observation, stable)."""
    if "threads" not in c:
        return [(c, o, True)]
    r = []
    for i, th in enumerate(c["threads"]):
        for j, req in enumerate(th):
            k = {x: y for x, y in c.items() if x not in ("threads", "obs")}
            k.update(req)
            k["id"] = "%s/%d/%d" % (c["id"], i + 1, j + 1)
            k["of"] = c["id"]
            x = dict(o["threads"][i][j])
            r.append((k, x, x.pop("stable")))
    return r


UNSHARED = {"why": "the engine cannot be shared between threads (it is no longer Sync)", "exp": {}}
UNSTABLE = {"why": "repeating the render on the same thread gave another result", "exp": {}}


def decide(prop, tier):
    t0 = time.time()
    big = tier == "thorough"
    work = os.path.join(core.WORK, prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    exe = core.build_harness()
    t1 = time.time()
    groups = list(checks.GROUPS[prop](checks.rng(prop), big)) if prop in checks.GROUPS else []
    # what TLC found exploring the models of this property; behaviours it generated come back as cases
    spec = models.run(prop, big, work)
    groups += spec["groups"]
    cases = []
    for g, mod, cs in groups:
        for i, c in enumerate(cs):
            c["id"] = "%s/%s/%d" % (prop, g.replace(" ", "_"), i)
            cases.append((mod, c))
    t2 = time.time()
    obs = core.run_harness(exe, [c for m, c in cases if not m.startswith("Plain:")])
    if len(obs) < len(cases):           # against the crate without its "unicode" feature, if there is such a build
        plain = core.build_harness(plain=True)
        cases = [x for x in cases if not x[0].startswith("Plain:")] + [x for x in cases if x[0].startswith("Plain:")]
        obs += core.run_harness(plain, [c for _, c in cases[len(obs):]]) if plain else [None] * (len(cases) - len(obs))
    t3 = time.time()
    bad, live = [], {}
    for (mod, c), o in zip(cases, obs):
        if o is None:           # not run: too many deaths before
            continue
        if "dead" in o:
            bad.append((c, o, {"why": {"abort": "the process was killed or aborted", "hang": "the process did not answer"}.get(o["dead"], o["dead"]), "exp": {}}))
            continue
        if "notshared" in o:
            bad.append((c, o, UNSHARED))
            continue
        for k, x, stable in expand(c, o):
            if not stable:
                bad.append((c, o, UNSTABLE))
            else:
                live.setdefault(mod, []).append(dict(k, obs=x))
    n, gen, dist, acts, ran = 0, 0, 0, {}, {}
    for mod, cs in live.items():
        if mod == "Replay":     # behaviours printed by a model
            n += len(cs)
            ran[mod] = len(cs)
            for c in cs:
                o = c.pop("obs")
                why = models.replayed(c, o)
                if why:
                    bad.append((c, o, {"why": why, "exp": c["exp"]}))
            continue
        v, st = core.validate(cs, os.path.join(work, mod), module=mod.replace("Plain:", ""), plain=mod.startswith("Plain:"))
        n += len(v)
        ran[mod] = len(v)
        gen += st["generated"]
        dist += st["distinct"]
        for a, k in st["actions"].items():
            acts[a] = acts.get(a, 0) + k
        for i in sorted(v):
            if v[i]["verdict"] != "ACCEPT":
                o = cs[i].pop("obs")
                k = cs[i] if "of" not in cs[i] else dict(next(x for _, x in cases if x["id"] == cs[i]["of"]), part=cs[i]["id"])
                bad.append((k, o, v[i]))
    t4 = time.time()
    known = report.known(prop)
    viol, kn = [], []
    for c, o, v in bad:
        k = report.matches(known, c)
        (kn if k else viol).append((c, o, v, k))
    for k in {k["id"]: k for _, _, _, k in kn}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rd = os.path.join(core.WORK, "replay")
    os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rd, f))
    for i, (c, o, v, _) in enumerate(viol[:5]):
        p = os.path.join(rd, "%s-%d.json" % (prop, i + 1))
        with open(p, "w") as f:
            json.dump({"property": prop, "module": next(m for m, x in cases if x["id"] == c["id"]), "case": c, "observed": o, "verdict": v, "readable": report.readable(c, o, v)}, f, indent=1)
        print(report.text(c, o, v))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    wall = time.time() - t0
    report.evidence(prop, tier, wall, len(viol), groups, cases, obs, dict(generated=gen, distinct=dist, actions=acts, validated=n, modules=ran),
                    spec["evidence"], dict(build=t1 - t0, models_and_generation=t2 - t1, harness=t3 - t2, validation=t4 - t3))
    print("%s %s: %d cases in %d groups, %d traces validated, %d states; %d violations; %.1f s (build %.1f, models %.1f, harness %.1f, validation %.1f)" %
          (prop, tier, len(cases), len(groups), n, dist, len(viol), wall, t1 - t0, t2 - t1, t3 - t2, t4 - t3))
    shutil.rmtree(work, ignore_errors=True)
    return 1 if viol else 0


def replay(path):
    r = json.load(open(path))
    plain = r["module"].startswith("Plain:")
    r["module"] = r["module"].replace("Plain:", "")
    exe = core.build_harness(plain)
    o = core.run_harness(exe, [r["case"]], jobs=1)[0]
    if "dead" in o or "notshared" in o:
        print(o)
        return 1
    if r["module"] == "Replay":
        why = models.replayed(r["case"], o)
        print(report.text(r["case"], o, {"why": why, "exp": r["case"]["exp"]}))
        print("REJECT" if why else "ACCEPT")
        return 1 if why else 0
    es = expand(r["case"], o)
    v, _ = core.validate([dict(c, obs=x) for c, x, _ in es], os.path.join(core.WORK, "replaying"), module=r["module"], plain=plain)
    bad = 0
    for i, (c, x, stable) in enumerate(es):
        bad += v[i]["verdict"] != "ACCEPT" or not stable
        print(report.text(c, x, v[i]))
        print(v[i]["verdict"] if stable else "NOT REPEATABLE")
    return 1 if bad else 0


if __name__ == "__main__":
    a = sys.argv[1:]
    try:
        if a[:1] == ["--replay"]:
            sys.exit(replay(a[1]))
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick") or "quick"
        sys.exit(decide(a[0], "thorough" if tier == "thorough" else "quick"))
    except ToolError as e:
        print("ERROR:", e)
        sys.exit(2)
