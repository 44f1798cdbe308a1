"""Readable reports, known findings, evidence."""
import json, os
from core import *
from collections import Counter

PROPS = {}
with open(os.path.join(VERIF, "properties.jsonl")) as _f:
    for _l in _f:
        _p = json.loads(_l)
        PROPS[_p["id"]] = _p


def plain(x):
    """Code point lists and values as text, recursively."""
    if isinstance(x, list):
        if x and all(isinstance(c, int) and not isinstance(c, bool) for c in x):
            try:
                return U(x)
            except ValueError:
                return x
        return [plain(y) for y in x]
    if isinstance(x, dict):
        if "t" in x and set(x) <= {"t", "b", "dec", "fdec", "s", "l", "m"}:
            try:
                return show(x)
            except Exception:
                return x
        return {k: plain(v) for k, v in x.items()}
    return x


def utf(b):
    try:
        return bytes(b).decode("utf-8", "replace")
    except Exception:
        return b


def readable(c, o, v):
    r = {}
    if "tpls" in c:
        r["templates"] = [{"name": U(t["n"]), "role": t["role"], "source": U(t["s"])} for t in c["tpls"]]
    for k in ("ctx", "src", "fns", "dfmt", "syn", "depth", "rdepth", "tfn", "lim", "wm", "ops", "tree", "a", "b", "threads"):
        if k in c:
            r[k] = plain(c[k])
    r["observed"] = plain(o)
    if isinstance(o, dict) and isinstance(o.get("out"), list):
        r["observed"]["out"] = utf(o["out"])
    e = v.get("exp")
    r["specification"] = plain(e)
    if isinstance(e, dict) and isinstance(e.get("out"), list):
        r["specification"]["out"] = utf(e["out"])
    r["why"] = v.get("why")
    return r


def text(c, o, v):
    r = readable(c, o, v)
    out = ["case %s: %s" % (c["id"], r["why"])]
    for t in r.get("templates", []):
        out.append("  template %s %r: %r" % (t["role"], t["name"], t["source"][:400]))
    for k in ("ctx", "src", "ops", "tree", "a", "b", "lim"):
        if k in r:
            out.append("  %s: %s" % (k, str(r[k])[:400]))
    out.append("  observed:      %s" % str(r["observed"])[:900])
    out.append("  specification: %s" % str(r["specification"])[:900])
    return "\n".join(out)


# ---------------------------------------------------------- known findings
def known(prop):
    """Lines "known: property=<id> id=<key> template=<JSON string> <what fails>" of KNOWN_FINDINGS.txt."""
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % prop):
                d = json.loads(l.split(" ", 2)[2])
                res.append(d)
    return res


def matches(ks, c):
    for k in ks:
        if k.get("case") == c.get("known"):
            return k
    return None


# ---------------------------------------------------------------- evidence
def trim(x, n=600):
    s = json.dumps(x, ensure_ascii=True)
    return json.loads(s) if len(s) <= n * 4 else s[:n * 4]


def evidence(prop, tier, wall, viol, groups, cases, obs, val, spec, times):
    samples = []
    k = 0
    for g, mod, cs in groups:
        for c in cs[:: max(1, len(cs) // 2)][:2]:
            o = next((o for (m, x), o in zip(cases, obs) if x is c), None)
            samples.append({"group": g, "case": trim(readable(c, o if isinstance(o, dict) else {}, {"exp": "accepted", "why": ""}))})
    out = Counter()
    for o in obs:
        if isinstance(o, dict):
            r = o.get("res")
            out[(r.get("r") + ("/" + r.get("kind", "") if r.get("r") == "err" else "")) if isinstance(r, dict) else "other"] += 1
    e = {
        "property": prop, "tier": tier, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": val["distinct"] + sum(m["distinct"] for m in spec),
            "transitions": val["generated"] + sum(m["generated"] for m in spec),
            "traces_validated_against_impl": val["validated"],
            "traces_by_module": val["modules"],
            "actions_exercised": val["actions"],
            "groups": {g: len(cs) for g, _, cs in groups},
            "observed_results": dict(out),
            "models": spec,
            "samples": samples,
            "phases_s": {k: round(v, 1) for k, v in times.items()},
        },
        "assumptions": ["the harness reports faithfully what the crate did (it is a thin driver over the public API)",
                        "TLC evaluates the specification correctly"],
        "wall_s": round(wall, 1), "violations": viol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)
