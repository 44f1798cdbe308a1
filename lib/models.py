"""The models TLC explores for a property, and the behaviours they generate."""
import itertools, math
from collections import Counter
from core import *
from gen import *


def explore(name, module, work, env=None, workers=8, timeout=800, cfg=None, heap="6g"):
    """TLC explores a model exhaustively; returns (printed values, evidence).  A violated invariant is an error of
    the specification, not of the code: it is reported as a failure to run."""
    t = time.time()
    rc, out = tlc(module + ".tla", (cfg or module) + ".cfg", os.path.join(work, name.replace(" ", "_")), env, workers, timeout, heap=heap)
    m = STATS.findall(out)
    if rc != 0 or not m:
        tail = "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting", "\"{")) and len(l) < 3000)
        raise ToolError("model %s: TLC exits %d\n%s" % (name, rc, tail[-4000:]))
    gen, dist = map(int, m[-1])
    vs = list(printed(out))
    return vs, {"model": name, "module": module, "generated": gen, "distinct": dist, "behaviours": len(vs), "seconds": round(time.time() - t, 1),
                "invariants": invariants(cfg or module)}


def invariants(cfg):
    r = []
    for l in open(os.path.join(SPEC, cfg + ".cfg")):
        w = l.split()
        if w and w[0] in ("INVARIANT", "INVARIANTS", "PROPERTY", "PROPERTIES"):
            r += w[1:]
    return r


# ------------------------------------------------------------------------ E01
def engine_case(ops, engines=None, f32=()):
    ops = [dict(o) for o in ops]
    for o in ops:
        if o["op"] == "render":
            for k, v in dict(n=[], slot=0, src="from", lim=-1, rdepth=-1, tfn=False, tfnm=[], twice=False, wm={"short": 0, "intr": 0, "zero": False}).items():
                o.setdefault(k, v)
    return {"id": "", "mode": "engine", "engines": engines or [{"syn": DEFSYN, "defsyn": True}], "ops": ops, "f32": list(f32),
            "ftab": float_table([o["s"] for o in ops if "s" in o])}


def e01(big, work):
    vs, ev = explore("engine histories", "MCEngine", work, {"MAXLEN": "4" if big else "3"})
    dom = next(v["domain"] for v in vs if "domain" in v)
    ctx = vm({"v": vs_("V")})
    cs = []
    for v in vs:
        if "h" not in v:
            continue
        ops = [dom[k - 1] for k in v["h"]]
        ncomp = sum(o["op"] == "compile" for o in ops)
        probe = [{"op": "gett", "e": 1, "n": T(n)} for n in "ab"] + [{"op": "render", "e": 1, "n": T(n), "ctx": ctx} for n in "ab"]
        probe += [{"op": "render", "e": 1, "slot": k + 1, "ctx": ctx} for k in range(min(ncomp, 1))]
        probe += [{"op": "compile", "e": 1, "s": T("{{ v | f }}{{ v }}")}, {"op": "render", "e": 1, "slot": ncomp + 1, "ctx": ctx}]
        cs.append(engine_case(ops + probe))
    return {"groups": [("all histories", "EngineTrace", cs)], "evidence": [ev]}


# ------------------------------------------------------------------------ E02
def shared(r):
    """An engine with templates, and requests against it that exercise different features."""
    rec = '{{ d }}{% include "rec" %}'
    tpls = [tpl('{{ a | f | w }}{% include "p" %}', "A", "reg"),
            tpl('{% for x in l %}{{ loop.index | w }}{% if loop.last %}{{ x }}{% endif %}{% endfor %}', "B", "reg"),
            tpl('{{ a }}{% with m.k as a %}{{ a | f }}{% endwith %}'),
            tpl(rec, "rec", "reg"),
            tpl('{{ a }}{{ b | may }}{{ a | w }}', "E", "reg"),
            tpl('<{% include "q" %}{% include "q" with m %}>'),
            tpl('{% for k, v in m %}{{ k }}{% include "p" with m %}{% endfor %}'),
            tpl('[{{ a }}]', "p", "reg"),
            tpl('({{ k }})', "q", "tfn")]
    fns = [flt("f", ["value"]), flt("may", ["value"], "failf", msg="no b"), fmt("w", "wrap", tag="w")]
    def ctx(x):
        return vm({"a": vs("a" + x), "b": NONE if x == "2" else vi(1), "d": vi(7), "l": vl([vs("l" + x), vi(5)][: 1 if x == "2" else 2]), "m": vm({"k": vs("k" + x), "a": vs("ma" + x)}), "k": vs("K" + x)})
    def req(main, x, **kw):
        q = {"main": main, "ctx": ctx(x), "src": "from", "tfn": False, "rdepth": -1, "lim": -1, "wm": {"short": 0, "intr": 0, "zero": False}}
        q.update(kw)
        return q
    reqs = lambda x: [req(1, x), req(2, x), req(3, x, src="fn"), req(4, x, rdepth=2), req(5, x), req(6, x, tfn=True), req(7, x, src="serde")]
    return case(tpls, 0, vm({}), fns=fns, dfmt=dfmt("dbg")), reqs


def divmod_pair(cid, n):
    return [(i, j) for i in range(n) for j in range(i, n)][cid - 1]


def multinomial(ns):
    r = math.factorial(sum(ns))
    for x in ns:
        r //= math.factorial(x)
    return r


def e02(big, work):
    r = R("E02/%d" % SEED)
    base, reqs = shared(r)
    a, b, c = reqs("1"), reqs("2"), reqs("3")
    pairs = [[a[i], b[j]] for i in range(len(a)) for j in range(i, len(b))]
    systems = [dict(base, mode="sched", threads=[[x] for x in p]) for p in pairs]
    path = os.path.join(work, "systems.json")
    with open(path, "w") as f:
        json.dump(systems, f)
    vs, ev = explore("interleavings", "MCConcurrent", work, {"CASES": path, "STEPS": "all"})
    evs = [ev]
    if big:
        # how often each request calls user code, and triples with a manageable number of interleavings
        n = {}
        for v in vs:
            i, j = divmod_pair(v["cid"], len(a))
            n[i], n[j] = v["sched"].count(1), v["sched"].count(2)
        tri = [t for t in itertools.combinations_with_replacement(range(len(a)), 3) if multinomial([n[k] for k in t]) <= 40000]
        tri = r.sample(tri, min(len(tri), 30))
        three = [dict(base, mode="sched", threads=[[a[i]], [b[j]], [c[k]]]) for i, j, k in tri]
        path3 = os.path.join(work, "systems3.json")
        with open(path3, "w") as f:
            json.dump(three, f)
        vs3, ev3 = explore("interleavings of three", "MCConcurrent", work, {"CASES": path3, "STEPS": "calls"})
        vs += [dict(v, cid=v["cid"] + len(systems)) for v in vs3]
        systems += three
        evs.append(ev3)
    seen, cs = set(), []
    for v in vs:
        k = (v["cid"], tuple(v["sched"]))
        if k not in seen:
            seen.add(k)
    keep = sorted(seen)
    limit = 700 if not big else 12000
    if len(keep) > limit:       # an even share of every system
        by = {}
        for k in keep:
            by.setdefault(k[0], []).append(k)
        share = limit // len(by)
        keep = [k for l in by.values() for k in (l if len(l) <= share else r.sample(l, share))]
    for cid, sched in keep:
        cs.append(dict(systems[cid - 1], schedule=list(sched)))
    ev["schedules"], ev["imposed"] = len(seen), len(cs)
    nest = []
    for x in a:
        for y in b:
            for at in range(1, 7 if big else 5):
                nest.append(dict(base, mode="nest", threads=[[x], [y]], at=at))
            for at in (1, 2, 3) if not big else range(1, 9):
                nest.append(dict(base, mode="nest", threads=[[x], [y]], at=at, writes=True))
    return {"groups": [("interleavings of renders", "Trace", cs), ("renders within renders", "Trace", nest)], "evidence": evs}


# ------------------------------------------------------------------- programs
def kind_of(s):
    """Which block a piece opens or closes; "" if what it opens it closes itself."""
    tags = re.findall(r"\{%-? *(if|else if|else|endif|for|endfor|with|endwith)\b", s)
    if len(tags) == 1:
        return {"else if": "elif"}.get(tags[0], tags[0])
    if sum(t in ("if", "for", "with") for t in tags) != sum(t.startswith("end") for t in tags):
        raise ToolError("piece with several block tags that is not closed: " + s)
    return ""


def env(ctx, src="from", rdepth=-1, tfn=False, lim=-1):
    return dict(ctx=ctx if "t" in ctx else vm(ctx), src=src, rdepth=rdepth, tfn=tfn, lim=lim)


def programs(name, work, vocab, maxlen, envs, tpls=(), fns=(), df=None, errors=False, cl=False, cn=False, minlen=1, keep=None, r=None, timeout=800, merge=False):
    """All templates of up to maxlen pieces, explored by TLC; the behaviours as cases to be replayed.  merge: there
    are pieces that are no whole tags (the count of the blocks by pieces is left out)."""
    df = df or BUILTIN
    model = {"syn": DEFSYN, "vocab": [{"s": T(s), "k": kind_of(s)} for s in vocab], "maxlen": maxlen, "minlen": minlen, "errors": errors,
             "tpls": [{"n": T(n), "s": T(s)} for n, s in tpls], "fns": list(fns), "dfmt": df, "envs": envs, "ftab": float_table([T(v) for v in vocab])}
    path = os.path.join(work, name.replace(" ", "_") + ".json")
    with open(path, "w") as f:
        json.dump(model, f)
    vs, ev = explore(name, "MCProgram", work, {"MODEL": path}, timeout=timeout, cfg="MCProgramParts" if merge else None)
    ev["vocabulary"], ev["pieces"], ev["configurations"] = len(vocab), maxlen, len(envs)
    ended = Counter(v["res"]["r"] for v in vs)
    ev["results"] = dict(ended)
    if keep and len(vs) > keep:
        vs = r.sample(vs, keep)
    cs = []
    for v in vs:
        e = envs[v["e"] - 1] if v["e"] else envs[0]
        role = "tfn" if e["tfn"] else "reg"
        c = case([tpl("".join(vocab[k - 1] for k in v["w"]))] + [tpl(s, n, role) for n, s in tpls], 1, e["ctx"], fns=list(fns), dfmt=df, src=e["src"], rdepth=e["rdepth"], tfn=e["tfn"], lim=e["lim"], cl=cl, cn=cn)
        c["exp"] = {"out": v["out"], "calls": v["calls"], "res": v["res"]}
        cs.append(c)
    return (name, "Replay", cs), ev


def replayed(c, o):
    """Does observation o show the behaviour the model printed for case c?  "" or what differs."""
    x = c["exp"]
    t, res, e = o["tpls"][0], o["res"], x["res"]
    if e["r"] == "err" and e["kind"] == "syntax":
        if t["r"] != "err" or t["kind"] != "syntax":
            return "compile"
        if c["cl"] and not located(e["at"], t["loc"]):
            return "location"
        return "" if res["r"] == "none" else "nothing to render"
    if t["r"] != "ok":
        return "compile"
    if o["out"] != x["out"]:
        return "output"
    if o["calls"] != x["calls"]:
        return "calls"
    if res["r"] != e["r"]:
        return "result"
    if not o["same"] or o["after"]:
        return "second render or writes after a failure"
    if e["r"] == "err":
        if res["kind"] != e["kind"] or e["hasmsg"] and res["msg"] != e["msg"]:
            return "error"
        if e["kind"] == "io" and U(res["src"]) != ("failed to write whole buffer|WriteZero" if c["wm"]["zero"] else "disk full|BrokenPipe"):
            return "cause"
        if c["cl"] and e["loc"] and not located(e["at"], res["loc"]):
            return "location"
        if c["cn"] and (res["loc"]["has"] != e["loc"] or e["loc"] and U(res["loc"]["n"]) != ("<anonymous>" if e["anon"] else U(e["n"]))):
            return "template named"
    return ""


def located(at, loc):
    return loc["has"] and all(at[k] == loc[k] for k in ("ln", "col", "text", "pad", "cw"))


def several(*ps):
    return {"groups": [p[0] for p in ps], "evidence": [p[1] for p in ps]}


# ---------------------------------------------------------------------- texts
def conf(pieces, sy=DEFSYN, pre="", post="", sort="", seg=False, ren=0, num=False):
    return {"syn": sy, "pieces": [T(p) for p in pieces], "pre": T(pre), "post": T(post), "sort": sort, "seg": seg, "ren": ren, "num": num}


def texts(name, work, kinds, confs, maxlen, ctx=None, tpls=(), fns=(), df=None, minlen=1, locs=False, keep=None, r=None, timeout=800, slack=99):
    """All texts of up to maxlen pieces under every configuration, explored by TLC; the results as cases to be
    replayed."""
    df = df or BUILTIN
    words = []
    if any(any(48 <= x <= 57 for x in p) for c in confs for p in c["pieces"]):
        longest = max(confs, key=lambda c: sum(map(len, c["pieces"])))["pieces"]
        if len(kinds) ** maxlen <= 3000000:
            words = [[x for p in q for x in p] for q in itertools.product(longest, repeat=maxlen)]
    model = {"kinds": kinds, "confs": confs, "maxlen": maxlen, "minlen": minlen, "locs": locs, "slack": slack, "ctx": ctx if ctx is not None else vm({}),
             "tpls": [{"n": T(n), "s": T(s)} for n, s in tpls], "fns": list(fns), "dfmt": df, "ftab": float_table(words)}
    path = os.path.join(work, name.replace(" ", "_") + ".json")
    with open(path, "w") as f:
        json.dump(model, f)
    vs, ev = explore(name, "MCText", work, {"MODEL": path}, timeout=timeout)
    ev["vocabulary"], ev["pieces"], ev["configurations"] = len(kinds), maxlen, len(confs)
    ev["results"] = dict(Counter("syntax error" if v["res"].get("kind") == "syntax" else v["res"]["r"] for v in vs))
    if keep and len(vs) > keep:         # all that are accepted, as far as possible, and some of the others
        good = [v for v in vs if v["res"].get("kind") != "syntax"]
        bad = [v for v in vs if v["res"].get("kind") == "syntax"]
        good = good if len(good) <= keep // 2 else r.sample(good, keep // 2)
        vs = good + r.sample(bad, min(len(bad), keep - len(good)))
    cs = []
    for v in vs:
        k = confs[v["q"] - 1]
        s = k["pre"] + [x for p in v["w"] for x in k["pieces"][p - 1]] + k["post"]
        c = case([tpl(s)] + [tpl(x, n, "reg") for n, x in tpls], 1, model["ctx"], fns=list(fns), dfmt=df, syn=k["syn"], cl=locs)
        c["defsyn"] = k["syn"] == DEFSYN
        c["exp"] = {"out": v["out"], "calls": v["calls"], "res": v["res"]}
        cs.append(c)
    return (name, "Replay", cs), ev


def plain(x):
    """No two delimiters (or trim variants) are the same."""
    d = []
    for k in "ebc":
        if x[k]:
            b, e = x[k]
            d += [b, e, b + [45], [45] + e]
    return len({tuple(y) for y in d}) == len(d)


def m_c01(big, work):
    r = R("m/C01/%d" % SEED)
    v = ["{{", "}}", "{%", "%}", "{#", "#}", "-", " ", "\n", "x", "\u3000", "if x", "endif"]
    g = texts("delimiters and whitespace", work, ["t"] * len(v), [conf(v, seg=True)], 5 if big else 4, ctx=vm({"x": vs("V")}), keep=None if big else 9000, r=r)
    # whole tags with and without trim markers between all runs of whitespace and letters
    w = [" ", "\n\t", "y", "\u2003", "{{x}}", "{{- x}}", "{{x -}}", "{{- x -}}", "{#-#}", "{#--#}", "{# -#}", "{%- if x %}", "{% endif -%}", "{%-else-%}"]
    h = texts("trimmed runs", work, ["t"] * len(w), [conf(w, seg=True)], 5 if big else 4, ctx=vm({"x": vs(" V ")}), keep=None if big else 12000, r=r)
    return several(g, h)


def m_c02(big, work):
    from checks import rand_syntax
    r = R("m/C02/%d" % SEED)
    # texts over the characters the delimiters are made of
    ps = []
    for alpha in (["ab- x", "<>%- x"] if not big else ["ab- x", "<>%- x", "$@- x", "{}- x"]):
        sys_ = []
        while len(sys_) < (12 if not big else 40):
            def d():
                return "".join(r.pick(alpha[:-3]) for _ in range(r.weighted([(1, 2), (2, 4), (3, 3)])))
            kinds = {k: (d(), d()) for k in r.pick(["e", "ec", "eb", "ebc", "ebc"])}
            x = syn(kinds.get("e"), kinds.get("b"), kinds.get("c"))
            if plain(x):
                sys_.append(x)
        n = 6 if not big else 7
        ps.append(texts("texts over " + "".join(alpha).strip().replace(" ", ""), work, ["t"] * len(alpha), [conf(list(alpha), x, seg=True) for x in sys_], n if len(alpha) < 6 else n - 1,
                        ctx=vm({"x": vs("V")}), keep=None if big else 8000, r=r))
    # consistent renaming
    names = [(("{{", "}}"), ("{%", "%}"), ("{#", "#}")), (("<", ">"), ("<<", ">>"), ("<!--", "-->")), (("${", "}"), ("$if{", "}$"), ("$$", "$$$")),
             (("«", "»"), ("««", "»»"), ("«!", "!»")), (("%%", "%%%"), ("%%[", "]%%"), ("%", "%%%%")), (("e begin", "e end"), ("begin", "end"), ("be", "en"))]
    kinds = ["d"] * 12 + ["t"] * 4
    cf = []
    for e, b, c in names:
        d = [y for x in (e, b, c) for y in (x[0], x[1], x[0] + "-", "-" + x[1])]
        cf.append(conf(d + [" x ", " if x ", " endif ", " \n"], syn(e, b, c), ren=1))
    ps.append(texts("renamed delimiters", work, kinds, cf, 4 if not big else 5, ctx=vm({"x": vs("V")}), keep=9000 if not big else 400000, r=r))
    return several(*ps)


TOKENS = [("id", " x"), ("id", " y"), ("num", " 1"), ("str", ' "s"'), ("true", " true"), ("not", " not"), ("if", " if"), ("in", " in"), ("as", " as"), ("with", " with"), ("include", " include"),
          (".", " ."), ("?.", " ?."), ("|", " |"), (":", ":"), (",", ","), ("-", " -")]


def grammar(big, work, r):
    v = [t for _, t in TOKENS]
    k = [t for t, _ in TOKENS]
    wraps = [("expr", "{{", " }}"), ("cond", "{% if", " %}{% endif %}"), ("for", "{% for", " %}{% endfor %}"), ("with", "{% with", " %}{% endwith %}"), ("inc", "{% include", " %}"),
             ("else", "{% if x %}{% else", " %}{% endif %}"), ("block", "{%", " %}")]
    cf = [conf(v, pre=a, post=b, sort=s) for s, a, b in wraps]
    if big:
        a = texts("short tags", work, k, cf, 4, fns=[flt("x", ["value"]), flt("y", ["value", "value"])], df=dfmt("dbg"), tpls=[("s", "S")], keep=100000, r=r)
    ctx = vm({"x": vm({"y": vi(1), "x": vl([vi(2), vi(3)])}), "y": vl([vi(1), vi(2)])})
    b = texts("tokens in tags", work, k, cf, 5 if not big else 7, slack=0 if not big else 1, ctx=ctx, fns=[flt("x", ["value"]), flt("y", ["value", "value"])], df=dfmt("dbg"), tpls=[("s", "S")], keep=9000 if not big else 150000, r=r)
    return [a, b] if big else [b]


def grammar_long(big, work, r):
    keep = ["id", "num", ".", "?.", "|", ":", ",", "-", "true"] if not big else ["id", "num", ".", "?.", "|", ":", ",", "-", "str"]
    tk = [("id", " x")] + [t for t in TOKENS if t[0] in keep and t[0] != "id"]
    v, k = [t for _, t in tk], [t for t, _ in tk]
    ctx = vm({"x": vm({"x": vl([vi(2), vi(3)])})})
    return texts("expressions", work, k, [conf(v, pre="{{", post=" }}", sort="expr")], 7 if not big else 9, slack=1, ctx=ctx, fns=[flt("x", ["value", "value"])], df=dfmt("dbg"), keep=9000 if not big else 300000, r=r)


def m_c04(big, work):
    r = R("m/C04/%d" % SEED)
    v = list("019abxo_-+.e")
    g = texts("number spellings", work, ["t"] * len(v), [conf(v, pre="{{ ", post=" }}", num=True)], 4 if not big else 5, df=dfmt("dbg"), keep=9000 if not big else None, r=r)
    parts = ["-", "+", "0x", "0b", "0o", "9223372036854775807", "922337203685477580", "7", "8", "9", "0", "_", "7fffffffffffffff", "1777777777777777777777", "f", "1" * 62, ".", "e3", "e-330", "18446744073709551615"]
    h = texts("numbers near the bounds", work, ["t"] * len(parts), [conf(parts, pre="{{ ", post=" }}", num=True), conf(parts, pre="{{ 1 | f: ", post=" }}")], 3 if not big else 4, df=dfmt("dbg"), fns=[flt("f", ["value", "value"])],
              keep=7000 if not big else 200000, r=r)
    q = ['"', "\\", "n", "r", "t", "q", "é", "}}", "{#", "-", "\n", " "]
    i = texts("strings", work, ["t"] * len(q), [conf(q, pre='{{ "', post='" }}')], 4 if not big else 5, df=dfmt("dbg"), keep=9000 if not big else None, r=r)
    return several(g, h, i)


L2 = vl([vi(1), vs("q")])
CALLED = [flt("c", ["value"], "id", tag="c")]


def m_r01(big, work):
    r = R("m/R01/%d" % SEED)
    conds = ["a | c", "not b | c"]
    v = ["x"] + ["{%% if %s %%}" % s for s in conds] + ["{%% else if %s %%}" % s for s in conds] + ["{% else %}", "{% endif %}"]
    es = [env({"a": p, "b": q}) for p in (vi(1), NONE) for q in (vs("t"), vl([]))] + [env({"a": vb(False), "b": vb(True)}, "fn")]
    g = programs("conditionals", work, v, 7 if big else 6, es, fns=CALLED, keep=None if big else 6000, r=r)
    # what a condition can be
    cond = ["n", "not n", "z", "o.k", "o?.q", "not o?.q", "l", "e", "true", "false", "0", '""', "1.5", "s | c", "not s | c", "loop.first", "loop.index", "u"]
    w = ["{%% if %s %%}t{%% endif %%}" % s for s in cond] + ["{%% if f %%}{%% else if %s %%}t{%% else %%}e{%% endif %%}" % s for s in cond] + ["{% for u in l2 %}", "{% endfor %}"]
    ctx = {"n": NONE, "z": vi(0), "o": vm({"k": vm({})}), "l": vl([NONE]), "e": vl([]), "s": vs(""), "f": vf("0"), "l2": vl([vi(0), vi(1)])}
    h = programs("conditions", work, w, 3 if big else 2, [env(ctx)], fns=CALLED, keep=None if big else 5000, r=r)
    return several(g, h)


def m_r02(big, work):
    r = R("m/R02/%d" % SEED)
    v = ["{% for x in l %}", "{% for x in k %}", "{% for i, x in m %}", "{% for x in e %}", "{% endfor %}", "{{ x }}", "{{ i }}", "{{ loop.index }}", "{% if loop.last %}!{% endif %}", "{{ loop.first }},"]
    es = [env({"l": L2, "k": vl([vi(7), vi(8), vi(9)]), "m": vm({"b": vi(2), "a": vi(1)}), "e": vl([])})]
    g = programs("loops", work, v, 6 if big else 5, es, df=dfmt("dbg"), keep=None if big else 7000, r=r)
    w = ["{% for x in l %}", "{% for i, x in l %}", "{% for x in m %}", "{% for x in s %}", "{% for x in n %}", "{% for x, y in s %}", "{% for x in l | c %}", "{% for i, x in m | c %}", "{% for x in l.1 %}", "{% for x in x %}", "{% endfor %}", "{{ x }}", "t"]
    h = programs("loop sources", work, w, 5 if big else 4, [env({"l": vl([vi(1), vl([vi(2)])]), "m": vm({"b": vi(2)}), "s": vs("st"), "n": NONE})], fns=CALLED, df=dfmt("dbg"), keep=None if big else 5000, r=r)
    return several(g, h)


def m_r03(big, work):
    r = R("m/R03/%d" % SEED)
    v = ["{% with a as x %}", "{% with x as a %}", "{% with 5 as a %}", "{% endwith %}", "{% for x in l %}", "{% for a, x in m %}", "{% endfor %}", "{{ a }},", "{{ x }}.", '{% include "p" %}', '{% include "p" with m %}']
    es = [env({"a": vs("A"), "l": vl([vi(1), vi(2)]), "m": vm({"a": vs("ma")}), "x": vs("X")}), env({"a": vs("A"), "l": vl([vi(1)]), "m": vm({"a": vs("ma"), "x": NONE})}, "fn")]
    g = programs("bindings", work, v, 6 if big else 5, es, tpls=[("p", "<{{ a }}{% with a as x %}{{ x }}{% endwith %}>")], df=dfmt("dbg"), keep=None if big else 8000, r=r)
    return several(g)


def m_r04(big, work):
    r = R("m/R04/%d" % SEED)
    paths = ["m.a", "m.z", "m?.z", "m?.z.q", "m.a.q", "m?.a?.q", "m.l.0", "m.l.9", "m.l?.9", "m?.l?.1.k", "l.0", "l.2", "l?.2", "l.a", "l?.a", "m.0", "m?.0", "s.0", "s?.a", "n.a", "n?.a", "z.a", "z?.a", "m.l.1.k", "m.l.1?.j"]
    use = ["{{ %s }}", "{%% if %s %%}t{%% endif %%}"]
    v = [u % p for p in paths for u in use[: 1 if not big else 2]]
    binds = ["{% with o as m %}", "{% with ll.0 as l %}", "{% with m.l as l %}", "{% for m in ll %}", "{% for l in ll %}", "{% for s, m in oo %}", "{% endwith %}", "{% endfor %}", "{% with m?.q as m %}"]
    m1 = vm({"a": vi(1), "l": vl([vs("x"), vm({"k": vs("K")})])})
    ctx = {"m": m1, "o": vm({"a": NONE, "z": vi(26)}), "oo": vm({"p": m1, "q": vm({"z": vm({"q": vi(5)})})}), "l": vl([vi(1), vi(2)]), "ll": vl([vl([vi(3), vi(4), vi(5)]), m1]), "s": vs("str"), "n": NONE}
    g = programs("paths", work, v + binds, 3, [env(ctx), env(ctx, "fn")], df=dfmt("dbg"), keep=None if big else 8000, r=r)
    return several(g)


def m_r05(big, work):
    r = R("m/R05/%d" % SEED)
    v = ['{% include "p" %}', '{% include "p" with m %}', '{% include "q" %}', '{% include "q" with a %}', '{% include "none" %}', "{% with m.a as a %}", "{% endwith %}", "{% for a in l %}", "{% endfor %}", "{{ a }}", "-"]
    ctx = {"a": vs("A"), "m": vm({"a": vs("ma"), "m": vm({"a": vs("mma")}), "l": vl([])}), "l": vl([vm({"a": vi(1)}), vi(2)])}
    tp = [("p", '<{{ a }}{% include "q" %}>'), ("q", '({% for x in l %}{{ loop.index }}{% endfor %}{{ a }})')]
    g = programs("includes", work, v, 5 if big else 4, [env(ctx), env(ctx, tfn=True), env(ctx, "fn")], tpls=tp, df=dfmt("dbg"), keep=None if big else 9000, r=r)
    return several(g)


def m_r06(big, work):
    r = R("m/R06/%d" % SEED)
    v = ['{% include "r" %}', '{% include "leaf" %}', '{% include "s" with m %}', "{% for x in l %}", "{% endfor %}", "{% with 1 as y %}", "{% endwith %}", "t"]
    ctx = {"m": vm({"m": vm({"m": vm({})})}), "l": vl([vi(1), vi(2)])}
    tp = [("r", '<{% include "r" %}>'), ("s", '[{% include "leaf" %}{% include "s" with m %}]'), ("leaf", '.{% include "leaf2" %}'), ("leaf2", ",")]
    g = programs("include depth", work, v, 4 if not big else 6, [env(ctx, rdepth=d) for d in ((0, 1, 2, 3, 5) if not big else range(0, 9))] + [env(ctx, rdepth=4, tfn=True)], tpls=tp, keep=None if big else 9000, r=r)
    return several(g)


def m_r07(big, work):
    r = R("m/R07/%d" % SEED)
    v = ["é", "{{ a }}", "{{ l | c | w }}", "{{ x }}", "{% if x %}", "{% if not a | c %}", "{% else %}", "{% endif %}", "{% for x in l %}", "{% endfor %}", "{% with l as x %}", "{% endwith %}", '{% include "p" %}', '{% include "p" with m %}', "{{ bad }}"]
    ctx = {"a": vs("A"), "m": vm({"x": vi(0)}), "l": vl([vi(0), vs("q")])}
    tp = [("p", "<{{ x }}>")]
    g = programs("programs of pieces", work, v, 5 if big else 4, [env(ctx), env(ctx, "fn", lim=7)], tpls=tp, fns=CALLED + [fmt("w")], keep=None if big else 9000, r=r)
    return several(g)


def m_f01(big, work):
    r = R("m/F01/%d" % SEED)
    fns = [flt("f", ["value"]), flt("g", ["value", "value"]), fmt("w", "wrap"), flt("bad", ["value"], "fail", msg="no")]
    pipes = ["f", "g: x", "g: 1", "g: nope", "w", "bad", "f: 1", "g", "zip"]
    v = ["{{ a | %s }}" % p for p in pipes] + ["{{ a | %s | %s }}" % p for p in itertools.product(pipes, repeat=2)]
    uses = ["{%% if a | %s | %s %%}t{%% endif %%}", "{%% with a | %s | %s as x %%}{{ x }}{%% endwith %%}", '{%% include "p" with m | %s | %s %%}', "{%% for y in l | %s | %s %%}{{ y }}{%% endfor %%}", "{%% if false %%}{%% else if not a | %s | %s %%}t{%% endif %%}"]
    v2 = [u % p for u in uses for p in itertools.product(pipes[:6], repeat=2)]
    v3 = ["{{ a | %s | %s | %s }}" % p for p in itertools.product(pipes, repeat=3)]
    ctx = {"a": vs("A"), "x": vi(3), "m": vm({"q": vi(1)}), "l": vl([vi(1)])}
    k = dict(tpls=[("p", "p")], fns=fns, df=dfmt("dbg", tag="D"), r=r)
    es = [env(ctx), env(ctx, "fn")]
    g = programs("pipelines of two", work, (v + v2 if big else v[:30]) + ["{% for x in l %}", "{% endfor %}"], 2, es, keep=None if big else 7000, **k)
    h = programs("pipelines of three", work, v + v2 + v3, 1, es, **k)
    return several(g, h)


def m_f03(big, work):
    r = R("m/F03/%d" % SEED)
    fns = [flt("f", ["value"]), fmt("w", "wrap"), fmt("bad", "fail", tag="part", msg="no"), fmt("ff", "fmterr", tag="x"), flt("s", ["value"], "const", v=vs("<s>"))]
    ex = ["a", "a | f", "a | w", "a | f | w", "a | w | f", "a | w: 1", "a | bad", "a | ff", "a | s | w", "1 | w", '"q"', "l", "l | w", "x | w", "a | w | w"]
    v = ["{{ %s }}" % e for e in ex] + ["{% if a | w %}t{% endif %}", "{% if a | f %}t{% endif %}", "{% with a | w as x %}{% endwith %}", "{% for x in l %}", "{% endfor %}", "<t>", '{% include "p" %}', '{% include "p" with m | w %}', "{% with a | f as x %}", "{% endwith %}"]
    ctx = {"a": vs("<A>"), "l": vl([vi(1), vs("<2>")]), "m": vm({"a": vi(1)})}
    gs = []
    for name, df in (("default", None), ("user", dfmt("esc", tag="D")), ("failing", dfmt("failf", tag="D", msg="D fails"))):
        gs.append(programs("formatters, %s default" % name, work, v, 4 if big else 3, [env(ctx)], tpls=[("p", "{{ a }}{{ a | w }}")], fns=fns, df=df, keep=None if big else 3000, r=r))
    return several(*gs)


def m_w01(big, work):
    r = R("m/W01/%d" % SEED)
    v = ["t", "é日", "{{ a }}", "{{ a | w }}", "{{ n }}", "{% for x in l %}", "{% endfor %}", "{{ x }}", '{% include "p" %}', "{{ bad }}", "{{ a | ferr }}"]
    ctx = {"a": vs("ü<"), "l": vl([vi(10), vs("")]), "n": NONE}
    fns = [fmt("w", "wrap"), fmt("ferr", "fail", tag="pt", msg="no")]
    g = programs("writer faults", work, v, 3 if not big else 4, [env(ctx, lim=k) for k in range(-1, 10 if not big else 24)], tpls=[("p", "<{{ a }}>")], fns=fns, keep=None if big else 9000, r=r)
    for c in g[0][2]:
        c["wm"] = {"short": r.pick([0, 0, 1, 2, 3]), "intr": r.pick([0, 0, 1, 2]), "zero": r.p(0.5)}
    return several(g)


def m_v01(big, work):
    r = R("m/V01/%d" % SEED)
    v = ["{{ a }}", "{{ m.a }}", "{{ m?.z }}", "{{ m.z.q }}", "{{ l.0 }}", "{{ l?.7 }}", "{{ nope }}", "{{ a | g: m.a }}", "{% if m.a %}t{% endif %}", "{% with m as a %}", "{% with a.a as a %}", "{% endwith %}", "{% for m in l %}", "{% for a, l in m %}", "{% endfor %}", '{% include "p" %}', '{% include "p" with m %}']
    ctx = {"a": vs("A"), "m": vm({"a": vi(1)}), "l": vl([vm({"a": vi(2)}), vi(3)])}
    gs = []
    fns = [flt("g", ["value", "value"])]
    for s in ("from", "fn"):
        g = programs("contexts, %s" % {"from": "values", "fn": "value functions"}[s], work, v, 4 if big else 3, [env(ctx, s), env(vi(4), s), env({}, s)], tpls=[("p", "<{{ m.a }}{{ a }}>")], fns=fns, df=dfmt("dbg", tag="D"), keep=None if big else 4500, r=r)
        if s == "from":
            for c in g[0][2]:
                if r.p(0.5):
                    c["src"] = "serde"
        gs.append(g)
    return several(*gs)


def m_c03(big, work):
    r = R("m/C03/%d" % SEED)
    v = ["x", "{{ a }}", "{% if a %}", "{% else if a %}", "{% else %}", "{% endif %}", "{% for x in l %}", "{% endfor %}", "{% with a as x %}", "{% endwith %}", "{# c #}", '{% include "p" %}']
    es = [env({"a": vi(1), "l": L2})]
    g = programs("block structure", work, v, 6 if big else 5, es, tpls=[("p", "P")], errors=True, keep=None if big else 8000, r=r, cn=True)
    return several(g, *grammar(big, work, r), grammar_long(big, work, r))


def m_c05(big, work):
    r = R("m/C05/%d" % SEED)
    v = ["\n", "日\t", "{{ a }}", "{{ bad }}", "{{ a.\nq }}", "{{ a | f: l,\n é }}", "{{ a | nof }}", "{% if a %}", "{% else %}", "{% endif %}", "{% for x in a %}", "{% endfor %}", "{% for x, y\nin l %}", '{% include "no" %}', "{{ 1", "{{ 0b2 }}", '{{ "é\\q" }}', "{% with %}", "{% include \"p\" %}", "}}"]
    es = [env({"a": vi(1), "l": L2})]
    g = programs("locations", work, v, 5 if big else 3, es, tpls=[("p", "p\n日 {{ bad }}")], fns=[flt("f", ["value", "value", "value"])], errors=True, keep=None if big else 9000, r=r, cl=True, cn=True, merge=True)
    return several(g)


def m_x01(big, work):
    r = R("m/X01/%d" % SEED)
    v = ["t", "{{ bad }}", "{{ a | ff }}", "{{ a | fm }}", "{{ l }}", '{% include "p" %}', '{% include "p" with m %}', '{% include "q" with m %}', '{% include "no" %}', '{% include "r" %}', "{% for x in l %}", "{% endfor %}", "{% if a | ff %}t{% endif %}", "{% with a as ok %}", "{% endwith %}"]
    ctx = {"a": vs("A"), "l": vl([vi(1)]), "m": vm({"ok": vi(1), "a": NONE})}
    fns = [flt("ff", ["value"], "failf", tag="ff", msg="filter: é"), fmt("fm", "fail", tag="fm", msg="formatter says\nno")]
    tp = [("p", "p{{ ok }}"), ("q", '{{ ok }}{{ a | ff }}'), ("r", 'r{% include "p" %}{{ a | fm }}')]
    g = programs("failures", work, v, 5 if big else 3, [env(ctx), env(ctx, "fn"), env(ctx, tfn=True), env(ctx, lim=3)], tpls=tp, fns=fns, keep=None if big else 9000, r=r, cn=True)
    return several(g)


vs_ = vs


def m_v02(big, work):
    from checks import ser_case
    r = R("m/V02/%d" % SEED)
    n = lambda d, x: {"d": d, "dec": T(str(x))}
    s = lambda d, x: {"d": d, "s": T(x)}
    leaves = [n("i64", -5), n("u64", 2 ** 63 - 1), n("u64", 2 ** 63), s("str", "a"), {"d": "none"}, s("fail", "no"), {"d": "bool", "b": True}, s("bytes", "\x00a"), {"d": "unit_variant", "n": T("b")}, n("i128", 1), n("f64", "1.5")]
    keys = [s("str", "b"), s("char", "a"), n("u8", 1), {"d": "unit"}, {"d": "newtype_struct", "l": [s("str", "a")]}, s("fail", "key"), {"d": "newtype_struct", "l": [{"d": "bool", "b": True}]}, {"d": "value", "v": vi(1)}, {"d": "unit_variant", "n": T("b")}, {"d": "some", "l": [s("str", "a")]}]
    kinds = ["seq", "tuple_variant", "map", "struct", "struct_variant", "some", "newtype_struct", "newtype_variant", "tuple", "tuple_struct"]
    names = [T("b"), T("a")]
    gs = []
    for name, model, m in (("every kind of data", dict(leaves=leaves, keys=keys, names=names, kinds=kinds), 3),
                           ("nested data", dict(leaves=leaves[1:4] + [leaves[5]], keys=[keys[i] for i in (0, 1, 3, 4)], names=names, kinds=kinds[:8]) if big else
                                           dict(leaves=leaves[2:4], keys=[keys[i] for i in (0, 1, 3)], names=names, kinds=kinds[:4] + kinds[5:6] + kinds[7:8]), 4)):
        path = os.path.join(work, name.replace(" ", "_") + ".json")
        with open(path, "w") as f:
            json.dump(model, f)
        vs, ev = explore(name, "MCData", work, {"MODEL": path, "MAXLEN": str(m)})
        ev["results"] = dict(Counter("converted" if v["ok"] else "refused" for v in vs))
        keep = 2500 if not big else 60000
        vs = r.sample(vs, keep) if len(vs) > keep else vs
        gs.append(((name, "SerTrace", [ser_case(hinted(r, v["d"])) for v in vs]), ev))
    return several(*gs)


def hinted(r, d):
    """Whether serde is told how many there are, and a map's keys and values one by one: makes no difference."""
    d = dict(d)
    if "l" in d:
        d["l"] = [dict(e, v=hinted(r, e["v"])) if "v" in e and "d" not in e else hinted(r, e) for e in d["l"]]
        if d["d"] in ("seq", "tuple", "tuple_struct", "tuple_variant", "map"):
            d["len"] = r.p(0.5)
        if d["d"] == "map":
            d["split"] = r.p(0.5)
    return d


def m_v03(big, work):
    from checks import conv_case
    r = R("m/V03/%d" % SEED)
    i = lambda h, x: {"how": h, "dec": T(str(x)), "l": []}
    leaves = [{"how": "unit", "l": []}, {"how": "nonev", "l": []}, i("u8", 1), i("i64", 1), i("f64", "1"), i("f64", "0"), i("f64", "-0"), i("f64", "NaN"), {"how": "str", "s": T("a"), "l": []}, {"how": "string", "s": T("a"), "l": []},
              {"how": "bool", "b": True, "l": []}, {"how": "vec", "l": []}, {"how": "btree", "l": []}, {"how": "veci", "l": [{"dec": T("1")}]}]
    if not big:
        leaves = [leaves[k] for k in (0, 2, 3, 4, 5, 6, 7, 9, 11)]
    gs = []
    ways = ["some", "vec", "array", "iter", "vec2", "iter2", "vec2r", "btree", "hash", "pairs", "iterpairs", "btree2", "pairs2", "pairsover", "hashover", "pairslost", "macro_list", "macro_map"]
    few = ["vec", "iter2", "pairs", "pairsover", "pairslost"]
    for name, lv, ws, m in (("pairs of conversions", leaves, ways, 1), ("repeated conversions", [leaves[k] for k in ((1, 4) if not big else (3, 6))], few, 2 if not big else 3)) + ((("conversions of conversions", [leaves[k] for k in (3, 6)], [ways[k] for k in (0, 2, 5, 6, 8, 11, 13, 15, 16, 17)], 2),) if big else ()):
        path = os.path.join(work, name.replace(" ", "_") + ".json")
        with open(path, "w") as f:
            json.dump({"leaves": lv, "other": i("i32", 2), "ways": ws}, f)
        vs, ev = explore(name, "MCConvert", work, {"MODEL": path, "MAXLEN": str(m)})
        keep = 4000 if not big else 80000
        vs = r.sample(vs, keep) if len(vs) > keep else vs
        gs.append(((name, "ConvTrace", [conv_case(v["a"], v["b"]) for v in vs]), ev))
    return several(*gs)


def m_f02(big, work):
    r = R("m/F02/%d" % SEED)
    tys = ["i8", "u8", "i64", "str", "string", "bool", "f64", "list", "map", "value", "unit"] + (["u64", "i128", "listref", "mapref", "valueref", "f32"] if big else [])
    fns = [flt("g" + t, ["value", t] if t not in ("listref", "mapref", "valueref") else [t]) for t in tys] + [flt("r" + t, [t]) for t in tys] + [flt("id", ["value"], "id"), fmt("d", "dbg")]
    vals = {"i": vi(127), "j": vi(-128), "k": vi(255), "h": vi(256), "b": vb(True), "f": vf("1.5"), "s": vs("é"), "n": NONE, "l": vl([vi(1)]), "m": vm({"s": vs("in m")})}
    args = list(vals) + ["m.s", "m?.z", "1", '"q"', "128", "true"]
    v = ["{{ 1 | g%s: %s }}" % (t, a) for t in tys for a in args if ["value", t] in signatures_of()] + ["{{ %s | r%s }}" % (a, t) for t in tys for a in args if [t] in signatures_of()]
    binds = ["{% with l | id as l %}", "{% with s | id as s %}", "{% endwith %}", "{% for s in l %}", "{% for i, s in m | id %}", "{% endfor %}", '{% include "p" with m %}']
    ctx = vm(vals)
    k = dict(tpls=[("p", "{{ 1 | gstr: s }}{{ s | rstr }}")], fns=fns, df=dfmt("dbg"), r=r)
    g = programs("arguments of every type", work, v, 1, [env(ctx), env(ctx, "fn")], **k)
    some = r.sample(v, 150 if big else 60)
    h = programs("arguments in blocks", work, some[:: 3] + binds, 3, [env(ctx)] if not big else [env(ctx), env(ctx, "serde")], keep=5000 if not big else 80000, **k)
    return several(g, h)


def signatures_of():
    from checks import signatures
    return signatures()


def m_f04(big, work):
    r = R("m/F04/%d" % SEED)
    vals = {"n": NONE, "b": vb(False), "i": vi(-2 ** 63), "f": vf("-0"), "g": vf("100000000000000000000"), "s": vs("<é\"\\\n>"), "e": vs(""), "l": vl([vi(1), vs("&")]), "m": vm({"<": vf("0.1")})}
    paths = list(vals) + ["l.0", "l?.9", "m?.z", '"<\\t>"', "1.50", "0x1f", "true"]
    v = ["{{ %s }}" % p for p in paths] + ["{{ %s | id }}" % p for p in paths] + ["{{ %s | dflt }}" % p for p in paths] + ["{% for s in l %}", "{% for e, s in m %}", "{% with l as s %}", "{% with m | id as i %}", "{% endfor %}", "{% endwith %}", "<>"]
    ctx = vm(vals)
    k = dict(fns=[flt("id", ["value"], "id"), fmt("dflt", "default")], r=r)
    g = programs("values printed", work, v, 2 if not big else 3, [env(ctx, s) for s in ("from", "serde", "fn")], keep=7000 if not big else 100000, **k)
    h = programs("values printed in blocks", work, ["{{ %s }}" % p for p in ("s", "e", "i", "f", "l", "m", "n")] + v[-7:], 3 if not big else 4, [env(ctx)], keep=4000 if not big else 80000, **k)
    return several(g, h)


MODELS = dict(F02=m_f02, F04=m_f04, V02=m_v02, V03=m_v03, C01=m_c01, C02=m_c02, C04=m_c04, E01=e01, E02=e02, R01=m_r01, R02=m_r02, R03=m_r03, R04=m_r04, R05=m_r05, R06=m_r06, R07=m_r07, F01=m_f01, F03=m_f03, W01=m_w01, V01=m_v01, C03=m_c03, C05=m_c05, X01=m_x01)


def run(prop, big, work):
    if prop in MODELS:
        return MODELS[prop](big, work)
    return {"groups": [], "evidence": []}
