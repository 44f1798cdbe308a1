"""The cases of every property.  A function props(id) returns a list of groups: (name, TLA+ module, cases)."""
import itertools, os, struct, math
import uni
from gen import *

Q = 2
HASEXPR = [s for s in SYNTAXES if s is None or (s["e"] and s["b"])]


def rng(name):
    return R("%s/%d" % (name, SEED))


def t_reg(s, n):
    return tpl(s, n, "reg")


def with_syn(c, sy):
    if sy:
        c["syn"], c["defsyn"] = sy, False
    return c


def esc(s):
    return s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t")


def delim(sy, kind):
    d = (sy or DEFSYN)[kind]
    return (U(d[0]), U(d[1])) if len(d) == 2 else None


def mk(sy, kind, body, lt=False, rt=False, pad=" "):
    b, e = delim(sy, kind)
    return b + ("-" if lt else "") + pad + body + pad + ("-" if rt else "") + e


# ------------------------------------------------------------------- sizes
def sizes(big, most=1100):
    """Lengths and counts at which something may give way."""
    l = [15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 9999, 10000, 16383, 16384, 32767, 32768, 65535, 65536, 65537]
    if not big:
        l = [16, 33, 64, 65, 128, 129, 256, 257, 512, 1000, 1024, 1025, 2049, 4097, 10000, 65537]
    return [n for n in l if n <= most]


def many(c):
    """A case of very many steps."""
    return dict(c, burst=1)


# ---------------------------------------------------------------------- C01
WS = ["\t", "\n", "\x0b", "\x0c", "\r", " ", "\x85", "\xa0", "\u1680"] + [chr(c) for c in range(0x2000, 0x200b)] + \
     ["\u2028", "\u2029", "\u202f", "\u205f", "\u3000"]
NOTWS = ["\u200b", "\ufeff", "\u180e", "\x1f", "\x1c", "\x00", "\u0301", "-", "\x7f", "\u2060", "\x08", "\x0e"]
CTXA = vm({"v": vs("V"), "w": vs(" w\n"), "e": vs(""), "l": vl([vi(1), vi(2)]), "m": vm({"k": vs(" x "), "v": vs("\tM ")}), "t": vb(True), "f": vb(False)})


PLAIN = ["a", "b", "Hello", "x y", "lorem", "0", "é", "日本", "\\", '"', "'", "😀", "a\u0301", "|", ".", ":"]


def run_of(r, n=3):
    out = ""
    for _ in range(r.randrange(0, n + 1)):
        k = r.randrange(10)
        out += (r.pick(WS) * r.randrange(1, 3) if k < 5 else r.pick(NOTWS) if k < 6 else r.pick(WORDS if r.p(0.04) else PLAIN))
    return out


TAGKINDS = ["emit", "emitlit", "emitws", "comment", "iftf", "ifelse", "for", "with", "inc", "incw", "elif"]


def doc(r, sy, n, depth=2, kinds=None):
    """A document with tags of all kinds and random trim markers around text runs."""
    out = ""
    tm = lambda: r.p(0.45)
    for _ in range(n):
        out += run_of(r)
        k = r.pick(kinds or TAGKINDS)
        if k == "comment" and not delim(sy, "c"):
            k = "emit"
        if k == "emit":
            out += mk(sy, "e", r.pick(["v", "w", "e", "m.k"]), tm(), tm())
        elif k == "emitlit":
            out += mk(sy, "e", r.pick(['" a "', "12", "true", '"\\n"', '""']), tm(), tm())
        elif k == "emitws":
            out += mk(sy, "e", "w", tm(), tm(), pad=r.pick([" ", "\t ", "  "]))
        elif k == "comment":
            b, e = delim(sy, "c")
            out += b + ("-" if tm() else "") + r.pick(["", " ", " c c ", "x", "\n", " - "]) + ("-" if tm() else "") + e
        elif k == "inc":
            out += mk(sy, "b", 'include "%s"' % r.pick(["p", "q"]), tm(), tm())
        elif k == "incw":
            out += mk(sy, "b", 'include "%s" with m' % r.pick(["p", "q"]), tm(), tm())
        else:
            inner = lambda: doc(r, sy, r.randrange(0, 3) if depth else 0, depth - 1 if depth else 0, kinds) + run_of(r)
            if k == "iftf":
                out += mk(sy, "b", r.pick(["if t", "if f", "if not f"]), tm(), tm()) + inner() + mk(sy, "b", "endif", tm(), tm())
            elif k == "ifelse":
                out += mk(sy, "b", r.pick(["if t", "if f"]), tm(), tm()) + inner() + mk(sy, "b", "else", tm(), tm()) + inner() + mk(sy, "b", "endif", tm(), tm())
            elif k == "elif":
                out += mk(sy, "b", r.pick(["if e", "if f"]), tm(), tm()) + inner() + mk(sy, "b", r.pick(["else if v", "else if f"]), tm(), tm()) + inner() \
                    + mk(sy, "b", "else", tm(), tm()) + inner() + mk(sy, "b", "endif", tm(), tm())
            elif k == "for":
                out += mk(sy, "b", "for x in l", tm(), tm()) + inner() + mk(sy, "b", "endfor", tm(), tm())
            elif k == "with":
                out += mk(sy, "b", "with v as y", tm(), tm()) + inner() + mk(sy, "b", "endwith", tm(), tm())
    return out + run_of(r)


def doc_case(r, sy, n, kinds=None):
    main = doc(r, sy, n, kinds=kinds)
    reg = r.p(0.3)
    ps = [tpl(doc(r, sy, r.randrange(0, 2), 0, ["emit", "emitlit", "comment"]), x, "reg") for x in ("p", "q")]
    c = case([tpl(main, "main" if reg else "", "reg" if reg else "anon")] + ps, 1, CTXA, fns=[])
    return with_syn(c, sy)


def c01(r, big):
    groups = []
    cs = []
    # every tag kind x trim markers x the whitespace next to it
    pieces = {"emit": lambda a, b: [mk(None, "e", "v", a, b)], "comment": lambda a, b: ["{#" + "-" * a + " c " + "-" * b + "#}"],
              "empty": lambda a, b: ["{#" + "-" * a + "-" * b + "#}"],
              "if": lambda a, b: [mk(None, "b", "if t", a, b), mk(None, "b", "endif", a, b)],
              "for": lambda a, b: [mk(None, "b", "for x in l", a, b), mk(None, "b", "endfor", a, b)],
              "inc": lambda a, b: [mk(None, "b", 'include "p"', a, b)]}
    lefts = ["", " ", "x", " \n", "x \t", " x ", "x\u3000", "\u2028\u00a0", "é ", "x\u200b", "\x85", "-"]
    rights = ["", " ", "y", "\n ", "\t y", " y ", "\u3000y", "\u00a0\u2029", " é", "\ufeff y", "\x0by", "-"]
    names = list(pieces)
    for i, l in enumerate(lefts):
        for j, q in enumerate(rights):
            for k, (a, b) in enumerate(itertools.product((0, 1), (0, 1))):
                n = names[(i + j + k) % len(names)] if not big else None
                for n in ([n] if n else names):
                    p = pieces[n](a, b)
                    s = l + p[0] + q + l.join(p[1:]) + (q if len(p) > 1 else "")
                    cs.append(case([tpl(s), tpl(" P ", "p", "reg")], 1, CTXA))
    # single characters next to a trim marker on either side, alone and doubled
    for ch in WS + NOTWS:
        for s in ("a%s{{- v -}}%sb" % (ch, ch), "%s{%%- if t -%%}%s{%%- endif -%%}%s" % (ch, ch, ch), " %s {#- c -#} %s {{- v }}%s " % (ch, ch, ch)):
            cs.append(case([tpl(s)], 1, CTXA))
    groups.append(("trim layouts", "Trace", cs))
    # every character that is, or resembles, whitespace, in every place where trimming looks; and many that do not
    us, chars = [], uni.blanks()
    chars += [c for c in range(0x21, 0x3000 if big else 0x100) if chr(c) not in "{}%#-" and not 0xD800 <= c < 0xE000] + [r.randrange(0x10000, 0x30000) for _ in range(200)]
    for k in range(0, len(chars), 12):
        for s in ("a%s{{- v -}}%sb", "%s%s{%%- if t -%%}%s%s{%%- endif -%%}", "{#- -#}%s {#- -#} %s", "{{ v }}%s{{- v }}%sx{{ v -}}%s%sx{{ v }}"):
            us.append(case([tpl("|".join(s % ((chr(c),) * s.count("%s")) for c in chars[k:k + 12]))], 1, CTXA))
    groups.append(("characters next to trim markers", "Trace", us))
    # long runs
    zs = []
    for n in sizes(big, 4100 if big else 1100):
        for k, b in enumerate((" ", "\n", " \t\r\n", "\u3000", "\u00a0 \x85", "\n  ")):
            run = (b * n)[:n]
            if not big and (k + n) % 3 and k:
                continue
            for s in ("a%s{{- v -}}%sb", "%s{%%- if t -%%}%s{%%- endif -%%}%s", "{#- c -#}%s{#- c -#}%sx", "x%s{{ v }}%sy", "%s{{ v -}}x%s", "%sx{{- v -}}y%s", "{%% include \"p\" -%%}%s{%%- include \"p\" %%}%s"):
                zs.append(case([tpl(s % ((run,) * s.count("%s"))), tpl(run + "P" + run + "{%- if f %}{% endif -%}" + run, "p", "reg")], 1, CTXA))
        text = "".join(r.pick(PLAIN + [" ", "\n"]) for _ in range(n))
        zs.append(case([tpl(text)], 1, CTXA))
        zs.append(case([tpl(" " + text + " {{- v -}} " + text + " ")], 1, CTXA))
        zs.append(case([tpl("{#" + text.replace("#}", "") + "#}x {#-" + " " * n + "-#} y{# " + "{{" * (n // 2) + " #}")], 1, CTXA))
        zs.append(case([tpl("{{" + " " * n + "v" + "\t" * n + "-}} {{-" + " " * n + "v }}{%" + " " * n + "if t" + " " * n + "%} b {%-" + " " * n + "endif %}")], 1, CTXA))
        if n <= 600 or big:
            zs.append(case([tpl("".join(r.pick([" {{- v -}} ", "{{ v }}", " {#- -#} ", "x", "\n{{ e }}", " {%- if f %} {% endif -%} "]) for _ in range(n)))], 1, CTXA))
    for n in (4095, 4096, 4097, 8192, 10000, 32767, 65533, 65535, 65536, 65537, 70000) + ((131073, 200000) if big else ()):
        for a, b in itertools.product(("", "-"), repeat=2):
            zs.append(case([tpl("x" * n + " {{" + a + " v " + b + "}} " + "\u65e5" * (n // 3) + " {%" + a + " if t " + b + "%} b {% endif %}{#" + "-" * n + "#}" + " " * n + "{{- v }}")], 1, CTXA))
        zs.append(many(case([tpl(r.pick(["{{ v }}", "{# c #}", "{% if f %}{% endif %}"]) * (n // 40) + "y" * n + "{{ v }}")], 1, CTXA)))
    groups.append(("long runs", "Trace", zs))
    groups.append(("documents", "Trace", [doc_case(r, r.pick(HASEXPR) if r.p(0.4) else None, r.randrange(1, 6)) for _ in range(Q * 900 if not big else 9000)]))
    groups.append(("verbatim text", "Trace", [case([tpl(rawtext(r, 0 if i % 10 else 3000))], 1, CTXA) for i in range(Q * 150 if not big else 1500)]))
    return groups


def rawtext(r, n=0):
    out = []
    for _ in range(n or r.randrange(1, 40)):
        k = r.randrange(8)
        c = r.pick("{}%#- \n\"\\") if k < 2 else chr(r.randrange(1, 128)) if k < 5 else chr(r.randrange(128, 0xd800)) if k < 7 else chr(r.randrange(0xe000, 0x10ffff))
        out.append(c)
    s = "".join(out)
    for d in ("{{", "}}", "{%", "%}", "{#", "#}"):
        while d in s:
            s = s.replace(d, d[0] + " " + d[1] if r.p(0.5) else d[0])
    return s


# ---------------------------------------------------------------------- C02
def rand_syntax(r):
    """Random delimiters over a small alphabet, so that they overlap."""
    alpha = r.pick(["<>", "ab", "aA", "xXyY", "éÉ", "kK\u212a", "{}%#", "<%>-", "$@", "é日x", "([", " {", "=-"])
    while True:
        def d():
            return "".join(r.pick(alpha) for _ in range(r.weighted([(1, 2), (2, 4), (3, 3), (4, 1)])))
        kinds = [("e", True), ("b", r.p(0.7)), ("c", r.p(0.6))]
        if r.p(0.1):
            kinds[0] = ("e", False)
            kinds[1] = ("b", True)
        s = {k: (d(), d()) if on else None for k, on in kinds}
        if r.p(0.1):        # long ones
            s = {k: (a[0] * r.randrange(5, 12), a[1] * r.randrange(5, 12)) if a else None for k, a in s.items()}
        all_ = [x for p in s.values() if p for x in p]
        if len(set(all_)) == len(all_) or r.p(0.1):
            return syn(s["e"], s["b"], s["c"])


def soup(r, sy):
    """Text of delimiters, their prefixes and trim markers, with tag contents in between."""
    ds = [U(x) for k in "ebc" for x in sy[k]]
    out = ""
    for _ in range(r.randrange(1, 9)):
        k = r.randrange(10)
        d = r.pick(ds)
        if k < 3:
            out += d
        elif k < 4:
            out += d[: r.randrange(0, len(d))]
        elif k < 5:
            out += d[r.randrange(0, len(d)):] if r.p(0.6) else r.pick([d.upper(), d.lower(), d.swapcase(), d.title(), d[::-1]])
        elif k < 6:
            out += r.pick(["-", " ", "\n"])
        elif k < 8:
            out += r.pick([" v ", "v", " if t ", " endif ", " 1 ", ' "s" ', " x ", "x", " for x in l ", " endfor "])
        else:
            out += r.pick(ds) + r.pick(["", "-"]) + " v " + r.pick(["", "-"]) + r.pick(ds)
    return out


def siblings(r, sy):
    """Configurations with much in common: the same delimiters for other purposes, or cut in other places."""
    ps = [[U(x) for x in sy[k]] for k in "ebc"]
    out = []
    for p in itertools.permutations(ps):
        out.append(list(p))
    out.append([p[::-1] for p in ps])
    full = [p for p in ps if p]
    for _ in range(4):      # cut elsewhere
        t = "".join(x for p in full for x in p)
        k = 2 * len(full)
        if len(t) >= k:
            cuts = [0] + sorted(r.sample(range(1, len(t)), k - 1)) + [len(t)]
            ds = [t[a:b] for a, b in zip(cuts, cuts[1:])]
            out.append([ds[2 * q:2 * q + 2] if q < len(full) else [] for q in range(3)])
    for k in range(3):      # less, and other letters
        out.append([p if q != k else [] for q, p in enumerate(ps)])
        out.append([[x.swapcase() for x in p] if q == k else p for q, p in enumerate(ps)])
    res = []
    for p in out:
        ds = [x for q in p for x in q]
        if ds and len(set(ds)) == len(ds):
            res.append(syn(*[tuple(q) if q else None for q in p]))
    return res


def c02(r, big):
    from models import engine_case
    n = 8 if big else 1
    cs = []
    for _ in range(700 * n):
        sy = rand_syntax(r) if r.p(0.6) else r.pick([s for s in SYNTAXES if s])
        cs.append(with_syn(case([tpl(soup(r, sy))], 1, CTXA), sy))
    for _ in range(500 * n):
        cs.append(case([tpl(soup(r, DEFSYN))], 1, CTXA))
    docs = []
    for i in range(450 * n):
        sy = r.pick(HASEXPR[1:]) if i % 3 else rand_syntax(r)
        if not (sy["e"] and sy["b"]):
            sy = HASEXPR[1 + i % (len(HASEXPR) - 1)]
        docs.append(doc_case(r, sy, r.randrange(1, 4)))
    # the same document in every configuration
    same = []
    for _ in range(12 * n):
        seed = r.randrange(1 << 30)
        for sy in HASEXPR:
            same.append(doc_case(R(seed), sy, 3))
    # related configurations side by side
    side = []
    for i in range(45 * n):
        sy = rand_syntax(r) if i % 2 else r.pick([s for s in SYNTAXES if s] + [DEFSYN])
        es = [sy] + (lambda l: r.sample(l, min(4, len(l))))(siblings(r, sy))
        texts = [soup(r, r.pick(es)) for _ in range(3)] + [mk(e, k, "v", r.p(0.3), r.p(0.3)) if delim(e, k) else "x" for e in es for k in "ec"]
        ops = []
        for t in texts[:3] + ["".join(r.sample(texts[3:], min(3, len(texts) - 3)))]:
            for e in r.sample(range(len(es)), len(es)):
                ops.append({"op": "compile", "e": e + 1, "s": T(t)})
                ops.append({"op": "render", "e": e + 1, "slot": sum(o["op"] == "compile" for o in ops), "ctx": CTXA})
        side.append(engine_case(ops, [{"syn": x, "defsyn": x is DEFSYN} for x in es]))
    # long delimiters
    long_ = []
    for k in sizes(big, 1100 if big else 520) + [5, 9, 12, 100, 130]:
        for kind in "ebc":
            for w in (0, 1):
                pr = {"e": ["{{", "}}"], "b": ["{%", "%}"], "c": ["{#", "#}"]}
                f = r.pick(["x" * k, "}" * k, "ab" * (k // 2) + "a", "\u65e5" * k, "-" * k + "x", "{" * k, "#" + " " * k + "#"])
                pr[kind][w] = f
                if len({x for q in pr.values() for x in q}) < 6:
                    continue
                sy = syn(*[tuple(pr[q]) for q in "ebc"])
                body = {"e": "v", "b": "if t", "c": "note"}[kind]
                t = "a" + mk(sy, kind, body, r.p(0.3), r.p(0.3)) + " z " + (mk(sy, "b", "endif") if kind == "b" else "") + mk(sy, "e", "w")
                for x in (t, r.pick([t.replace(f, f[:-1], 1), t.replace(f, f + f[-1], 1), t.replace(f, f[1:] + f, 1), t.replace(f, f[:-1] + f, 1), t[: t.index(f) + len(f) // 2]])):
                    long_.append(with_syn(case([tpl(x)], 1, CTXA), sy))
    # the last configuration of a builder counts, in whatever order its methods are called
    for c in cs[:: 5] + docs[:: 4] + side[:: 4]:
        for x in [c] if "syn" in c else c["engines"]:
            x["order"] = r.randrange(12)
    return [("long delimiters", "Trace", long_), ("related configurations", "EngineTrace", side), ("delimiter soup", "Trace", cs), ("documents under random delimiters", "Trace", docs), ("renamed documents", "Trace", same)]


# ---------------------------------------------------------------------- C03
TOKS = ["if", "not", "else", "endif", "for", "in", "endfor", "with", "as", "endwith", "include", "true", "false", "x", "l", "7", "1.5", '"s"', '"p"',
        ".", "?.", "|", ",", ":", "+", "-", "f", "loop", "0", "?", "!", "0x1F", "_a", "é"]
CTXC = vm({"x": vm({"x": vs("xx"), "l": vi(3)}), "l": vl([vi(1), vl([vi(7)])]), "f": vb(False), "_a": vs("ua"), "é": vs("eacute")})
FNC = [flt("f", ["value"], "id"), flt("x", ["value", "value"]), fmt("l", "dbg"), flt("loop", ["value"])]


def token_text(ts, sep=" "):
    return sep.join(ts)


VALIDTAGS = ["{{ x . x }}", "{{ l ?. 0 }}", "{{ x | f }}", "{{ x | x : 1 , l }}", "{{ - 1 }}", '{{ "s" }}', "{{ true | f }}", "{{ x . l | x : x . x | f }}",
             '{{ l | f : 1 , x , "s" , x . x , l , true | x : x | f }}', '{% if x | x : 1 , x ?. x , - 2 , "s" %}a{% else %}b{% endif %}', "{{ x . x . x ?. x . 0 . x | f | f | f | f | f }}",
             "{% if x %}a{% endif %}", "{% if not x %}a{% else %}b{% endif %}", "{% if x | f %}a{% endif %}", "{% if not x . x | f %}a{% endif %}",
             "A{% if f %}a~{% else %}~b{% endif %}", "A{% if f %}a~{% else if x %}~b{% endif %}", "A{% if f %}a~{% else if not x | f %}~b{% else %}c{% endif %}", "A{% if x %}a{% else %}~{% endif %}",
             "A{% for i in l %}a~{% endfor %}", "A{% with x as y %}a~{% endwith %}", "{% for i in l %}a{{ i }}{% endfor %}", "{% for k , v in x %}{{ k }}{% endfor %}", "{% for i in l | f %}a{% endfor %}",
             "{% with x as y %}{{ y }}{% endwith %}", "{% with x . l | f as y %}{{ y }}{% endwith %}", '{% include "p" %}', '{% include "p" with x %}', '{% include "p" with x . x | f %}']
EDITTOKS = ["if", "not", "else", "endif", "for", "in", "endfor", "with", "as", "endwith", "include", "true", "x", "7", "1.5", '"s"', ".", "?.", "|", ",", ":", "+", "-", "loop", "null", "and", "=", "(", "*", "end", "elif", "{{", "}}", "%}", "{%", "#}", "{#", ""]


def tag_edits():
    """Every valid tag with one token more, less or another, or two swapped.  (The tag with "~" around it: that one.)"""
    for t in VALIDTAGS:
        a, _, b = t.partition("~{%") if "~{%" in t else ("", "", t)
        tag, end, rest = ("{%" + b).partition("%}") if "~{%" in t else b.partition("}}" if b.startswith("{{") else "%}")
        rest = rest.replace("~", "")
        ws = tag[2:].split()
        out = lambda l: a + tag[:2] + " " + " ".join(l) + " " + end + rest
        yield out(ws)
        for i in range(len(ws) + 1):
            for k in EDITTOKS[:-1]:
                yield out(ws[:i] + [k] + ws[i:])
            if i < len(ws):
                for k in EDITTOKS:
                    if k != ws[i]:
                        yield out(ws[:i] + ([k] if k else []) + ws[i + 1:])
                yield out(ws[:i] + [ws[i]] + ws[i:])
                yield out(ws[:i + 1])
            if i + 1 < len(ws):
                yield out(ws[:i] + [ws[i + 1], ws[i]] + ws[i + 2:])


BLOCKSEQ = ["{% if x %}", "{% else if l %}", "{% else %}", "{% endif %}", "{% for i in l %}", "{% for k, v in x %}", "{% endfor %}", "{% with x as y %}",
            "{% endwith %}", "{% include \"p\" %}", "{% include \"p\" with x %}", "{{ x.x }}", "t", "{# c #}"]


def c03(r, big):
    pt = tpl("[p]", "p", "reg")
    one = lambda s: case([tpl(s), pt], 1, CTXC, fns=FNC, dfmt=dfmt("dbg"))
    cs = []
    # all short token sequences in expression tags and block tags
    for n in (0, 1, 2):
        for ts in itertools.product(TOKS, repeat=n):
            cs.append(one("{{ " + " ".join(ts) + " }}"))
    for ts in itertools.product(TOKS, repeat=1):
        cs.append(one("{% " + " ".join(ts) + " %}"))
    heads = [["if"], ["else"], ["for", "x", "in"], ["for"], ["with"], ["include"], ["endif"], ["with", "x", "as"], ["include", '"p"'], ["include", '"p"', "with"],
             ["if", "not"], ["for", "x", ","], ["with", "x"], ["if", "x", "|"], ["if", "x", "|", "f", ":"]]
    ends = {"if": "{% endif %}", "for": "{% endfor %}", "with": "{% endwith %}"}
    for h in heads:
        for ts in itertools.product(TOKS, repeat=1):
            cs.append(one("{% " + " ".join(h + list(ts)) + " %}a" + ends.get(h[0], "")))
    exprs = [["x"], ["l", ".", "0"], ["1"], ['"s"'], ["x", "|", "f"], ["x", "?.", "l"], ["x", "|", "x", ":", "1"]]
    tails = [["|"], ["|", "f"], [","], [":"], ["."], ["?."], ["x"], ["7"], ["as"], ["in"], ["|", "x", ":"], ["|", "x", ":", "l"], ["|", "x", ":", "l", ","], ["|", "if"],
             ["|", "7"], ["-"], ["+", "1"], [".", "0"], [".", "if"], [".", '"s"'], ["?"], ["with", "x"], ["as", "z"], ["|", "f", "|", "f"], ["|", "x", ":", "x", ".", "l"]]
    for e in exprs:
        for t in tails:
            cs.append(one("{{ " + " ".join(e + t) + " }}"))
            cs.append(one("{% if " + " ".join(e + t) + " %}a{% endif %}"))
            cs.append(one("{% for i in " + " ".join(e + t) + " %}a{% endfor %}"))
            cs.append(one("{% with " + " ".join(e + t) + " as w %}{{ w }}{% endwith %}"))
            cs.append(one('{% include "p" with ' + " ".join(e + t) + " %}"))
    g1 = cs
    # block structure: short sequences of tags
    cs = []
    for n in (1, 2):
        for ts in itertools.product(BLOCKSEQ, repeat=n):
            cs.append(one("".join(ts)))
    for _ in range(Q * 700 if not big else 8000):
        cs.append(one("".join(r.pick(BLOCKSEQ) for _ in range(r.randrange(3, 9)))))
    g2 = cs
    # well nested structures, then damaged
    cs = []
    for _ in range(Q * 700 if not big else 8000):
        c = mixed(r, r.pick(SYNTAXES) if r.p(0.15) else None, err=0.01)
        if r.p(0.5):
            t = c["tpls"][0]
            t["s"] = damage(r, t["s"], c["syn"])
            c["ftab"] = float_table([x["s"] for x in c["tpls"]])
        cs.append(c)
    g3 = cs
    # characters inside tags
    cs = []
    for _ in range(Q * 400 if not big else 4000):
        s = "".join(r.pick('x.?|:,+-"\\0179 \t\n{}%#_é!ab~(') for _ in range(r.randrange(1, 10)))
        cs.append(one(r.pick(["{{", "{%", "{#", "{{ x ", "{% if "]) + s + r.pick(["}}", "%}", "#}", " }}", " %}a{% endif %}", ""])))
    # deep nesting
    for n in (50, 300) if not big else (50, 300, 600):
        for o, c in (("{% if x %}", "{% endif %}"), ("{% for i in l %}", "{% endfor %}"), ("{% with x as y %}", "{% endwith %}")):
            if "for" in o:
                cs.append(case([tpl(o * n + c * n), pt], 1, vm({"l": vl([vi(1)])}), fns=FNC))
                cs.append(case([tpl(o * n + c * (n - 1)), pt], 1, vm({"l": vl([vi(1)])}), fns=FNC))
            else:
                cs.append(one(o * n + "a" + c * n))
                cs.append(one(o * n + "a" + c * (n - 1)))
        cs.append(one("{{ x" + " | f" * n + " }}"))
        cs.append(one("{{ " + ".".join(["x"] * n) + " }}"))
        cs.append(one("{{ x | x: " + ",".join(["x"] * n) + " }}"))
        cs.append(one("{% if x %}" + "{% else if x %}" * n + "{% else %}{% endif %}"))
        cs.append(one("{{ x }}" * n))
    # characters of every class as identifiers and between tokens
    us = []
    starts, conts = uni.edges("StartRanges"), uni.edges("ContRanges")
    chars = starts + conts if big else r.sample(starts, 130) + r.sample(conts, 130)
    for i, c in enumerate(chars):
        c = chr(c)
        for s in ("{{ %s }}", "{{ x%s }}", "{%% with 1 as %s %%}{{ %s }}{%% endwith %%}", "{{ x | f%s }}", "{{ x.x%s }}", "{%% for %s, b%s in x %%}{{ %s }}{%% endfor %%}") if big else ("{{ %s }}", ["{{ x%s }}", "{%% with 1 as %s_ %%}{{ %s_ }}{%% endwith %%}", "{{ x | f%s }}", "{%% with 2 as a%s %%}{{ a%s }}{%% endwith %%}"][i % 4]):
            us.append(case([tpl(s % ((c,) * s.count("%s")))], 1, vm({"x": vm({"x": vs("xx"), "x" + c: vi(4)}), "x" + c: vi(3), c: vi(5)}), fns=FNC + [flt("f" + c, ["value"], "id")], dfmt=dfmt("dbg")))
    for c in uni.blanks() if big else r.sample(uni.blanks(), 60):
        for s in ("{{%sx }}", "{{ x%s.x }}", "{%% if%sx %%}{%% endif %%}", "{{ 1%s}}", "{{ x | x:%s1 }}"):
            us.append(one(s % chr(c)))
    # long names, strings, blanks, sequences of tags and lists of arguments
    manys = []
    for n in sizes(big, 4100 if big else 1100):
        w = r.pick(["x", "xy_", "\u65e5", "e9"]) * n
        w = w[:n]
        for b in ("{{ %s }}", "{{ x | %s }}", "{%% with x as %s %%}{{ %s }}{%% endwith %%}", "{%% for a, %s in x %%}{%% endfor %%}", "{{ x.%s }}", '{{ "%s" }}', '{%% include "%s" %%}', "{{ x }}{# %s #}{{ x", "{%% %s %%}") if big else r.sample(["{{ %s }}", "{{ x | %s }}", "{%% with x as %s %%}{{ %s }}{%% endwith %%}", "{%% for a, %s in x %%}{%% endfor %%}", "{{ x.%s }}", '{{ "%s" }}', '{%% include "%s" %%}', "{{ x }}{# %s #}{{ x", "{%% %s %%}"], 3):
            manys.append(one(b.replace("%s", w).replace("%%", "%")))
        manys.append(one("{{" + " " * n + "x" + r.pick(["", "\t" * n, " " * n + "|" + " " * n + "f", " " * n + "x"]) + "}}"))
        if n <= 600:
            manys.append(one("{{ x" + r.pick([" | x", ".x", "?.x", " | f: 1, x", " |"]) * n + " }}"))
            manys.append(one("{{ x | f: " + ", ".join(r.pick(["x", "1", '"s"', "x.x"]) for _ in range(n)) + r.pick([" }}", ", }}", " x }}"])))
            manys.append(one(r.pick(["{{ x }}", "{# c #}", "{% if x %}{% endif %}", "{% with x as y %}{% endwith %}", "{% for a in l %}{% endfor %}", "t{{ 1 }}"]) * n + r.pick(["", "{{ x", "{% endif %}", "}}", "{{ x }}"])))
    # identifiers made of ASCII characters in every place, and the others again, without the "unicode" feature
    plain = [dict(c) for c in r.sample(us, Q * 60 if not big else 1500)] + [dict(c) for c in r.sample(g3 + cs, Q * 60 if not big else 1500)]
    for k in range(0, 128):
        for s in ("{{ %s }}", "{{ x%s }}", "{{ x.%sx | dbg }}", "{%% with 1 as %s_ %%}{{ %s_ }}{%% endwith %%}"):
            plain.append(one(s.replace("%s", chr(k)).replace("%%", "%")))
    edits = [one(s) for s in tag_edits()]
    # texts cut off, with blanks around what is left
    for a in ("", "a", " ", "a {{ x }}", "{# c #}", "{% if x %}"):
        for d in ("{{", "{%", "{#", "}}", "%}", "#}", "{{-", "{#-", "{%-", "-}}", "-#}", "{{ x", "{# x", "{% if", '{{ "', '{% include "p'):
            for t in ("", " ", "\n", " \t\n", "-", "- ", " -", "\u3000", " x", " x ", "}", "#", "%", " }", " #", "{", "{{", "{#", "\0"):
                edits.append(one(a + d + t))
    return [("valid tags, edited", "Trace", edits), ("long tags and many tags", "Trace", manys), ("without unicode", "Plain:Trace", plain), ("characters in tags", "Trace", us), ("token sequences", "Trace", g1), ("block sequences", "Trace", g2), ("programs, whole and damaged", "Trace", g3), ("character soup and deep nesting", "Trace", cs)]


def damage(r, s, sy):
    s = list(s)
    for _ in range(r.randrange(1, 3)):
        if not s:
            break
        k = r.randrange(6)
        i = r.randrange(len(s))
        if k == 0:
            del s[i]
        elif k == 1:
            s.insert(i, ord(r.pick('{}%#-"|:,.x1 \n')))
        elif k == 2:
            s[i] = ord(r.pick('{}%#-"|:,.x1 \n\\?'))
        elif k == 3:
            j = min(len(s), i + r.randrange(1, 12))
            s[i:j] = []
        elif k == 4:
            j = min(len(s), i + r.randrange(1, 20))
            s[j:j] = s[i:j]
        else:
            s = s[:i]
    return s


# ---------------------------------------------------------------------- C04
def lit_positions(l):
    """A literal in every place where one may occur."""
    return ["{{ %s | dbg }}" % l, "{{ %s | t1 | dbg }}" % l, "{{ x | t2: %s | dbg }}" % l, "{%% if %s %%}yes{%% else %%}no{%% endif %%}" % l,
            "{%% for i in %s | one %%}{{ i | dbg }},{%% endfor %%}" % l, "{%% with %s as y %%}{{ y | dbg }}{%% endwith %%}" % l, "{{ %s }}" % l,
            "{{ x | t3: 1, %s | dbg }}" % l, "{{x|t3:%s,2|dbg}}" % l, "{%% if not %s %%}no{%% endif %%}" % l, "{{ %s | id }}" % l,
            '{%% include "p" with %s %%}' % l, "{%% include %s %%}" % l, "{{%s}}" % l, "{{- %s -}}" % l, "{%% for i in %s %%}{%% endfor %%}" % l,
            "{%% if f %%}a{%% else if %s %%}b{%% endif %%}" % l, "{%% with %s | t1 as y %%}{{ y | dbg }}{%% endwith %%}" % l]


FNL = [flt("t1", ["value"]), flt("t2", ["value", "value"]), flt("t3", ["value", "value", "value"]), flt("id", ["value"], "id"), flt("one", ["value"]), fmt("dbg", "dbg")]


def int_edges():
    out = set()
    for b in (7, 8, 15, 16, 31, 32, 53, 62, 63, 64, 65, 127, 128):
        for d in (-1, 0, 1):
            out |= {2 ** b + d, -(2 ** b) + d}
    for k in range(0, 22):
        for d in (-1, 0, 1):
            out |= {10 ** k + d, -(10 ** k) + d}
    return sorted(out)


def spellings(n, r):
    m = abs(n)
    s = "-" if n < 0 else r.pick(["", "", "+"])
    for p, t in (("", str(m)), ("0x", "%x" % m), ("0x", "%X" % m), ("0o", "%o" % m), ("0b", bin(m)[2:]), ("0", str(m)), ("0x0", "%x" % m)):
        yield s + p + t
    t = str(m)
    if len(t) > 1:
        q = r.randrange(1, len(t))
        yield s + t[:q] + "_" + t[q:]
        yield s + "0x" + r.pick(["_", ""]) + ("%x" % m)[:1] + "__" + ("%x" % m)[1:] + "_"


FLOATLITS = ["0.0", "1.0", "1.5", "0.1", "0.2", "0.3", "3.14159", "2.", "10.0", "1e0", "1e1", "1E2", "1e+2", "1e-2", "1.5e3", "1.5E-3", "123456789.125", "0.000001", "1e15", "1e16", "1e17",
             "1e20", "1e21", "1e22", "1e23", "1e100", "1e-7", "1e-10", "1e308", "1e309", "1e-308", "1e-323", "1e-324", "4.9e-324", "2.2250738585072014e-308", "1.7976931348623157e308",
             "9007199254740993.0", "9007199254740992.0", "0.30000000000000004", "123456789012345678.0", "9223372036854775808", "9223372036854775807.0", "18446744073709551616", "1e400", "00.5", "007.25",
             "9.99999999999999999", "5e-324", "1.0e1", "100000000000000000000", "1_0.5", "1.5_0", "1e1_0", "1.e2", "1.e", "1e", "1e+", "1.5.5", "1..5", "1.5e1.5", "1.x", "1e5x", "1-", "1+1", "1.-", "1e5-", "12a",
             "0x", "0b", "0o", "0x_", "0b2", "0o8", "0xg", "0xG1", "0b102", "0o78", "0X1F", "0B1", "0O7", "0x1.5", "0b1.1", "0b1e1", "0x1e1", "0x-1", "1__2", "1_", "0_0", "0_x1", "inf", "nan", "1f", "1i64", "0xffffffffffffffffffff", "0b" + "1" * 64, "0b" + "1" * 63,
             "0o777777777777777777777", "0o1777777777777777777777", "1" * 25, "0." + "3" * 30, "0" * 30 + "7", "1e-400", "0.1e1", "12345678901234567890123456789e-10"]
STRLITS = ['""', '"a"', r'"\n"', r'"\r"', r'"\t"', r'"\\"', r'"\""', r'"\\\\"', r'"\\\""', r'"a\\"', r'"\"\""', r'"\\n"', r'"\x"', r'"\0"', r'"\u"', r'"\'"', r'"\N"', r'"\ "', r'"a\qb"', r'"é\n日"', '"\U0001f600"',
           '"{{"', '"}}"', '"%}"', '"{%"', '"#}"', '"{# x #}"', '"-}}"', '"a', 'a"', '"a\nb"', '"a\rb"', '"a\\\nb"', r'"\\', r'"\"', r'"\\\"', '"\t"', '"  "', "'a'", '"\x00"', '"a""b"', '"\x85"', '"\u2028"', r'"\\\\\""', '"|:,."', r'"tab\tnl\ncr\r"', '"\\b"', r'"\/"']


def c04(r, big):
    cs = []
    x = vm({"x": vs("X"), "f": vb(False)})
    for i, n in enumerate(int_edges()):
        for j, sp in enumerate(spellings(n, r)):
            ps = lit_positions(sp)
            for s in (ps if big else [ps[0], ps[(i + j) % len(ps)]]):
                cs.append(case([tpl(s), tpl("P{{ x }}", "p", "reg")], 1, x, fns=FNL))
    g1 = cs
    cs = []
    for i, f in enumerate(FLOATLITS):
        for sg in ("", "-", "+", "- "):
            ps = lit_positions(sg + f)
            for s in (ps if big or sg == "" else [ps[0], ps[i % len(ps)]]):
                cs.append(case([tpl(s), tpl("P", "p", "reg")], 1, x, fns=FNL))
    for _ in range(Q * 150 if not big else 3000):
        d = "".join(r.pick("0123456789") for _ in range(r.randrange(1, 22)))
        k = r.randrange(0, len(d) + 1)
        f = d[:k] + "." + d[k:] if k and r.p(0.7) else d
        if r.p(0.5):
            f += r.pick("eE") + r.pick(["", "-", "+"]) + str(r.randrange(0, 320))
        cs.append(case([tpl(lit_positions(f)[r.randrange(18)]), tpl("P", "p", "reg")], 1, x, fns=FNL))
    g2 = cs
    cs = []
    for i, l in enumerate(STRLITS + ["true", "false", "TRUE", "True", "none", "null", "- 5", "+ 5", "--5", "+-5", "-x", "-true", '-"a"', "trues", "true1"]):
        for s in lit_positions(l):
            cs.append(case([tpl(s), tpl("P", "p", "reg"), tpl("A", "a", "reg")], 1, x, fns=FNL))
    for _ in range(Q * 250 if not big else 4000):
        s = '"' + "".join(r.pick(['\\', '\\', 'n', 't', '"', 'a', '\\n', '\\"', '\\\\', 'é', ' ', '}}', '%}', '{{']) for _ in range(r.randrange(0, 9))) + '"'
        cs.append(case([tpl(r.pick(lit_positions(s)))], 1, x, fns=FNL))
    odd = WS + NOTWS + ["\u00ad", "\u034f", "\ufffd", "\U0001f600", "e\u0301", "\u0130", "\ufb01", "'", "`", "$", "%", "{", "<", "&", "/", "0", "x41", "u{41}", "\u2126", "\x1b"]
    for c in odd:
        if '"' in c or "\\" in c:
            continue
        for e in ("\\n", "\\t", "\\r", "\\\\", '\\"'):
            if big or r.p(0.5):
                l = '"' + r.pick(["", "a"]) + r.pick([c + e, e + c, c + e + c, e + c + e, c + c + e]) + r.pick(["", "b", " "]) + '"'
                cs.append(case([tpl("{{ %s | dbg }}" % l)], 1, x, fns=FNL))
    # a template is included by the value of the string
    for n in range(1, 4 if not big else 5):
        for q in itertools.product(["\\n", "\\t", "\\r", "\\\\", '\\"', "n", " ", "\u65e5"], repeat=n):
            if n < 3 or r.p(0.25):
                w = "".join(q)
                val = re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r"}.get(m[1], m[1]), w)
                cs.append(case([tpl('{%% include "%s" %%}{%% include "%s" with f %%}{{ "%s" | dbg }}' % (w, w, w)), tpl("[this]", val, "reg"), tpl("[raw]", w if w != val else w + "x", "reg")] + [tpl("[other]", o, "reg") for o in {val.strip(), val.replace("\t", "t"), val.replace("\n", "n")} - {val, w, ""}], 1, x, fns=FNL))
    # the same in other syntaxes
    for _ in range(Q * 150 if not big else 2000):
        sy = r.pick(HASEXPR[1:])
        l = r.pick(STRLITS + FLOATLITS) if r.p(0.6) else r.pick(["-", ""]) + str(r.randrange(1 << 40))
        cs.append(with_syn(case([tpl(mk(sy, "e", l + " | dbg"))], 1, x, fns=FNL), sy))
    # long literals of every kind
    lo = []
    for n in sizes(big, 4100 if big else 1100) + [17, 18, 19, 20, 21, 22, 25, 40, 66, 67]:
        for l in ("0" * n + "7", "0" * n, "1" * n, "-" + "9" * n, "0x" + "0" * n + "fF", "0x" + "f" * n, "0b" + "0" * n + "101", "0o" + "0" * n + "17", "1" + "_" * n + "2", "0x" + "_" * n + "1", "0x" + "_" * n, "_" * n, "1" * n + ".5", "0." + "0" * n + "1", "1." + "0" * n, "1." + "3" * n, "1e" + "0" * n + "5", "1e-" + "0" * n + "5", "1e" + "9" * n, "1" + "0" * n + "e-" + str(n),
                  "0." + "0" * n + "5e" + str(n), "1" * n + "x", "0b" + "1" * n + "2", "- " + " " * n + "5", "+" + "0" * n + "1"):
            if big or r.p(0.35) or n < 23:
                lo.append(case([tpl(r.pick(lit_positions(l)) if r.p(0.3) else "{{ %s | dbg }}" % l), tpl("P", "p", "reg")], 1, x, fns=FNL))
        for q in ("x", "\u65e5", "\\\\", '\\"', "\\n", "\\t\\r", " ", "\n", "{{ ", "%}", "\u0301"):
            t = '"' + (q * n)[:n if len(q) == 1 else n // len(q) * len(q)]
            for l in (t + '"', t + r.pick(["\\", "\\q", ""]) + r.pick(['"', '\\"', ""])):
                if big or r.p(0.5):
                    lo.append(case([tpl(r.pick(lit_positions(l))), tpl("P", "p", "reg")], 1, x, fns=FNL))
    return [("long literals", "Trace", lo), ("integer literals", "Trace", g1), ("decimal literals", "Trace", g2), ("string and boolean literals", "Trace", cs)]


# ---------------------------------------------------------------------- C05
def located(r, c):
    c["cl"] = c["cn"] = True
    return c


LINES = ["", "a\n", "\n", "é日 line\n", "x\r\n", "{{ v }}\n", "\u3000wide\n", "{# c #}\n", "日本", "ok {{ v }} ", "\n\n", "😀 ", "a\u0301 ", "{# 日\n本 #} ", "{{ \"é日\" }}", "x" * 60, "\u2003"]


def sprinkle(r, bad, n=4):
    """bad surrounded by lines and other tags."""
    pre = "".join(r.pick(LINES) for _ in range(r.randrange(0, n)))
    post = "".join(r.pick(LINES) for _ in range(r.randrange(0, n)))
    return pre + bad + post


BADEXPR = ["nope", "v.q", "m.q", "m.k.z", "l.9", "l.k", "m.0", "nope.a", "m?.q.x.y | nofilter", "v | nofilter", "v | fbad", "v | fbad | t1", "v | t2", "v | t2: 1, 2", "v | t2: nope", "v | t2: m.q", "v | ti: 1, v", "v | ti: v, 1",
           "v | t1 | w1 | t1", "v | w1: 2", "m", "l", "v | t1", "m | ferr", "v | ferr", "l | t1 | fbad", "日本", "m.日", "v | 日", "v | t2: 日.x", "é | é: é", "v | sr: s1", "v | t3: 1, m.q", "l.0.9", "l.1", "m.m.m", "v|t2:nope", "  nope  ", "m . q", "m ?. k . z", "ti | t1", "v | ti: m.k, m.m.q", "v | ti: m.k, m", "v | ti: m.m.q, l.0", "v | sr: m.k", "v | sr:m . m . q", "1 | sr: m?.m", "v | t2: 1 | ti: l.1, 1", "v | ti: 1, l .  1", "l | id", "m | id", "v | t2: 1 | t1 | id", "m.m | t1 | id", "l|id", "ml | id | w1 | id"]
BADSYN = ["}}", "%}", "#}", "{{ }}", "{% %}", "{{ 1 + }}", "{{ v", "{% if v", "{# c", "{{ v %}", "{% if v }}", "{{ {{ }}", "{{ if }}", "{% v %}", "{% if %}", "{% endif %}", "{% else %}", "{% for %}", "{% for a %}", "{% for a, %}x", "{% for a in %}", "{% for a b %}",
          "{% with v %}", "{% with v as %}", "{% with v as 1 %}", "{% endfor %}", "{% endwith %}", "{% include %}", "{% include v %}", '{% include "p %}', "{% include \"\\q\" %}", "{{ \"a }}", "{{ \"a\\q\" }}", "{{ 0x }}{{ 0xg }}", "{{ 0b12 }}", "{{ 12x }}", "{{ -x }}", "{{ +0o9 }}", "{{ - 0b2 }}", "{{ 1.5.5 }}", "{{ - 1.x }}",
          "{{ v | }}", "{{ v | 1 }}", "{{ v | f: }}", "{{ v | f: , }}", "{{ v | f: 1, }}", "{{ v . }}", "{{ v.\"a\" }}", "{{ v.if }}", "{{ l.99999999999999999999999 }}", "{{ v! }}", "{{ v ? }}", "{{ ?", "{{ v ?x }}", "{% else if v %}", "{% if v %}{% else %}{% else %}{% endif %}",
          "{% if v %}{% else %}{% else if v %}{% endif %}", "{% for a in l %}{% else %}{% endfor %}", "{% if v %}{% endfor %}", "{% with v as x %}{% endif %}", "{% if v %}", "{% for a in l %}\n", "{% with v as w %}x", "{{ v v }}", "{{ v, }}", "{% endif v %}", "{% else v %}", "{% if v v %}", "{# {# #}", "{# }} #}", "{# {{ #}", "{{ 日! }}", "{{ \"日\" 日 }}", "{% if 日 %}", "{% 日 %}",
          "{{ 0xffffffffffffffffff }}", "{{ - 0xffffffffffffffffff }}", "{{ v.5x }}", "{% for if in l %}", "{% with v as if %}", "{{ not v }}", "{{ as }}", "{{ v | t2: if }}", "{{\nv }}", "{{ v\n}}", "{% if v\n%}", "{{ \"a\nb\" }}", "{{ 日\n }}", "{", "{{- ", "{{ v -", "{#", "{% include \"p\" v %}", "{% include \"p\" with %}"]
CTXE = vm({"v": vs("V"), "ml": vl([vm({"k": vi(5), "m": vm({"q": vi(1)})})]), "m": vm({"k": vi(5), "m": vm({"q": vi(1)})}), "l": vl([vl([vi(1)]), vs("two"), vm({"a": vi(1)})]), "日本": vl([]), "ti": vi(1)})
FNE = [flt("t1", ["value"]), flt("t2", ["value", "value"]), flt("t3", ["value", "value", "value"]), flt("fbad", ["value"], "fail", msg="bad"), flt("ti", ["value", "i64", "i64"]),
       fmt("w1"), fmt("ferr", "fail", tag="part", msg="formatter failed"), flt("sr", ["value", "str"]), flt("id", ["value"], "id")]


def c05(r, big):
    n = 8 if big else 1
    cs = []
    wrap = ["%s", "{%% with m | id as m %%}%s{%% endwith %%}", "{%% for m in ml | id %%}%s{%% endfor %%}", "{%% if v %%}%s{%% endif %%}", "{%% for q in l %%}%s{%% endfor %%}", "{%% with v as q %%}%s{%% endwith %%}", "{%% for a, b in m %%}\n%s{%% endfor %%}", "{%% if nope2 %%}%s{%% endif %%}".replace("nope2", "v")]
    for k in range(3 * n):
        for b in BADEXPR:
            use = r.pick(["{{ %s }}", "{{- %s }}", "{%% if %s %%}a{%% endif %%}", "{%% if not %s %%}a{%% endif %%}", "{%% for a in %s %%}{{ a }}{%% endfor %%}", "{%% for a, b in %s %%}{%% endfor %%}", "{%% with %s as w %%}{{ w }}{%% endwith %%}", '{%% include "p" with %s %%}',
                          "{%% if f %%}{%% else if %s %%}{%% endif %%}".replace("f %%", "v %%", 0)]) % b
            s = sprinkle(r, r.pick(wrap) % use)
            cs.append(placed(r, s))
            if k % 3 == 0:
                cs.append(placed(r, sprinkle(r, r.pick(["{{ %s }}", "{{%s}}", "{{-\n  %s -}}"]) % b)))
        for b in ['{% include "nope" %}', '{% include "日" with v %}', '{% include "nope" with m %}', "{% for a in v %}{% endfor %}", "{% for a in m %}{% endfor %}", "{% for a, b in l %}{% endfor %}", "{% for a in l %}{{ 1 | ti: loop.index, loop.first }}{% endfor %}", "{% for a in l %}{{ 1 | ti: loop . last , 1 }}{% endfor %}", "{% for a in l %}{{ 1 | sr: loop.index }}{% endfor %}", "{% for a, b in m %}{{ a | sr: loop }}{% endfor %}", "{% for a, b in m %}{{ b | ti: 1, a }}{% endfor %}", "{% for a in l %}{{ loop.index?.a }}{% endfor %}", "{% for a in l %}{{ loop . q . r }}{% endfor %}", "{% for 日, b in l %}{% endfor %}", "{% include   \"a b\"   with m.k %}", '{% include "self" %}']:
            cs.append(placed(r, sprinkle(r, r.pick(wrap) % b)))
    # a wrong step at every depth of a long path, however its root is bound
    deep = vi(1)
    for k in range(7):
        deep = vm({"a": deep, "b": NONE}) if k % 3 else vl([deep, vs("x")])
    right = ["a" if k % 3 else "0" for k in reversed(range(7))] + ["a"]
    for o, e in (("", ""), ("{% with x as x %}", "{% endwith %}"), ("{% with x | id as x %}", "{% endwith %}"), ("{% for x in xs %}", "{% endfor %}"), ("{% for x in xs | id %}", "{% endfor %}"), ("{% for k, x in xm %}", "{% endfor %}"), ("{% for k, x in xm | id %}", "{% endfor %}"), ('{% include "X" with xm | id %}', ""), ('{% include "X" with xm %}', ""), ('{% for k, y in ym | id %}{% include "X" with y %}{% endfor %}', "")):
        for d in range(1, 9):
            for wrong in ("zz", "7"):
                u = sprinkle(r, "{{ x%s | t1 }}" % "".join(r.pick([".", ".", ".", "?."] if k < d - 1 else ["."]) + (wrong if k == d - 1 else right[k]) for k in range(min(8, d + r.randrange(2)))))
                cs.append(located(r, case([tpl(o + u + e if "X" not in o else o), tpl(u, "X", "reg")], 1, vm({"x": deep, "xs": vl([deep]), "xm": vm({"x": deep}), "ym": vm({"q": vm({"x": deep})})}), fns=FNE, src=r.weighted([("from", 3), ("serde", 1)]))))
    g1 = cs
    cs = []
    for k in range(3 * n):
        for b in BADSYN:
            s = sprinkle(r, b)
            role = r.pick(["anon", "reg"])
            cs.append(located(r, case([tpl(s, "main.txt" if role == "reg" else "", role), tpl("P", "p", "reg")], 1, CTXE, fns=FNE)))
    g2 = cs
    cs = []
    for _ in range(500 * n):
        c = mixed(r, r.pick(SYNTAXES) if r.p(0.2) else None, err=0.05)
        for t in c["tpls"]:
            t["s"] = [ch for ch in t["s"] if ch not in (9, 11, 31, 0x85)]
            if r.p(0.1):
                t["s"] = [ch for ch in damage(r, t["s"], c["syn"]) if ch not in (9, 11, 31, 0x85)]
        c["ftab"] = float_table([t["s"] for t in c["tpls"]])
        cs.append(located(r, c))
    # far down, far right, and wide
    far = []
    for k in [9, 10, 11, 99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001] + ([99999, 100000] if big else []):
        for bad in ("{{ nope }}", "{{ ) }}", "x\n{{ v v", "{{ v | fbad }}"):
            far.append(located(r, case([tpl("\n" * (k - 1) + bad), tpl("S", "self", "reg")], 1, CTXE, fns=FNE)))
    for k in sizes(big, 4100 if big else 2100) + [9, 10, 99]:
        for bad in ("{{ nope }}", "{{ v | fbad }}", "{{ v", "{% include \"nope\" %}", "{{ v v }}"):
            far.append(placed(r, "\n" * (k - 1) + bad))
            if big or r.p(0.5):
                far.append(placed(r, r.pick(["x", "日", "e\u0301", "{{ v }}"]) * k + " " + bad + "\n" * r.pick([0, 1, k])))
            if k < 1100:
                w = r.pick(["n", "日"]) * k
                far.append(placed(r, "a\nbc " + r.pick(["{{ %s }}", "{{ v | %s }}", "{{ v %s }}", "{%% include \"%s\" %%}", "{{ m.%s }}", "{%% for a in %s %%}", "{{ \"%s\" | sr: 1 }}"]) % w + "\n"))
                if k < 300:
                    far.append(located(r, case([tpl("a" + bad, "n" * k, "reg")], 1, CTXE, fns=FNE)))
    # columns count the width of characters of every kind
    us = []
    for _ in range(Q * 150 if not big else 6000):
        pre, w, f = uni.line(r, r.randrange(0, 12)), uni.word(r, r.randrange(1, 4)), uni.word(r, r.randrange(1, 3))
        post = uni.line(r, r.randrange(0, 5))
        bad = r.pick(["{{ %s }}" % w, "{{ v | %s }}" % f, "{{ v.%s.%s }}" % (w, f), "{%% for %s, %s in l %%}{%% endfor %%}" % (w, f), '{%% include "%s" %%}' % uni.line(r, 3), '{{ "%s" %s }}' % (uni.line(r, 3), w),
                      "{%% %s %%}" % w, "{%% if v %s %%}" % w, '{{ v | t2: "%s", 1 }}' % uni.line(r, 2), '{{ "%s" | sr: 1 }}' % uni.line(r, 2), "{{ v | fbad | %s }}" % f, "{{ %s | %s: %s }}" % (w, f, w), "{# %s" % w, '{{ "%s' % w, "{%% with v as %s %%}{{ %s.%s }}{%% endwith %%}" % (w, w, f), "{%% with v as %s %%}" % w])
        s = r.pick(["", "line\n", uni.line(r, 3) + "\n", "\n\n"]) + pre + bad + post + r.pick(["", "\nmore"])
        us.append(placed(r, s))
    plain = [dict(c) for c in r.sample(us + g1 + g2 + cs, Q * 100 if not big else 4000)]
    return [("without unicode", "Plain:Trace", plain), ("far out", "Trace", far), ("wide and narrow characters", "Trace", us), ("render errors", "Trace", g1), ("syntax errors", "Trace", g2), ("programs", "Trace", cs)]


def placed(r, s):
    """s as the compiled, the registered or an included template."""
    k = r.randrange(4)
    self_ = tpl("S", "self", "reg")
    p = tpl("P", "p", "reg")
    if k == 0:
        ts = [tpl(s), p, self_]
    elif k == 1:
        ts = [tpl(s, r.pick(["main.txt", "日/é", "a b"]), "reg"), p, self_]
    elif k == 2:
        ts = [tpl(sprinkle(r, r.pick(['{% include "inner" %}', '{% include "inner" with c %}', '{% for zz in l %}{% include "inner" %}{% endfor %}']))), tpl(s, "inner", "reg"), p, self_]
    else:
        ts = [tpl(sprinkle(r, '{% include "mid" %}'), "outer", "reg"), tpl(sprinkle(r, '{% with v as a1 %}{% include "inner" %}{% endwith %}'), "mid", "reg"), tpl(s, "inner", "reg"), p, self_]
    ctx = vm(dict({U(e["k"]): e["v"] for e in CTXE["m"]}, c=CTXE))
    return located(r, case(ts, 1, ctx, fns=FNE, depth=r.pick([-1, 8]), src=r.weighted([("from", 6), ("fn", 2), ("serde", 1)])))


# ---------------------------------------------------------------------- R01
def values_all():
    return [NONE, vb(True), vb(False), vi(0), vi(1), vi(-1), vi(2 ** 63 - 1), vi(-2 ** 63), vi(256), vi(2 ** 32), vf("0"), vf("-0"), vf("1"), vf("-1.5"), vf("NaN"), vf("inf"), vf("-inf"), vf("0.0000001"), vf("0.4"), vf("-0." + "0" * 18 + "1"), vf("0." + "0" * 323 + "5"), vf("-0." + "0" * 40 + "123"), vf("1" + "0" * 300), vi(65536), vi(-256),
            vs(""), vs("a"), vs(" "), vs("0"), vs("false"), vs("\u200b"), vs("\0"), vs("\0\0"), vs("\n"), vs("\u00a0"), vs("none"), vs("\ufeff"), vs("-0"), vl([]), vl([NONE]), vl([vi(0)]), vl([vb(False)]), vm({}), vm({"": NONE}), vm({"a": vb(False)}), vl([vl([])]), vm({"a": vm({})})]


def r01(r, big):
    cs = []
    vals = values_all()
    fns = [flt("log", ["value"], "id", tag="log"), flt("bad", ["value"], "fail", msg="bad"), flt("t1", ["value"]), flt("log2", ["value", "value"], "id", tag="log2")]
    for i, v in enumerate(vals):
        for s in ("{% if v %}T{% else %}F{% endif %}", "{% if not v %}T{% else %}F{% endif %}", "{% if v | log %}T{% endif %}", "{% with v as w %}{% if w %}T{% else if not w %}F{% else %}X{% endif %}{% endwith %}",
                  "{% for e in l %}{% if e %}T{% else %}F{% endif %}{% endfor %}", "{% if m.v %}T{% else if true %}F{% endif %}", "{% if f %}A{% else if v %}T{% else %}F{% endif %}", "{% if m?.v %}T{% else %}F{% endif %}",
                  "{% for k, e in m %}{% if not e %}T{% else if e %}F{% endif %}{% endfor %}"):
            for src in ("from", "fn", "serde") if big or i % 3 == 0 else ("from",):
                cs.append(case([tpl(s)], 1, vm({"v": v, "l": vl([v]), "m": vm({"v": v}), "f": vb(False)}), fns=fns, src=src))
    for l in ["true", "false", "0", "1", "-1", "0.0", "-0.0", "1e-5", '""', '"a"', '" "', "0x0", "-0", "0b0", "00", "1.5", "m.q", "m?.q", "nope"]:
        for s in ("{%% if %s %%}T{%% else %%}F{%% endif %%}", "{%% if not %s %%}T{%% else %%}F{%% endif %%}", "{%% if f %%}{%% else if not %s %%}T{%% else %%}F{%% endif %%}", "{%% if %s | log %%}T{%% endif %%}"):
            cs.append(case([tpl(s % l)], 1, vm({"m": vm({}), "f": vb(False)}), fns=fns))
    # chains: which branch, what is evaluated
    chains = []
    for n in (1, 2, 3):
        for conds in itertools.product(range(4), repeat=n):
            for els in (False, True):
                s = ""
                for i, c in enumerate(conds):
                    e = [["a%d | log", "not a%d | log", "b%d | log", "not b%d | log"], ["a%d | log2: 1", "not a%d | log2: b0", "b%d | log2: a0", "not b%d | log | log2: \"\""]][(len(chains) // 2) % 2][c] % i
                    s += "{%% %s %s %%}%d" % ("if" if i == 0 else "else if", e, i)
                s += "{% else %}E" if els else ""
                s += "{% endif %}."
                d = {"a%d" % i: vi(1) for i in range(n)}
                d.update({"b%d" % i: vs("") for i in range(n)})
                chains.append(case([tpl(s)], 1, vm(d), fns=fns))
    # long chains, decided anywhere, and many of them
    for n in sizes(big, 520 if big else 260):
        for at in sorted({0, 1, n // 2, n - 2, n - 1, n}) if big or n < 20 else [r.pick([n - 1, n - 1, n])] if n > 100 else [r.pick([0, 1, n // 2]), n - 1, n]:
            if n in (255, 256, 128) and not big:
                continue
            s = "".join("{%% %sif %s %%}%d" % ("else " if i else "", r.pick(["a", "not b", "a | log"] if i == at else ["b", "not a", "b | log" if i % 16 == 0 else "b"]), i) for i in range(n)) + r.pick(["", "{% else %}E"]) + "{% endif %}."
            chains.append(case([tpl(r.pick(["", "{% for x in l %}"]) + s)], 1, vm({"a": vi(1), "b": vs(""), "l": vl([vi(1)])}), fns=fns))
            if chains[-1]["tpls"][0]["s"][:6] == T("{% for"):
                chains[-1]["tpls"][0]["s"] += T("{% endfor %}")
        chains.append(case([tpl("{% if a %}{% if b %}1{% else %}2{% endif %}{% else %}3{% endif %}" * n)], 1, vm({"a": vi(1), "b": vs("")}), fns=fns))
    rnd = []
    for _ in range(Q * 600 if not big else 8000):
        rnd.append(focus(r, dict(text=4, emit=3, ife=9, fore=2, withe=2, inc=0.5, incw=0.3), depth=4, err=0.006, pipe=0.35))
    return [("truthiness", "Trace", cs), ("chains", "Trace", chains), ("programs", "Trace", rnd)]


def focus(r, weights, sy=None, **kw):
    kw.setdefault("err", 0.004)
    c = mixed(r, sy, weights=weights, failing=kw.pop("failing", r.p(0.15)), **kw)
    return c


# ---------------------------------------------------------------------- R02
def r02(r, big):
    cs = []
    lists = [[], [vi(1)], [vi(1), vi(2)], [vs("a"), NONE, vl([]), vm({}), vb(False), vf("0")], [vl([vi(1), vi(2)]), vl([]), vl([vi(3)])], [vi(k) for k in range(12)], [vm({"a": vi(1)}), vm({"a": vi(2), "b": vi(0)})]]
    maps = [{}, {"a": vi(1)}, {"b": vi(2), "a": vi(1), "c": vi(3)}, {"Z": vi(1), "a": vi(2), "_": vi(3), "é": vi(4), "日": vi(5), "10": vi(6), "9": vi(7), "": vi(8), "aa": vi(9), "A": vi(10)}, {"k": vm({"x": vi(1), "y": vi(2)}), "j": vl([vi(1)])},
            {"loop": vi(1), "index": vi(2), "e": vi(3)}, {chr(97 + k) + "%d" % k: vi(k) for k in range(11)}]
    fns = [fmt("d", "dbg"), flt("id", ["value"], "id"), flt("t1", ["value"])]
    data = "({{ loop.index }},{{ loop.first }},{{ loop.last }}"
    bodies1 = [data + ",{{ e | d }})", "{% if loop.first %}[{% endif %}{{ e | d }}{% if not loop.last %},{% else %}]{% endif %}", "{{ loop | d }}", "{% with loop.index as n %}{{ n }}{% with loop as q %}{{ q.last }}{% endwith %}{% endwith %}",
               "{% for x in g %}" + data + "{{ e | d }}{{ x }}){% endfor %}{{ loop.index }}{{ loop.last }}", "{% for e in g %}{{ e }}{% endfor %}{{ e | d }}", "{% include \"p\" %}{{ loop.index }}", "{{ loop?.index }}{{ loop.first | t1 | d }}", "", "{% for a, b in h %}{{ a }}{{ b }}{{ loop.index }}{{ e | d }}{% endfor %}{{ loop | d }}", "{% for loop in g %}{{ loop | d }}{% endfor %}{{ loop.index }}"]
    for li, l in enumerate(lists):
        for bi, b in enumerate(bodies1):
            for src in ("from", "serde") if big or (li + bi) % 4 == 0 else ("from",):
                s = "{%% for e in l %%}%s{%% endfor %%}." % b
                cs.append(case([tpl(s), tpl("<{{ loop.index }}{{ e | d }}{% for e in g %}{{ loop.last }}{% endfor %}{{ loop.last }}>", "p", "reg")], 1, vm({"l": vl(l), "g": vl([vi(7), vi(8)]), "h": vm({"p": vi(1), "q": vi(2)})}), fns=fns, src=src))
    for mi, m in enumerate(maps):
        for bi, b in enumerate(bodies1):
            s = "{%% for k, e in l %%}{{ k }}%s{%% endfor %%}." % b
            cs.append(case([tpl(s), tpl("<{{ loop.index }}{{ k }}{{ e | d }}>", "p", "reg")], 1, vm({"l": vm(m), "g": vl([vi(7), vi(8)]), "h": vm({"p": vi(1), "q": vi(2)})}), fns=fns, src=r.pick(["from", "serde", "fn"])))
    # sources of every kind, with one and two variables, through context, with, filters and literals
    for v in values_all():
        for s in ("{% for e in l %}{{ loop.index }}{% endfor %}.", "{% for k, e in l %}{{ k }}{% endfor %}.", "{% for e in l | id %}{{ loop.last }}{% endfor %}.", "{% with l as z %}{% for k, e in z %}{{ e | d }}{% endfor %}{% endwith %}.", "{% for e in m.l %}{{ e | d }}{% endfor %}.",
                  "{% for x in w %}{% for e in x %}{{ e | d }}{{ loop.index }}{% endfor %}{{ loop.index }}{% endfor %}."):
            cs.append(case([tpl(s)], 1, vm({"l": v, "m": vm({"l": v}), "w": vl([v, v])}), fns=fns))
    for l in ["5", '"abc"', "true", "loop", "nope", "l?.9", "m?.q", "loop.index"]:
        cs.append(case([tpl("{%% for e in %s %%}{{ e }}{%% endfor %%}" % l)], 1, vm({"l": vl([]), "m": vm({})}), fns=fns))
        cs.append(case([tpl("{%% for q in l %%}{%% for a in %s %%}{{ a }}{%% endfor %%}{%% endfor %%}" % l)], 1, vm({"l": vl([vi(1)]), "m": vm({})}), fns=fns))
    # names that resemble those of the loop
    for a, b in (("k", "K"), ("item", "Item"), ("loop_", "Loop"), ("e", "ee"), ("é", "É"), ("_", "__"), ("a1", "a10"), ("key", "ke")):
        for s in ("{%% for %s, %s in l %%}{{ %s }}{{ %s | d }}{{ Loop }}{{ loo }}{{ loop.index }}{%% endfor %%}", "{%% for %s, v in l %%}{%% with 1 as %s %%}{{ %s }}{{ %s | d }}{%% endwith %%}{%% endfor %%}", "{%% for %s in g %%}{%% for %s in g %%}{{ %s }}{{ %s | d }}{%% endfor %%}{%% endfor %%}"):
            for x, y in ((a, b), (b, a)):
                cs.append(case([tpl(s % (x, y, x, y))], 1, vm({"l": vm({"p": vi(1), "q": vl([vi(2)])}), "g": vl([vi(7), vi(8)]), "Loop": vs("L"), "loo": vs("o")}), fns=fns))
        for s in ("{%% for %s in g %%}{{ %s }}{{ %s }}{%% endfor %%}{{ %s }}", "{%% for %s, z in l %%}{{ %s }}{{ %s }}{%% endfor %%}{{ %s }}", "{%% for z, %s in l %%}{{ %s | d }}{{ %s }}{%% endfor %%}{{ %s }}", "{%% with 5 as %s %%}{{ %s | d }}{{ %s }}{%% endwith %%}{{ %s }}"):
            for x, y in ((a, b), (b, a)):
                cs.append(case([tpl(s % (x, x, y, y))], 1, vm({"l": vm({"p": vi(1)}), "g": vl([vi(7), vi(8)]), y: vs("ctx")}), fns=fns, src=r.pick(["from", "fn", "serde"])))
    # keys of all kinds, from the context, and from maps that were computed
    odd = [" a", "a ", "a", "A", "\n", "\0", "\t", "", "  ", "\u00a0", "\u200b", "a\0", "a.b", "10", "9", "09", "-1", "1.5", "true", "\u00e9", "e\u0301", "\U0001f600", "\uffff", "\u65e5", "a b", "_", "loop", "x" * 70, "x" * 69 + "y"]
    for n in range(1, 5):
        for _ in range(8 if not big else 150):
            m = {k: (NONE, vi(1), vs(k), vl([vs(k)]), vm({k: NONE}))[i % 5] for i, k in enumerate(r.sample(odd, min(len(odd), r.pick([n, n, 8, 27]))))}
            for s in ("{% for k, v in m %}{{ k | d }}={{ v | d }}{{ loop | d }};{% endfor %}", "{% for k, v in m | id %}{{ k | d }}={{ v | d }}{{ loop.index }}{{ loop.last }};{% endfor %}", "{% with m | id as z %}{% for k, v in z %}{{ k | d }}{{ loop.first }}{% endfor %}{{ z | d }}{% endwith %}",
                      "{% for q in l | id %}{% for k, v in q %}{{ k | d }}{% for j, w in q | id %}{{ j | d }}{% endfor %}{% endfor %}{% endfor %}"):
                cs.append(case([tpl(s)], 1, vm({"m": vm(m), "l": vl([vm(m)])}), fns=fns, src=r.pick(["from", "serde", "fn"])))
    for n in (1000, 4096, 5000) + ((32768, 65534, 65535, 65536, 65540, 70000) if big else (65540,)):
        for s in ("{% for e in l %}{% if loop.last %}!{{ loop.index }}{% endif %}{% endfor %}", "{% for e in l | id %}{% if loop.last %}{{ loop | d }}{% endif %}{% endfor %}") if n < 6000 or big else ("{% for e in l %}{% if loop.last %}{{ loop.index }}{{ loop | d }}{% endif %}{% endfor %}",):
            cs.append(many(case([tpl(s)], 1, vm({"l": vl([vi(0)] * n)}), fns=fns)))
    # many iterations
    for n in (100, 257, 300) if not big else (100, 257, 300, 1000, 3000):
        cs.append(case([tpl("{% for e in l %}{{ e }}{% if loop.last %}!{{ loop.index }}{% endif %}{% endfor %}")], 1, vm({"l": vl([vi(k) for k in range(n)])})))
    cs.append(case([tpl("{% for k, e in l %}{{ k }}{{ loop.index }}{{ loop.first }},{% endfor %}")], 1, vm({"l": vm({"k%03d" % k: vi(k) for k in range(130)})})))
    for n in (17, 101, 129, 260) if not big else sizes(True, 1100):
        es = {"k%05d" % k: vi(k) for k in range(n)}
        for s in ("{% for k, e in m SRC %}{{ loop.index }}={{ e }}{% if loop.last %}!{{ loop | d }}{% endif %} {% endfor %}", "{% for e in l SRC %}{{ loop.index }}={{ e }}{% if loop.first %}{{ loop | d }}{% endif %} {% endfor %}", "{% with m SRC as z %}{% for k, e in z %}{{ k }}{{ loop.index }}{{ loop.last }}{% endfor %}{% endwith %}",
                  "{% for x in ll %}{% for k, e in m SRC %}{{ loop.index }}{% endfor %}{{ loop.index }}{% endfor %}"):
            for f in ("", "| id"):
                cs.append(case([tpl(s.replace("SRC", f))], 1, vm({"m": vm(es), "l": vl([vi(k) for k in range(n)]), "ll": vl([NONE] * 2)}), fns=fns, src=r.pick(["from", "serde", "fn"])))
    # loops in loops in loops
    nest = []
    for n in (2, 3, 4, 8):
        s = ""
        for k in range(n):
            s += "{%% for e%d in l %%}<{{ loop.index }}{{ loop.last }}" % k
        for k in reversed(range(n)):
            s += "{{ loop.index }}{{ loop.first }}{{ e%d }}>{%% endfor %%}" % k
        nest.append(case([tpl(s)], 1, vm({"l": vl([vi(1), vi(2)] if n < 5 else [vi(1)])})))
    rnd = [focus(r, dict(text=3, emit=7, ife=2, fore=9, withe=2, inc=1, incw=0.5), depth=4) for _ in range(Q * 500 if not big else 7000)]
    return [("loops", "Trace", cs), ("nested", "Trace", nest), ("programs", "Trace", rnd)]


# ---------------------------------------------------------------------- R03
FEWNAMES = ["a", "b", "loop", "c"]


def scoping(r, depth, names, inc, owned=0.3):
    """A body that shows all names, and rebinds few of them."""
    sh = lambda: "".join("{{ %s | d }}" % n if r.p(0.6) else "" for n in names)
    out = sh()
    for _ in range(r.randrange(1, 3)):
        if depth == 0:
            break
        k = r.randrange(7)
        n, n2 = r.pick(FEWNAMES), r.pick(FEWNAMES)
        e = r.pick(names)
        if r.p(owned):
            e += " | t1"
        if k < 3:
            out += "{%% with %s as %s %%}" % (e, n) + scoping(r, depth - 1, names if r.p(0.5) else [x for x in names] + [n] * (n not in names), inc) + "{% endwith %}" + sh()
        elif k == 3:
            out += "{%% for %s in lst %%}" % n + scoping(r, depth - 1, names + [x for x in (n, "loop") if x not in names], inc) + "{% endfor %}" + sh()
        elif k == 4:
            out += "{%% for %s, %s in mp %%}" % (n, n2) + scoping(r, depth - 1, names + [x for x in {n, n2, "loop"} if x not in names], inc) + "{% endfor %}" + sh()
        elif k == 5:
            if inc:
                out += '{%% include "%s" %%}' % r.pick(inc) + sh()
            else:
                out += "{% if a %}" + scoping(r, depth - 1, names, inc) + "{% endif %}"
        else:
            if inc:
                out += '{%% include "%s" with %s %%}' % (r.pick(inc), r.pick(["mp", "ctx", "mp2"])) + sh()
    return out


def r03(r, big):
    fns = [fmt("d", "wrap", tag="d"), flt("t1", ["value"])]
    ctx = {"a": vs("A"), "b": vm({"a": vi(1), "b": vi(2), "loop": vs("L")}), "c": vl([vi(3)]), "lst": vl([vs("p"), vm({"a": vs("q")})]), "mp": vm({"a": vs("ma"), "b": vs("mb")}), "mp2": vm({"loop": vs("ml"), "c": vs("mc"), "lst": vl([]), "mp": vm({})})}
    ctx["ctx"] = vm(dict(ctx))
    cs = []
    for _ in range(Q * 700 if not big else 9000):
        inc = r.pick([[], ["p"], ["p", "q"]])
        c2 = dict(ctx)
        if r.p(0.4):
            c2["loop"] = vs("ctxloop")
        names = ["a", "b", "c"] + (["loop"] if "loop" in c2 and r.p(0.8) else [])
        tp = [tpl(scoping(r, 3, names, inc), "main", r.pick(["anon", "reg"]))]
        if "p" in inc:
            tp.append(tpl(scoping(r, 2, ["a", "b"], ["q"] if "q" in inc else []), "p", "reg"))
        if "q" in inc:
            tp.append(tpl(scoping(r, 1, ["a"], []), "q", "reg"))
        if tp[0]["role"] == "anon":
            tp[0]["n"] = []
        cs.append(case(tp, 1, vm(c2), fns=fns, src=r.weighted([("from", 4), ("fn", 1), ("serde", 1)])))
    # small programs, exhaustively: three nested binders over two names, and what is visible after each
    ex = []
    binders = [("{%% with %s as %s %%}", "{%% endwith %%}"), ("{%% for %s in lst %%}", "{%% endfor %%}"), ("{%% for %s, %s in mp %%}", "{%% endfor %%}"), ('{%% include "p" with mp %%}', ""), ('{%% include "p" %%}', "")]

    def opens():
        for n in ("a", "loop"):
            for e in ("a", '"lit"', "a | t1"):
                yield ("{%% with %s as %s %%}" % (e, n), "{% endwith %}")
            yield ("{%% for %s in lst %%}" % n, "{% endfor %}")
        yield ("{% for a, b in mp %}", "{% endfor %}")
        yield ("{% for b, a in mp %}", "{% endfor %}")
        yield ("{% for loop, a in mp %}", "{% endfor %}")
        yield ("{% for a, a in mp %}", "{% endfor %}")
        yield ('{% include "p" with mp %}', "")
        yield ('{% include "p" %}', "")
        yield ('{% include "w" with mp %}', "")
    for x, y in itertools.product(list(opens()), repeat=2):
        s = "{{ a | d }}" + x[0] + "{{ a | d }}" + y[0] + "{{ a | d }}" + ("{{ loop | d }}" if "for" in x[0] + y[0] and "loop" not in x[0] else "") + y[1] + "{{ a | d }}" + x[1] + "{{ a | d }}"
        ex.append(case([tpl(s), tpl("<{{ a | d }}>", "p", "reg"), tpl("<{% with a as b %}{{ b | d }}{% endwith %}{% for a in lst %}{% endfor %}>", "w", "reg")], 1,
                       vm({"a": vs("A"), "lst": vl([vi(1), vi(2)]), "mp": vm({"a": vs("ma"), "b": vs("mb")})}), fns=fns))
    for s in ("{{ b }}", "{% with a as b %}{% endwith %}{{ b }}", "{% for b in lst %}{% endfor %}{{ b }}", "{% for b in lst %}{% endfor %}{{ loop }}", "{{ loop.index }}", '{% include "w" with mp %}', '{% with a as zz %}{% include "z" with mp %}{% endwith %}',
              '{% with a as zz %}{% include "z" %}{% endwith %}', '{% for zz in lst %}{% include "l" with mp %}{% endfor %}', '{% for zz in lst %}{% include "l" %}{% endfor %}', '{% include "b" %}{{ zz }}', "{% with zz as zz %}{% endwith %}", "{% for zz in zz %}{% endfor %}", "{% with a as a %}{{ a }}{% endwith %}", "{% for a in a %}{% endfor %}",
              "{% for lst in lst %}{{ lst }}{% endfor %}{% for x in lst %}{{ x }}{% endfor %}", "{% for x in lst %}{% for x in lst %}{{ x }}{% endfor %}{{ x }}{% endfor %}", '{% for loop in lst %}{{ loop.index }}{% endfor %}', '{% for k, loop in mp %}{{ loop.index }}{{ k }}{% endfor %}', '{% with a as loop %}{{ loop }}{% for x in lst %}{{ loop.index }}{% with x as loop %}{{ loop }}{% endwith %}{{ loop.index }}{% endfor %}{{ loop }}{% endwith %}'):
        for src in ("from", "fn", "serde"):
            ex.append(case([tpl(s), tpl("{{ zz }}", "z", "reg"), tpl("{{ loop.index }}{{ zz }}", "l", "reg"), tpl("{% with a as zz %}{% endwith %}", "b", "reg"), tpl("{{ lst }}", "w", "reg")], 1,
                           vm({"a": vs("A"), "lst": vl([vi(1), vi(2)]), "mp": vm({"a": vs("ma"), "b": vs("mb")})}), fns=fns, src=src))
    # what is bound hides what was there, whatever it is
    hid = []
    deep = {"a": vm({"y": vm({"z": vs("deep")})}), "y": vs("outer y"), "0": vs("zero"), "index": vs("outer index")}
    hfn = [fmt("d", "dbg"), flt("id", ["value"], "id"), flt("r", ["value", "str"]), flt("t", ["value", "value"])]
    few = [NONE, vb(False), vi(0), vf("0"), vs(""), vl([]), vm({}), vs("s"), vl([vl([vs("in list")]), vi(1)]), vm({"a": NONE}), vm({"a": vm({}), "y": vi(2)}), vm({"y": vs("inner y")})]
    for bi, (o, e) in enumerate((("{% with v as x %}", "{% endwith %}"), ("{% with v | id as x %}", "{% endwith %}"), ("{% for x in l %}", "{% endfor %}"), ("{% for x in l | id %}", "{% endfor %}"), ("{% for k, x in m %}", "{% endfor %}"), ("{% for k, x in m | id %}", "{% endfor %}"), ("{% for x, k in m %}", "{% endfor %}"),
                                 ('{% include "p" with m %}', ""), ('{% include "p" with m | id %}', ""), ("{% with v as loop %}", "{% endwith %}"), ("{% for loop in l %}", "{% endfor %}"), ("{% for k in l %}", "{% endfor %}"), ("{% with v as x %}{% include \"p\" %}", "{% endwith %}"), ("{% with 1 as x %}{% with v as x %}", "{% endwith %}{{ x | d }}{% endwith %}"), ("{% for k in l %}{% with v as loop %}", "{% endwith %}{{ loop | d }}{% endfor %}"))):
        root = "loop" if "loop" in o or o.startswith("{% for k in") else "x"
        for vi_, v in enumerate(few):
            for pi, p in enumerate(("", ".a", "?.a", ".y", "?.y", ".0", "?.0", "?.a?.y", ".a.y", "?.index")):
                for ui, u in enumerate(("{{ %s | d }}", "{%% if %s %%}T{%% else %%}F{%% endif %%}", "{{ 1 | t: %s | d }}", "{{ 1 | r: %s | d }}", "{%% for q in %s %%}{{ q | d }}{%% endfor %%}", "{%% with %s as q %%}{{ q | d }}{%% endwith %%}")):
                    if not big and ui != (bi + vi_ + pi) % 6 or not big and r.p(0.45):
                        continue
                    b = u % (root + p)
                    ctx = dict(v=v, l=vl([v, v]), m=vm({"x": v}), x=vm(deep), loop=vm(deep), outer=NONE)
                    hid.append(dict(case([tpl(o + b + e + b), tpl(b if root == "x" else "-", "p", "reg")], 1, vm(ctx), fns=hfn, src=r.weighted([("from", 4), ("fn", 1), ("serde", 1)])), cl=True, cn=True))
    rnd = [focus(r, dict(text=1, emit=8, ife=1, fore=4, withe=5, inc=2, incw=1.5), depth=4, err=0.008) for _ in range(Q * 300 if not big else 5000)]
    # names that differ at their end, or their length
    for n in sizes(big, 4100 if big else 1030) + [9, 10, 11, 12]:
        w = r.pick(["n", "\u65e5", "ab", "_"]) * n
        for a, b in ((w[:n] + "a", w[:n] + "b"), (w[:n], w[:n] + "a"), ("a" + w[:n], "b" + w[:n]), (w[:n] + "a", w[:n] + "A")):
            for a, b in ((a, b), (b, a)):
                if not big and r.p(0.6):
                    continue
                f2 = fns + [flt(a, ["value"], tag="first"), flt(b, ["value"], tag="second")]
                ex.append(case([tpl("{% with 1 as AA %}{% with 2 as BB %}{{ AA }}{{ BB | AA }}{% endwith %}{{ BB }}{% endwith %}{% for AA in lst %}{% for BB, q in mp %}{{ AA | BB }}{{ BB }}{% endfor %}{{ BB }}{% endfor %}{% include \"BB\" with AA %}".replace("AA", a).replace("BB", b)), tpl("<{{ AA.BB }}{{ BB }}>".replace("AA", a).replace("BB", b), b, "reg"), tpl("no", a, "reg")], 1,
                               vm({"lst": vl([vi(5)]), "mp": vm({"k": vi(6)}), a: vm({a: vm({b: vs("inner")}), b: vs("scope")}), b: vs("ctx")}), fns=f2, src=r.pick(["from", "fn", "serde"])))
    # what the names of loops mean under many others
    for n in (5, 9, 13, 14, 17, 20, 33, 40) if not big else range(2, 70, 3):
        for kind in range(4):
            o = "".join(["{%% for x%d in l %%}" % k, r.pick(["{%% for x%d in l %%}" % k, "{%% for k, x%d in m %%}" % k]), "{%% for x%d in l | t1l %%}" % k, r.pick(["{%% for x%d in l %%}" % k, "{%% with 1 as x%d %%}" % k, "{%% include \"p\" %%}{%% for x%d in l %%}" % k])][kind] for k in range(n))
            e = "".join("{% endfor %}" if q == "for" else "{% endwith %}" for q in reversed(re.findall(r"\{% (for|with) ", o)))
            sh = "{{ x0 | d }}{{ x%d | d }}{{ x%d | d }}{{ c | d }}" % (n // 2, n - 1)
            u = sh + r.pick(["{{ loop.index }}{{ loop.last }}", "{% with 7 as loop %}{{ loop }}{% endwith %}{{ loop.first }}", "{% include \"p\" %}"])
            ex.append(case([tpl(o + u + e), tpl("{{ loop?.index }}{{ x0 | d }}", "p", "reg")], 1, vm({"l": vl([vi(1)]), "m": vm({"q": vi(2)}), "c": vs("C"), "loop": vm({"index": vs("from the context")})}), fns=fns + [flt("t1l", ["value"], "id")]))
    # deep shadowing
    for n in (20, 100, 300):
        s = "".join("{%% with %d as x %%}" % k for k in range(n)) + "{{ x }}" + "{% endwith %}{{ x }}" * n
        ex.append(case([tpl(s)], 1, vm({"x": vs("ctx")})))
        s = "".join("{%% with %d as x%d %%}" % (k, k) for k in range(n)) + "".join("{{ x%d }}" % k for k in {0, 1, 2, n // 2, n - 1}) + "{% endwith %}" * n
        ex.append(case([tpl(s)], 1, vm({})))
        for o, e in (("{% for x in l %}", "{% endfor %}"), ('{% if x %}', "{% endif %}")):
            if n < 100 or big:
                ex.append(case([tpl("".join("%s{%% with %d as x %%}" % (o, k) for k in range(n)) + "{{ x }}" + ("{% endwith %}{{ x }}" + e) * n + "{{ x }}")], 1, vm({"x": vs("ctx"), "l": vl([vi(1)])})))
    return [("binders", "Trace", ex), ("hiding", "Trace", hid), ("scopes", "Trace", cs), ("programs", "Trace", rnd)]


# ---------------------------------------------------------------------- R04
def r04(r, big):
    tree = vm({"m": vm({"k": vm({"z": vi(1), "0": vs("zero")}), "l": vl([vm({"k": vi(5)}), vl([vi(6), vi(7)]), NONE]), "n": NONE, "s": vs("str")}), "l": vl([vm({"k": vs("lk"), "m": vm({"k": vb(False)})}), vl([]), vi(3)]), "n": NONE, "s": vs("text"), "i": vi(4)})
    fns = [fmt("d", "dbg"), flt("id", ["value"], "id"), flt("t2", ["value", "value"]), flt("r2", ["value", "str"])]
    roots = [("m", "", ""), ("w", "{% with m as w %}", "{% endwith %}"), ("o", "{% with m | id as o %}", "{% endwith %}"), ("e", "{% for e in ml %}", "{% endfor %}"), ("e", "{% for e in ml | id %}", "{% endfor %}"), ("e", "{% for k, e in mm %}", "{% endfor %}"), ("e", "{% for k, e in mm | id %}", "{% endfor %}"),
             ("i", '{% include "P" %}', ""), ("x", '{% include "X" with wrapx %}', ""), ("x", '{% include "X" with wrapx | id %}', ""), ("x", '{% for y in wl | id %}{% include "X" with y %}{% endfor %}', "")]
    mem = [".k", "?.k", ".l", "?.l", ".q", "?.q", ".0", "?.0", ".9", "?.9", ".s", "?.n", ".1", "?.01"]
    cs = []
    cnt = 0
    for path in itertools.chain(itertools.product(mem, repeat=1), itertools.product(mem, repeat=2), itertools.product(mem, repeat=3) if big else ((r.pick(mem), r.pick(mem), r.pick(mem)) for _ in range(250))):
        p = "".join(path)
        for root in (roots if big else [roots[0], roots[1 + cnt % (len(roots) - 1)]]):
            cnt += 1
            n, o, e = root
            if n == "i":
                ts = [tpl('{%% include "P" %%}'.replace("%%", "%")), tpl("{{ m%s | d }}" % p, "P", "reg")]
            elif n == "x":
                ts = [tpl(o), tpl("{{ x%s | d }}" % p, "X", "reg")]
            else:
                ts = [tpl(o + ("{{ %s%s | d }}" % (n, p)) + e)]
            t = {U(q["k"]): q["v"] for q in tree["m"]}
            t.update({"ml": vl([t["m"]]), "mm": vm({"a": t["m"]}), "wrapx": vm({"x": t["m"]}), "wl": vl([vm({"x": t["m"]})])})
            cs.append(case(ts, 1, vm(t), fns=fns, src=("from", "from", "serde", "fn")[cnt % 4]))
    # loop data, roots of every kind, arguments, conditions and sources
    ex = []
    for p in ("loop", "loop.index", "loop.first", "loop.last", "loop?.index", "loop.q", "loop?.q", "loop.0", "loop?.0", "loop.index.a", "loop?.q.a", "loop.index?.a", "k", "k.a", "k?.a", "k.0", "e.0", "e?.0", "e.9", "e?.9", "e?.9.1", "loop?.q?.r.s"):
        for use in ("{{ %s | d }}", "{%% if %s %%}T{%% else %%}F{%% endif %%}", "{{ 1 | t2: %s | d }}", "{%% with %s as y %%}{{ y | d }}{%% endwith %%}", "{%% for y in %s %%}{{ y | d }}{%% endfor %%}", "{{ 1 | r2: %s | d }}"):
            ex.append(case([tpl("{% for k, e in mm %}" + use % p + "{% endfor %}")], 1, vm({"mm": vm({"a": vl([vi(1)]), "b": vl([vi(2), vs("x")])})}), fns=fns))
            ex.append(case([tpl("{% for e in ll | id %}" + use % p.replace("k", "e") + "{% endfor %}")], 1, vm({"ll": vl([vl([vi(1)])])}), fns=fns))
    for v in values_all():
        for p in ("v.a", "v?.a", "v.0", "v?.0", "v?.a.b", "v?.0?.1"):
            ex.append(case([tpl("{{ %s | d }}" % p)], 1, vm({"v": v}), fns=fns))
            ex.append(case([tpl("{%% with v as x %%}{{ %s | d }}{%% endwith %%}" % p.replace("v", "x"))], 1, vm({"v": v}), fns=fns))
            ex.append(case([tpl("{%% for x in v %%}{{ %s | d }}{%% endfor %%}" % p.replace("v", "x"))], 1, vm({"v": vl([v, v])}), fns=fns))
    # two steps from everything, however it is bound, with names of all lengths
    for v in values_all() + [vl([vl([vi(1)]), vm({"a": vi(2), "averylongmembername": vi(3)})]), vm({"a": vl([vi(4)]), "averylongmembername": vm({"a": vi(5)}), "9": vi(1)})]:
        for o, e in (("", ""), ("{% with x as x %}", "{% endwith %}"), ("{% with x | id as x %}", "{% endwith %}"), ("{% for x in xs %}", "{% endfor %}"), ("{% for x in xs | id %}", "{% endfor %}"), ("{% for k, x in xm | id %}", "{% endfor %}"), ('{% include "X" with xm | id %}', "")):
            for p in itertools.product([".", "?."], ["a", "0", "9", "averylongmembername"], ["", ".a", "?.a", ".0", "?.0", ".averylongmembername", "?.zz?.yy"]):
                if not big and r.p(0.94):
                    continue
                u = "{{ x%s | d }}" % "".join(p)
                ex.append(case([tpl(o + u + e if "X" not in o else o), tpl(u, "X", "reg")], 1, vm({"x": v, "xs": vl([v]), "xm": vm({"x": v})}), fns=fns, src=r.weighted([("from", 3), ("serde", 1), ("fn", 1)])))
    # a wrong step at every depth of a long path, however its root is bound
    deep = vi(1)
    for k in range(7):
        deep = vm({"a": deep, "b": NONE}) if k % 3 else vl([deep, vs("x")])
    right = ["a" if k % 3 else "0" for k in reversed(range(7))] + ["a"]
    for o, e in (("", ""), ("{% with x as x %}", "{% endwith %}"), ("{% with x | id as x %}", "{% endwith %}"), ("{% for x in xs %}", "{% endfor %}"), ("{% for x in xs | id %}", "{% endfor %}"), ("{% for k, x in xm %}", "{% endfor %}"), ("{% for k, x in xm | id %}", "{% endfor %}"), ('{% include "X" with xm | id %}', ""), ('{% include "X" with xm %}', ""), ('{% for k, y in ym | id %}{% include "X" with y %}{% endfor %}', "")):
        for n in range(1, 9):
            for wrong in ("zz", "7", right[n - 1]):
                for ops in ((lambda k: "."), (lambda k: "?." if k == n - 1 else "."), (lambda k: "?." if k < n - 1 else "."), (lambda k: r.pick([".", ".", "?."]))):
                    if not big and r.p(0.6):
                        continue
                    u = "{{ x%s | d }}" % "".join(ops(k) + (wrong if k == n - 1 else right[k]) for k in range(min(8, n + r.randrange(2))))
                    ex.append(case([tpl(o + u + e if "X" not in o else o), tpl(u, "X", "reg")], 1, vm({"x": deep, "xs": vl([deep]), "xm": vm({"x": deep}), "ym": vm({"q": vm({"x": deep})})}), fns=fns, src=r.weighted([("from", 3), ("serde", 1), ("fn", 1)])))
    # indices and keys
    big_l = vl([vi(k) for k in range(300)])
    for i in ("010", "08", "09", "0010", "0x1", "0b1", "0o1", "1_0", "1_", "_1", "1e0", "1e1", "1.0", "0" * 25 + "7", "0" * 19 + "255", "011", "0300", "0_1", "0x", "0xA", "100", "127", "128", "129", "0", "1", "10", "99", "255", "256", "257", "299", "300", "00", "007", "65536", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "99999999999"):
        for op in (".", "?."):
            ex.append(case([tpl("{{ l%s%s | d }}" % (op, i))], 1, vm({"l": big_l}), fns=fns))
    for k in ("a", "é", "日本", "_", "a1", "A", "if", "loop", "true", "aa"):
        ex.append(case([tpl("{{ m.%s | d }}{{ m?.%s | d }}" % (k, k))], 1, vm({"m": vm({k: vi(1), "a": vi(2), "aa": vi(3), "A": vi(4)})}), fns=fns))
    # "?." on the first name of a path and long paths
    v = vi(1)
    for k in range(60):
        v = vm({"a": v}) if k % 2 else vl([v, NONE])
    for n in sizes(big, 1100 if big else 300):      # many keys, long keys, long lists, far ends
        many = vm({"k%d" % k: vi(k) for k in range(n)})
        ex.append(case([tpl("".join("{{ m.k%d }}{{ m?.k%d | d }}," % (k, k + 1) for k in (0, n // 2, n - 1)))], 1, vm({"m": many}), fns=fns))
        kk = r.pick("aé日_") * n
        ex.append(case([tpl("{{ s?.%s }}" % kk + r.pick(["{{ m.%s.%s }}", "{{ m?.zz?.%s.%s }}", "{{ l?.%s?.%s }}", "{{ i?.%s.%s }}", "{{ n?.%s?.%s }}"]) % (kk, kk))], 1, vm({"m": vm({kk: vi(1)}), "s": r.pick([NONE, vs("s"), vm({}), vl([]), vb(True)]), "l": vl([]), "i": vi(1), "n": NONE}), fns=fns, src=r.pick(["from", "fn", "serde"])))
        ex.append(case([tpl("{{ m.%s }}{{ m?.%sa | d }}{{ m?.%s | d }}{{ %s }}" % (kk, kk, kk[1:], kk))], 1, vm({"m": vm({kk: vi(1)}), kk: vs("root")}), fns=fns))
        ex.append(case([tpl("{{ l.%d }}{{ l?.%d | d }}{{ l.0 }}" % (n - 1, n))], 1, vm({"l": vl([vi(k) for k in range(n)])}), fns=fns))
        if n < 70:
            v = vi(1)
            for k in range(n):
                v = vm({"a": v}) if k % 2 else vl([v, NONE])
            p = "".join(".a" if k % 2 else ".0" for k in reversed(range(n)))
            ex.append(case([tpl("{{ v%s }}{{ v%s?.q?.r | d }}{%% with v as w %%}{{ w%s }}{%% endwith %%}{%% for w in l | id %%}{{ w%s }}{%% endfor %%}" % (p, "?.zz" + p, p, p))], 1, vm({"v": v, "l": vl([v])}), fns=fns))
    for n in (1, 2, 9, 21, 65, 130, 300):       # keys that are nearly there
        m = vm({"k%d" % k: vi(k) for k in range(n)})
        for kk in ("k0", "k%d" % (n // 2), "k%d" % (n - 1)):
            for x in (kk + "_", kk + "0", kk[:-1] or "z", "_" + kk, kk.upper(), kk + kk, "k0" + kk[1:], kk + "\u00e9", "kk", kk[1:], kk + "_0", "k" + kk):
                if not x[0].isdigit() and (big or r.p(0.5)):
                    u = "{{ x.%s | d }}" % x if r.p(0.5) else "{{ x?.%s | d }}{{ x.%s }}" % (x, x)
                    ex.append(case([tpl(r.pick(["%s", "{%% with x | id as x %%}%s{%% endwith %%}", "{%% for x in l | id %%}%s{%% endfor %%}"]) % u)], 1, vm({"x": m, "l": vl([m])}), fns=fns, src=r.weighted([("from", 3), ("serde", 1), ("fn", 1)])))
    for n in range(2, 30, 1 if big else 2):     # long paths of all kinds of access through what was computed
        v, p = vi(7), ""
        for k in range(n):
            v, p = r.pick([(vm({"a": v, "b": NONE}), ".a" + p), (vl([v, vi(0)]), ".0" + p), (vm({"a": v}), "?.a" + p), (vl([NONE, v]), "?.1" + p)])
        q = "?.a" * n
        w = vi(7)
        for k in range(n):
            w = vm({"a": w})
        cut = r.randrange(n)
        steps = re.findall(r"\??\.[a-z0-9]+", p)
        wrong = "".join(steps[:cut] + [r.pick(["?.zz", "?.99", ".zz", ".99"])] + steps[cut + 1:])
        for u in ("{{ x%s | d }}" % p, "{{ y%s | d }}" % q, "{{ y%s | d }}{{ y%s | d }}" % (q + "?.a", q[:-3] + "?.b?.c"), "{{ x%s | d }}" % wrong, "{{ x%s?.a | d }}" % p, "{{ 1 | t2: x%s | d }}" % p):
            ex.append(case([tpl(r.pick(["%s", "{%% with x | id as x %%}{%% with y | id as y %%}%s{%% endwith %%}{%% endwith %%}", '{%% include "X" with z | id %%}']).replace("%s", u).replace("%%", "%")), tpl(u, "X", "reg")], 1, vm({"x": v, "y": w, "z": vm({"x": v, "y": w})}), fns=fns, src=r.weighted([("from", 3), ("fn", 1)])))
    v = vi(1)
    for k in range(60):
        v = vm({"a": v}) if k % 2 else vl([v, NONE])
    long_ = "v" + "".join(".a" if k % 2 else ".0" for k in reversed(range(60)))
    ex.append(case([tpl("{{ %s }}{{ %s | d }}" % (long_, long_[:-2]))], 1, vm({"v": v}), fns=fns))
    rnd = [focus(r, dict(text=1, emit=9, ife=3, fore=3, withe=3, inc=0.5, incw=1), opt=0.4, err=0.01, depth=2) for _ in range(Q * 350 if not big else 5000)]
    return [("paths", "Trace", cs), ("roots, uses and indices", "Trace", ex), ("programs", "Trace", rnd)]


# ---------------------------------------------------------------------- R05
def r05(r, big):
    fns = [fmt("d", "wrap", tag="d"), flt("t1", ["value"]), flt("id", ["value"], "id"), flt("bad", ["value"], "fail", msg="bad")]
    vals = values_all()
    cs = []
    base = {"a": vs("A"), "l": vl([vs("x"), vs("y")]), "m": vm({"a": vs("ma"), "z": vi(1)}), "mm": vm({"p": vm({"a": vi(1)}), "q": vm({"a": vi(2)})})}
    mains = ['[{% include "p" %}]', '{% for a in l %}{% include "p" %},{% endfor %}{{ a }}', '{% with l.0 as a %}{% include "p" %}{% endwith %}{{ a }}', '{% include "p" with m %}{{ a }}', '{% for k, v in mm %}{% include "p" with v %}{{ k }}{% endfor %}', '{% with m as q %}{% include "p" with q %}{{ q.a }}{% endwith %}{{ a }}',
             '{% include "p" with m | id %}{% include "p" %}', '{% include "p" with mm.p %}{% include "p" with mm?.nope %}', '{% for a in l %}{% for b in l %}{% include "p" with m %}{{ a }}{{ b }}{{ loop.index }}{% endfor %}{{ loop.index }}{% endfor %}', '{% include "p" with a %}', '{% include "nope" %}', '{% include "nope" with m %}',
             '{% if a %}{% include "p" %}{% else %}{% include "nope" %}{% endif %}', '{% for x in l %}{% if loop.last %}{% include "p" with m %}{% endif %}{% endfor %}{{ a }}', '{% with "w" as a %}{% include "p" with mm %}{{ a }}{% include "p" %}{% endwith %}{{ a }}', '{% include "p" with l %}', '{% include "p" with m | bad %}', '{% include "p" with nope %}']
    incs = ["<{{ a }}>", '<{{ a }}{% include "q" %}{{ a }}>', '{% with "inner" as a %}{{ a }}{% include "q" %}{% endwith %}{{ a }}', '{% for a in l %}{{ a }}{% endfor %}', "{{ loop.index }}{{ a }}", "{{ q }}", "", "plain", '{% include "q" with m %}', '{{ a }}{% include "q" with a %}', "{{ nope }}", '{% if a %}{{ a }}{% endif %}{% for b in l %}{% include "q" %}{% endfor %}']
    for i, m in enumerate(mains):
        for j, p in enumerate(incs):
            for tfn in ((False, True) if big or (i + j) % 3 == 0 else (False,)):
                role = "tfn" if tfn else "reg"
                cs.append(case([tpl(m), tpl(p, "p", role), tpl("({{ a }})", "q", role)], 1, vm(base), fns=fns, tfn=tfn, src=r.pick(["from", "from", "serde", "fn"])))
    for v in vals:
        cs.append(case([tpl('{% include "p" with v %}{{ v | d }}'), tpl("{{ a | d }}", "p", "reg")], 1, vm({"v": v, "a": vi(0)}), fns=fns))
        cs.append(case([tpl('{% for e in l %}{% include "p" with e %}{{ e | d }}{% endfor %}'), tpl("t{{ x?.y }}", "p", "reg")], 1, vm({"l": vl([vm({"x": v})])}), fns=fns))
        cs.append(case([tpl('{% include "p" with v %}'), tpl("text only", "p", "reg")], 1, vm({"v": v}), fns=fns))
    # names of templates
    for n in ("p", "", "a/b.html", "é日", 'q"uote', "b\\s", "n\nl", "t\tab", " sp ", "{{ x }}", "P"):
        cs.append(case([tpl('{%% include "%s" %%}|{%% include "%s" with m %%}' % (esc(n), esc(n))), tpl("<{{ a }}>", n, "reg"), tpl("other", "p2", "reg")], 1, vm(base), fns=fns))
        cs.append(case([tpl('{%% include "%s" %%}|{%% include "%s" with m %%}' % (esc(n), esc(n))), tpl("<{{ a }}>", n, "tfn"), tpl("reg{{ a }}", n, "reg")], 1, vm(base), fns=fns, tfn=True))
    # the template function is asked for every executed include, and only then; registered templates are not consulted
    for s in ('{% include "r" %}', '{% include "p" %}{% include "p" %}{% include "q" %}', '{% for x in l %}{% include "p" %}{% endfor %}', '{% if false %}{% include "p" %}{% endif %}x', '{% include "p" %}{% include "nope" %}{% include "p" %}', '{% include "rec" %}', '{% include "p" with nope %}'):
        for d in (-1, 3):
            cs.append(case([tpl(s), tpl("P", "p", "tfn"), tpl("Q", "q", "tfn"), tpl("R", "r", "reg"), tpl('{% include "rec" %}', "rec", "tfn"), tpl("regP", "p", "reg")], 1, vm(base), fns=fns, tfn=True, depth=d))
            cs.append(case([tpl(s, "main", "reg"), tpl("P", "p", "tfn"), tpl("Q", "q", "tfn"), tpl("R", "r", "reg"), tpl('{% include "rec" %}', "rec", "tfn"), tpl("regP", "p", "reg")], 1, vm(base), fns=fns, tfn=True, rdepth=d))
    # a template function that refuses a name under which something is registered, the rendered template included
    for s in ('{% include "main" %}', 'a{% include "p" %}{% include "main" %}', '{% include "p" %}', '{% include "q" with m %}', '{% for x in l %}{% include "main" with m %}{% endfor %}', '{% include "r" %}', '{% if a %}{% include "" %}{% endif %}'):
        for role in ("reg", "anon"):
            for extra in ([], [tpl("MAIN", "main", "tfn")], [tpl("MAIN", "main", "tfn"), tpl('Q{% include "main" %}', "q", "tfn")]):
                cs.append(case([tpl(s, "main" if role == "reg" else "", role), tpl('P{% include "main" %}', "p", "tfn"), tpl("R", "r", "reg"), tpl("Q", "q", "reg"), tpl("other", "main" if role == "anon" else "p", "reg")] + extra, 1, vm(base), fns=fns, tfn=True, depth=4, cn=True))
    # many includes, many templates, long names
    for n in sizes(big, 520 if big else 260):
        cs.append(case([tpl('{% include "p" %}{% include "p" with m %}' * (n // 2) + "{{ a }}"), tpl("<{{ a }}>", "p", "reg")], 1, vm(base), fns=fns))
        cs.append(case([tpl('{%% include "%s" %%}{%% include "%s" %%}' % ("n" * n, "n" * (n + 1))), tpl("<{{ a }}>", "n" * n, "reg"), tpl("other{{ a }}", "n" * (n + 1), r.pick(["reg", "reg", "tfn"]))], 1, vm(base), fns=fns))
        cs.append(case([tpl('{% for e in big %}{% include "p" with e %}{% include "q" %}{% endfor %}{{ a }}'), tpl("<{{ k }}>", "p", "reg"), tpl("{% with e.k as a %}{{ a }}{% endwith %}", "q", "reg")], 1, vm(dict(base, big=vl([vm({"k": vi(k)}) for k in range(n)]))), fns=fns))
    for n in sizes(big, 4100 if big else 1100)[4:]:
        w = r.pick(["n", "\u65e5", "a/"]) * n
        w = w[:n]
        cs.append(case([tpl('{%% include "%sa" %%}{%% include "%sb" with m %%}' % (w, w)), tpl("A{{ a }}", w + "a", "reg"), tpl("B{{ a }}", w + "b", "reg"), tpl("C", w, "reg")], 1, vm(base), fns=fns))
        cs.append(case([tpl('{%% include "%sa" %%}{%% include "%sb" %%}' % (w, w)), tpl("A{{ a }}", w + "a", "tfn"), tpl("B", w, "tfn"), tpl("C", w[1:] + "b", "tfn")], 1, vm(base), fns=fns, tfn=True))
    for n in (10, 64, 130):
        cs.append(case([tpl("".join('{%% include "t%d" %%}' % r.randrange(n) for _ in range(2 * n)))] + [tpl("%d{{ a }}" % k, "t%d" % k, "reg") for k in range(n)], 1, vm(base), fns=fns))
    rnd = []
    for _ in range(Q * 450 if not big else 6000):
        rnd.append(focus(r, dict(text=2, emit=5, ife=1, fore=3, withe=3, inc=5, incw=4), depth=3, err=0.006))
    for c in cs:
        if c["tfn"] and c["rdepth"] == -1 and r.p(0.6):
            c["rdepth"] = r.pick([3, 9, 64, 65])
    return [("includes", "Trace", cs), ("programs", "Trace", rnd)]


# ---------------------------------------------------------------------- R06
def r06(r, big):
    cs = []
    depths = range(0, 9) if not big else range(0, 40)
    # a chain of n templates under limit d
    for n in range(0, 9):
        for d in depths:
            ts = [tpl("0" + ('{% include "t1" %}' if n else "") + "e", "t0", "reg")]
            for k in range(1, n + 1):
                ts.append(tpl("%d" % k + ('{%% include "t%d"%s %%}' % (k + 1, " with m" if (k + d) % 3 == 0 else "") if k < n else "") + "e", "t%d" % k, "reg"))
            ctx = vm({"m": NONE})
            mm = vm({})
            for _ in range(12):
                mm = vm({"m": mm})
            cs.append(case(ts, 1, mm, depth=d, rdepth=-1))
            ts2 = [dict(t) for t in ts]
            ts2[0] = dict(ts[0], role="anon", n=[])
            cs.append(case(ts2, 1, mm, depth=r.pick([-1, 1, 5]), rdepth=d))
    # the default of 64, and long but shallow renders
    for n in (61, 62, 63, 64, 65, 66):
        s = '{% if v %}.{% endif %}{% include "rec" %}'
        ts = [tpl('{% include "t1" %}', "", "anon")] + [tpl('{%% include "t%d" %%}' % (k + 1) if k < n else "x", "t%d" % k, "reg") for k in range(1, n + 1)]
        cs.append(case(ts, 1, vm({})))
    cs.append(case([tpl('{% for x in l %}{% include "p" %}{% include "p" with x %}{% endfor %}'), tpl("p", "p", "reg")], 1, vm({"l": vl([vm({})] * 100)})))
    cs.append(case([tpl('{% for x in l %}{% include "p" %}{% include "p" with x %}{% endfor %}'), tpl("p", "p", "reg")], 1, vm({"l": vl([vm({})] * 20)}), depth=2))
    cs.append(case([tpl('{% for x in l %}{% include "p" %}{% include "p" with x %}{% endfor %}'), tpl("p", "p", "reg")], 1, vm({"l": vl([vm({})] * 20)}), depth=1))
    # recursion of every shape
    rec = ['a{% include "r" %}b', '{% for x in l %}{% include "r" %}{% endfor %}', '{% with 1 as y %}{% include "r" %}{% endwith %}', '{% include "s" %}', '{% include "r" with m %}', '{% if v %}{% include "r" %}{% else %}{% include "s" with m %}{% endif %}', '{% include "p" %}{% include "r" %}', '{% for x in l %}{% include "p" %}{% include "s" %}{% endfor %}']
    for s in rec:
        for d in (-1, 0, 1, 2, 3, 7, 64, 100):
            if d > 20 and not big and "for" in s:
                continue
            for tfn in (False, True):
                role = "tfn" if tfn else "reg"
                m = vm({"m": vm({})})
                m = vm({"m": vm({"m": vm({}), "l": vl([vi(1)])}), "l": vl([vi(1)]), "v": vb(True)})
                cs.append(case([tpl(s, "main", "reg"), tpl(s, "r", role), tpl('{% include "r" %}', "s", role), tpl(".", "p", role)], 1, m, depth=d, tfn=tfn))
    # data driven recursion: a tree
    def tree(k):
        return vm({"n": vi(k), "c": vl([tree(k - 1) for _ in range(2)] if k else [])})
    for k in (1, 2, 3, 4):
        for d in (k, k + 1, k + 2):
            cs.append(case([tpl('{% include "n" with t %}'), tpl('{{ n }}{% for x in c %}{% include "n" with x %}{% endfor %}', "n", "reg")], 1, vm({"t": tree(k)}), rdepth=d))
            cs.append(case([tpl('{{ n }}{% for x in c %}{% with x.c as c %}{% with x.n as n %}{% include "n" %}{% endwith %}{% endwith %}{% endfor %}', "n", "reg")], 1, tree(k), rdepth=d))
    for d in (0, 1, 2, 65, 200):
        cs.append(case([tpl("no include {{ v }}"), tpl("x", "p", "reg")], 1, vm({"v": vi(1)}), depth=d))
    rnd = [dict(focus(r, dict(text=3, emit=2, ife=2, fore=3, withe=2, inc=7, incw=4), depth=4, err=0.002, rec=0.4), depth=r.randrange(0, 5)) for _ in range(Q * 400 if not big else 6000)]
    # the largest limits
    for a, b in itertools.product((-8, -7, -6, -5, -4, -3, -2, -1, 2, 0), repeat=2):
        if (a < -1 or b < -1) and b != -1 or a < -1:
            for t in ('0{% include "r" %}', '0{% include "r" with m %}', "none"):
                m = vm({})
                for _ in range(5):
                    m = vm({"m": m})
                cs.append(case([tpl(t), tpl('1{% include "s" %}', "r", "reg"), tpl('2{% include "t" %}', "s", "reg"), tpl("3", "t", "reg")], 1, m, depth=a, rdepth=b))
                cs.append(case([tpl(t, "main", "reg"), tpl('1{% include "s" %}', "r", "tfn"), tpl('2{% include "t" %}', "s", "tfn"), tpl("3", "t", "tfn")], 1, m, depth=a, rdepth=b, tfn=True))
    for n in (70, 130, 300):
        ts = [tpl('{% include "t1" %}', "", "anon")] + [tpl('{%% include "t%d" %%}' % (k + 1) if k < n else "x", "t%d" % k, "reg") for k in range(1, n + 1)]
        for d in (-2, -4, n, n + 1, n + 2, 255, 256, 257):
            cs.append(case(ts, 1, vm({}), depth=d))
    # an engine limit below and above a render limit
    for a, b in itertools.product((-1, 0, 1, 2, 3, 70), repeat=2):
        cs.append(case([tpl('0{% include "r" %}'), tpl('1{% include "r" %}', "r", "reg")], 1, vm({}), depth=a, rdepth=b))
        cs.append(case([tpl('0{% include "r" %}', "main", "reg"), tpl('1{% include "r" %}', "r", "reg")], 1, vm({}), depth=a, rdepth=b))
    # thousands of includes, none within the other
    wide = []
    for n in (300, 1100, 5000) + ((20000, 66000) if big else ()):
        for t in ('{% for i in l %}{% include "a" %}{% endfor %}!', '{% for i in l %}{% include "a" with m %}{% include "a" %}{% endfor %}{% include "r" %}'):
            wide.append(many(case([tpl(t), tpl("x", "a", "reg"), tpl('r{% include "r" %}', "r", "reg")], 1, vm({"l": vl([NONE] * n), "m": vm({})}), depth=r.pick([-1, 1, 3]))))
    return [("thousands of includes", "Trace", wide), ("chains and recursion", "Trace", cs), ("programs", "Trace", rnd)]


# ---------------------------------------------------------------------- R07
def r07(r, big):
    n = 10 if big else 1
    a = [mixed(r, r.pick(SYNTAXES) if r.p(0.2) else None, err=r.pick([0.0, 0.003, 0.02]), depth=r.pick([2, 3, 4, 5]), failing=r.p(0.4)) for _ in range(1100 * n)]
    # templates that fail: every kind of failure at a random place
    b = [mixed(r, None, err=0.05, opt=0.3) for _ in range(250 * n)]
    # long renders
    c = []
    for _ in range(6 * n):
        x = mixed(r, None, err=0.0, depth=4, failing=False)
        s = x["tpls"][0]["s"]
        x["tpls"][0]["s"] = (s * 8)[:6000] if False else s * 4
        x["ftab"] = float_table([t["s"] for t in x["tpls"]])
        c.append(x)
    # contexts that are not maps
    for v in values_all():
        c.append(case([tpl("t{{ a }}")], 1, v))
        c.append(case([tpl("t{% if true %}x{% endif %}")], 1, v, src=r.pick(["from", "serde", "fn"])))
    # what the other properties single out
    d = []
    for f in (r01, r02, r03, r04, r05, r06, f01, f03):
        l = [x for _, m, cs in f(R("R07/%s/%d" % (f.__name__, SEED)), False) if m == "Trace" for x in cs]
        d += r.sample(l, min(len(l), 60 * n))
    # steps into everything that has no members, past the end, and with the largest indices
    fns = [flt("id", ["value"], "id"), fmt("d", "dbg"), flt("t2", ["value", "value"])]
    for o, e in (("{% for k, x in m %}", "{% endfor %}"), ("{% for x in l | id %}", "{% endfor %}"), ("{% with l as x %}", "{% endwith %}"), ("{% with l.0 | id as x %}{% for k in l %}", "{% endfor %}{% endwith %}")):
        for p in ("loop.index?.a", "loop.first.x", "loop?.last?.0?.1", "loop?.q?.r", "loop.q", "loop?.9", "loop.9", "x.18446744073709551615", "x?.18446744073709551615", "x.0.18446744073709551615", "x.0?.18446744073709551614.a", "l.18446744073709551615", "l?.18446744073709551615?.a", "m.a.9223372036854775808", "k.0", "k?.0", "x.0.0.0", "x?.0?.0?.0"):
            for use in ("{{ %s | d }}", "{%% if not %s %%}T{%% endif %%}", "{{ 1 | t2: %s | d }}"):
                d.append(case([tpl("a" + o + use % p + e + "z")], 1, vm({"l": vl([vl([vi(1)]), vi(2)]), "m": vm({"a": vl([vl([vi(1)])]), "b": vs("x")})}), fns=fns, src=r.weighted([("from", 4), ("fn", 1), ("serde", 1)])))
    # everything far down a long template
    far = []
    for n in (1000, 65530, 100100) + ((200000, 1 << 20) if big else ()):
        for u in ("{{ v | t1 | w }}", "{{ v | t1: 1 }}", "{{ nope }}", "{{ v | bad }}", "{{ v.q }}", "{% include \"nope\" %}", "{% for a in v %}{% endfor %}", "{{ v | t2: nope }}", "{{ v | ti: v, v }}", "{{ l }}", "{{ v", "{% if v %}", "{{ v | 1 }}", "{{ 0x }}", '{{ "', "{# ", "{% for a in l %}{{ a | t1 }}{{ loop.index | t2: loop }}{% endfor %}{% with l as z %}{{ z.0 | t1 }}{% endwith %}", '{% include "p" with m %}'):
            pre = r.pick(["x", "\n", " ", "\u65e5"][:4 if n < 60000 or big else 3]) * n
            far.append(case([tpl(pre + u + "end"), tpl("P{{ k }}", "p", "reg")], 1, vm({"v": vs("V"), "l": vl([vi(1), vi(2)]), "m": vm({"k": vi(1)})}), fns=[flt("t1", ["value"]), flt("t2", ["value", "value"]), flt("bad", ["value"], "fail", msg="bad"), flt("ti", ["value", "i64", "i64"]), fmt("w", "wrap", tag="w")], cn=True))
    # more instructions than fit sixteen bits, jumped over and executed
    longs = []
    for o, e, x in (("{% if a %}", "{% endif %}z{{ b }}", vi(0)), ("{% for q in a %}", "{% endfor %}z{{ b }}", vl([])), ("{% if b %}{% else %}", "{% endif %}z{{ b }}", vi(0))):
        longs.append(many(case([tpl(o + "x{{b}}" * 22000 + e)], 1, vm({"a": x, "b": vs("B")}))))
    return [("very long programs", "Trace", longs), ("far down", "Trace", far), ("programs", "Trace", a), ("failing programs", "Trace", b), ("long renders and odd contexts", "Trace", c), ("edges of every construct", "Trace", d)]


# ---------------------------------------------------------------------- F01
def f01(r, big):
    fns = [flt("t1", ["value"]), flt("t2", ["value", "value"]), flt("t3", ["value"] * 3), flt("t4", ["value"] * 4), flt("t5", ["value"] * 5), flt("id", ["value"], "id"), flt("bad", ["value"], "fail", msg="bad é"), flt("may", ["value"], "failf", msg="m"), fmt("d", "dbg"), fmt("w", "wrap", tag="w"),
           flt("lst", ["value"], "const", v=vl([vi(1), vi(2)])), flt("mp", ["value"], "const", v=vm({"a": vi(1)})), flt("non", ["value"], "const", v=NONE)]
    ctx = {"x": vs("X"), "y": vi(7), "l": vl([vs("l0"), vm({"q": vs("lq")})]), "m": vm({"k": vs("mk"), "n": NONE}), "f": vb(False)}
    uses = ["{{ %s }}", "{{ %s | d }}", "{%% if %s %%}T{%% else %%}F{%% endif %%}", "{%% if not %s %%}T{%% endif %%}", "{%% for e in %s %%}{{ e | d }}{%% endfor %%}", "{%% with %s as z %%}{{ z | d }}{{ z | t2: z | d }}{%% endwith %%}", '{%% include "p" with %s %%}', "{%% if f %%}{%% else if %s %%}E{%% endif %%}",
            "{%% for k, v in %s %%}{{ k }}{%% endfor %%}", "{%% with x as x2 %%}{{ %s | d }}{%% endwith %%}", '{%% for q in l %%}{{ %s | t2: q | d }}{%% endfor %%}']
    args = ["x", "y", "1", '"s"', "true", "l.1.q", "m.k", "m?.zz", "-5", "1.5", "l", "m", "nope", "m.zz", "l.9", "loop.index", "q"]
    names = {"t1": 0, "t2": 1, "t3": 2, "t4": 3, "t5": 4, "id": 0, "bad": 0, "may": 0, "lst": 0, "mp": 0, "non": 0, "d": 0, "w": 0, "nofn": 0}

    def pipe():
        s = r.pick(["x", "y", "l.0", "m", "1", '"s"', "m?.zz", "l", "f", "m.n"])
        for _ in range(r.randrange(1, 5)):
            n = r.weighted([("t1", 3), ("t2", 4), ("t3", 4), ("t4", 2), ("t5", 2), ("id", 2), ("bad", .4), ("may", .5), ("lst", .7), ("mp", .5), ("non", .5), ("d", .3), ("w", .3), ("nofn", .3)])
            k = names[n] if r.p(0.95) else r.randrange(0, 5)
            a = [r.pick(args[:12]) if r.p(0.97) else r.pick(args) for _ in range(k)]
            s += r.pick([" | ", "|", " |"]) + n + (r.pick([": ", ":"]) + r.pick([", ", ","]).join(a) if a else "")
        return s
    cs = []
    for i in range(Q * 1300 if not big else 14000):
        s = uses[i % len(uses)] % pipe()
        if r.p(0.3):
            s += r.pick(uses) % pipe()
        cs.append(case([tpl(s), tpl("<{{ a | t2: a | d }}>", "p", "reg")], 1, vm(ctx), fns=fns, src=r.weighted([("from", 6), ("fn", 1), ("serde", 1)]), dfmt=r.pick([BUILTIN, dfmt("dbg")])))
    # arity: every function with every number of arguments, in first, middle and last place
    ar = []
    for n in range(0, 6):
        for f in ("t1", "t2", "t3", "t4", "t5", "d", "nofn", "bad"):
            a = ": " + ", ".join(["x", "2", '"3"', "m.k", "l.0"][:n]) if n else ""
            for s in ("{{ x | %s%s | t1 | d }}", "{{ x | t1 | %s%s }}", "{{ x | %s%s }}", "{%% if x | %s%s %%}T{%% endif %%}", "{{ x | t1 | %s%s | bad | t1 }}"):
                ar.append(case([tpl(s % (f, a))], 1, vm(ctx), fns=fns, dfmt=dfmt("dbg")))
    # arguments are evaluated in the scope of the expression
    for a in args:
        for s in ("{%% with 1 as x %%}{{ y | t2: %s | d }}{%% endwith %%}", "{%% for q in l %%}{{ q | t2: %s | d }}{%% endfor %%}", "{{ x | t3: %s, %s | d }}", "{%% for x in l | t2: %s %%}{{ x | d }}{%% endfor %%}", "{%% with x | t2: %s as x %%}{{ x | d }}{%% endwith %%}", '{%% include "p" with m | t2: %s %%}'):
            ar.append(case([tpl(s.replace("%s", a).replace("%%", "%")), tpl("p", "p", "reg")], 1, vm(ctx), fns=fns))
    # long pipelines
    for n in (10, 40):
        ar.append(case([tpl("{{ x" + " | t1" * n + " | d }}")], 1, vm(ctx), fns=fns))
        ar.append(case([tpl("{{ x" + "".join(" | t2: %d" % k for k in range(n)) + " | d }}")], 1, vm(ctx), fns=fns))
    for n in sizes(big, 520 if big else 260):
        ar.append(case([tpl("{{ x" + "".join(r.pick([" | id", " | id", " | id2: y", " | id2: %d" % k]) for k in range(n)) + r.pick([" | t1 | d }}", " }}", " | d }}", " | bad }}"]))], 1, vm(ctx), fns=fns + [flt("id2", ["value", "value"], "id")]))
        ar.append(case([tpl(r.pick(["{{ x | t2: y }}", "{{ x | d }}", "{{ y | t1 | w }}"]) * n + "{{ x | t2: nope }}")], 1, vm(ctx), fns=fns))
        ar.append(case([tpl("{% for e in big | id %}{{ e | t2: loop.index | d }}{% endfor %}")], 1, vm(dict(ctx, big=vl([vi(k) for k in range(n)]))), fns=fns))
        bl, bm, bs = vl([vi(k % 10) for k in range(n)]), vm({"k%d" % k: vi(k % 10) for k in range(n)}), vs("\u65e5" * n)
        for f, q, z in (("gl", "list", bl), ("gl", "listref", bl), ("gm", "map", bm), ("gm", "mapref", bm), ("gs", "string", bs), ("gs", "str", bs), ("gl", "value", bl), ("gm", "valueref", bm)):
            ar.append(case([tpl(r.pick(["{{ x | %s | q | d }}", "{{ x | id | %s | id | q | d }}", "{%% for e in l %%}{{ e | %s | q | d }}{%% endfor %%}", "{%% with x | %s as z %%}{{ z | q | d }}{%% endwith %%}", "{{ big | q | d }}", "{{ big | id | q | d }}"]).replace("%s", f).replace("%%", "%"))], 1,
                           vm(dict(ctx, big=z)), src=r.pick(["from", "from", "serde", "fn"]), fns=fns + [flt(f, ["value"], "const", v=z), flt("q", [q])]))
        w = "f" * n
        ar.append(case([tpl("{{ x | %s | %sg: 1 | %s }}" % (w, w, w[1:]))], 1, vm(ctx), fns=[flt(w, ["value"], tag="f"), flt(w + "g", ["value", "value"], tag="g"), flt(w[1:], ["value"], tag="h")]))
    # at the end of many tags
    for n in (63, 64, 65, 127, 128, 255, 256, 1000, 2600) + ((4096, 9000, 33000) if big else ()):
        for u in ("{{ x | t2: y | d }}", "{{ x | d }}", "{{ x | t2: y }}", "{{ x | t1 | t2: m.k | w }}", "{{ x | w: 1 }}", "{{ x | d | t1 }}", "{% if x | t2: 1 %}{{ x | w }}{% endif %}{{ x | t2: nope }}"):
            if big or n < 100 or r.p(0.5):
                ar.append(many(case([tpl(r.pick(["{{ x }}", "{{ x | t1 }}", "{% if f %}{% endif %}", "{% with x as z %}{% endwith %}"]) * n + u)], 1, vm(ctx), fns=fns)))
    # filters that return anything, with any number of arguments, called once
    for v in values_all() if big else r.sample(values_all(), 24) + [vs(""), vl([]), vm({}), NONE]:
        for k in range(1, 6):
            fs = [flt("g", ["value"] * k, "const", tag="g", v=v)] + fns
            a = ": " + ", ".join(r.pick(["x", "2", '"3"', "m.k"]) for _ in range(k - 1)) if k > 1 else ""
            ar.append(case([tpl("{{ x | g%s | d }}{%% if x | g%s %%}T{%% endif %%}{%% for e in l %%}{{ e | g%s | t1 | d }}{%% endfor %%}{{ x | g%s }}" % (a, a, a, a))], 1, vm(ctx), fns=fs, dfmt=dfmt("dbg")))
    return [("pipelines", "Trace", cs), ("arity and scope of arguments", "Trace", ar)]


# Messages of user code; what follows an equals sign is the message as it stands.
MESSAGES = ["=", "=format error", "=io error", "=filter error", "=render error", "=syntax error", "=serialize error", "=invalid syntax", "= ", "=\n", "=a: b", "=format error: format error", "=an error", "=error", "=none", "=fmt", "=failed to write whole buffer", "=unexpected end of file", "=\u00e9\u65e5", "=" + "m" * 300, "=formatter error",
            "=an error occurred when formatting an argument", "=custom error", "=\"quoted\"", "={}", "=%s", "=\0", "=tab\there", "=line\nline", "=trailing ", "=.", "=Error"]

# ---------------------------------------------------------------------- F02
PTYPES = ["unit", "bool", "f32", "f64", "string", "str", "list", "listref", "map", "mapref", "value", "valueref", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"]
SIGS = None


def signatures():
    global SIGS
    if SIGS is None:
        with open(os.path.join(VERIF, "harness", "signatures.txt")) as f:
            SIGS = [l.strip().split(",") for l in f if l.strip() and not l.startswith("#")]
    return SIGS


def f32text(t):
    """Display text of the f64 that a text becomes when cast to f32 and back."""
    x = float(t)
    if math.isinf(x) or math.isnan(x):
        return t
    try:
        y = struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        y = math.copysign(math.inf, x)
    return float_text(y)


ARGVALS = [NONE, vb(True), vb(False)] + [vi(n) for b in (0, 7, 8, 15, 16, 31, 32, 63) for d in (-1, 0, 1) for n in (2 ** b + d, -(2 ** b) + d) if -2 ** 63 <= n < 2 ** 63] + \
          [vf(t) for t in ("0", "-0", "1", "1.5", "-2.25", "0.1", "16777217", "1e39".replace("1e39", "1" + "0" * 39), "NaN", "inf", "-inf", "3.14159265358979", "5" + "0" * 3)] + \
          [vs(""), vs("a"), vs("é日"), vs("1"), vs("true"), vs("a\0"), vs("\0"), vs(" a "), vs("\n"), vs("\r\n"), vs("\ufeffa"), vs("A"), vs("a" * 40), vl([]), vl([vi(1), NONE]), vm({}), vm({"a": vl([vs("x")])})]
F32 = [{"raw": v["fdec"], "text": T(f32text(U(v["fdec"])))} for v in ARGVALS if v["t"] == "flt"]


def f02(r, big):
    cs = []
    # receivers of every type: borrowed, owned
    for ty in PTYPES:
        f = [flt("g", [ty]), flt("id", ["value"], "id"), fmt("d", "dbg")]
        for v in ARGVALS:
            for s in (("{{ v | g | d }}", "{{ v | id | g | d }}", "{% for e in l | id %}{{ e | g | d }}{% endfor %}", "{% with m.v as w %}{{ w | g | d }}{% endwith %}") if big else (r.pick(["{{ v | g | d }}", "{{ v | id | g | d }}", "{% for e in l %}{{ e | g | d }}{% endfor %}"]),)):
                cs.append(case([tpl(s)], 1, vm({"v": v, "l": vl([v]), "m": vm({"v": v})}), fns=f, f32=F32))
    g1 = cs
    cs = []
    # arguments of every type in second and in first position; from the context, with, loops, literals and owned values
    for ty in PTYPES:
        for first in ("value", "i64"):
            if [first, ty] not in signatures():
                continue
            f = [flt("g", [first, ty]), flt("id", ["value"], "id"), fmt("d", "dbg")]
            for v in ARGVALS:
                opts = ["{{ 1 | g: v | d }}", "{{ 1 | g: m.v | d }}", "{% with v as w %}{{ 1 | g: w | d }}{% endwith %}", "{% with v | id as w %}{{ 1 | g: w | d }}{% endwith %}", "{% for e in l %}{{ 1 | g: e | d }}{% endfor %}", "{% for e in l | id %}{{ 1 | g: e | d }}{% endfor %}",
                        "{% for k, e in m %}{{ 1 | g: e | d }}{% endfor %}", "{% for k, e in m | id %}{{ 1 | g: e | d }}{% endfor %}", "{{ 1 | g: m?.v | d }}"]
                for s in (opts if big else [opts[0] if first == "value" else r.pick(opts)]):
                    cs.append(case([tpl(s)], 1, vm({"v": v, "l": vl([v]), "m": vm({"v": v})}), fns=f, f32=F32))
    # lists and maps arrive with all they contain
    bag = values_all() + [v for v in ARGVALS if v["t"] == "str"] + [vl(values_all()), vm({"a": vl(values_all()), "": vs("\0"), "\0": vs("")})]
    for ty in ("list", "listref", "map", "mapref", "value", "valueref"):
        for v in bag + [None]:
            w = [v] if v else bag
            x = vl(w + r.pick([[], w, [NONE]])) if "list" in ty or ty.startswith("value") and r.p(0.5) else vm({k: y for k, y in zip(["a", "", "b", "\0", " ", "A", "\u00e9", "10", "9"] + ["k%d" % i for i in range(len(w))], w + w[:1])})
            for s in ("{{ v | g | d }}", "{{ 1 | h: v | d }}", "{{ v | id | g | d }}", "{% with v | id as w %}{{ 1 | h: w | d }}{{ w | g | d }}{% endwith %}"):
                if ["value", ty] in signatures() or "h:" not in s:
                    if big or r.p(0.6) or v is None:
                        cs.append(case([tpl(s)], 1, vm({"v": x}), fns=[flt("g", [ty])] + ([flt("h", ["value", ty])] if ["value", ty] in signatures() else []) + [flt("id", ["value"], "id"), fmt("d", "dbg")], f32=F32))
    g2 = cs
    cs = []
    own = ["loop.index", "loop", "k", "e", "e2", "w", "ow", "v", "nope", "m?.zz", '"lit"', "5", "true", "1.5", "l.0"]
    for a in own:
        for ty in ("str", "value", "string", "list", "map", "i64", "u8", "bool", "f64"):
            f = [flt("g", ["value", ty]), flt("id", ["value"], "id"), fmt("d", "dbg")]
            for vv in (vs("S"), vl([vi(1)]), vm({"z": vi(1)}), vi(300)):
                if not big and r.p(0.5):
                    continue
                s = "{% with v as w %}{% with v | id as ow %}{% for e in l %}{% for k, e2 in m | id %}{{ 1 | g: " + a + " | d }}{% endfor %}{% endfor %}{% endwith %}{% endwith %}"
                cs.append(case([tpl(s)], 1, vm({"v": vv, "l": vl([vv]), "m": vm({"key": vv})}), fns=f, f32=F32, src=r.weighted([("from", 3), ("fn", 1), ("serde", 1)])))
    # many parameters
    for sig in signatures():
        if len(sig) < 2:
            continue
        for _ in range(3 if not big else 12):
            uniq = [dict(string=vs("so%d" % k), str=vs("st%d" % k), list=vl([vi(k)]), listref=vl([vi(k), NONE]), map=vm({"k%d" % k: NONE}), mapref=vm({"k": vi(k)}), bool=vb(k % 2), f64=vf("0.%d5" % k), f32=vf("%d.5" % k)) for k in range(len(sig))]
            good = {"unit": [NONE], "bool": [vb(True), vb(False)], "f32": [vf("1.5"), vf("0.1")], "f64": [vf("0.1")], "string": [vs("so")], "str": [vs("st")], "list": [vl([vi(1)])], "listref": [vl([])], "map": [vm({"a": NONE})], "mapref": [vm({})], "value": ARGVALS, "valueref": ARGVALS}
            vals = [uniq[k].get(ty, vi(k + 10)) if r.p(0.75) and ty != "unit" else r.pick(good.get(ty, [vi(0), vi(1), vi(127)])) if r.p(0.8) else r.pick(ARGVALS) for k, ty in enumerate(sig)]
            f = [flt("g", sig), fmt("d", "dbg")]
            ar = ", ".join("a%d" % k for k in range(1, len(sig)))
            cs.append(case([tpl("{{ a0 | g%s | d }}" % (": " + ar if ar else ""))], 1, vm({"a%d" % k: v for k, v in enumerate(vals)}), fns=f, f32=F32))
    # every signature is called, and every one of its parameters is the one that does not fit
    for sig in signatures():
        ok = [dict(string=vs("so%d" % k), str=vs("st%d" % k), list=vl([vi(k)]), listref=vl([vi(k), NONE]), map=vm({"k%d" % k: NONE}), mapref=vm({"k": vi(k)}), bool=vb(k % 2), f64=vf("0.%d5" % k), f32=vf("%d.5" % k), unit=NONE).get(ty, vi(k + 10)) for k, ty in enumerate(sig)]
        f = [flt("g", sig), flt("id", ["value"], "id"), fmt("d", "dbg")]
        s = "{{ a0%s | g%s | d }}" % (r.pick(["", "", " | id"]), ": " + ", ".join("a%d" % k for k in range(1, len(sig))) if len(sig) > 1 else "")
        for w in range(-1, len(sig)):
            if w >= 0 and sig[w] in ("value", "valueref"):
                continue
            vals = [v if k != w else vb(True) if v["t"] != "bool" else vs("true") for k, v in enumerate(ok)]
            cs.append(case([tpl(s)], 1, vm({"a%d" % k: v for k, v in enumerate(vals)}), fns=f, f32=F32, src=r.weighted([("from", 4), ("fn", 1)])))
    g3 = cs
    # return types
    cs = []
    rets = {"u8": [vi(0), vi(255)], "u16": [vi(65535)], "u32": [vi(2 ** 32 - 1)], "i8": [vi(-128), vi(127)], "i16": [vi(-32768)], "i32": [vi(-2 ** 31), vi(2 ** 31 - 1)], "i64": [vi(-2 ** 63), vi(2 ** 63 - 1)], "bool": [vb(True), vb(False)], "unit": [NONE],
            "f64": [vf("0.1"), vf("-0"), vf("inf"), vf("NaN")], "f32": [vf("1.5"), vf("0.25")], "string": [vs(""), vs("é\n")], "str": [vs("x")], "list": [vl([]), vl([vi(1), vs("a")])], "map": [vm({}), vm({"b": vi(1), "a": NONE})], "option": [NONE, vi(3), vs("")],
            "plain": ARGVALS, "resstr": [vs("ok")], "strerr": ARGVALS}
    for rt, vs_ in rets.items():
        for v in vs_:
            f = [flt("g", ["value"], "id", rt=rt), fmt("d", "dbg")]
            for s in ("{{ v | g | d }}", "{% with v | g as w %}{{ w | d }}{% if w %}T{% endif %}{% endwith %}", "{% for e in v | g %}{{ e | d }}{% endfor %}"):
                cs.append(case([tpl(s)], 1, vm({"v": v}), fns=f))
    for rt in ("strerr", "resstr"):
        for m in ("", "boom", "é: x\ny"):
            if m:
                cs.append(case([tpl("a{{ v | g | d }}b")], 1, vm({"v": vs("x")}), fns=[flt("g", ["value"], "fail", msg=m, rt=rt), fmt("d", "dbg")]))
    for m in ("", "boom", "é: x\ny", "a: b", " ", "x" * 300):
        cs.append(case([tpl("a{{ v | g | d }}b")], 1, vm({"v": vs("x")}), fns=[flt("g", ["value"], "fail", msg=m), fmt("d", "dbg")]))
    return [("receivers", "Trace", g1), ("arguments", "Trace", g2), ("ownership and many parameters", "Trace", g3), ("results", "Trace", cs)]


# ---------------------------------------------------------------------- F03
def f03(r, big):
    cs = []
    base = [flt("t1", ["value"]), flt("t2", ["value", "value"]), flt("id", ["value"], "id"), fmt("w", "wrap", tag="w"), fmt("d", "dbg"), fmt("esc", "esc"), fmt("dflt", "default"), fmt("ferr", "fail", tag="part", msg="msg é"), fmt("ffmt", "fmterr", tag="p"), fmt("fmay", "failf", msg="falsy")]
    uses = ["{{ v | %s }}", "{{ v | id | %s }}", "{{ v | t1 | %s }}", "{{ v | %s | id }}", "{{ v | %s: 1 }}", "{%% if v | %s %%}T{%% endif %%}", "{%% if not v | id | %s %%}T{%% endif %%}", "{%% for e in v | %s %%}{{ e }}{%% endfor %%}", "{%% with v | %s as x %%}{{ x }}{%% endwith %%}", '{%% include "p" with v | %s %%}',
            "a{{ v }}{{ v | %s }}b", "{{ v | %s | %s }}", "{{ v | t2: v | %s }}", "{{ '%s' }}".replace("'", '"'), "{%% for e in l %%}{{ e | %s }}{{ e }}{%% endfor %%}", "{%% if v | id %%}{{ v | %s }}{%% endif %%}", "{%% with v as x %%}{{ x | %s }}{%% endwith %%}", "{{ v | id | t1 | id | %s }}{{ v }}"]
    defaults = [BUILTIN, dfmt("wrap"), dfmt("dbg"), dfmt("esc"), dfmt("default"), dfmt("fail", msg="def fails"), dfmt("failf", msg="def falsy"), dfmt("fmterr"), dfmt("default", chars=True)]
    vals = [vs("<a&b>"), vi(5), NONE, vb(False), vl([vs("<")]), vm({"k": vs(">")}), vf("0.5"), vs("")]
    for i, u in enumerate(uses):
        for j, f in enumerate(("w", "d", "esc", "dflt", "ferr", "ffmt", "fmay", "t1", "nope")):
            for k, d in enumerate(defaults):
                if not big and (i + 2 * j + k) % 4:
                    continue
                v = vals[(i + j + k) % len(vals)]
                cs.append(case([tpl("<{}&" + u.replace("%s", f).replace("%%", "%") + ">\""), tpl("{{ a }}<p>{{ k }}", "p", "reg")], 1, vm({"v": v, "l": vl([v, vs("<")]), "a": vs("<in>")}), fns=base, dfmt=d))
    for n in (20, 63, 64, 65, 128, 256, 700, 2600) + ((4096, 9000, 33000) if big else ()):
        for u in ("{{ v | t2: v }}", "{{ v | w }}", "{{ v | t2: 1 | w }}", "{{ v }}", "{{ v | id }}", "{{ v | w | id }}", "{{ v | id | ferr }}", "{{ v | w: 1 }}"):
            if big or n < 100 or r.p(0.5):
                cs.append(many(case([tpl(r.pick(["{{ v }}", "{{ v | w }}", "<", "{% if v %}<{% endif %}", "{{ v | id }}"]) * n + "<" + u)], 1, vm({"v": vs("<")}), fns=base, dfmt=r.pick(defaults[:5]))))
    # text never passes a formatter: templates whose text contains what formatters would change
    tx = []
    for _ in range(Q * 500 if not big else 6000):
        d = r.pick(defaults[1:4] + [defaults[6]])
        c = focus(r, dict(text=6, emit=8, ife=3, fore=3, withe=3, inc=1, incw=1), words=["<b>", "&", "<x>&amp;", "a", '"', "é"], fmt=0.35, err=0.003)
        c["dfmt"] = d
        tx.append(c)
    # a formatter and a filter under names replaced later in the list; the last one counts
    ex = []
    for a, b in itertools.product([flt("n", ["value"]), fmt("n", "wrap", tag="n1"), fmt("n", "dbg")], repeat=2):
        for u in ("{{ v | n }}", "{{ v | n | n }}", "{{ v | t1 | n }}", "{% if v | n %}T{% endif %}"):
            ex.append(case([tpl(u)], 1, vm({"v": vs("<v>")}), fns=base + [a, b]))
            ex.append(case([tpl(u)], 1, vm({"v": vs("<v>")}), fns=base + [a, b], dfmt=dfmt("wrap")))
    for v in values_all():
        for d in defaults:
            ex.append(case([tpl("<{{ v }}>{{ v }}")], 1, vm({"v": v}), dfmt=d, src=r.pick(["from", "serde", "fn"])))
        for f in ("w", "esc", "dflt", "ferr", "fmay"):
            ex.append(case([tpl("<{{ v | %s }}>{{ v | id | %s }}" % (f, f))], 1, vm({"v": v}), fns=base, dfmt=dfmt("wrap")))
    for m in [x[1:] for x in MESSAGES]:
        for u in ("a{{ v | n }}b", "{% for x in l %}{{ x | n }}{% endfor %}", "{{ v }}"):
            for ch in (False, True):
                ex.append(case([tpl(u)], 1, vm({"v": vs("<v>"), "l": vl([vi(1)])}), fns=[fmt("n", "fail", tag=r.pick(["", "part"]), msg=m, chars=ch)], dfmt=dfmt("fail", tag="p", msg=m)))
    return [("positions of formatters", "Trace", cs), ("text and intermediate values", "Trace", tx), ("names and values", "Trace", ex)]


# ---------------------------------------------------------------------- F04
def rand_float(r):
    k = r.randrange(6)
    if k == 0:
        x = struct.unpack("d", struct.pack("Q", r.randrange(1 << 64)))[0]
        if math.isnan(x):
            return "NaN"
    elif k == 1:
        x = r.randrange(-10 ** 6, 10 ** 6) / 10 ** r.randrange(0, 7)
    elif k == 2:
        x = float("%d.%de%d" % (r.randrange(10), r.randrange(10 ** 17), r.randrange(-30, 30)))
    elif k == 3:
        x = float(2 ** r.randrange(0, 70)) + r.randrange(-1, 2)
    elif k == 4:
        x = r.pick([-1, 1]) * 10.0 ** r.randrange(-25, 25)
    else:
        x = r.randrange(1 << 53) * 2.0 ** r.randrange(-60, 12)
    return float_text(x)


def f04(r, big):
    n = 12 if big else 1
    cs = []
    vals = [vi(k) for k in int_edges() if -2 ** 63 <= k < 2 ** 63] + [vi(r.randrange(-2 ** 63, 2 ** 63) >> r.randrange(0, 60)) for _ in range(200 * n)] + values_all()
    vals += [vf(rand_float(r)) for _ in range(500 * n)]
    vals += [vf(float_text(x)) for x in (5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 0.1, 0.2, 0.1 + 0.2, 1e15, 1e16, 1e17, 1e21, 1e22, 123456789012345680.0, 1e-5, 1e-6, 1e-7, 100.0, -1.0, 2.0 ** 63, 2.0 ** 64)]
    strs = ["a\r\nb", "\r\n", "\n\r", "a\0", "\0a", "e\u0301", "\u00e9", "\u2028", "\u2126\u03a9", "\ufb01", "\u0130", "A\u030a", "\U0001f468\u200d\U0001f469", "\ufffd", "\U0010ffff", "  ", "\\r\\n", "${x}", "#{x}", "<%= x %>", "a\u00adb", "1", "none", "\x1f", "\x85", "", "a", "<b>&\"'</b>", "\x00", "\n\r\t", "é日😀", "{{ x }}", "{% if %}", "{# c #}", "\\n", "%", "%s", "{}", " lead and trail ", "\ufeff", "\u202e", "a" * 2000, "&amp;", "'", "`", "\x7f", "\x1b[0m"]
    vals += [vs(s) for s in strs] + [vs(rawtext(r)) for _ in range(120 * n)]
    srcs = ["from", "serde", "fn"]
    for i, v in enumerate(vals):
        s = "[{{ v }}]" if i % 3 else r.pick(["{{ v }}{{ v }}", "{% with v as w %}{{ w }}{% endwith %}", "{% for e in l %}{{ e }},{% endfor %}", "{{ v | id }}", "{{ v | dflt }}", "{{ m.v }}"])
        cs.append(case([tpl(s)], 1, vm({"v": v, "l": vl([v]), "m": vm({"v": v})}), fns=[flt("id", ["value"], "id"), fmt("dflt", "default")], src=srcs[i % 3]))
    for v in [vl([]), vl([vi(1)]), vm({}), vm({"a": vi(1)}), vl([vs("a")]), vm({"": vs("")})]:
        for s in ("a{{ v }}b", "a{{ v | dflt }}b", "a{{ v | id }}b", "{% for e in l %}a{{ e }}{% endfor %}", "{{ m.v }}", "{% for k, e in m %}{{ k }}{{ e }}{% endfor %}"):
            for d in (BUILTIN, dfmt("default"), dfmt("default", chars=True)):
                cs.append(case([tpl(s)], 1, vm({"v": v, "l": vl([vi(1), v]), "m": vm({"v": v})}), fns=[flt("id", ["value"], "id"), fmt("dflt", "default")], dfmt=d))
    lits = []
    for l in ['"a\r\nb"', '"a\\r\\nb"', '"\0"', '"e\u0301"', "true", "false", "0", "-0", "+5", "007", "0x10", "1.0", "1.50", "-0.0", "1e3", "1e-3", "1e21", '""', '"<&>"', r'"a\\b"', "9223372036854775807", "-9223372036854775808", "0.1", "100.0"]:
        lits.append(case([tpl("{{ %s }}" % l)], 1, vm({})))
    return [("values", "Trace", cs), ("literals", "Trace", lits)]


IOERRS = ["e%d|%s" % (i, k) for i, k in enumerate("Other NotFound WouldBlock BrokenPipe UnexpectedEof InvalidData WriteZero PermissionDenied ConnectionReset ConnectionAborted NotConnected AlreadyExists InvalidInput TimedOut Unsupported OutOfMemory".split())]
OSERRS = ["%s (os error %d)|os%d" % (os.strerror(n), n, n) for n in (1, 2, 5, 9, 11, 12, 22, 27, 28, 32, 104)]
IOERRS += OSERRS


def broken_writers(r, big):
    """Every piece of output, whatever it is, is the one whose write fails,
    and all before it has been delivered."""
    # (a formatter with a message says that when it cannot write: the error is the writer's all the same)
    fns = [fmt("w", "wrap", tag="w", msg="no wrap"), fmt("ferr", "fail", tag="part", msg="msg"), fmt("esc", "esc", msg="no esc"), flt("id", ["value"], "id")]
    parts = [("text", "t"), (" ", " "), ("\n\n", "nl"), ("{{ x }}", "x"), ("{{ y }}", "y"), ("{{ x | w }}", "w"), ("{{ x | esc }}", "esc"), ("{{ sp }}", "sp"), ("{{ n | dbg }}", "n"), ("{{ b }}", "b"), ('{% include "p" %}', "p"), ("{% for q in l %} {% endfor %}", "f"), ("{{ 1.5 }}", "fl")]
    cs = []
    for (a, _), (b, _) in itertools.product(parts, repeat=2):
        for lim in range(0, 9 if big else 4):
            cs.append(case([tpl(a + b), tpl(" \n", "p", "reg")], 1, vm({"x": vs("<"), "y": vi(7), "sp": vs("  "), "n": NONE, "b": vb(True), "l": vl([vi(1), vi(2)])}), fns=fns + [fmt("dbg", "dbg", msg="writer failed")], lim=lim, cn=True,
                           wm={"short": r.pick([0, 0, 1]), "intr": r.pick([0, 0, 1]), "zero": r.p(0.3), "once": r.p(0.6), "e": T(r.pick(["disk on fire|Other", "é|NotFound", "|Other", "x|BrokenPipe"] if r.p(0.3) else IOERRS))}, dfmt=r.pick([BUILTIN, BUILTIN, dfmt("default", chars=True), dfmt("default", chars=True, msg="no default"), dfmt("wrap"), dfmt("wrap", msg="é")])))
    return cs


# ---------------------------------------------------------------------- W01
def w01(r, big):
    cs = []
    base = []
    for _ in range(Q * 24 if not big else 160):
        c = mixed(r, None, err=0.002, failing=False, depth=2)
        base.append(c)
    for _ in range(8 if not big else 40):
        base.append(mixed(r, None, err=0.03, depth=2))
    fixed = ["héllo {{ x }} wörld", "{{ x }}", "{% for e in l %}{{ e }},{% endfor %}", "a{{ x | w }}b{{ x }}c", '[{% include "p" %}]', "{{ x | ferr }}tail", "日本{{ y }}", "abc{{ nope }}d", "{{ x | esc }}", "", "{{ e }}{{ e }}", "{{ e }}a{{ e | w }}", "  {{ x }}  \n{{ x }} \n ", "\n", " {% for e in l %} {{ e }}\n{% endfor %}\t{{ x | w }} ", "a{% if x %}  {% endif %}b{% with x as z %} {{ z }} {% endwith %}\n"]
    fns = [fmt("w", "wrap", tag="w"), fmt("ferr", "fail", tag="part", msg="msg"), fmt("esc", "esc"), flt("id", ["value"], "id")]
    for i, s in enumerate(fixed):
        for d in (BUILTIN, dfmt("wrap"), dfmt("default", chars=True)):
            base.append(case([tpl(s), tpl("in{{ x }}cl", "p", "reg")], 1, vm({"x": vs("<é>"), "y": vi(12345), "l": vl([vi(1), vi(22)]), "e": vs("")}), fns=fns, dfmt=d))
    import copy
    for i, b in enumerate(base):
        n = 90 if big else 14
        lims = list(range(0, n)) if i >= len(base) - 3 * len(fixed) or big else [0, 1, 2, 3, 5, 8, 13, 21, 40, 80]
        for lim in lims:
            c = copy.copy(b)
            c["lim"] = lim
            c["wm"] = {"short": r.pick([0, 0, 1, 2, 3, 7]), "intr": r.pick([0, 0, 0, 1, 2, 5]), "zero": r.p(0.3), "once": r.p(0.4)}
            c["src"] = r.pick(["from", "from", "serde", "fn"])
            cs.append(c)
        for sh, it in ((1, 0), (2, 1), (3, 2), (0, 1)):
            c = copy.copy(b)
            c["wm"] = {"short": sh, "intr": it, "zero": False}
            cs.append(c)
    cs += broken_writers(r, big)
    # characters of every length, one by one
    for t in ("\U0001f600", "a\U0001f600b", "\u65e5\u672c", "\u00e9", "\U0010ffff", "\u07ff\u0800\uffff\U00010000", "\0\x7f\u0080", "<\U0001f600>&\u65e5"):
        for d in (BUILTIN, dfmt("default", chars=True), dfmt("wrap"), dfmt("esc", chars=True), dfmt("dbg", chars=True)):
            for s in ("{{ x }}", t + "{{ x }}" + t, "{{ x | w }}{{ x | ec }}", "{{ x | dc }}"):
                for lim in (-1, 0, 1, 2, 3, 4, 5, 7, 9) if big else (-1, r.randrange(0, 9)):
                    cs.append(case([tpl(s)], 1, vm({"x": vs(t)}), fns=[fmt("w", "wrap", tag=t), fmt("ec", "esc", chars=True), fmt("dc", "default", chars=True)], dfmt=d, lim=lim, wm={"short": r.pick([0, 1, 2, 3]), "intr": r.pick([0, 0, 1]), "zero": False}))
    longs = []
    for k in (4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537) + ((131072,) if big else ()):
        for s, x in (("x" * k, ""), ("{{ s }}", "y" * k), ("{{ s | w }}", "y" * (k - 2)), ("a{{ s }}b", "\u65e5" * (k // 3)), ("{% for e in l %}{{ s }}{% endfor %}", "z" * (k // 4))):
            for lim in (-1, k - 1, k, k + 1, 0) if big else (-1, r.pick([k - 1, k, k + 1, 0])):
                longs.append(case([tpl(s)], 1, vm({"s": vs(x), "l": vl([vi(1)] * 4)}), fns=fns, lim=lim, dfmt=r.pick([BUILTIN, BUILTIN, dfmt("default"), dfmt("esc")]), wm={"short": r.pick([0, 0, 1000]), "intr": r.pick([0, 0, 3]), "zero": False, "e": T(r.pick(IOERRS))}))
    # a writer that fails within a long piece, and would take more
    for k in (70000, 131073) if not big else (65537, 70000, 131072, 131073, 200000, 300000):
        for s in ("x" * k, "{{ s }}", "{{ s | w }}", "ab{{ s | esc }}c", "{{ s | id }}"):
            for lim in r.sample([0, 1, 4096, 65535, 65536, 65537, k - 2, k - 1], 2 if not big else 6):
                longs.append(case([tpl(s)], 1, vm({"s": vs("y" * k if "{" in s else "")}), fns=fns, lim=lim, dfmt=r.pick([BUILTIN, dfmt("default"), dfmt("wrap")]), wm={"short": r.pick([0, 0, 40000]), "intr": 0, "zero": r.p(0.2), "once": True}))
    for k in (100, 5000):
        for lim in (-1, 0, 1, 63, 64, 65, 4095, 4096, 8191, 8192):
            longs.append(case([tpl("x" * k + "{{ s }}" + "é" * k)], 1, vm({"s": vs("y" * k)}), lim=lim, wm={"short": r.pick([0, 100]), "intr": r.pick([0, 3]), "zero": False}))
    return [("writer faults", "Trace", cs), ("long outputs", "Trace", longs)]


# ---------------------------------------------------------------------- V01
def unser(r, big):
    """Data with something that has no value, anywhere in it: all renders with it fail."""
    bad = [{"d": "u64", "dec": T(str(2 ** 63))}, {"d": "u64", "dec": T(str(2 ** 64 - 1))}, {"d": "i128", "dec": T("0")}, {"d": "u128", "dec": T("5")}] + [{"d": "fail", "s": T(t)} for t in ("no", "", "\u00e9: x")]
    out = []
    for b in bad:
        out.append(b)
        for c in SER_CONTAINERS:
            out.append(ser_wrap(r, c, [b]))
            out.append(ser_wrap(r, c, [{"d": "unit"}, b]))
            out.append(ser_wrap(r, r.pick(SER_CONTAINERS), [ser_wrap(r, c, [b])]))
    for k in ({"d": "unit"}, {"d": "bool", "b": True}, {"d": "f64", "dec": T("1")}, ser_wrap(r, "seq", [])):
        out.append({"d": "map", "len": True, "split": False, "l": [{"k": k, "v": {"d": "unit"}}]})
    return [ser_case(t) for t in out]


def v01(r, big):
    import copy
    cs = []
    for _ in range(Q * 330 if not big else 4000):
        c = mixed(r, None, err=0.01, opt=0.3)
        for src in ("from", "serde", "fn"):
            d = copy.copy(c)
            d["src"] = src
            if r.p(0.3):
                # the same template registered / compiled
                d["tpls"] = [dict(t) for t in c["tpls"]]
                if d["tpls"][0]["role"] == "anon":
                    d["tpls"][0].update(role="reg", n=T("main"))
                else:
                    d["tpls"][0].update(role="anon", n=[])
            cs.append(d)
    ex = []
    fns = [fmt("d", "dbg"), flt("t1", ["value"]), flt("t2", ["value", "value"]), flt("rs", ["value", "str"])]
    paths = ["a", "a.b", "a?.b", "a.0", "a?.0.c", "m.k.x", "m?.q.x", "m.q", "l.1", "l?.9", "nope", "nope?.x", "a.b.c.d.e", "l.0.k?.z", "l.007"]
    uses = ["{{ %s | d }}", "{%% if %s %%}T{%% else %%}F{%% endif %%}", "{%% for e in %s %%}{{ e | d }}{%% endfor %%}", "{%% with %s as w %%}{{ w | d }}{{ w | t2: w | d }}{%% endwith %%}", "{{ 1 | t2: %s | d }}", "{{ %s | t2: %s | d }}", '{%% include "p" with %s %%}', "{{ 1 | rs: %s | d }}", "{%% with 1 as a %%}{{ a | d }}{{ %s | d }}{%% endwith %%}",
            "{%% for m in l %%}{{ %s | d }}{%% endfor %%}", '{%% include "q" %%}{{ %s | d }}', "{%% if false %%}{{ %s }}{%% endif %%}x", "{{ loop }}{{ %s }}"]
    for p in paths:
        for u in uses:
            for src in ("fn",) if not big else ("fn", "from", "serde"):
                ctx = vm({"a": vm({"b": vs("ab"), "0": vs("z")}), "m": vm({"k": vm({"x": vi(1)})}), "l": vl([vm({"k": vm({})}), vs("l1")]), "x": vs("cx")})
                ex.append(case([tpl(u.replace("%s", p).replace("%%", "%")), tpl("{{ x }}", "p", "reg"), tpl("[{{ x }}{% with x as y %}{{ y }}{% endwith %}]", "q", "reg")], 1, ctx, fns=fns, src=src, cn=True))
    # long paths, and value functions that fail with any message, the empty one included
    for n in [k for k in sizes(big, 300) if k > 15] + list(range(2, 15)) + [20, 30, 40, 50, 60]:
        v = vs("end")
        for k in range(min(n, 60)):
            v = vm({"a": v})
        p = "a" + ".a" * (n - 1)
        for q in (p, p.replace(".", "?."), p + "?.b", p + ".0"):
            for src in ("fn", "from") if n < 61 else ("fn",):
                role = r.pick([("", "anon"), ("main", "reg")])
                ex.append(case([tpl("{{ %s | d }}{%% if %s %%}T{%% endif %%}{{ 1 | t2: %s | d }}" % (q, q, q), *role)], 1, v, fns=fns, src=src))
    for m in ("", " ", "\n", "x", ": ", "\0", "nope", "x" * 300, "=", "= ", "=\n", "=x", "=: ", "=\0", "==", "=syntax error: x"):
        for p in ("nope", "a.nope", "nope?.x", "a?.b.c"):
            for u in uses:
                if big or r.p(0.35):
                    ex.append(case([tpl(u.replace("%s", p).replace("%%", "%")), tpl("{{ x }}", "p", "reg"), tpl("[{{ nope }}]", "q", "reg")], 1, vm({"a": vm({"b": vs("ab")}), "m": vm({}), "l": vl([vm({})])}), fns=fns, src="fn", sfx=T(m), cn=True))
    # serializable contexts of every shape
    for v in values_all():
        for src in ("from", "serde", "fn"):
            ex.append(case([tpl("{{ v | d }}{% if v %}T{% else %}F{% endif %}{{ w.v | d }}{{ w.l.0 | d }}")], 1, vm({"v": v, "w": vm({"v": v, "l": vl([v])})}), fns=fns, src=src))
            ex.append(case([tpl("{{ v }}")], 1, v, fns=fns, src=src))
            ex.append(case([tpl("t", "main", "reg")], 1, v, fns=fns, src=src))
    # what is no map has no members, whatever they are called and whatever is in it
    for v in [NONE, vb(True), vi(0), vf("1.5"), vs(""), vs("v"), vl([]), vl([vm({"v": vi(1), "value": vi(2)})]), vl([vm({"v": vi(1)}), vm({"v": vi(2)})]), vl([vl([vm({"v": vi(1)})])]), vm({"": vm({"v": vi(1)})}), vm({"V": vi(1)}), vl([vs("v"), vi(1)]), vl([vl([vs("v"), vi(1)])])]:
        for nm in ("v", "none", "value", "data", "it", "this", "self", "_", "root", "context", "ctx", "item", "items", "list", "len", "index", "loop", "Some", "None"):
            for src in ("from", "serde", "fn"):
                five = ["t{{ %s }}", "{%% if %s %%}T{%% endif %%}", "{{ %s?.a }}", "{%% include \"p\" %%}", "{%% for q in %s %%}{%% endfor %%}"]
                for u in five if big or nm in ("v", "none") else ["t{{ %s }}", r.pick(five[1:])]:
                    ex.append(case([tpl(u.replace("%s", nm).replace("%%", "%")), tpl("{{ %s }}" % nm, "p", "reg")], 1, v, fns=fns, src=src, cn=True))
    return [("the same render from every source", "Trace", cs), ("value functions", "Trace", ex), ("contexts that cannot be serialized", "SerTrace", unser(r, big))]


# ---------------------------------------------------------------------- X01
def x01(r, big):
    cs = []
    msgs = ["boom", "", "=", "=x", "é: 日本", "with: colon", "two\nlines", " ", "render error: x", "Stops here.", "  blank around ", "tab\t", "...", "UPPER case!", "x" * 300, "%s {} {0}", "\u3000"]
    errs = {"v | nofilter": None, "v | bad": "b", "v | t2": None, "v | t2: nope": None, "nope": None, "v.q": None, "v | ferr": "f", "m": None, "v | ffmt": None, "m | dflt": None, "v | t1 | bad | t1": "b", "v | w | t1": None, "v | w: 1": None, "m | dferr": None, '"" | ferr2': None, '"" | bad2: v': None}
    uses = ["{{ %s }}", "{%% if %s %%}a{%% endif %%}", "{%% if f %%}a{%% else if not %s %%}b{%% endif %%}", "{%% for e in %s %%}{{ e }}{%% endfor %%}", "{%% with %s as z %%}{{ z }}{%% endwith %%}", '{%% include "leaf" with %s %%}', "{%% for e in l %%}x{{ %s }}{%% endfor %%}", "{%% with v as q %%}{{ %s }}{%% endwith %%}", "{%% for k, e in m %%}{%% if k %%}{{ %s }}{%% endif %%}{%% endfor %%}"]
    frames = ["{X}", '{% include "inner" %}', '{% include "inner" with all %}', '{% for o in l %}{% include "inner" %}{% endfor %}', '{% include "mid" %}', '{% with v as q2 %}{% include "mid" with all %}{% endwith %}']
    i = 0
    for e in errs:
        for u in uses:
            for fi, f in enumerate(frames):
                i += 1
                if not big and i % 2:
                    continue
                x = u.replace("%s", e).replace("%%", "%")
                m1, m2 = r.pick(msgs), r.pick(msgs)
                fns = [flt("t1", ["value"]), flt("t2", ["value", "value"]), flt("bad", ["value"], "fail", msg=m1), fmt("ferr", "fail", tag="part", msg=m2), fmt("ffmt", "fmterr", tag="p"), fmt("w", "wrap", tag="w"), fmt("dflt", "default"), fmt("ferr2", "failf", tag="part", msg=m1), flt("bad2", ["value", "value"], "failf", msg=m2)]
                tfn = i % 7 == 0 and fi > 0
                role = "tfn" if tfn else "reg"
                ts = [tpl("pre " + f.replace("{X}", x) + " post", "main", r.pick(["anon", "reg"])), tpl("in " + x + " ner", "inner", role), tpl('mid {% include "inner" %}', "mid", role), tpl("leaf", "leaf", role)]
                if ts[0]["role"] == "anon":
                    ts[0]["n"] = []
                base = {"v": vs("V"), "m": vm({"k": vi(1)}), "l": vl([vi(1), vi(2)]), "f": vb(False)}
                base["all"] = vm(dict(base))
                cs.append(case(ts, 1, vm(base), fns=fns, cn=True, tfn=tfn, src=r.weighted([("from", 3), ("serde", 1), ("fn", 2)]), dfmt=r.pick([BUILTIN, BUILTIN, dfmt("failf", msg="D: é"), dfmt("default")]), sfx=T(r.pick(["", "", r.pick(msgs)])), depth=r.pick([-1, -1, 3, 2, 1])))
    # every message, from everything that can supply one
    for m in msgs + [":", ": ", " : x", "\r\n", "é", "\u200b", "syntax error", "format error: twice", "\n= reason: y"] + [x[1:] for x in MESSAGES]:
        for e in ("{{ v | bad }}", '{{ "" | bad2: 1 }}', "{{ v | ferr }}", '{{ "" | ferr2 }}', '{{ "" }}', "{{ nope }}", '{% include "nope" %}', "{% if nope.a?.b %}{% endif %}", "{% for x in l %}{{ x | bad2: zz }}{% endfor %}"):
            for f in ("{X}", '{% include "inner" %}'):
                fns = [flt("bad", ["value"], "fail", msg=m, rt=r.pick(["", "strerr"])), flt("bad2", ["value", "value"], "failf", msg=m), fmt("ferr", "fail", tag="part", msg=m), fmt("ferr2", "failf", tag="p", msg=m)]
                role = r.pick(["reg", "tfn"])
                cs.append(case([tpl(f.replace("{X}", e), "", "anon"), tpl("i" + e, "inner", role)], 1, vm({"v": vs("V"), "l": vl([vs("")])}), fns=fns, cn=True, tfn=role == "tfn", sfx=T(m), src=r.pick(["fn", "fn", "from"]), dfmt=dfmt("failf", msg=m, tag="d")))
    # long ones
    for n in (255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 2049, 4097, 65535, 65536, 65537) + ((131073,) if big else ()):
        for m in (("m" * n), "é" * n if n < 5000 else "n" * (n + 1), "a b " * (n // 4)):
            for e in ("{{ v | bad }}", '{{ "" | bad2: 1 }}', "{{ v | ferr }}", '{{ "" | ferr2 }}', '{{ "" }}', "{{ nope }}", '{% include "nope" %}'):
                if n > 5000 and not big and r.p(0.6):
                    continue
                fns = [flt("bad", ["value"], "fail", msg=m, rt=r.pick(["", "strerr"])), flt("bad2", ["value", "value"], "failf", msg=m), fmt("ferr", "fail", tag="part", msg=m), fmt("ferr2", "failf", tag="p", msg=m)]
                cs.append(case([tpl(e, "", "anon")], 1, vm({"v": vs("V")}), fns=fns, cn=True, tfn=e.startswith("{%"), sfx=T(r.pick(["=", ""]) + m), src="fn", dfmt=dfmt("failf", msg=m, tag="d")))
    # errors of the default formatter, value function, template function and writer, in all places
    for u in uses:
        for f in frames:
            for d in (dfmt("fail", msg="default says no", tag="dt"), dfmt("fmterr", tag="x"), BUILTIN):
                x = u.replace("%s", r.pick(["v", "nope", "m", "v | t1"])).replace("%%", "%")
                base = {"v": vs("V"), "m": vm({"k": vi(1)}), "l": vl([vi(1), vi(2)]), "f": vb(False)}
                base["all"] = vm(dict(base))
                c = case([tpl("pre " + f.replace("{X}", x) + " post", "main", "reg"), tpl("in " + x, "inner", "reg"), tpl('mid {% include "inner" %}', "mid", "reg"), tpl("leaf", "leaf", "reg")], 1, vm(base), fns=[flt("t1", ["value"])], cn=True, src=r.pick(["from", "fn"]), dfmt=d)
                cs.append(c)
                k = dict(c)
                k["lim"] = r.randrange(0, 20)
                k["wm"] = {"short": 0, "intr": 0, "zero": r.p(0.3), "once": r.p(0.4), "e": T(r.pick(["disk on fire|Other", "would block.|WouldBlock", "é|NotFound", "|Other", "eof|UnexpectedEof", "bad: data|InvalidData", "failed|WriteZero", "x\ny|BrokenPipe"]))}
                k["sfx"] = T(r.pick(msgs))
                cs.append(k)
    cs += broken_writers(r, big)
    # every name a failing template can have
    for n in ("", " ", "a", "./a", "../a", "/a", "a/", "a/./b", ".\\a", "a.html", "A", "'a'", "`a`", "<anonymous>", "\n", "x" * 300, "\u65e5/\u00e9.html", "a:b", "-->", "{{ x }}", "0", "\0"):
        for bad in ("{{ nope }}", "{{ v | bad }}", "{{ v | ferr }}", "{% include \"gone\" %}", "{{ v | t2 }}", "{{ m }}", "{% for a in v %}{% endfor %}"):
            for f in ("{X}", 'p{% include "N" %}', '{% for a in l %}{% include "mid" %}{% endfor %}'):
                role = r.pick(["reg", "reg", "tfn"])
                t = f.replace("{X}", bad).replace("N", esc(n)) if "\0" not in n else f.replace("{X}", bad).replace("N", n)
                cs.append(case([tpl(t, n if f == "{X}" else r.pick(["outer", ""]) if n != "" else "outer", "reg")] + ([tpl("i" + bad, n, role), tpl('m{% include "N" %}'.replace("N", esc(n)), "mid", role)] if f != "{X}" else []), 1, vm({"v": vs("V"), "m": vm({"k": vi(1)}), "l": vl([vi(1)])}),
                               fns=[flt("t2", ["value", "value"]), flt("bad", ["value"], "fail", msg="bad"), fmt("ferr", "fail", tag="part", msg="msg")], cn=True, tfn=role == "tfn" and f != "{X}", src=r.pick(["from", "fn"])))
    # failures far down a chain of templates
    for n in (5, 20, 30, 62, 63, 64):
        for bad in ("{{ nope }}", "{{ v | bad }}", "{{ v | ferr }}", "{% include \"gone\" %}", "ok"):
            ts = [tpl('{% include "t1" %}', "main", "reg")] + [tpl(r.pick(['{%% include "t%d" %%}', 'x{%% with v as q %%}{%% include "t%d" %%}{%% endwith %%}', '{%% for q in l %%}{%% include "t%d" %%}{%% endfor %%}']) % (k + 1) if k < n else bad, "t%d" % k, "reg") for k in range(1, n + 1)]
            cs.append(case(ts, 1, vm({"v": vs("V"), "l": vl([vi(1)])}), fns=[flt("bad", ["value"], "fail", msg="bad"), fmt("ferr", "fail", tag="part", msg="msg")], cn=True, depth=r.pick([-1, 3, 40])))
    syn_ = []
    for b in BADSYN:
        for role in ("anon", "reg"):
            syn_.append(case([tpl(b, r.pick(["main.txt", "é/日"]) if role == "reg" else "", role)], 1, CTXE, fns=FNE, cn=True))
    rnd = []
    for _ in range(Q * 450 if not big else 6000):
        c = mixed(r, None, err=0.05)
        c["cn"] = True
        rnd.append(c)
    return [("failures in every construct", "Trace", cs), ("syntax errors", "Trace", syn_), ("failing programs", "Trace", rnd)]


def near_name(r, n):
    """A name that is not n."""
    return r.pick(["./" + n, "/" + n, n + "/", n + ".", n + ".html", n + " ", " " + n, n + "\0", n + n + "2", n.upper(), n.capitalize(), n[:-1], n[1:], "../" + n, n + "\n", ".\\" + n, "x/../" + n, n + "\u0301", n + "#", n + "?", "\ufeff" + n, n + "\u200b", '"%s"' % n, n + ".txt", "%20" + n, "_" + n])


def e01(r, big):
    near = lambda n: near_name(r, n)
    from models import engine_case
    syns = [None, SYNTAXES[1], SYNTAXES[3], SYNTAXES[5]]
    tn = ["a", "b", "main", "é/x.html", "", "A", "B", "Main", "aa", "b ", " a", "É/x.html", "main.html"]
    fn = ["f", "g", "upper", "h é", "F", "Upper", "ff", "uppe", "g ", " f", "f:", "", "f|g", "f\n"]

    def source(sy):
        """A template over few names, in syntax sy."""
        e = lambda body: mk(sy, "e", body)
        b = lambda body: mk(sy, "b", body)
        inc = lambda: b('include "%s"' % (r.pick(["a", "b", "main"]) if r.p(0.93) else esc(near(r.pick(["a", "b", "main"])).replace("\0", ""))))
        parts = [lambda: "t%d" % r.randrange(9), lambda: e("v"), lambda: e("v | %s" % r.pick(["f", "g", "upper"])), lambda: e("v | f | g"), inc,
                 lambda: b("if %s" % r.pick(["v", "not v", "w"])) + r.pick(["x", inc(), e("v | g")]) + b("else") + "y" + b("endif"),
                 lambda: b("for q in l") + r.pick([e("q"), e("q | f"), inc()]) + b("endfor"), lambda: b("with v | f as v") + r.pick([e("v"), inc()]) + b("endwith"),
                 lambda: b('include "%s" with m' % r.pick(["a", "b"])), lambda: e(r.pick(["l", "nope"])) if r.p(0.15) else "t"]
        s = "".join(r.pick(parts)() for _ in range(r.randrange(1, 4)))
        if r.p(0.12):
            s += r.pick([b("if"), e(""), b("endfor"), b("for a in l"), e("v |"), e("v").rstrip("}>;?")])
        return s

    def func(n=None):
        n = n or r.pick(fn[:3] if r.p(0.85) else fn)
        tag = "%s%d" % (n[:1], r.randrange(100))
        return r.weighted([(flt(n, ["value"], tag=tag), 12), (flt(n, ["value", "value"], tag=tag), 1), (flt(n, ["str"], tag=tag), 1), (flt(n, ["value"], "fail", tag=tag, msg="bad " + tag), 1),
                           (flt(n, ["value"], "id", tag=tag), 4), (fmt(n, "wrap", tag=tag), 5), (fmt(n, "fail", tag=tag, msg="no " + tag), 1), (fmt(n, "dbg", tag=tag), 1)])

    cs = []
    for _ in range(Q * 150 if not big else 3000):
        k = r.pick([1, 1, 1, 2, 2])
        sys_ = [r.pick(syns) for _ in range(k)]
        engines = [{"syn": x or DEFSYN, "defsyn": x is None} for x in sys_]
        ops, slots = [], []
        ctx = vm({"v": r.pick([vs("V"), vi(7), vs(""), vb(True)]), "l": vl([vi(1), vs("b")][: r.randrange(3)]), "m": vm({"v": vs("mv"), "w": vi(1)}), "w": r.pick([NONE, vi(1)])})
        for e in range(k):      # most histories start with something registered
            for n in ("f", "g", "upper"):
                if r.p(0.8):
                    ops.append({"e": e + 1, "op": "addf", "f": func(n)})
            for n in ("a", "b", "main"):
                if r.p(0.7):
                    ops.append({"e": e + 1, "op": "addt", "n": T(n), "s": T(source(sys_[e])), "owned": r.p(0.5)})
            if r.p(0.8):
                ops.append({"e": e + 1, "op": "dfmt", "f": r.pick([dfmt("dbg"), dfmt("wrap", tag="d%d" % e)])})
        for _ in range(r.randrange(8, 30)):
            e = r.randrange(k)
            o = {"e": e + 1, "op": r.weighted([("addt", 6), ("remt", 1.2), ("gett", 2), ("addf", 5), ("remf", 1), ("depth", 0.5), ("dfmt", 0.5), ("compile", 2), ("render", 8)])}
            if o["op"] == "addt":
                o.update(n=T(r.pick(tn if r.p(0.3) else tn[:3]) if r.p(0.93) else near(r.pick(tn[:3]))), s=T(source(sys_[e] if r.p(0.95) else r.pick(syns))), owned=r.p(0.5))
            elif o["op"] in ("remt", "gett"):
                o.update(n=T(r.pick(tn if r.p(0.5) else tn[:3]) if r.p(0.7) else near(r.pick(tn[:3]))))
            elif o["op"] == "addf":
                o.update(f=func())
            elif o["op"] == "remf":
                o.update(n=T(r.pick(fn) if r.p(0.75) else near(r.pick(fn[:3]))))
            elif o["op"] == "depth":
                o.update(d=r.pick([0, 1, 2, 3, 64]))
            elif o["op"] == "dfmt":
                o.update(f=r.pick([dfmt("wrap", tag="D%d" % r.randrange(9)), dfmt("default"), dfmt("dbg")]))
            elif o["op"] == "compile":
                o.update(s=T(source(sys_[e])))
                slots.append(1)
            else:
                o.update(ctx=ctx, n=T(r.pick(tn[:3])), slot=r.randrange(1, len(slots) + 1) if slots and r.p(0.4) else 0, src=r.weighted([("from", 4), ("fn", 1), ("ser", 1)]), twice=r.p(0.5))
                if r.p(0.15):
                    o.update(rdepth=r.randrange(0, 4))
                if r.p(0.15) and slots:
                    o.update(tfn=True, tfnm=[{"n": T(n), "slot": r.randrange(1, len(slots) + 1)} for n in ("a", "b") if r.p(0.8)])
                if r.p(0.1):
                    o.update(lim=r.randrange(0, 6))
            ops.append(o)
        cs.append(engine_case(ops, engines))
    # names that are nearly the same are not: each name known, looked up under all others
    nn = []
    for n in ("a", "main", "dir/p.html", "é/x", "", "A b"):
        ops = [{"op": "addt", "e": 1, "n": T(n), "s": T("the one"), "owned": False}]
        others = sorted({near(n) for _ in range(120)} - {n})
        for o in others:
            ops.append({"op": "gett", "e": 1, "n": T(o)})
        for o in others[:: 3]:
            ops.append({"op": "remt", "e": 1, "n": T(o)})
        for o in others[1:: 3]:
            if "\0" not in o:
                ops.append({"op": "compile", "e": 1, "s": T('{%% include "%s" %%}' % esc(o))})
                ops.append({"op": "render", "e": 1, "slot": sum(x["op"] == "compile" for x in ops), "ctx": vm({})})
        for o in others[2:: 3]:
            ops.append({"op": "addt", "e": 1, "n": T(o), "s": T("not " + o.replace("{", "")), "owned": True})
        for o in others + [n]:
            ops.append({"op": "render", "e": 1, "n": T(o), "ctx": vm({})})
        nn.append(engine_case(ops))
    for n in ("f", "upper", "é"):
        ops = [{"op": "addf", "e": 1, "f": flt(n, ["value"])}]
        others = sorted({near(n) for _ in range(120)} - {n})
        for o in others:
            ops.append({"op": "remf", "e": 1, "n": T(o)})
        for o in others[:: 2]:
            ops.append({"op": "addf", "e": 1, "f": r.pick([flt(o, ["value"], tag="other"), fmt(o, "wrap", tag="other")])})
        ops += [{"op": "compile", "e": 1, "s": T("{{ v | %s | d }}" % x)} for x in (n, n + n, n.upper() + "x", "_" + n)] + [{"op": "addf", "e": 1, "f": fmt("d", "dbg")}]
        ops += [{"op": "render", "e": 1, "slot": k, "ctx": vm({"v": vi(1)})} for k in (1, 2, 3, 4)]
        for o in [n] + others:
            ops.append({"op": "remf", "e": 1, "n": T(o)})
        nn.append(engine_case(ops))
    # sources and values that differ in little, one after the other
    for a, b in (("x", "x "), (" x", "x "), ("x", "X"), ("x\n", "x"), ("", " "), ("{{ v }}", "{{ w }}"), ("{{ v }}", "{{v }}"), ("{{ v }}", "{{ v -}} "), ("{# a #}x", "{# b #}x"), ("{{ v | f }}", "{{ v | g }}"), ("\u00e9", "e\u0301"), ("x" * 40 + "a", "x" * 40 + "b"), ("{% if v %}a{% endif %}", "{% if w %}a{% endif %}"), ('{{ "a" }}', '{{ "b" }}'), ("{{ 1 }}", "{{ 2 }}"), ("{{ v", "x"), ("x", "{{ v")):
        for a, b in ((a, b), (b, a)):
            for o1, o2 in itertools.product((True, False), repeat=2):
                ops = [{"op": "addf", "e": 1, "f": flt("f", ["value"])}, {"op": "addf", "e": 1, "f": flt("g", ["value"])}]
                for x, o in ((a, o1), (b, o2), (b, o1), (a, o2)):
                    ops += [{"op": "addt", "e": 1, "n": T("a"), "s": T(x), "owned": o}, {"op": "gett", "e": 1, "n": T("a")}, {"op": "compile", "e": 1, "s": T(x)}, {"op": "render", "e": 1, "n": T("a"), "ctx": vm({"v": vi(1), "w": vs("")})}, {"op": "render", "e": 1, "slot": sum(q["op"] == "compile" for q in ops) + 1, "ctx": vm({"v": vi(1), "w": vs("")})}]
                nn.append(engine_case(ops))
    for f1, f2 in itertools.permutations([flt("f", ["value"], tag="one"), flt("f", ["value"], tag="two"), flt("f", ["value", "value"], tag="one"), fmt("f", "wrap", tag="one"), fmt("f", "dbg"), flt("f", ["value"], "id"), flt("f", ["value"], "fail", msg="no")], 2):
        ops = [{"op": "compile", "e": 1, "s": T("{{ v | f }}")}, {"op": "addf", "e": 1, "f": f1}, {"op": "render", "e": 1, "slot": 1, "ctx": vm({"v": vi(1)})}, {"op": "addf", "e": 1, "f": f2}, {"op": "render", "e": 1, "slot": 1, "ctx": vm({"v": vi(1)})}, {"op": "addf", "e": 1, "f": f1}, {"op": "remf", "e": 1, "n": T("f")}, {"op": "render", "e": 1, "slot": 1, "ctx": vm({"v": vi(1)})}, {"op": "remf", "e": 1, "n": T("f")}, {"op": "addf", "e": 1, "f": f2}, {"op": "render", "e": 1, "slot": 1, "ctx": vm({"v": vi(1)})}]
        nn.append(engine_case(ops))
    # functions and templates of the same names are of no concern to each other
    for n, k in itertools.product(("a", "f", "", "\u00e9"), range(6)):
        T_, F_ = {"op": "addt", "e": 1, "n": T(n), "s": T("t{{ v }}"), "owned": k % 2 == 0}, {"op": "addf", "e": 1, "f": r.pick([flt(n, ["value"], tag="f"), fmt(n, "wrap", tag="f")])}
        probe = [{"op": "gett", "e": 1, "n": T(n)}, {"op": "render", "e": 1, "n": T(n), "ctx": vm({"v": vi(1)})}] + ([{"op": "render", "e": 1, "slot": 1, "ctx": vm({"v": vi(1)})}] if n else [])
        rem = [{"op": "remf", "e": 1, "n": T(n)}, {"op": "remt", "e": 1, "n": T(n)}, {"op": "addt", "e": 1, "n": T(n), "s": T("{{ v"), "owned": True}, {"op": "addf", "e": 1, "f": flt(n, ["value"], "id")}]
        for first in ([T_], [F_], [T_, F_], [F_, T_], []):
            ops = [{"op": "compile", "e": 1, "s": T("{{ v | %s }}" % n)}] if n else []
            for o in first + r.sample(rem, 4):
                ops += [o] + probe
            nn.append(engine_case(ops))
    # large registries, replaced and emptied
    for n in (5, 41, 70, 130) + ((260, 520) if big else (260,)):
        f = lambda k, t: flt("f%d" % k, ["value"], tag=t) if (k + len(t)) % 2 else fmt("f%d" % k, "wrap", tag=t)
        ops = [{"op": "addf", "e": 1, "f": f(k, "a")} for k in range(n)] + [{"op": "addt", "e": 1, "n": T("t%d" % k), "s": T("%d" % k), "owned": k % 2 == 0} for k in range(n)]
        ops.append({"op": "compile", "e": 1, "s": T("".join("{{ v | f%d }}" % k for k in range(0, n, n // 5)))})
        show = [{"op": "render", "e": 1, "slot": 1, "ctx": vm({"v": vi(1)})}]
        for k in r.sample(range(n), min(n, 12)):
            ops += [{"op": "addf", "e": 1, "f": f(k, "bb" if r.p(0.5) else "b")}, {"op": "addt", "e": 1, "n": T("t%d" % k), "s": T("new %d" % k), "owned": False}, {"op": "gett", "e": 1, "n": T("t%d" % k)}]
        ops += show
        for k in r.sample(range(n + 2), min(n, 20)):
            ops += [{"op": "remf", "e": 1, "n": T("f%d" % k)}, {"op": "remt", "e": 1, "n": T("t%d" % k)}] * r.pick([1, 2]) + [{"op": "gett", "e": 1, "n": T("t%d" % (k + r.pick([-1, 0, 1])))}]
        nn.append(engine_case(ops + show))
    # large registries
    for n in sizes(big, 520 if big else 260)[1:: 2]:
        ops = [{"op": "addt", "e": 1, "n": T("t%d" % k), "s": T("[%d]" % k), "owned": k % 2 == 0} for k in range(n)] + [{"op": "addf", "e": 1, "f": flt("f%d" % k, ["value"])} for k in range(n)]
        ops += [{"op": "addt", "e": 1, "n": T("t%d" % (n // 2)), "s": T("again"), "owned": True}, {"op": "remt", "e": 1, "n": T("t1")}, {"op": "remf", "e": 1, "n": T("f1")}]
        ops += [{"op": "compile", "e": 1, "s": T("".join('{%% include "t%d" %%}{%% if v | f%d %%}{%% endif %%}' % (k, k) for k in range(0, n, max(1, n // 12))))}, {"op": "render", "e": 1, "slot": 1, "ctx": vm({"v": vi(1)})}]
        ops += [{"op": "gett", "e": 1, "n": T("t%d" % k)} for k in (0, 1, n // 2, n - 1, n)]
        nn.append(engine_case(ops))
    return [("histories on several engines", "EngineTrace", cs), ("names and large registries", "EngineTrace", nn)]


# ---------------------------------------------------------------------- E02
def as_engine(r, c, sy=None):
    """The setup of a case as operations; (operations, names of registered templates, compiled slots)."""
    ops, names, slots = [], [], {}
    for f in c["fns"]:
        ops.append({"op": "addf", "e": 1, "f": f})
    if not c["dfmt"]["builtin"]:
        ops.append({"op": "dfmt", "e": 1, "f": c["dfmt"]})
    if c["depth"] >= 0:
        ops.append({"op": "depth", "e": 1, "d": c["depth"]})
    for t in c["tpls"]:
        if t["role"] == "reg":
            ops.append({"op": "addt", "e": 1, "n": t["n"], "s": t["s"], "owned": r.p(0.5)})
            names.append(t["n"])
        slots[len(slots) + 1] = t
        ops.append({"op": "compile", "e": 1, "s": t["s"]})
    return ops, names, slots


def e02(r, big):
    from models import engine_case
    # renders of the same few templates over and over, in any order, failing ones in between
    seqs = []
    for _ in range(Q * 45 if not big else 1500):
        c = mixed(r, None, err=r.pick([0.0, 0.01, 0.05]), depth=2)
        ops, names, slots = as_engine(r, c)
        ctxs = [c["ctx"], context(r), vm({})]
        tfnm = [{"n": t["n"], "slot": k} for k, t in slots.items() if t["role"] == "tfn"] or [{"n": t["n"], "slot": k} for k, t in slots.items()]
        reqs = []
        for _ in range(r.randrange(3, 7)):
            o = {"op": "render", "e": 1, "ctx": r.pick(ctxs), "src": r.weighted([("from", 4), ("fn", 1), ("ser", 1)])}
            if names and r.p(0.5):
                o["n"] = r.pick(names)
            else:
                o["slot"] = r.pick(list(slots))
            if r.p(0.25):
                o["rdepth"] = r.randrange(0, 3)
            if r.p(0.2):
                o["tfn"], o["tfnm"] = True, tfnm
            if r.p(0.2):
                o["lim"] = r.randrange(0, 12)
            reqs.append(o)
        for _ in range(r.randrange(6, 16)):
            ops.append(r.pick(reqs))
        seqs.append(engine_case(ops, f32=c["f32"]))
    # the same few requests hundreds of times
    for _ in range(3 if not big else 40):
        c = mixed(r, None, err=0.01, depth=1)
        ops, names, slots = as_engine(r, c)
        ops += [{"op": "render", "e": 1, "ctx": r.pick([c["ctx"], c["ctx"], vm({})]), "src": r.weighted([("from", 4), ("fn", 1), ("ser", 1)]), **({"n": r.pick(names)} if names and r.p(0.5) else {"slot": r.pick(list(slots))}), **({"lim": r.randrange(0, 12)} if r.p(0.3) else {})} for _ in range(270)]
        seqs.append(engine_case(ops, f32=c["f32"]))
    # compiled and registered, and compiled again
    both = []
    for _ in range(Q * 60 if not big else 1500):
        c = mixed(r, None, err=r.pick([0.0, 0.01]), depth=3)
        for role in ("reg", "anon"):
            both.append(dict(c, tpls=[dict(c["tpls"][0], role=role, n=T("main") if role == "reg" else [])] + c["tpls"][1:], cn=True))
    # free running threads
    free = []
    for _ in range(Q * 12 if not big else 300):
        c = mixed(r, None, err=r.pick([0.0, 0.02]), depth=3)
        th = []
        mains = [k + 1 for k, t in enumerate(c["tpls"]) if t["role"] != "tfn"]
        for _ in range(r.pick([2, 3, 4, 6])):
            th.append([{"main": r.pick(mains), "ctx": r.pick([c["ctx"], c["ctx"], context(r)]), "src": r.weighted([("from", 3), ("serde", 1), ("fn", 1)]),
                        "tfn": c["tfn"] and r.p(0.5), "rdepth": r.pick([-1, -1, 1, 2, 3]), "lim": r.pick([-1, -1, -1, r.randrange(0, 9)]), "wm": {"short": 0, "intr": 0, "zero": False}}
                       for _ in range(r.randrange(1, 4))])
        free.append(dict(c, mode="conc", threads=th, reps=r.pick([20, 60])))
    # thousands of renders in one process
    for k in range(10 if not big else 60):
        c = mixed(r, None, err=r.pick([0.0, 0.01]), depth=2)
        if k < 4:
            c = case([tpl('{{ a }}{% include "p" %}{% for x in l %}{{ x | f }}{% endfor %}{% include "p" with m %}{% with a | f as a %}{{ a | w }}{% endwith %}{% if a | f %}y{% endif %}{{ m.a }}{{ nope }}'[: -10 if k % 2 else None]), tpl("<{{ a }}>", "p", "tfn" if k == 3 else "reg")], 1, vm({"a": vs("A"), "l": vl([vi(1), vi(2)]), "m": vm({"a": vi(3)})}), fns=[flt("f", ["value"]), fmt("w", "wrap", chars=True)], dfmt=dfmt("wrap") if k == 2 else BUILTIN)
        th = [[{"main": 1, "ctx": c["ctx"], "src": s, "tfn": k == 3, "rdepth": -1, "lim": -1, "wm": {"short": 0, "intr": 0, "zero": False}}] for s in r.pick([["from"], ["from", "serde"], ["fn", "from"]])]
        free.append(dict(c, mode="conc", threads=th, reps=4200))
    c = case([tpl('{{ a }}{% include "p" %}{% if a | f %}{{ a | w }}{% endif %}'), tpl("<{{ a }}>", "p", "reg")], 1, vm({"a": vs("A")}), fns=[flt("f", ["value"]), fmt("w", "wrap", chars=True)])
    free.append(dict(c, mode="conc", threads=[[{"main": 1, "ctx": c["ctx"], "src": "from", "tfn": False, "rdepth": -1, "lim": -1, "wm": {"short": 0, "intr": 0, "zero": False}}]], reps=66000))
    return [("sequences of renders", "EngineTrace", seqs), ("compiled and registered", "Trace", both), ("free running threads", "Trace", free)]


# ---------------------------------------------------------------------- V02
ODDSTR = ["\0", "a\0", "\0a", "a\0b", " a", "a ", "\n", "a\n", "\r\n", "\ufeff", "\ufeffa", "a\ufeff", "\u00a0", "e\u0301", "\u00e9", "\u200b", "\u2028", "\U0001f600", "\U0010ffff", "\x7f", "\x85", "true", "1", "-1", "1.5", "null", "None", "NaN", "A", "a", '"', "\\", "\\n", "'", "<&>", "{{ a }}", "\u0130", "\u00df", "\u1e9e", "K", "\u212a", "\ufb01"]
SER_INTS = {"i8": (-2 ** 7, 2 ** 7 - 1), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1), "i64": (-2 ** 63, 2 ** 63 - 1), "i128": (-2 ** 127, 2 ** 127 - 1),
            "u8": (0, 2 ** 8 - 1), "u16": (0, 2 ** 16 - 1), "u32": (0, 2 ** 32 - 1), "u64": (0, 2 ** 64 - 1), "u128": (0, 2 ** 128 - 1)}
F32TEXTS = {"0.1": "0.10000000149011612", "3.4": "3.4000000953674316", "16777217": "16777216", "1.1": "1.100000023841858", "-0.3": "-0.30000001192092896", "0.3333333333333333": "0.3333333432674408"}


def f32_exact(r):
    while True:
        y = struct.unpack("f", struct.pack("I", r.randrange(1 << 32)))[0]
        if not math.isnan(y):
            return float_text(y)


def ser_scalars(r, big):
    out = [{"d": "bool", "b": True}, {"d": "bool", "b": False}, {"d": "unit"}, {"d": "none"}, {"d": "unit_struct"}]
    for k, (lo, hi) in SER_INTS.items():
        for n in sorted({lo, lo + 1, -1, 0, 1, 9, 10, 100, hi - 1, hi, 127, 128, 255, 256, 2 ** 31, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, -2 ** 63, -2 ** 63 - 1, r.randrange(lo, hi + 1)}):
            if lo <= n <= hi:
                out.append({"d": k, "dec": T(str(n))})
    for t in FLOATS + ["NaN", "inf", "-inf", "179769313486231570000000", "0.1234567890123456"]:
        out.append({"d": "f64", "dec": T(t)})
    for t in list(F32TEXTS) + ["0", "-0", "1", "1.5", "NaN", "inf", "-inf"] + [f32_exact(r) for _ in range(6)]:
        out.append({"d": "f32", "dec": T(t)})
    for c in ("a", "\0", "é", "日", "😀", " ", "0"):
        out.append({"d": "char", "s": T(c)})
    for t in STRS + ["x" * 70]:
        out.append({"d": "str", "s": T(t)})
    for b in ([], [0], [255, 0, 128], [104, 105], list(range(40))):
        out.append({"d": "bytes", "s": b})
    for n in ("A", "é", "Two Words", ""):
        out.append({"d": "unit_variant", "n": T(n)})
    for t in ("127.0.0.1", "", "é"):
        out += [{"d": "readable", "s": T(t)}, {"d": "display", "s": T(t)}]
    for v in (NONE, vb(True), vi(-5), vf("0.5"), vs("vs"), vl([]), vl([vi(1), NONE, vl([vs("x")])]), vm({}), vm({"b": vi(1), "a": vm({"c": vl([vf("-0")])})}), vf("NaN"), vi(2 ** 63 - 1)):
        out.append({"d": "value", "v": v})
    return out


def ser_wrap(r, kind, kids, keys=None):
    names = keys or [r.pick(KEYS) for _ in kids]
    if kind in ("some", "newtype_struct", "newtype_variant"):
        d = {"d": kind, "l": kids[:1] or [{"d": "unit"}]}
        if kind == "newtype_variant":
            d["n"] = T(r.pick(["A", "V2", "é"]))
        return d
    if kind in ("seq", "tuple", "tuple_struct", "tuple_variant"):
        d = {"d": kind, "l": kids, "len": r.p(0.5)}
    elif kind == "map":
        return {"d": kind, "len": r.p(0.5), "split": r.p(0.5), "l": [{"k": {"d": "str", "s": T(n)}, "v": k} for n, k in zip(names, kids)]}
    else:
        d = {"d": kind, "l": [{"n": T(n), "v": k} for n, k in zip(names, kids)]}
    if kind.endswith("variant"):
        d["n"] = T(r.pick(["A", "V2", "é"]))
    return d


SER_CONTAINERS = ["some", "newtype_struct", "newtype_variant", "seq", "tuple", "tuple_struct", "tuple_variant", "map", "struct", "struct_variant"]


def ser_tree(r, depth, scal, good):
    if depth == 0 or r.p(0.3):
        return r.pick(good if r.p(0.995) else scal + [{"d": "fail", "s": T("random refusal")}])
    kind = r.pick(SER_CONTAINERS + ["map", "seq", "struct"])
    kids = [ser_tree(r, depth - 1, scal, good) for _ in range(r.randrange(0, 4))]
    d = ser_wrap(r, kind, kids)
    if kind == "map":
        for e in d["l"]:
            if r.p(0.6):
                e["k"] = ser_key(r)
    if kind in ("struct", "struct_variant"):
        for e in d["l"]:
            if r.p(0.08):
                e["skip"] = True
    return d


def ser_key(r):
    k = r.randrange(6)
    if k == 0:
        t = r.pick(["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"])
        lo, hi = SER_INTS[t]
        return {"d": t, "dec": T(str(r.pick([lo, hi, max(lo, -1), 0, 1, 10])))}
    if k == 1:
        return {"d": "char", "s": T(r.pick("a1é😀"))}
    if k == 2:
        return {"d": "unit_variant", "n": T(r.pick(["a", "A", "1"]))}
    if k == 3:
        return {"d": "newtype_struct", "l": [ser_key(r)]} if r.p(0.7) else {"d": r.pick(["readable", "display"]), "s": T(r.pick(KEYS))}
    return {"d": "str", "s": T(r.pick(KEYS + ["1", "-1", "A", ""]))}


def ser_case(t):
    return {"id": "", "mode": "ser", "tree": t, "f32": [{"raw": T(a), "text": T(b)} for a, b in F32TEXTS.items()]}


def v02(r, big):
    scal = ser_scalars(r, big)
    cap = -2 ** 63, 2 ** 63 - 1
    bad = [{"d": "fail", "s": T(t)} for t in ("no", "", "é: x\ny", "map key must be a string", "z" * 200)]
    good = [s for s in scal if not (s["d"] in ("i128", "u128") or s["d"] == "u64" and int(U(s["dec"])) > cap[1])]
    one = list({s["d"]: s for s in scal}.values())
    cs = list(scal) + bad
    # every scalar in every container, and in front of and behind others
    for s in scal if big else [x for i, x in enumerate(scal) if i % 3 == 0 or x["d"] in ("u64", "i128", "u128")]:
        for c in SER_CONTAINERS:
            cs.append(ser_wrap(r, c, [s]))
    for c in SER_CONTAINERS:
        for n in (0, 1, 2, 3, 7):
            cs.append(ser_wrap(r, c, [{"d": "u8", "dec": T(str(k))} for k in range(n)], ["k%d" % k for k in range(n)]))
        for k in SER_CONTAINERS:
            cs.append(ser_wrap(r, c, [ser_wrap(r, k, [one[i % len(one)] for i in range(j)]) for j in (2, 0, 3)]))
            for b in ({"d": "u64", "dec": T(str(2 ** 63))}, {"d": "i128", "dec": T("0")}, r.pick(bad)):
                cs.append(ser_wrap(r, c, [ser_wrap(r, k, [b])]))
                cs.append(ser_wrap(r, c, [{"d": "unit"}, ser_wrap(r, k, [{"d": "unit"}, b])]))
    keys = []
    ent = lambda k, v=None: {"k": k, "v": v or {"d": "unit"}}
    allkeys = scal + [ser_wrap(r, c, [one[0]]) for c in SER_CONTAINERS] + [{"d": "newtype_struct", "l": [s]} for s in one] + [{"d": "some", "l": [s]} for s in one] + [{"d": "newtype_struct", "l": [{"d": "newtype_struct", "l": [s]}]} for s in one]
    for k in allkeys:
        for split in (True, False):
            keys.append({"d": "map", "len": True, "split": split, "l": [ent(k, {"d": "str", "s": T("v")})]})
        keys.append({"d": "map", "len": False, "split": r.p(0.5), "l": [ent({"d": "str", "s": T("1")}), ent(k), ent({"d": "char", "s": T("a")}, {"d": "bool", "b": True})]})
    # spellings of the same key
    same = [[{"d": "str", "s": T("1")}, {"d": "u8", "dec": T("1")}, {"d": "i64", "dec": T("1")}, {"d": "char", "s": T("1")}, {"d": "unit_variant", "n": T("1")}, {"d": "newtype_struct", "l": [{"d": "u64", "dec": T("1")}]}]]
    for g in same:
        for p in itertools.permutations(g, 3):
            keys.append({"d": "map", "len": True, "split": r.p(0.5), "l": [ent(k, {"d": "u8", "dec": T(str(i))}) for i, k in enumerate(p)]})
    for a in ("b", "a", "c"):
        for c in ("struct", "struct_variant", "map"):
            keys.append(ser_wrap(r, c, [{"d": "u8", "dec": T(str(i))} for i in range(4)], ["b", a, "a", "b"]))
    # fields that are skipped, and two failures of which the first counts
    for c in ("struct", "struct_variant"):
        for n in range(1, 5):
            for m in range(1 << n):
                d = ser_wrap(r, c, [r.pick(good if not (m >> k) & 1 else scal + bad) for k in range(n)], ["k%d" % (k % 3) for k in range(n)])
                for k, e in enumerate(d["l"]):
                    if (m >> k) & 1:
                        e["skip"] = True
                cs.append(d)
    for c in ("seq", "tuple_variant", "map", "struct", "struct_variant", "tuple"):
        for a, b in itertools.permutations(bad + [{"d": "u64", "dec": T(str(2 ** 64 - 1))}], 2):
            if r.p(0.4):
                cs.append(ser_wrap(r, c, [{"d": "unit"}, a, b]))
    for a in bad[:3]:
        for b in bad[1:3] + [{"d": "unit"}, {"d": "u128", "dec": T("1")}]:
            for split in (True, False):
                keys.append({"d": "map", "len": True, "split": split, "l": [ent(a, b)]})
                keys.append({"d": "map", "len": True, "split": split, "l": [ent({"d": "str", "s": T("ok")}), ent({"d": "newtype_struct", "l": [a]}, b)]})
                keys.append({"d": "map", "len": True, "split": split, "l": [ent({"d": "unit"}, a), ent(b, a)]})
    for n in (65535, 65536, 65537, 70000):
        cs += [{"d": "str", "s": T("x" * n)}, ser_wrap(r, "map", [{"d": "unit"}], ["k" * n])]
    for s_ in ODDSTR:
        cs += [{"d": d, "s": T(s_)} for d in ("str", "readable", "display")] + [ser_wrap(r, r.pick(["map", "struct", "struct_variant"]), [{"d": "str", "s": T(s_)}], [s_]), {"d": "unit_variant", "n": T(s_)}, {"d": "newtype_variant", "n": T(s_), "l": [{"d": "unit"}]}, {"d": "bytes", "s": list(s_.encode())}]
    # names of types and numbers of variants take no part
    for t in ("", "$", "$raw", "$serde_json::private::Number", "$__toml_private_datetime", "Option", "Some", "None", "Value", "Duration", "r#type", "é", "A", "V2", "_", "String", "Number", "unit", "N" * 300):
        for c in ("unit_struct", "unit_variant", "newtype_struct", "newtype_variant", "tuple_struct", "tuple_variant", "struct", "struct_variant"):
            d = {"d": c, "n": T(r.pick(["A", "V2", "", "Some", "None", "Ok", "Err", t]))} if c.startswith("unit") else ser_wrap(r, c, [r.pick(good) for _ in range(1 if c.startswith("newtype") else r.randrange(3))])
            if c == "unit_struct":
                del d["n"]
            d["tn"], d["vi"] = T(t), r.pick([0, 1, 2, 7, 255, 256, 65536, 2 ** 31 - 1])
            cs += [d, ser_wrap(r, r.pick(SER_CONTAINERS), [d])]
            if r.p(0.5):
                keys.append({"d": "map", "len": True, "split": True, "l": [ent(d, {"d": "bool", "b": True})]})
    # large and deep
    for n in sizes(big, 2050 if big else 520):
        for c in SER_CONTAINERS[3:]:
            if big or r.p(0.4):
                cs.append(ser_wrap(r, c, [{"d": "u16", "dec": T(str(k % 60000))} for k in range(n)], ["k%d" % (k % max(1, n - 2)) for k in range(n)]))
        cs += [{"d": "str", "s": T("x" * n)}, {"d": "bytes", "s": [k % 256 for k in range(n)]}, ser_wrap(r, "map", [{"d": "unit"}], ["é" * n]), ser_wrap(r, "struct_variant", [{"d": "unit"}], ["f" * n])]
        if n < 40:
            for c in SER_CONTAINERS:
                d = {"d": "u8", "dec": T("1")}
                for k in range(n):
                    d = ser_wrap(r, c if k % 3 else r.pick(SER_CONTAINERS), [d])
                cs.append(d)
    rnd = [ser_tree(r, r.randrange(2, 6), scal, good) for _ in range(Q * 500 if not big else 20000)]
    return [("scalars and containers", "SerTrace", [ser_case(t) for t in cs]), ("map keys", "SerTrace", [ser_case(t) for t in keys]), ("random data", "SerTrace", [ser_case(t) for t in rnd])]


# ---------------------------------------------------------------------- V03
def conv_atoms(r):
    out = [{"how": "unit"}, {"how": "nonev"}, {"how": "bool", "b": True}, {"how": "bool", "b": False}]
    for k in ("u8", "u16", "u32", "i8", "i16", "i32", "i64"):
        lo, hi = SER_INTS[k]
        for n in {lo, hi, 0, 1, max(lo, -1), r.randrange(lo, hi + 1)}:
            out.append({"how": k, "dec": T(str(n))})
    out.append({"how": "someu8", "dec": T("7")})
    for t in ("0", "-0", "1", "-1.5", "0.1", "NaN", "inf", "-inf", "100000000000000000000", "255"):
        out.append({"how": "f64", "dec": T(t)})
    for t in ("0.1", "1", "-0", "16777217", "NaN", "inf"):
        out.append({"how": "f32", "dec": T(t)})
    for k in ("string", "str", "cowb", "cowo"):
        for t in ("", "a", "1", "é日", "true"):
            out.append({"how": k, "s": T(t)})
    return [dict(x, l=x.get("l", [])) for x in out]


def conv_tree(r, depth, atoms):
    if depth == 0 or r.p(0.25):
        return r.pick(atoms)
    k = r.pick(["some", "vec", "array", "iter", "veci", "vecs", "btree", "hash", "pairs", "iterpairs", "macro_list", "macro_map", "macro_mixed", "macro_more"])
    kid = lambda: conv_tree(r, depth - 1, atoms)
    if k == "some":
        return {"how": k, "l": [kid()]}
    if k == "veci":
        return {"how": k, "l": [{"dec": T(str(r.pick(INTS)))} for _ in range(r.randrange(4))]}
    if k == "vecs":
        return {"how": k, "l": [{"s": T(r.pick(STRS))} for _ in range(r.randrange(4))]}
    if k in ("btree", "hash", "pairs", "iterpairs"):
        return {"how": k, "l": [{"k": T(r.pick(["a", "b", "c", "é", "", "10", "9"])), "v": kid()} for _ in range(r.randrange(6))]}
    n = {"macro_mixed": 2, "macro_more": 2, "macro_list": r.randrange(5), "macro_map": r.randrange(4)}.get(k, r.randrange(6))
    return {"how": k, "l": [kid() for _ in range(n)]}


def conv_case(a, b):
    def strip(x):       # the items of veci and vecs are not conversions
        if isinstance(x, dict) and "how" in x and x["how"] not in ("veci", "vecs"):
            x = dict(x)
            if x["how"] in ("btree", "hash", "pairs", "iterpairs"):
                x["l"] = [{"k": e["k"], "v": strip(e["v"])} for e in x["l"]]
            else:
                x["l"] = [strip(e) for e in x["l"]]
        return x
    return {"id": "", "mode": "from", "a": strip(a), "b": strip(b), "f32": [{"raw": T(p), "text": T(q)} for p, q in F32TEXTS.items()]}


def v03(r, big):
    atoms = conv_atoms(r)
    few = [atoms[i] for i in range(0, len(atoms), 4)]
    one = {"how": "u8", "dec": T("1"), "l": []}
    ab = [{"k": T("b"), "v": one}, {"k": T("a"), "v": atoms[0]}, {"k": T("b"), "v": atoms[2]}]
    lists = [{"how": k, "l": l} for k in ("vec", "array", "iter", "macro_list") for l in ([], [one], [one, atoms[0]], [atoms[0], one], [{"how": "vec", "l": []}])]
    lists += [{"how": "veci", "l": [{"dec": T("1")}]}, {"how": "veci", "l": []}, {"how": "vecs", "l": [{"s": T("1")}]}]
    maps = [{"how": k, "l": l} for k in ("btree", "hash", "pairs", "iterpairs") for l in ([], ab[:1], ab[:2], ab, ab[::-1], ab[1:])]
    maps += [{"how": "macro_map", "l": [one] * n} for n in range(4)] + [{"how": "macro_map", "l": [one, atoms[0], atoms[2]]}]
    maps += [{"how": h, "l": [one, x]} for x in few[:6] for h in ("macro_mixed", "macro_more")]
    some = [{"how": "some", "l": [x]} for x in few + lists[:4] + maps[:4]]
    every = atoms + lists + maps + some
    pairs = [(a, b) for a in every for b in every if r.p(1.0 if big else 0.22) or a is b]
    rnd = []
    for _ in range(Q * 350 if not big else 15000):
        a = conv_tree(r, r.randrange(1, 4), atoms)
        b = a if r.p(0.3) else conv_tree(r, r.randrange(1, 4), atoms)
        rnd.append((a, b))
        if r.p(0.3) and "l" in a and len(a["l"]) > 1:      # nearly the same
            x = dict(a, l=list(a["l"]))
            if a["how"] in ("vec", "array", "iter", "macro_list"):
                x["l"][r.randrange(len(x["l"]))] = r.pick(atoms)
                rnd.append((a, x))
            elif a["how"] in ("btree", "hash", "pairs", "iterpairs"):
                k = r.randrange(len(x["l"]))
                x["l"][k] = dict(x["l"][k], **r.pick([{"v": r.pick(atoms)}, {"k": T("zz")}]))
                rnd.append((a, x))
    # strings of every kind, and nearly the same
    for x in ODDSTR:
        for how in ("string", "str", "cowb", "cowo"):
            for y in [x, x.strip(), x.replace("\0", ""), x.lower(), r.pick(ODDSTR)] if big else [x, r.pick([x.strip(), x.replace("\0", ""), x.lower(), r.pick(ODDSTR)])]:
                rnd.append(({"how": how, "s": T(x), "l": []}, {"how": r.pick(["string", "str", "cowb", "cowo"]), "s": T(y), "l": []}))
        for how in ("btree", "hash", "pairs", "iterpairs"):
            rnd.append(({"how": how, "l": [{"k": T(x), "v": one}]}, {"how": "btree", "l": [{"k": T(r.pick([x, x, x.strip(), x.replace("\0", "")])), "v": one}]}))
        rnd.append(({"how": "vecs", "l": [{"s": T(x)}]}, {"how": "iter", "l": [{"how": "str", "s": T(r.pick([x, x.strip()])), "l": []}]}))
    # the same but for one place
    for n in (17, 63, 64, 65, 70, 129, 260) + ((1025, 2049) if big else ()):
        l = [{"how": "u8", "dec": T(str(k % 100)), "l": []} for k in range(n)]
        for k in sorted({0, n // 2, n - 2, n - 1}):
            y = l[:k] + [{"how": "u8", "dec": T("101"), "l": []}] + l[k + 1:]
            rnd.append(({"how": "vec", "l": l}, {"how": r.pick(["vec", "iter"]), "l": y}))
            mp = lambda q: [{"k": T("k%04d" % i), "v": v} for i, v in enumerate(q)]
            rnd.append(({"how": "btree", "l": mp(l)}, {"how": r.pick(["btree", "hash", "iterpairs"]), "l": mp(y)}))
            z = [dict(e) for e in mp(l)]
            z[k]["k"] = T("k%04dx" % k)
            rnd.append(({"how": r.pick(["btree", "hash"]), "l": mp(l)}, {"how": "hash", "l": z}))
    # long ones
    ARRAYS = list(range(1, 18)) + [31, 32, 33, 64, 100, 128, 255, 256, 257]
    for n in sorted(set(sizes(big, 4100 if big else 2050) + ARRAYS)):
        kid = lambda k: {"how": r.pick(["u8", "i64", "i32"]) if k % 2 else "u8", "dec": T(str(k % 100)), "l": []}
        for how in ("vec", "array", "iter") if n in ARRAYS else ("vec", "iter"):
            l = [kid(k) for k in range(n)]
            rnd.append(({"how": how, "l": l}, {"how": r.pick(["vec", "iter"]), "l": l[:-1] if r.p(0.3) else l}))
        m = [{"k": T("k%d" % k), "v": kid(k)} for k in range(n)]
        for how in ("btree", "hash", "pairs", "iterpairs"):
            if (big or r.p(0.5)) and (how != "pairs" or n in ARRAYS):
                rnd.append(({"how": how, "l": m}, {"how": r.pick(["btree", "hash"]), "l": r.sample(m, len(m))}))
        rnd.append(({"how": "veci", "l": [{"dec": T(str(k))} for k in range(n)]}, {"how": "vecs", "l": [{"s": T("x" * (k % 5))} for k in range(n)]}))
        for how in ("string", "str", "cowb", "cowo"):
            rnd.append(({"how": how, "s": T("x" * n), "l": []}, {"how": "string", "s": T("x" * (n - 1) + "y"), "l": []}))
    return [("pairs of conversions", "ConvTrace", [conv_case(*p) for p in pairs]), ("random data", "ConvTrace", [conv_case(*p) for p in rnd])]


GROUPS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, R01=r01, R02=r02, R03=r03, R04=r04, R05=r05, R06=r06, R07=r07, F01=f01, F02=f02, F03=f03, F04=f04, W01=w01, V01=v01, X01=x01, E01=e01, E02=e02, V02=v02, V03=v03)

# What decides each property, for MANIFEST.json.
TRACE = "trace validation by TLC: every recorded execution of the crate is checked step by step against the TLA+ machine (%s)"
TECHNIQUE = {p: TRACE % m + "; and TLC's exhaustive exploration of %s, whose behaviours are replayed into the crate" % w for p, m, w in (
    ("C01", "Trace.tla", "MCText"), ("C02", "Trace.tla", "MCText"), ("C03", "Trace.tla", "MCText"), ("C04", "Trace.tla", "MCText"), ("C05", "Trace.tla", "MCProgram"),
    ("R01", "Trace.tla", "MCProgram"), ("R02", "Trace.tla", "MCProgram"), ("R03", "Trace.tla", "MCProgram"), ("R04", "Trace.tla", "MCProgram"), ("R05", "Trace.tla", "MCProgram"), ("R06", "Trace.tla", "MCProgram"), ("R07", "Trace.tla", "MCProgram"),
    ("F01", "Trace.tla", "MCProgram"), ("F02", "Trace.tla", "MCProgram"), ("F03", "Trace.tla", "MCProgram"), ("F04", "Trace.tla", "MCProgram"), ("W01", "Trace.tla", "MCProgram"), ("V01", "Trace.tla, SerTrace.tla", "MCProgram"), ("X01", "Trace.tla", "MCProgram"),
    ("E01", "EngineTrace.tla", "MCEngine"), ("E02", "EngineTrace.tla, Trace.tla", "MCConcurrent"), ("V02", "SerTrace.tla", "MCData"), ("V03", "ConvTrace.tla", "MCConvert"))}
COMMON = "Assurance is bounded by the cases: exhaustive small domains (all behaviours of the model within its bounds) and seeded random programs; any deviation of the crate on a case is seen, whatever causes it. Trusts TLC, the harness (public API only) and the specification's reading of the documentation."
NOTES = {p: n + " " + COMMON for p, n in dict(
    C01="Whitespace classes and trim rules are exact over all of Unicode; templates up to 132k characters.",
    C02="Delimiter sets are sampled beyond the exhaustive configurations.",
    C03="Nesting to several hundred levels; U+200C/U+200D in identifiers excluded.",
    C04="Nearest floats come from a table computed with Python's exact conversion.",
    C05="Widths from Unicode tables; without the crate's unicode feature, characters count one.",
    R01="Every kind of value as a condition.", R02="Lists and maps to 65540 elements.", R03="Bindings to 300 levels deep.", R04="Paths to 60 steps.",
    R05="Template functions are recorded and scripted.", R06="Limits 0-66, and limits no render reaches.", R07="Liveness is decided by a time limit per case.",
    F01="Pipelines to thousands of calls.", F02="All supported parameter and return types.", F03="", F04="Float text from Python's shortest round-trip digits.",
    W01="Faults at every byte of small outputs, sampled for long ones; formatters that swallow write errors excluded.",
    E01="Histories to 4 operations exhaustively, to 40 at random.", E02="Interleavings at calls of user code exhaustively; preemption elsewhere by free-running threads only.",
    V01="", V02="All of serde's data model.", V03="", X01="").items()}
