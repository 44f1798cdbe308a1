"""Seeded generation of templates, contexts and configurations.

The generators know roughly which names are bound to what, so that most of what they write is meaningful; what a
template means is decided by the specification alone.
"""
import random
from core import *

SYNTAXES = [
    None,                                                              # default
    syn(("<<", ">>"), ("<%", "%>"), ("<#", "#>")),
    syn(("{", "}"), ("{%", "%}"), ("{#", "#}")),
    syn(("<?", "?>"), ("<!", "!>"), ("<!--", "-->")),
    syn(("[", "]"), ("[[", "]]"), ("[#", "#]")),
    syn(("$", ";"), ("@", "!"), ("#", "~")),
    syn(("«", "»"), ("日", "本"), ("é", "ñ")),
    syn(("{{", "}}"), ("{%", "%}"), None),
    syn(("{{", "}}"), None, ("{#", "#}")),
    syn(("{{", "}}"), None, None),
    syn(None, ("{%", "%}"), ("{#", "#}")),
    syn(("<", ">"), ("</", "/>"), ("<!", "!>")),
    syn(("%(", ")%"), ("%[", "]%"), ("%{", "}%")),
    syn(("BEGIN", "END"), ("BEG", "EN"), ("B#", "#B")),
    syn(("{{ ", " }}"), ("{% ", " %}"), ("{# ", " #}")),
    syn(("ab", "ba"), ("aab", "baa"), ("aaab", "baaa")),
    syn(("<upon-expression>", "</upon-expression>"), ("<upon-block-of-statements>", "</upon-block-of-statements>"), ("<upon-a-comment-which-is-even-longer-than-all-that>", "</upon-a-comment-which-is-even-longer-than-all-that>")),
]

WORDS = ["a", "b", "Hello", "x y", "lorem ipsum", "0", "é", "日本", "<b>&</b>", "{", "}", "%", "-", "#", "{ {", "} }", "\\", '"', "'",
         "%}-", "-", "😀", "ñandú", "a\u0301"]
SPACES = ["", " ", "  ", "\n", "\n  ", "\t", " \n ", "\r\n", "\u3000", "\u00a0", "\u2003 ", "\u2028", "\u200b", "\x85", "\x0b", "\ufeff", "\x1f"]
KEYS = ["a", "b", "c", "x", "y", "name", "first", "index", "last", "loop", "k1", "é", "_u", "key_2", "A", "Name", "k"]
NAMES = ["a", "b", "c", "d", "x", "y", "item", "loop", "name", "v", "ünï".replace("ü", "ñ").replace("ï", "é"), "_p", "user2", "A", "Item", "ite", "items"]
STRS = ["", "a", "s", "hello", "é日", "<x>&", "a\nb", "0", "\"q\"", "\\", "  ", "loop", "{{", "😀"]
INTS = [0, 1, -1, 2, 7, 10, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, 2147483647, -2147483648, 2147483648,
        4294967295, 4294967296, 9223372036854775807, -9223372036854775808, 9007199254740993]
FLOATS = ["0", "-0", "0.00000000000000000002", "1", "1.5", "-2.25", "0.1", "3.14159", "100000000000000000000", "0.0000001", "123456.789", "1000000", "0.5"]


class R(random.Random):
    def p(self, x):
        return self.random() < x

    def pick(self, l):
        return l[self.randrange(len(l))]

    def weighted(self, pairs):
        return self.choices([a for a, _ in pairs], [w for _, w in pairs])[0]


def scalar(r):
    k = r.randrange(12)
    if k == 0:
        return NONE
    if k < 3:
        return vb(r.p(0.5))
    if k < 6:
        return vi(r.pick(INTS) if r.p(0.5) else r.randrange(0, 5))
    if k < 8:
        return vf(r.pick(FLOATS))
    return vs(r.pick(STRS))


def value(r, depth=2):
    if depth == 0 or r.p(0.45):
        return scalar(r)
    if r.p(0.5):
        return vl([value(r, depth - 1) for _ in range(r.randrange(0, 4))])
    return vm({r.pick(KEYS): value(r, depth - 1) for _ in range(r.randrange(0, 4))})


def context(r, names=None, n=6):
    d = {}
    for k in r.sample(names or NAMES, n):
        d[k] = value(r, 3)
    # always some useful shapes
    d.setdefault("l", vl([vi(1), vs("two"), vm({"a": vi(3), "b": vl([vi(4)])}), NONE][: r.randrange(0, 5)]))
    d.setdefault("m", vm({k: value(r, 1) for k in r.sample(KEYS, r.randrange(0, 4))}))
    d.setdefault("t", vb(True))
    d.setdefault("f", vb(False))
    d.setdefault("s", vs(r.pick(STRS)))
    d.setdefault("n", vi(r.randrange(0, 4)))
    return vm(d)


UNKNOWN = None


# --------------------------------------------------------------- functions
def functions(r, errs=True):
    """A library of functions; some share tags with others, names may shadow."""
    fs = [flt("t1", ["value"]), flt("t2", ["value", "value"]), flt("t3", ["value", "value", "value"]),
          flt("id", ["value"], "id"), flt("one", ["valueref"], "id"),
          flt("lst", ["value"], "const", v=vl([vi(1), vs("b"), vm({"a": vi(9), "x": vl([vi(8)])})])),
          flt("mp", ["value"], "const", v=vm({"a": vi(1), "b": vl([vi(2), vi(3)]), "x": vm({"y": vs("z")})})),
          flt("non", ["value"], "const", v=NONE), flt("tru", ["value"], "const", v=vb(True)), flt("str", ["value"], "const", v=vs("st<r>")),
          fmt("w1"), fmt("w2", "dbg"), fmt("esc", "esc"), fmt("dflt", "default")]
    if errs:
        fs += [flt("bad", ["value"], "fail", msg="bad filter é"), flt("may", ["value"], "failf", msg="falsy value"),
               fmt("ferr", "fail", tag="part", msg="formatter failed"), fmt("fmay", "failf", msg="falsy formatted"), fmt("ffmt", "fmterr", tag="p"),
               flt("ti", ["value", "i64", "i64"], tag="ti"), flt("sl", ["str", "value"]), flt("vs", ["value", "str"])]
    return fs


ARITY = {"t1": 0, "t2": 1, "t3": 2, "id": 0, "one": 0, "lst": 0, "mp": 0, "non": 0, "tru": 0, "str": 0, "bad": 0, "may": 0, "ti": 2, "sl": 1, "vs": 1}
FORMATTERS = ["w1", "w2", "esc", "dflt", "ferr", "fmay", "ffmt"]


class Gen:
    def __init__(self, r, ctx, sy=None, **kw):
        self.r = r
        self.ctx = ctx
        self.syn = sy or DEFSYN
        self.scopes = [{U(e["k"]): e["v"] for e in ctx["m"]} if ctx["t"] == "map" else {}]
        self.templates = kw.get("templates", [])
        self.fns = kw.get("fns", [])
        self.o = dict(err=0.02, opt=0.2, lit=0.15, pipe=0.3, fmt=0.2, trim=0.15, space=True, comment=0.06, depth=3, blank=0.3, rec=0.05,
                      weights=dict(text=6, emit=6, ife=3, fore=3, withe=2, inc=1.5, incw=1))
        self.o.update(kw)
        self.lib = {}
        self.filters = [U(f["n"]) for f in self.fns if f["k"] == "flt" and U(f["n"]) in ARITY]
        self.formatters = [U(f["n"]) for f in self.fns if f["k"] == "fmt"]
        if not self.o.get("failing", True):
            self.filters = [f for f in self.filters if f not in ("bad", "may", "ti", "sl", "vs")]
            self.formatters = [f for f in self.formatters if f not in ("ferr", "fmay", "ffmt")]

    # --------------------------------------------------------------- names
    def visible(self):
        d = {}
        for s in self.scopes:
            d.update(s)
        return d

    def path(self, want=None):
        """(tokens, sample) of a path; want: predicate on the sample value."""
        r = self.r
        if r.p(self.o["err"]):
            return [r.pick(["nope", "undefined", "zz", "loop", "item"])], UNKNOWN
        vis = self.visible()
        if not vis:
            return ["nope"], UNKNOWN
        names = list(vis)
        best = None
        for _ in range(6 if want else 1):
            n = r.pick(names)
            v = vis[n]
            toks = [n]
            while True:
                if v is UNKNOWN:
                    if r.p(0.2) and len(toks) < 4:
                        toks += [r.pick([".", "?.", "?."]), r.pick(KEYS + ["0", "1"])]
                        continue
                    break
                if want and want(v) and r.p(0.7):
                    break
                op = "?." if r.p(self.o["opt"]) else "."
                if v["t"] == "map":
                    if r.p(0.25) and not want:
                        break
                    if v["m"] and not r.p(self.o["err"] * 2):
                        e = r.pick(v["m"])
                        toks += [op, U(e["k"])]
                        v = e["v"]
                        continue
                    if r.p(0.6):
                        toks += ["?." if not r.p(self.o["err"] * 3) else ".", r.pick(["nokey", "q", "0"] if r.p(0.9) else KEYS)]
                        if r.p(0.4):
                            toks += [r.pick([".", "?."]), r.pick(["a", "0"])]
                        v = NONE
                    break
                if v["t"] == "list":
                    if r.p(0.25) and not want:
                        break
                    if v["l"] and not r.p(self.o["err"] * 2):
                        i = r.randrange(len(v["l"]))
                        toks += [op, r.pick(["%d", "%d", "%d", "0%d"]) % i]
                        v = v["l"][i]
                        continue
                    if r.p(0.6):
                        toks += ["?." if not r.p(self.o["err"] * 3) else ".", r.pick([str(len(v["l"])), "9", "99999999999", "18446744073709551615"])]
                        if r.p(0.4):
                            toks += [r.pick([".", "?."]), r.pick(["a", "0"])]
                        v = NONE
                    break
                if r.p(self.o["err"]):
                    toks += [op, r.pick(["a", "0"])]
                    v = UNKNOWN
                break
            # keys that are not identifiers cannot be written
            if any(t in (".", "?.") for t in toks[::2]):
                continue
            best = (toks, v)
            if not want or (v is not UNKNOWN and want(v)):
                break
        return best or ([r.pick(names)], UNKNOWN)

    def literal(self):
        r = self.r
        k = r.randrange(10)
        if k < 2:
            b = r.p(0.5)
            return ["true" if b else "false"], vb(b)
        if k < 5:
            n = r.pick(INTS) if r.p(0.4) else r.randrange(-3, 12)
            return int_tokens(r, n), vi(n)
        if k < 6:
            t = r.pick(["1.5", "0.25", "2.0", "10.", "1e3", "1.5e-2", "00.5", "12E2"])
            return ([r.pick(["-", "+"])] if r.p(0.3) else []) + [t], UNKNOWN
        s = r.pick(STRS)
        return [quote(r, s)], vs(s)

    def base(self, want=None):
        if self.r.p(self.o["lit"] * (0.3 if want else 1)):
            return self.literal()
        return self.path(want)

    def args(self, n):
        t = []
        for k in range(n):
            t += ([","] if k else []) + (self.literal()[0] if self.r.p(0.5) else self.path()[0])
        return t

    def filt(self):
        """Tokens of one pipeline element, and the sample value of its result."""
        r = self.r
        if not self.filters or r.p(self.o["err"]):
            n = r.pick(["unknown", "nofilter"] + FORMATTERS[:2])
            return ["|", n] + ([":"] + self.args(r.randrange(1, 3)) if r.p(0.3) else []), UNKNOWN
        n = r.pick(self.filters)
        k = ARITY[n]
        if r.p(self.o["err"]):
            k = r.randrange(0, 4)
        v = {"lst": vl([vi(1), vs("b"), vm({"a": vi(9), "x": vl([vi(8)])})]), "mp": vm({"a": vi(1), "b": vl([vi(2), vi(3)]), "x": vm({"y": vs("z")})}),
             "non": NONE, "tru": vb(True), "str": vs("st<r>"), "t1": vl([vs("t1"), NONE]), "t2": vl([vs("t2"), NONE, NONE])}.get(n, UNKNOWN)
        if n == "ti":
            return ["|", n, ":", str(r.randrange(9)), ",", str(r.randrange(9))], vl([vs("ti")])
        if n == "vs":
            return ["|", n, ":", quote(r, r.pick(STRS))], vl([vs("vs")])
        return ["|", n] + ([":"] + self.args(k) if k else []), v

    def expr(self, want=None, emit=False):
        r = self.r
        t, v = self.base(want)
        while r.p(self.o["pipe"]):
            f, v = self.filt()
            t = t + f
        if want and (v is UNKNOWN or not want(v)) and r.p(0.6):
            n = r.pick([x for x in ("lst", "mp") if x in self.filters] or [""])
            if n:
                t = t + ["|", n]
                v = {"lst": vl([vi(1), vs("b"), vm({"a": vi(9), "x": vl([vi(8)])})]),
                     "mp": vm({"a": vi(1), "b": vl([vi(2), vi(3)]), "x": vm({"y": vs("z")})})}[n]
        if emit and self.formatters:
            container = v is not UNKNOWN and v["t"] in ("list", "map") or v is UNKNOWN
            if r.p(0.93 if container else self.o["fmt"]):
                t = t + ["|", r.pick(self.formatters)]
                if r.p(self.o["err"]):
                    t += [":", "1"]
                if r.p(self.o["err"]):
                    t += ["|", r.pick(self.filters or ["nope"])]
        elif r.p(self.o["err"]) and self.formatters:
            t = t + ["|", r.pick(self.formatters)]
        return t, v

    # ---------------------------------------------------------------- text
    def join(self, toks):
        r = self.r
        out = ""
        for i, t in enumerate(toks):
            if i:
                a, b = out[-1], t[0]
                wordy = lambda c: c.isalnum() or c in "_é日ñ" or c == '"'
                num = toks[i - 1][0].isdigit() and b in "-+.0123456789"
                if wordy(a) and wordy(b) or (a in "-+" and b in "-+") or num and toks[i] not in (".", "?."):
                    out += r.pick([" ", " ", "  ", "\t"]) if self.o["space"] else " "
                elif b in ".?" or a in ".?":
                    out += " " if r.p(self.o["blank"] * 0.1) else ""
                elif r.p(1 - self.o["blank"]):
                    out += " "
            out += t
        return out

    def tag(self, kind, toks, trim=True):
        r = self.r
        b, e = self.syn[kind] if len(self.syn[kind]) == 2 else (T("{?"), T("?}"))
        b, e = U(b), U(e)
        body = self.join(toks)
        lt = "-" if trim and r.p(self.o["trim"]) else ""
        rt = "-" if trim and r.p(self.o["trim"]) else ""
        l = r.pick(["", " ", " ", " "]) if body and body[0] != "-" and not lt else r.pick([" ", " ", "\t"])
        if self.syn is DEFSYN or self.syn["e"] == DEFSYN["e"]:
            rr = r.pick(["", " ", " ", " "]) if not (body and body[-1].isdigit()) else " "
        else:
            l = rr = " "
        return b + lt + l + body + rr + rt + e

    def text(self):
        r = self.r
        return "".join(r.pick(SPACES) if r.p(0.5) else r.pick(self.o.get("words", WORDS)) for _ in range(r.randrange(0, 4)))

    def comment(self):
        r = self.r
        if len(self.syn["c"]) != 2:
            return ""
        b, e = U(self.syn["c"][0]), U(self.syn["c"][1])
        return b + r.pick(["", "-"]) + r.pick(["", " c ", "x", " {", "é\n", "-"]) + r.pick(["", "-"]) + e

    # ---------------------------------------------------------- statements
    def block(self, depth=None, n=None):
        r = self.r
        depth = self.o["depth"] if depth is None else depth
        out = ""
        for _ in range(n if n is not None else r.randrange(1, 5)):
            out += self.stmt(depth)
        return out

    def stmt(self, depth):
        r = self.r
        if r.p(self.o["comment"]):
            return self.comment()
        w = self.o["weights"]
        k = r.weighted([(k, w[k]) for k in w if depth > 0 or k in ("text", "emit", "inc")])
        return getattr(self, k)(depth) if k not in ("text",) else self.text()

    def emit(self, depth=0):
        return self.tag("e", self.expr(emit=True)[0])

    def cond(self):
        r = self.r
        return (["not"] if r.p(0.25) else []) + self.expr()[0]

    def ife(self, depth):
        r = self.r
        out = self.tag("b", ["if"] + self.cond()) + self.block(depth - 1, r.randrange(0, 3))
        while r.p(0.35):
            out += self.tag("b", ["else", "if"] + self.cond()) + self.block(depth - 1, r.randrange(0, 3))
        if r.p(0.5):
            out += self.tag("b", ["else"]) + self.block(depth - 1, r.randrange(0, 3))
        return out + self.tag("b", ["endif"])

    def newname(self):
        r = self.r
        vis = list(self.visible())
        return r.pick(vis) if vis and r.p(0.35) else r.pick(NAMES)

    def fore(self, depth):
        r = self.r
        t, v = self.expr(lambda v: v["t"] in ("list", "map") and (len(v.get("l", v.get("m"))) > 0 or r.p(0.2)))
        loop = vm({"first": vb(True), "index": vi(0), "last": vb(False)})
        two = v is not UNKNOWN and v["t"] == "map"
        if r.p(self.o["err"]):
            two = not two
        a, b = self.newname(), self.newname()
        el = UNKNOWN
        if v is not UNKNOWN and v.get("l"):
            el = v["l"][0]
        if v is not UNKNOWN and v.get("m"):
            el = v["m"][0]["v"]
        if two:
            head = ["for", a, ",", b, "in"] + t
            sc = {"loop": loop}
            sc[b] = el
            sc[a] = vs("k")
        else:
            head = ["for", a, "in"] + t
            sc = {a: el}
        sc["loop"] = loop
        self.scopes.append(sc)
        body = self.block(depth - 1, r.randrange(0, 4))
        self.scopes.pop()
        return self.tag("b", head) + body + self.tag("b", ["endfor"])

    def withe(self, depth):
        r = self.r
        t, v = self.expr()
        n = self.newname()
        head = self.tag("b", ["with"] + t + ["as", n])
        self.scopes.append({n: v})
        body = self.block(depth - 1, r.randrange(0, 4))
        self.scopes.pop()
        return head + body + self.tag("b", ["endwith"])

    # the templates written so far are in self.lib: name -> source (None while it is being written)
    def tname(self, scopes, depth):
        r = self.r
        lib = self.lib
        if r.p(self.o["err"]):
            return "missing"
        done = [n for n in lib if lib[n] is not None]
        if len(lib) < len(self.templates) and (not done or r.p(0.7)):
            n = self.templates[len(lib)]
            lib[n] = None
            old, self.scopes = self.scopes, scopes
            src = self.block(min(depth, 2), r.randrange(1, 4))
            self.scopes = old
            lib[n] = src
            return n
        if not lib:
            return "missing"
        return r.pick(done) if done and not r.p(self.o["rec"]) else r.pick(list(lib))

    def inc(self, depth):
        if not self.templates:
            return self.emit()
        return self.tag("b", ["include", quote(self.r, self.tname(list(self.scopes), depth - 1))])

    def incw(self, depth):
        if not self.templates:
            return self.emit()
        t, v = self.expr(lambda v: v["t"] == "map" and len(v["m"]) > 0)
        sc = {U(e["k"]): e["v"] for e in v["m"]} if v is not UNKNOWN and v["t"] == "map" else {}
        return self.tag("b", ["include", quote(self.r, self.tname([sc], depth - 1)), "with"] + t)


def quote(r, s):
    out = '"'
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif c == "\r":
            out += "\\r"
        elif c == "\t":
            out += "\\t" if r.p(0.5) else c
        else:
            out += c
    return out + '"'


def int_tokens(r, n):
    """A spelling of n."""
    sign = ["-"] if n < 0 else ["+"] if r.p(0.1) else []
    m = abs(n)
    k = r.randrange(8)
    if k == 0:
        s = "0x" + ("%x" if r.p(0.5) else "%X") % m
    elif k == 1:
        s = "0o%o" % m
    elif k == 2:
        s = "0b" + bin(m)[2:]
    else:
        s = "0" * r.pick([0, 0, 0, 2]) + str(m)
    if r.p(0.2) and len(s) > 3:
        p = r.randrange(3, len(s))
        s = s[:p] + "_" + s[p:]
    return sign + [s]


def mixed(r, sy=None, **kw):
    """A whole case: engine, templates, context, functions, settings."""
    ctx = context(r)
    err = kw.get("err", 0.02)
    if r.p(err):
        ctx = scalar(r)
    fns = functions(r) if r.p(0.9) else []
    names = r.sample(["p1", "p2", "sub/é", "q.html", "x y"], r.randrange(0, 5))
    g = Gen(r, ctx, sy, fns=fns, templates=names, **kw)
    tpls = [tpl(g.block(), "main" if r.p(0.3) else "", "reg" if r.p(0.3) else "anon")]
    if tpls[0]["role"] == "reg":
        tpls[0]["n"] = T("main")
    role = "tfn" if r.p(0.1) else "reg"
    for n in g.lib:
        tpls.append(tpl(g.lib[n], n, role))
    c = case(tpls, 1, ctx, fns=fns, tfn=role == "tfn" and len(tpls) > 1)
    if sy:
        c["syn"], c["defsyn"] = sy, False
    c["src"] = r.weighted([("from", 5), ("serde", 2), ("fn", 2)])
    if r.p(0.25):
        fl = kw.get("failing", True)
        c["dfmt"] = dfmt(r.pick(["default", "wrap", "dbg", "esc", "failf", "fail", "fmterr"] if fl and r.p(0.3) else ["default", "wrap", "dbg", "esc", "wrap"]), msg="default fails", chars=r.p(0.3))
    c["depth"] = r.weighted([(-1, 4), (r.randrange(0, 6), 0.5), (r.randrange(4, 12), 2)])
    c["rdepth"] = r.weighted([(-1, 8), (r.randrange(0, 6), 0.5), (r.randrange(3, 12), 1)])
    # recursion with the default depth makes long traces
    if c["depth"] < 0 and c["rdepth"] < 0:
        c["depth"] = 8
    return c
