"""Characters of every class, from the ranges in spec/Unicode.tla."""
import os
import re
import unicodedata
from core import SPEC


def load():
    with open(os.path.join(SPEC, "Unicode.tla")) as f:
        s = f.read()
    return {m.group(1): [(int(a), int(b)) for a, b in re.findall(r"<<(\d+),(\d+)>>", m.group(2))]
            for m in re.finditer(r"^(\w+) == <<\n(.*?)\n>>", s, re.M | re.S)}


TABLES = load()
WHITE = list(range(9, 14)) + [32, 133, 160, 5760] + list(range(8192, 8203)) + [8232, 8233, 8239, 8287, 12288]


def edges(name):
    """First and last characters of every range, and the neighbours outside; characters known to the database only."""
    out = set()
    for a, b in TABLES[name]:
        out |= {a - 1, a, b, b + 1, (a + b) // 2}
    # (the two joiners continue identifiers from Unicode 15.1 on)
    return sorted(c for c in out if c > 127 and c not in (0x200c, 0x200d) and not 0xD800 <= c < 0xE000 and c < 0x110000 and unicodedata.category(chr(c)) != "Cn")


def anyof(r, name):
    a, b = r.pick(TABLES[name])
    return r.randrange(a, b + 1)


def blanks():
    """Whitespace of all kinds, and what could be taken for it."""
    near = [c + d for c in WHITE for d in (-1, 1)]
    odd = [0, 1, 8, 0x1c, 0x1d, 0x1e, 0x1f, 0x7f, 0x84, 0x86, 0xad, 0x180e, 0x200b, 0x200e, 0x200f, 0x202a, 0x202e, 0x2060, 0x2061, 0x2064, 0x2066, 0x2800, 0x3164, 0xfeff, 0xffa0, 0xfffc, 0xfffd, 0x115f, 0xe0020, 0x1d173, 0x303f, 0x2420, 0x0300, 0x30a0]
    return sorted(set(WHITE + near + odd) - {ord(c) for c in "{}%#-"} - {0x200c, 0x200d})


def line(r, n):
    """A text of characters whose width is beyond doubt."""
    out = []
    for _ in range(n):
        k = r.randrange(10)
        out.append(anyof(r, "WideRanges") if k < 3 else anyof(r, "ZeroRanges") if k < 4 else r.pick([0x61, 0x7a, 0x20, 0x30, 0x5f]) if k < 6 else narrow(r))
    return "".join(map(chr, out))


def narrow(r):
    """A narrow letter beyond ASCII."""
    while True:
        c = r.randrange(0xa1, 0x0600)
        if c != 0xAD and c != 0xB7 and unicodedata.category(chr(c))[0] == "L" and unicodedata.east_asian_width(chr(c)) in ("N", "Na"):
            return c


def word(r, n):
    """An identifier of letters whose width is beyond doubt."""
    w = ""
    while len(w) < n:
        c = chr(narrow(r) if r.p(0.4) else anyof(r, "WideRanges") if r.p(0.6) else r.pick([0x61, 0x5f, 0x41]))
        if (w + c).isidentifier():
            w += c
    return w
