#!/usr/bin/env python3
"""Writes spec/Unicode.tla: character classes as ranges of code points, from Python's Unicode database (15.0).

The display width is given for the characters about which there is no disagreement: letters, digits, punctuation and
symbols that are narrow (1), wide (2), and nonspacing marks (0); the generators use no others.
"""
import os
import sys
import unicodedata as u

ALL = [c for c in range(0x110000) if not 0xD800 <= c < 0xE000]


def ranges(pred):
    out = []
    for c in ALL:
        if pred(c):
            if out and out[-1][1] == c - 1:
                out[-1][1] = c
            else:
                out.append([c, c])
    return out


def start(c):
    return c > 127 and chr(c).isidentifier()


def cont(c):
    return c > 127 and ("a" + chr(c)).isidentifier()


def jamo(c):
    return 0x1100 <= c < 0x1200 or 0xA960 <= c < 0xA980 or 0xD7B0 <= c < 0xD800


def width(c):
    """0, 1, 2, or None where one should not ask."""
    k, ch = u.category(chr(c)), chr(c)
    if c < 32 or 127 <= c < 160:
        return 0
    if c < 127:
        return 1
    if k in ("Mn", "Me"):
        return 0 if u.combining(ch) and u.east_asian_width(ch) in ("N", "A") and c < 0x3000 else None
    if jamo(c) or k[0] not in "LNPS" or c in (0xAD,) or 0x1F1E6 <= c <= 0x1F1FF or 0x1F3FB <= c <= 0x1F3FF:
        return None
    w = u.east_asian_width(ch)
    if w in ("W", "F"):
        return 2
    if w in ("Na", "N", "H"):
        return 1 if c < 0x0E00 and c != 0x00B7 and not 0x0600 <= c < 0x0900 else None
    return None


if __name__ == "__main__":
    def table(name, rs):
        lines, line = [], "  "
        for a, b in rs:
            x = "<<%d,%d>>, " % (a, b)
            if len(line) + len(x) > 150:
                lines.append(line)
                line = "  "
            line += x
        lines.append(line)
        return "%s == <<\n%s\n>>\n" % (name, "\n".join(lines).rstrip(", \n"))

    out = """------------------------------- MODULE Unicode -------------------------------
(***************************************************************************)
(* Character classes as ascending ranges of code points (Unicode 15.0).    *)
(* Written by tools/mkunicode.py; ASCII is dealt with in module Text.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* Whether c lies in one of the ascending ranges r[i..j]. *)
RECURSIVE _Among(_, _, _, _)
_Among(c, r, i, j) ==
  IF i > j THEN FALSE
  ELSE LET k == (i + j) \\div 2 IN
       IF c < r[k][1] THEN _Among(c, r, i, k - 1)
       ELSE IF c > r[k][2] THEN _Among(c, r, k + 1, j)
       ELSE TRUE
Among(c, r) == _Among(c, r, 1, Len(r))

(* Characters an identifier may start with, and those it may only continue
   with (XID_Start; XID_Continue without XID_Start). *)
"""
    out += table("StartRanges", ranges(start)) + table("ContRanges", ranges(lambda c: cont(c) and not start(c)))
    out += "\n(* Characters two columns wide, and those without width. *)\n"
    out += table("WideRanges", ranges(lambda c: width(c) == 2)) + table("ZeroRanges", ranges(lambda c: c > 160 and width(c) == 0 or c in (6158, 8203, 8288, 65279)))
    out += "=" * 77 + "\n"
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "Unicode.tla"), "w") as f:
        f.write(out)
