#!/usr/bin/env python3
"""Writes harness-macros/src/forms.rs: every card in every form of the
construction macros, from the table CardTable.tla exports (argv[1])."""
import json, random, sys
rows = [json.loads(l) for l in open(sys.argv[1])]
rnd = random.Random(16)
o = []
w = o.append
w("// Generated by tools/gen_macros.py from the table of CardTable.tla.")
w("// (what, cards the macro built, cards written)")
w("#![allow(clippy::all)]")
w("use crate::{one, many, parsed, Case};")
w("pub fn cases(v: &mut Vec<Case>) {")
w("    singles_pair(v); singles_of(v); singles_text(v); singles_list(v);")
def pair(r): return "%s, %s" % (r["rank"], r["suit"])
def of(r): return "%s of %s" % (r["rank"], r["suit"])
lists = []
for n in list(range(1, 9)) * 6 + [13, 20, 52]:
    lists.append([rnd.choice(rows) for _ in range(n)] if n < 52 else rnd.sample(rows, 52))
for n in (104, 150, 416):               # several decks
    lists.append([rnd.choice(rows) for _ in range(n)])
for i, r in enumerate(rows):            # each card first, and last, in a pair
    lists.append([r, rows[(i + 17) % 52]])
k = (len(lists) + 19) // 20
for j in range(k):
    w("    lists_%d(v);" % j)
w("}")
def fn(name, body):
    w("fn %s(v: &mut Vec<Case>) {" % name)
    for b in body: w("    " + b)
    w("}")
S = lambda l: json.dumps(" ".join(r["name"] for r in l))
fn("singles_pair", ["{ const C: poker::Card = poker::card!(%s); one(v, \"card!(%s)\", C, %s); }" % (pair(r), pair(r), S([r])) for r in rows])
fn("singles_of", ["{ const C: poker::Card = poker::card!(%s); one(v, \"card!(%s)\", C, %s); one(v, \"card!(%s) at run time\", poker::card!(%s), %s); }" % (of(r), of(r), S([r]), of(r), of(r), S([r])) for r in rows])
fn("singles_text", ["parsed(v, \"card!(text)\", vec![poker::card!(%s)], %s); { let s = %s; parsed(v, \"card!(variable)\", vec![poker::card!(s)], s); let s = s.to_string(); parsed(v, \"card!(string)\", vec![poker::card!(s)], &s); }" % (json.dumps(r["name"]), S([r]), json.dumps(r["name"])) for r in rows])
fn("singles_list", ["many(v, \"cards!(one pair)\", &poker::cards!(%s), %s); many(v, \"cards!(one of)\", &poker::cards!(%s,), %s); many(v, \"cards!(one pair;)\", &poker::cards!(%s;), %s); parsed(v, \"cards!(one text)\", poker::cards!(%s).collect(), %s);" % (pair(r), S([r]), of(r), S([r]), pair(r), S([r]), json.dumps(r["name"]), S([r])) for r in rows])
for j in range(k):
    b = []
    for i, l in enumerate(lists[20 * j:20 * j + 20]):
        n = len(l)
        semi = "; ".join(pair(r) for r in l) + (";" if i % 2 else "")
        com = ", ".join(of(r) for r in l) + ("," if i % 2 else "")
        b.append("{ const L: [poker::Card; %d] = poker::cards!(%s); many(v, \"cards!(rank, suit; ..)\", &L, %s); }" % (n, semi, S(l)))
        b.append("{ const L: [poker::Card; %d] = poker::cards![%s]; many(v, \"cards!(rank of suit, ..)\", &L, %s); }" % (n, com, S(l)))
        if n > 1:
            b.append("parsed(v, \"cards!(texts)\", poker::cards!(%s).collect(), %s);" % (", ".join(json.dumps(r["name"]) for r in l) + ("," if i % 2 else ""), S(l)))
        sep = [" ", "  ", "\t", "\n", " \t ", "\u00a0", "\u2003", "\r\n"][i % 8]
        text = sep.join(r["name"] for r in l)
        if i % 3 == 0: text = " " + text + "\n"
        b.append("parsed(v, \"cards!(one line)\", poker::cards!(%s).collect(), %s);" % (json.dumps(text, ensure_ascii=False), S(l)))
        b.append("{ let s = String::from(%s); parsed(v, \"cards!(line variable)\", poker::cards!(s).collect(), %s); }" % (json.dumps(text, ensure_ascii=False), S(l)))
    fn("lists_%d" % j, b)
open(sys.argv[2], "w").write("\n".join(o) + "\n")
