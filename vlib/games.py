"""Plays the example programs over pipes and writes down what was typed and
what was shown, for TLC to judge."""
import json, os, random, re, select, subprocess, threading, time

ANSI = re.compile(r"\x1b\[[0-9;?]*[A-Za-z]")
HAND = re.compile(r"^((?:\[ \S+ \] ){5})\((.*)\)$")
CARD = re.compile(r"\[ (\S+) \]")
SYMBOL = {"♣": "c", "♥": "h", "♠": "s", "♦": "d"}
MARKS = "(1) (2) (3) (4) (5)"
RANKS = "23456789TJQKA"


def cards_of(text):
    r = []
    for t in CARD.findall(text):
        r.append(t[0] + SYMBOL[t[1]] if len(t) == 2 and t[1] in SYMBOL else t)
    return r


class Stuck(Exception):
    pass


class Jacks:
    """One game; every call of `type` is one line and what is shown after it."""
    WAIT = 120

    def __init__(self, exe, shim, seed):
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "TERM": "xterm", "ENTROPY_SEED": str(seed), "LD_PRELOAD": shim}
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, bufsize=0)
        self.buf = b""
        self.events = []
        self.ask = None
        self.credits = None
        self.hand = None
        self.ended = False
        self.see({"k": "start"})

    def line(self):
        while b"\n" not in self.buf:
            # second by second: time in which nothing here runs does not count
            if not any(select.select([self.p.stdout], [], [], 1)[0] for _ in range(self.WAIT)):
                self.p.kill()
                raise Stuck("nothing shown for %d s after %s" % (self.WAIT, json.dumps(self.events[-3:])))
            more = os.read(self.p.stdout.fileno(), 65536)
            if not more:
                if not self.buf:
                    return None
                r, self.buf = self.buf, b""
                return r.decode("utf-8", "replace")
            self.buf += more
        r, self.buf = self.buf.split(b"\n", 1)
        return r.decode("utf-8", "replace")

    def see(self, e):
        """Everything up to the next question, or the end."""
        at_swap = self.ask == "swap"
        says, marks = [], None
        e["ask"], e["ended"] = "none", False
        while True:
            l = self.line()
            if l is None:
                e["ended"] = self.ended = True
                e["exit"] = self.p.wait()
                self.ask = None
                break
            l = ANSI.sub("", l).rstrip()
            if not l.strip():
                continue
            m = re.match(r"^Enter a wager\. \(Credits: (\d{1,9}), max: (\d{1,9})\)$", l)
            if m:
                e["ask"], e["credits"], e["max"] = "wager", int(m.group(1)), int(m.group(2))
                self.ask, self.credits, self.hand = "wager", e["credits"], None
                break
            if l == "Enter the cards' numbers you wish to swap, if any.":
                e["ask"] = self.ask = "swap"
                break
            m = HAND.match(l)
            if m:
                f = "2" if at_swap else ""
                if "hand" + f not in e:
                    e["hand" + f], e["name" + f] = cards_of(m.group(1)), m.group(2)
                    self.hand = e["hand" + f]
                    continue
            if " ".join(l.split()) == MARKS and not at_swap:
                e["marks"] = MARKS
                continue
            m = re.match(r"^Winnings: (\d{1,9})$", l)
            if m and at_swap and "winnings" not in e:
                e["winnings"] = int(m.group(1))
                continue
            if at_swap and l == "You got a better hand!" and "remark" not in e:
                e["remark"] = "better"
                continue
            if at_swap and l == "You got a worse hand..." and "remark" not in e:
                e["remark"] = "worse"
                continue
            if at_swap and l == "Game over!" and "gameover" not in e:
                e["gameover"] = True
                continue
            says.append(l)
        if "hand2" in e or "winnings" in e:
            e.setdefault("remark", "none")
            e.setdefault("gameover", False)
        e["says"] = says
        self.events.append(e)
        return e

    def type(self, text):
        try:
            self.p.stdin.write((text + "\n").encode())
        except BrokenPipeError:
            pass
        return self.see({"k": "line", "text": list(text)})

    def close(self):
        """End of input."""
        if self.ended:
            self.p.stdin.close()
            return
        self.p.stdin.close()
        self.see({"k": "eof"})

    def stop(self):
        for f in (self.p.stdin, self.p.stdout, self.p.stderr):
            try:
                f.close()
            except OSError:
                pass
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()


# ---------------------------------------------------------------- strategies
def ranks(hand):
    return [RANKS.find(c[0]) for c in hand]


def keep_best(hand):
    """Positions to give up, by a plain strategy."""
    r, s = ranks(hand), [c[-1] for c in hand]
    cnt = {x: r.count(x) for x in r}
    if max(s.count(x) for x in s) == 5:
        return []
    u = sorted(set(r))
    if len(u) == 5 and (u[4] - u[0] == 4 or u == [0, 1, 2, 3, 12]):
        return []
    royal = max("chsd", key=lambda q: sum(1 for a, b in zip(r, s) if b == q and a >= 8))
    if sum(1 for a, b in zip(r, s) if b == royal and a >= 8) == 4:
        return [i for i in range(5) if not (s[i] == royal and r[i] >= 8)]
    if any(v > 1 for v in cnt.values()):
        return [i for i in range(5) if cnt[r[i]] == 1]
    f = max("chsd", key=s.count)
    if s.count(f) == 4:
        return [i for i in range(5) if s[i] != f]
    return [i for i in range(5) if r[i] < 9]


def chase_royal(hand):
    r, s = ranks(hand), [c[-1] for c in hand]
    q = max("chsd", key=lambda q: sum(1 for a, b in zip(r, s) if b == q and a >= 8))
    return [i for i in range(5) if not (s[i] == q and r[i] >= 8)]


def chase_straight_flush(hand):
    r, s = ranks(hand), [c[-1] for c in hand]
    best = []
    for q in "chsd":
        for lo in range(-1, 8):
            w = [12 if x < 0 else x for x in range(lo, lo + 5)]
            k = [i for i in range(5) if s[i] == q and r[i] in w]
            if len(k) > len(best):
                best = k
    return [i for i in range(5) if i not in best]


def lose(hand):
    return [0, 1, 2, 3, 4]


BAD_WAGERS = ["", "0", "6", "7", "10", "-1", "+0", "00", "x", "1x", " 1", "1 ", "1.0", "1,0", "one", "five", "Quit", "QUIT", " quit", "quit ", "exit", "+", "-", "++1", "٣", "５", "1e0", "0x1",
              "99999999999999999999", "18446744073709551615", "18446744073709551616", "18446744073709551617", "4294967297", "256", "257", "65537", "000000000000000000000000000006", "1 2", "\t3", "5\t", "¼", "As", "help", "Ⅴ", "1\u00a0", "a" * 300]
ODD_WAGERS = ["+1", "01", "+02", "0000000000000000000000000000000003", "+5", "005"]
BAD_SWAPS = ["0", "6", "1 6", "0 1", "1 1", "1 2 1", "5 5 5", "1 2 3 4 5 1", "1 2 3 4 5 5", "1 1 2 2 3 3", "6 6 6 6 6 6", "1 2 3 4 5 6", "x", "1 x", "1,2", "1, 2", "-1", "1 -1", "1.0", "As", "quit 1", "Quit", " quit", "QUIT ", "1 18446744073709551616",
             "18446744073709551617", "257", "1 257", "4294967298", "+0", "all", "none", "1-5", "٢", "1 ２", "2 2 3 3", "1 1 1 1 1 1", "12", "12345", "1;2", "2  2", "\t4 4", "x" * 200, "1 2 3 4 5 x", "0 0", "6 6", "1 1 6", "1 1 x"]
ODD_SWAPS = ["+1", "01 2", "  3  ", "\t4\t5", "1  2   3", "5 4 3 2 1", "000000000000000000000000001", " ", "\t", "1\u00a02", "2\u30005", "+1 +2"]


def swap_text(rnd, pos):
    pos = [p + 1 for p in pos]
    rnd.shuffle(pos)
    return " ".join(map(str, pos))


def play(exe, shim, seed, rnd, events, style, script=None):
    """A game in one of several styles; returns its events."""
    g = Jacks(exe, shim, seed)
    try:
        i = 0
        while not g.ended and len(g.events) < events:
            if script and i < len(script):
                t = script[i]
                i += 1
                g.type(t)
                continue
            if script and i >= len(script):
                break
            if g.ask == "wager":
                c = g.credits
                if style == "bad" and rnd.random() < 0.6:
                    g.type(rnd.choice(BAD_WAGERS))
                    continue
                if c < 5 and rnd.random() < 0.4:
                    g.type(str(rnd.randint(c + 1, 5)))
                    continue
                if style == "lose":
                    g.type(str(min(5, c)))
                elif style == "long":
                    g.type("1")
                elif style == "odd" and rnd.random() < 0.5:
                    g.type(rnd.choice(ODD_WAGERS))
                else:
                    g.type(str(rnd.randint(1, min(5, c))))
            else:
                if style == "bad" and rnd.random() < 0.6:
                    g.type(rnd.choice(BAD_SWAPS))
                    continue
                if style == "odd" and rnd.random() < 0.5:
                    g.type(rnd.choice(ODD_SWAPS))
                    continue
                if g.hand is None or len(g.hand) != 5:
                    g.type("")
                    continue
                how = {"long": keep_best, "lose": lose, "royal": chase_royal, "sf": chase_straight_flush}.get(style)
                if how and rnd.random() < 0.9:
                    pos = how(g.hand)
                else:
                    pos = rnd.choice([keep_best(g.hand), rnd.sample(range(5), rnd.randint(0, 5))])
                g.type(swap_text(rnd, pos))
        if not g.ended:
            if rnd.random() < 0.5:
                g.type("quit")
            else:
                g.close()
        return g.events
    finally:
        g.stop()


# ------------------------------------------------------------------- the REPL
def repl(exe, shim, seed, lines, finish, term="xterm"):
    """Types lines (then ends the input) and returns (shown lines, exit code, stderr)."""
    env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "TERM": term, "ENTROPY_SEED": str(seed), "LD_PRELOAD": shim}
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    data = "".join(l + "\n" for l in lines)
    if finish == "unfinished" and data:
        data = data[:-1]
    try:
        out, err = p.communicate(data.encode(), timeout=200)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise Stuck("the prompt did not end")
    shown = [ANSI.sub("", l) for l in out.decode("utf-8", "replace").split("\n")]
    if term == "dumb":
        shown = [re.sub(r"^(poker> )+", "", l) for l in shown]
    return [l for l in shown if l.strip()], p.returncode, err.decode("utf-8", "replace")


CARDS = [r + s for r in RANKS for s in "chsd"]
ODD_WORDS = ["as", "AS", "aS", "Asd", "A", "s", "1s", "10s", "Ax", "xs", "T♠", "é", "♠♠", "🂡", "As,", "?", "0c", "tC", "Tc.", "--", "quit", "help", "K h", "ＡＳ", "Ас", "j♦", "Q\u0301", "", "\u200b", "As\u0301", "ß", "x" * 80]
GAPS = [" "] * 12 + ["  ", "\t", " \t ", "\u00a0", "\u3000", "\u2003", "\f"]


def repl_line(rnd, before):
    k = rnd.randint(0, 13)
    if k == 0:
        return rnd.choice(["", " ", "\t", "help", "help", "help ", " help", "HELP", "help me", "quit ", " quit", "Quit", "exit", "quit quit", "\u3000"])
    if k == 1 and before:
        return rnd.choice(before)
    if k in (2, 3):
        w = rnd.sample(CARDS, rnd.randint(1, 4))
    elif k in (4, 5, 6):
        w = rnd.sample(CARDS, rnd.randint(5, 9))
    elif k == 7:
        s = rnd.choice("chsd")
        w = rnd.sample([c for c in CARDS if c[1] == s], rnd.randint(5, 7))
    elif k == 8:
        lo = rnd.randint(-1, 8)
        s = rnd.choice(["chsd", "chsd", "c", "d", "hs"])
        w = [RANKS[x] + rnd.choice(s) for x in range(lo, lo + 5)]
    elif k == 9:
        rs = rnd.sample(RANKS, rnd.randint(2, 3))
        w = rnd.sample([c for c in CARDS if c[0] in rs], rnd.randint(5, 7))
    elif k == 10:
        w = rnd.sample(CARDS, rnd.randint(1, 6))
        for _ in range(rnd.randint(1, 3)):
            w.insert(rnd.randint(0, len(w)), rnd.choice(w[:4]))
    elif k == 11:
        w = rnd.sample(CARDS, rnd.randint(0, 6)) + [rnd.choice(ODD_WORDS) for _ in range(rnd.randint(1, 3))]
        rnd.shuffle(w)
    elif k == 12:
        w = [rnd.choice(CARDS + ODD_WORDS) for _ in range(rnd.randint(1, 6))]
    else:
        return rnd.choice(ODD_WORDS)
    rnd.shuffle(w)
    t = ""
    for i, x in enumerate(w):
        t += (rnd.choice(GAPS) if i else rnd.choice([""] * 6 + [" ", "\t"])) + x
    return t + rnd.choice([""] * 6 + [" ", "\t"])


def every_kind(rnd):
    """Lines for the prompt: a hand of each of the 7,462 kinds; every card by itself, and twice in a hand."""
    import itertools
    lines = []
    for m in itertools.combinations_with_replacement(range(13), 5):
        if max(m.count(x) for x in m) > 4:
            continue
        for one in (False, True):
            if one and len(set(m)) < 5:
                continue
            first = rnd.randrange(4)
            w = [RANKS[x] + "chsd"[first if one else (first + i) % 4] for i, x in enumerate(m)]
            rnd.shuffle(w)
            lines.append(" ".join(w))
    for c in CARDS:
        lines.append(c)
        w = rnd.sample([d for d in CARDS if d != c], rnd.randint(3, 6)) + [c, c]
        rnd.shuffle(w)
        lines.append(" ".join(w))
    # every character in the place of a rank and of a suit
    for x in map(chr, range(33, 127)):
        lines += [x + "s", "A" + x]
    rnd.shuffle(lines)
    return [l for l in lines if l != "quit"]


# ------------------------------------------------- looking for unseen rounds
def novel(exe, shim, start, secs):
    """Plays many short games and keeps those that end in a round whose final
    hand, wager, or change of hand was not seen before.  Returns the events of
    the kept games, each cut after its new round."""
    seen, kept, rounds, t, seed = set(), [], 0, time.time(), start
    while time.time() - t < secs:
        seed += 1
        rnd = random.Random(seed)
        how = rnd.choice([keep_best, keep_best, chase_royal, chase_straight_flush, None, None])
        big = rnd.random() < 0.5
        g = Jacks(exe, shim, seed)
        upto = 0
        try:
            while not g.ended and len(g.events) < 81:
                wager = min(g.credits, 5 if big else rnd.randint(1, 5))
                e1 = g.type(str(wager))
                if g.ask != "swap" or g.hand is None or len(g.hand) != 5:
                    upto = len(g.events)
                    break
                pos = how(g.hand) if how else rnd.sample(range(5), rnd.randint(0, 5))
                e = g.type(swap_text(rnd, pos))
                rounds += 1
                a, b = e1.get("name", "?"), e.get("name2", "?")
                keys = [(b, wager if b.split(",")[0] not in ("High card", "Pair", "Two pair") else 0), (a.split(",")[0], b.split(",")[0], e.get("remark"))]
                if "gameover" in e and e["gameover"]:
                    keys.append(("over", b))
                if e["says"] or "name2" not in e:
                    keys.append(("odd", b, str(e["says"])))
                new = [k for k in keys if k not in seen]
                if new:
                    seen.update(new)
                    upto = len(g.events)
            if upto and upto == len(g.events):
                if not g.ended:
                    g.type("quit")
                kept.append(g.events)
            elif upto:
                # the same game again, left after its last new round
                lines = ["".join(e["text"]) for e in g.events[1:upto]] + ["quit"]
                kept.append(play(exe, shim, seed, rnd, 10 ** 6, "mixed", script=lines))
        finally:
            g.stop()
    return kept, rounds, sorted(k[0] for k in seen if len(k) == 2)


def scripted(shim, rounds, out):
    """One-round games: [program, seed, wager, swaps] each; writes the events."""
    with open(out, "w", encoding="utf-8") as o:
        for i, (exe, seed, wager, swaps) in enumerate(json.load(open(rounds))):
            for e in play(exe, shim, seed, random.Random(i), 10 ** 6, "mixed", script=[wager, swaps]):
                o.write(json.dumps(e, ensure_ascii=False) + "\n")
