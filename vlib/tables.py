"""The example programs: built from the working tree, played over pipes, and
judged by TLC."""
import json, os, random, re
from . import games
from .core import ToolError, Violation, BUILD, REPO, VERIF, CORES, falsify


def build_examples(run):
    shim = run.path("entropy.so")
    code, out = run.proc(["gcc", "-O1", "-shared", "-fPIC", "-o", shim, os.path.join(VERIF, "shim/entropy.c")])
    if code:
        raise ToolError("the entropy shim does not build\n" + out)
    def build(kind):
        tgt = os.path.join(BUILD, "examples-" + kind)
        code, out = run.proc(["cargo", "build", "--examples", "--profile", kind, "--offline", "--locked", "--quiet"], cwd=REPO,
                             env={"CARGO_TARGET_DIR": tgt, "CARGO_NET_OFFLINE": "true", "RUSTUP_TOOLCHAIN": "stable", "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "0",
                                  "CARGO_PROFILE_RELEASE_LTO": "off", "CARGO_PROFILE_RELEASE_CODEGEN_UNITS": "16"})
        if code:
            if re.search(r"could not compile `poker` \(example", out):
                run.violation({"what": "the examples no longer compile against the library", "compiler": out[-5000:]})
                raise Violation()
            raise ToolError("the library does not build\n" + out[-3000:])
        return {n: os.path.join(tgt, {"dev": "debug"}.get(kind, kind), "examples", n) for n in ("jacks-or-better", "poker-repl")}

    run.shim = shim
    # as a debug and as a release build
    run.exes = run.together(lambda: build("dev"), lambda: build("release"))
    if run.violations:
        raise Violation()


def write(f, events):
    with open(f, "w", encoding="utf-8") as o:
        for e in events:
            o.write(json.dumps(e, ensure_ascii=False) + "\n")


FIELDS = {"C18": ["hand", "name", "marks", "hand2", "name2", "remark"], "C19": ["credits", "max", "winnings", "gameover", "ended", "exit"],
          "C20": ["says", "ask", "credits", "ended", "exit"]}


def falsified_game(run, trace, env):
    rnd = random.Random(run.seed)
    for f in FIELDS[run.prop]:
        ev = [json.loads(l) for l in open(trace, encoding="utf-8")]
        at = [i for i, e in enumerate(ev) if f in e and (f != "says" or e["says"])]
        if not at:
            continue
        i = rnd.choice(at)
        e = ev[i]
        was = json.dumps(e[f], ensure_ascii=False)
        if f.startswith("hand"):
            e[f][rnd.randrange(5)] = e[f][0] if rnd.random() < 0.5 else "xx"
            if json.dumps(e[f], ensure_ascii=False) == was:
                e[f][1] = e[f][0]
        elif f == "says":
            e[f] = e[f][:-1] if rnd.random() < 0.5 else e[f][:-1] + [e[f][-1] + "."]
        elif isinstance(e[f], bool):
            e[f] = not e[f]
        elif isinstance(e[f], int):
            e[f] += 1
        elif f == "remark":
            e[f] = {"better": "worse", "worse": "none", "none": "better"}[e[f]]
        elif f == "ask":
            e[f] = {"wager": "swap", "swap": "wager", "none": "wager"}[e[f]]
        else:
            e[f] += "x"
        g = trace + ".false"
        write(g, ev[:i + 1])
        code, out, _, _ = run.tlc("JacksTrace", env=dict(env, TRACE=g), workers=1, heap="2g")
        if code == 0 or '"REJECTED"' not in out:
            raise ToolError("a falsified game was accepted: event %d of %s, %s was %s" % (i + 1, trace, f, was))
        with run.lock:
            run.parts["falsified_answers_rejected"] = run.parts.get("falsified_answers_rejected", 0) + 1


def jacks(run, models, styles):
    """styles: (style, games, events in each trace)"""
    run.together(lambda: build_examples(run), *[lambda m=m: run.model(*m) for m in models],
                 *run.pick([], [lambda: run.prove("JacksProof")]), width=CORES)
    if run.violations:
        return
    counts = {}

    def session(style, k, n, first):
        rnd = random.Random("%d %s %d" % (run.seed, style, k))
        events, seed = [], run.seed * 1000000 + sum(map(ord, style)) * 1000 + k * 100
        while len(events) < n:
            try:
                g = games.play(run.exes[k % 2]["jacks-or-better"], run.shim, seed, rnd, n - len(events) if style != "lose" else n, style)
            except games.Stuck as s:
                run.violation({"what": "the game shows nothing more", "detail": str(s), "style": style, "seed": seed})
                return
            events += g
            seed += 1
        f = run.path("game-%s-%d.ndjson" % (style, k))
        write(f, events)
        with run.lock:
            for e in events:
                for key in ("name2", "remark"):
                    if key in e:
                        t = e[key].split(",")[0]
                        counts[t] = counts.get(t, 0) + 1
            counts["rounds"] = counts.get("rounds", 0) + sum("winnings" in e for e in events)
            counts["games"] = counts.get("games", 0) + sum(e["k"] == "start" for e in events)
            counts["refused"] = counts.get("refused", 0) + sum(e["k"] == "line" and len(e["says"]) == 1 for e in events)
            run.evaluations += len(events)
            if first:
                run.samples += [json.dumps(e, ensure_ascii=False) for e in events[:3]]
        env = {"PROP": run.prop}
        if run.validate("JacksTrace", f, "games in the style %r" % style, env=env, corrupt=False) and first:
            falsified_game(run, f, env)

    jobs = []
    for s, k, n in styles:
        jobs += [lambda s=s, i=i, n=n: session(s, i, n, i == 0) for i in range(k)]
    run.together(*jobs, width=CORES)
    if run.prop in ("C18", "C19") and not run.violations:
        every_kind(run)
    if run.prop in ("C18", "C19") and not run.violations:
        unseen(run)
    run.parts["seen"] = counts


def every_kind(run):
    """One round ending in each kind of hand (vlib/rounds.txt: entropy and cards
    to swap, found by tools/steer); straight flushes at every wager."""
    import subprocess, sys
    rounds = [list(map(int, l.split())) for l in open(os.path.join(VERIF, "vlib/rounds.txt"))]
    script = []
    for i, (seed, swaps) in enumerate(rounds):
        for wager in range(1, 6) if i < 40 else [1 + (i + run.seed) % 5]:
            script.append([seed, str(wager), " ".join(str(j + 1) for j in range(5) if swaps >> j & 1)])
    files, procs = [], []
    for i in range(CORES):
        g, f = run.path("rounds-%d.json" % i), run.path("game-every-%d.ndjson" % i)
        exes = run.pick([run.exes[i % 2]], run.exes)
        json.dump([[e["jacks-or-better"]] + x for e in exes for x in script[i::CORES]], open(g, "w"))
        files.append(f)
        procs.append(subprocess.Popen([sys.executable, "-c", "import sys; sys.path.insert(0, %r); from vlib import games; games.scripted(%r, %r, %r)" % (VERIF, run.shim, g, f)],
                                      stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
    for p in procs:
        _, err = p.communicate(timeout=800)
        if p.returncode:
            if b"games.Stuck" not in err:
                raise ToolError("playing failed\n" + err.decode()[-2000:])
            run.violation({"what": "the game shows nothing more", "detail": err.decode()[-800:]})
    if run.violations:
        return
    kinds = set()
    for f in files:
        for l in open(f, encoding="utf-8"):
            e = json.loads(l)
            run.evaluations += 1
            if "hand2" in e:
                s = {c[-1] for c in e["hand2"]}
                kinds.add((len(s) == 1, "".join(sorted(c[0] for c in e["hand2"]))))
    run.parts["kinds_of_final_hand"] = len(kinds)
    run.together(*[lambda f=f: run.validate("JacksTrace", f, "a round for every kind of hand", env={"PROP": run.prop}, corrupt=False) for f in files], width=CORES)


def unseen(run):
    """Many games played, those with something new in them validated."""
    import subprocess, sys
    secs = run.pick(12, 90)
    procs = []
    for i in range(CORES):
        procs.append(subprocess.Popen([sys.executable, "-c",
            "import json, sys; sys.path.insert(0, %r); from vlib import games; print(json.dumps(games.novel(%r, %r, %d, %r)))"
            % (VERIF, run.exes[i % 2]["jacks-or-better"], run.shim, (run.seed * 100 + i) * 10 ** 7, secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE))
    outs = []
    for p in procs:
        out, err = p.communicate(timeout=secs + 300)
        if p.returncode:
            if b"games.Stuck" in err:
                run.violation({"what": "the game shows nothing more", "detail": err.decode()[-800:]})
                continue
            raise ToolError("playing failed\n" + err.decode()[-2000:])
        outs.append(json.loads(out))
    # one of each thing new, over all players
    have, names, kept = set(), set(), []
    for games_, rounds, seen in outs:
        run.parts["rounds_played"] = run.parts.get("rounds_played", 0) + rounds
        names.update(seen)
        for g in games_:
            keys = set()
            first = None
            for e in g:
                if "name" in e:
                    first = e["name"].split(",")[0]
                    wager = "".join(e["text"])
                if "name2" in e:
                    b = e["name2"]
                    keys |= {(b, wager if b.split(",")[0] not in ("High card", "Pair", "Two pair") else 0), (first, b.split(",")[0], e.get("remark")), ("over", e.get("gameover"), b.split(",")[0])}
                if e["says"]:
                    keys.add(str(e["says"]))
            if keys - have:
                have |= keys
                kept.append(g)
    run.parts["games_with_something_new"] = len(kept)
    run.parts["final_hands_reached"] = len({k[0] for k in have if isinstance(k, tuple) and len(k) == 2})

    def judge(k):
        f = run.path("game-new-%d.ndjson" % k)
        events = [e for g in kept[k::CORES] for e in g]
        if not events:
            return
        write(f, events)
        with run.lock:
            run.evaluations += len(events)
        run.validate("JacksTrace", f, "games with hands not seen before", env={"PROP": run.prop}, corrupt=False)

    run.together(*[lambda k=k: judge(k) for k in range(CORES)], width=CORES)


def prompt(run, sessions, lines):
    run.together(lambda: build_examples(run), lambda: run.model("ReplMC", run.pick(None, "ReplMCBig"), None, 4), width=CORES)
    if run.violations:
        return
    counts = {"lines": 0, "shown": 0}
    kinds = games.every_kind(random.Random("kinds %d" % run.seed))

    def session(k):
        rnd = random.Random("%d repl %d" % (run.seed, k))
        typed = []
        if k >= sessions:  # a hand of every kind, and every card by itself and repeated
            typed = kinds[k - sessions::CORES]
        while len(typed) < lines and k < sessions:
            t = games.repl_line(rnd, typed)
            if t != "quit":
                typed.append(t)
        finish = ["quit", "end", "unfinished", "after", "dumb"][k % 5]
        term = "dumb" if finish == "dumb" else "xterm"
        if finish == "quit":
            typed.append("quit")
        if finish == "after":
            typed += ["quit", "As", "help"]
        if finish == "unfinished":
            typed.append(rnd.choice(["As Ks Qs Js Ts", "quit", "help", "x"]))
        try:
            shown, code, err = games.repl(run.exes[k % 2]["poker-repl"], run.shim, run.seed * 1000 + k, typed, finish, term)
        except games.Stuck as s:
            run.violation({"what": str(s), "lines": typed[:50]})
            return
        f, g = run.path("repl-%d.ndjson" % k), run.path("repl-shown-%d.ndjson" % k)
        write(f, [{"k": "start"}] + [{"k": "line", "text": list(t)} for t in typed] + [{"k": "end", "exit": code}])
        write(g, [{"lines": shown}])
        with run.lock:
            counts["lines"] += len(typed)
            counts["shown"] += len(shown)
            run.evaluations += len(typed)
            if k == 0:
                run.samples += [json.dumps(x, ensure_ascii=False) for x in (typed[:6], shown[:6])]
        ok = run.validate("ReplTrace", f, {"stderr": err[-500:], "session": k, "finish": finish}, env={"SHOWN": g}, corrupt=False)
        if not ok:
            run.violations[-1]["shown"] = run.keep(g)
            return
        if k < 3:
            bad = list(shown)
            i = rnd.randrange(len(bad))
            how = rnd.randrange(3)
            if how == 0:
                del bad[i]
            elif how == 1:
                bad[i] += "."
            else:
                bad.insert(i, bad[i])
            write(g + ".false", [{"lines": bad}])
            code, out, _, _ = run.tlc("ReplTrace", env={"TRACE": f, "SHOWN": g + ".false"}, workers=1, heap="2g")
            if code == 0 or '"REJECTED"' not in out:
                raise ToolError("a falsified session was accepted: line %d shown of %s" % (i + 1, f))
            with run.lock:
                run.parts["falsified_answers_rejected"] = run.parts.get("falsified_answers_rejected", 0) + 1

    run.together(*[lambda k=k: session(k) for k in range(sessions + CORES)], width=CORES)
    run.parts["seen"] = counts
