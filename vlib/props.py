"""What decides each property: models checked, tables exported, behaviours
replayed, histories recorded and validated."""
import filecmp, glob, json, os, re, shutil, subprocess, threading
from . import tables
from .core import Run, ToolError, Violation, BUILD, REPO, SPEC, VERIF, CORES

CHECKS = {}


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


def small(run, part, big=True):
    """PokerLib exhaustively in the small: what it allows is what the properties say."""
    return [("PokerLibMC", "PokerLibMC_" + part + run.pick("", "Big" if big else ""), 3)]


# How the library's properties are put together ------------------------------
def library(run, models=(), tables=("Ladder",), gen=(), sweep=None, record=0, histories=(), negative=(), extra=(), more=None, proofs=()):
    """models: (module, cfg); proofs: by TLAPS, thorough runs only; tables: exported by TLC; gen: (profile, batches,
    behaviours, depth); sweep: harness command; record: recorded sessions;
    histories: (kind, how many)."""
    p = run.prop
    files, behaviours, lock = {}, [], threading.Lock()

    def export(t):
        f = run.export(t)
        with lock:
            files[t] = f

    def generate(profile, num, depth, k):
        fs = run.generate(profile, num, depth, seed=run.seed * 1000 + k)
        with lock:
            behaviours.extend(fs)

    jobs = [run.build] + [lambda t=t: export(t) for t in tables]
    for m in models:
        m, cfg, w = (m + (None, 2))[:3] if isinstance(m, tuple) else (m, None, 2)
        jobs.append(lambda m=m, cfg=cfg, w=w: run.model(m, cfg, workers=w))
    for m in run.pick([], proofs):
        jobs.append(lambda m=m: run.prove(m))
    for m, cfg, inv in negative:
        jobs.append(lambda m=m, cfg=cfg, inv=inv: run.model(m, cfg, workers=1, bad=inv))
    for profile, batches, num, depth in gen:
        for k in range(batches):
            jobs.append(lambda profile=profile, num=num, depth=depth, k=k: generate(profile, num, depth, k))
    run.together(*jobs, width=CORES)
    if run.violations:
        return
    if "Parser" in files:
        behaviours.append(files["Parser"])
    args = []
    for t, flag in (("Ladder", "--ladder"), ("CardTable", "--cards"), ("ClassValues", "--classes")):
        if t in files:
            args += [flag, files[t]]
    d = run.path("scratch")
    os.makedirs(d, exist_ok=True)

    # the sweep uses every core; TLC validates beside it
    def do_sweep():
        if sweep:
            run.harness(sweep, *args, "--dir", d)
            if not run.violations:
                run.harness(sweep, *args, "--dir", d, exe=run.plain, name="plain " + sweep, seed=run.seed + 1000)
        if behaviours:
            for exe, name in ((run.pkh, "replay"), (run.plain, "plain replay")):
                run.harness("replay", *args, "--prop", p, "--files", ",".join(behaviours), exe=exe, name=name)
            run.traces += len(behaviours)
        if more:
            more(run, args)

    def do_record(k):
        f = run.path("session-%d.ndjson" % k)
        run.harness("record", *args, "--prop", p, "--n", run.pick(600, 2500), "--stream", k, "--trace", f, exe=(run.pkh, run.plain)[k % 2], name="record")
        run.validate("PokerLibTrace", f, "session %d of the %s profile" % (k, p), corrupt=k == 0)

    def do_history(kind, k):
        f = run.path("history-%s-%d.ndjson" % (kind, k))
        if kind == "concurrent":
            run.harness("concurrent", *args, "--threads", [4, 8, 16, 3, 12][k % 5], "--n", run.pick(120, 500), "--stream", k, "--trace", f, exe=(run.pkh, run.plain)[k % 2], name="concurrent")
        else:
            run.harness("history", *args, "--how", kind, "--n", run.pick(2000, 8000), "--stream", k, "--trace", f, exe=(run.pkh, run.plain)[k % 2], name="history")
        run.validate("HistoryTrace", f, "history %d (%s)" % (k, kind), corrupt=k == 0)

    jobs = [do_sweep] + [lambda k=k: do_record(k) for k in range(record)]
    jobs += [lambda kind=kind, k=k: do_history(kind, k) for kind, n in histories for k in range(n)]
    run.together(*jobs, width=5)


@check("C01")
def c01(run):
    run.exhaustive = True
    library(run, gen=[("eval", run.pick(3, 8), run.pick(12, 60), 80)], sweep="C01", record=run.pick(2, 12))


@check("C02")
def c02(run):
    library(run, gen=[("eval", run.pick(3, 8), run.pick(12, 60), 80)], sweep="C02", record=run.pick(2, 12))


@check("C03")
def c03(run):
    library(run, models=[("BestOfN", run.pick(None, "BestOfNBig"), 4)], proofs=["BestProof"], gen=[("eval", run.pick(3, 8), run.pick(12, 60), 80)], sweep="C03", record=run.pick(2, 12))


@check("C04")
def c04(run):
    def orders(run, args):
        """The same calls in different orders, in processes of their own."""
        for k in range(run.pick(2, 8)):
            ways = ["forward", "backward", "mixed"]
            fs = {w: run.path("answers-%s-%d" % (w, k)) for w in ways}
            run.together(*[lambda w=w: run.harness("answers", *args, "--way", w, "--n", run.pick(150000, 600000), "--stream", k, "--file", fs[w], "--keep", 500,
                                                   "--trace", fs[w] + ".ndjson", name="answers " + w) for w in ways])
            if run.violations:
                return
            said = {w: open(fs[w], encoding="utf-8").read().split("\n") for w in ways}
            for w in ways[1:]:
                bad = [(a, b) for a, b in zip(said["forward"], said[w]) if a != b]
                if bad or len(said[w]) != len(said["forward"]):
                    run.violation({"what": "the answer depends on the calls made before", "calls": "the same, once %s and once %s" % (ways[0], w), "differences": len(bad), "first": bad[0]})
            whole = run.path("orders-%d.ndjson" % k)
            with open(whole, "w", encoding="utf-8") as o:
                for w in ways:
                    o.write(open(fs[w] + ".ndjson", encoding="utf-8").read())
            run.validate("HistoryTrace", whole, "the same calls in three orders, each in its own process", corrupt=False)

    library(run, models=small(run, "evaluations"), sweep="C04", histories=[("plain", run.pick(4, 16))], more=orders)


@check("C05")
def c05(run):
    library(run, gen=[("eval", run.pick(3, 8), run.pick(12, 60), 80)], sweep="C05", record=run.pick(3, 12))


@check("C06")
def c06(run):
    library(run, models=small(run, "evaluations"), gen=[("eval", run.pick(3, 8), run.pick(12, 60), 80)], sweep="C06", record=run.pick(3, 12))


@check("C07")
def c07(run):
    library(run, tables=["Ladder", "ClassValues"], gen=[("eval", 2, run.pick(12, 60), 80)], sweep="C07", record=run.pick(2, 12))


@check("C08")
def c08(run):
    library(run, tables=["Ladder", "ClassValues"], gen=[("eval", 2, run.pick(12, 60), 80)], sweep="C08", record=run.pick(2, 12))


@check("C09")
def c09(run):
    library(run, tables=["CardTable"], gen=[("parse", 2, run.pick(20, 80), 60)], sweep="C09", record=run.pick(2, 8))


@check("C10")
def c10(run):
    library(run, tables=["CardTable", "Parser"], gen=[("parse", 2, run.pick(20, 80), 60)], sweep="C10", record=run.pick(2, 8))


@check("C11")
def c11(run):
    library(run, proofs=["ParserProof"], tables=["CardTable", "Parser"], gen=[("parse", 2, run.pick(20, 80), 60)], sweep="C11", record=run.pick(2, 8))


@check("C12")
def c12(run):
    library(run, models=[("Batch", run.pick(None, "BatchBig"), 2)] + small(run, "batches"), tables=[], proofs=["BatchProof"], gen=[("parse", 3, run.pick(20, 80), 80)], sweep="C12", record=run.pick(3, 10))


@check("C13")
def c13(run):
    library(run, models=small(run, "decks"), tables=["CardTable"], sweep="C13", record=run.pick(4, 16))


@check("C14")
def c14(run):
    library(run, models=[("ShuffleModel", run.pick(None, "ShuffleModelBig"), 1)] + small(run, "shuffles", big=False), tables=[], proofs=["ShuffleProof"], sweep="C14", record=run.pick(2, 8))


@check("C15")
def c15(run):
    library(run, tables=["CardTable"], gen=[("parse", 1, run.pick(20, 80), 60)], sweep="C15", record=run.pick(3, 12))


@check("C16")
def c16(run):
    state = {}

    def forms(run, args):
        cards = args[args.index("--cards") + 1]
        f = run.path("forms.rs")
        code, out = run.proc(["python3", os.path.join(VERIF, "tools/gen_macros.py"), cards, f])
        if code or not filecmp.cmp(f, os.path.join(VERIF, "harness-macros/src/forms.rs"), shallow=False):
            raise ToolError("harness-macros/src/forms.rs is not what the specification's table gives\n" + out)
        fault, out = run.cargo("harness-macros", "macros")
        if fault == "ours":
            run.violation({"what": "a documented form of the construction macros no longer compiles", "compiler": out[-6000:]})
            return
        if fault:
            raise ToolError("the library does not build\n" + out[-3000:])
        res, trace = run.path("macros.json"), run.path("boxes.ndjson")
        cmd = [os.path.join(out, "pkm"), res, str(run.seed), trace]
        code, text = run.proc(cmd, limit=True)
        run.absorb(code, text, res, cmd)
        if not run.violations:
            run.validate("PokerLibTrace", trace, "slices joined by box_cards!", corrupt=False)

    library(run, tables=["CardTable"], gen=[("parse", 2, run.pick(20, 80), 60)], record=run.pick(2, 8), more=forms)


@check("C17")
def c17(run):
    library(run, models=[("Sharing", run.pick(None, "SharingBig"), 3)], proofs=["SharingProof"], negative=[("Sharing", "SharingRacy", "AnswersAreSequential")],
            sweep="C17", histories=[("concurrent", run.pick(5, 20))])


JACKS = [("JacksMC", None, None, 2), ("JacksMC", "JacksMC2", None, 2)]


@check("C18")
def c18(run):
    n = run.pick(900, 4000)
    tables.jacks(run, JACKS, [("long", run.pick(2, 8), n), ("mixed", run.pick(2, 8), n), ("royal", 2, n), ("sf", 2, n), ("odd", run.pick(1, 4), n), ("bad", 1, n)])


@check("C19")
def c19(run):
    n = run.pick(900, 4000)
    tables.jacks(run, JACKS, [("long", run.pick(2, 8), n), ("mixed", run.pick(2, 8), n), ("royal", 2, n), ("sf", 1, n), ("lose", run.pick(2, 8), n), ("odd", 1, n)])


@check("C20")
def c20(run):
    n = run.pick(700, 3000)
    tables.jacks(run, JACKS, [("bad", run.pick(5, 20), n), ("odd", run.pick(3, 8), n), ("lose", run.pick(2, 8), n), ("mixed", 1, n)])


@check("C21")
def c21(run):
    tables.prompt(run, run.pick(10, 60), run.pick(500, 2000))


@check("C22")
def c22(run):
    library(run, models=[("LookupBuild", None, 4)] + small(run, "evaluations"), gen=[("eval", 2, run.pick(12, 60), 80)], sweep="C22", histories=[("clones", run.pick(4, 16))])


@check("C23")
def c23(run):
    library(run, models=[("Showdown", run.pick(None, "ShowdownBig"), 4)] + run.pick([], [("Showdown", "ShowdownBig2", 4)]), gen=[("show", run.pick(4, 8), run.pick(8, 40), 20)], sweep="C23", record=run.pick(2, 10))


@check("C24")
def c24(run):
    """Other feature sets: the same calls, the same answers."""
    files = {}

    def ladder():
        files["Ladder"] = run.export("Ladder")

    run.together(run.build, ladder, lambda: run.model("LookupBuild", workers=4))
    if run.violations:
        return
    lad = files["Ladder"]
    base = run.path("default")
    run.harness("dump", "--file", base, "--ladder", lad, name="dump default")
    builds = [("bare", (), ["evaluator"]), ("static", ("static",), ["static", "evaluator"]), ("static,rand", ("static", "rand"), ["static"]), ("rand", ("rand",), ["evaluator"])]
    compared = 0
    for name, features, bys in builds:
        tgt = "static-" + name.replace(",", "-")
        fault, out = run.cargo("harness-static", "static", features, env={"PKS_LADDER": lad})
        if fault and misfit(out):
            # the layout of the downloaded table is the library's own affair:
            # if it changed, the stand-in for the download follows it
            layout = run.path("layout")
            shutil.rmtree(os.path.join(BUILD, "static-layout"), ignore_errors=True)
            bad, where = run.cargo("harness-table", "table")
            if not bad:
                code, text = run.proc([os.path.join(where, "pkt")])
                open(layout, "w").write(text)
                fault, out = run.cargo("harness-static", "static-layout", features, env={"PKS_LADDER": lad, "PKS_LAYOUT": layout})
            if bad or (fault and misfit(out)):
                run.parts.setdefault("builds_not_comparable", []).append(name)
                print("note: the stand-in for the downloaded table does not fit the library any more; features %r not compared" % name)
                continue
            run.parts.setdefault("builds_with_the_library's_layout", []).append(name)
        if fault:
            run.violation({"what": "the library does not build with these features", "features": name, "compiler": out[-5000:]})
            continue
        exe = run.path("pks-" + tgt)
        shutil.copyfile(os.path.join(out, "pks"), exe)
        os.chmod(exe, 0o755)
        for by in bys:
            f = run.path("%s-%s" % (tgt, by))
            run.harness("dump", "--file", f, "--by", by, "--ladder", lad, exe=exe, name="dump %s %s" % (name, by))
            if not os.path.exists(f + ".lines"):
                continue
            compare(run, base, f, name, by)
            compared += 1
        if name == "static":
            for k in range(run.pick(3, 12)):
                t = run.path("history-static-%d.ndjson" % k)
                run.harness("history", "--n", run.pick(2000, 8000), "--stream", k, "--trace", t, "--ladder", lad, exe=exe, name="history static")
                if os.path.exists(t):
                    run.validate("HistoryTrace", t, "evaluators and the static function, history %d" % k, corrupt=k == 0)
    run.parts["builds_compared"] = compared
    run.exhaustive = True


@check("C25")
def c25(run):
    """What is still held between calls is looked at from inside the process."""
    shares, exe = run.pick(6, 8), {}

    def build(profile):
        fault, out = run.cargo("harness-held", "held-" + profile, profile=profile)
        if fault == "ours":
            run.violation({"what": "programs using the library as documented no longer compile", "compiler": out[-6000:]})
        elif fault:
            raise ToolError("the library does not build\n" + out[-3000:])
        else:
            exe[profile] = os.path.join(out, "pkl")

    def use(k, shares, rounds, profile="release"):
        res, trace, said = run.path("held-%d-%d.json" % (shares, k)), run.path("held-%d-%d.ndjson" % (shares, k)), run.path("held-%d-%d.txt" % (shares, k))
        cmd = ["sh", "-c", 'exec "$@" >"$0" 2>&1', said, exe[profile], res, trace, str(run.seed), str(rounds), str(k), str(shares)]
        code, text = run.proc(cmd, limit=True)
        run.absorb(code, text + open(said, encoding="utf-8", errors="replace").read(), res, cmd)
        if run.violations:
            return
        run.validate("HeldTrace", trace, "what was held between calls (share %d of %d)" % (k, shares), corrupt=False)
        # the binding must bite: something more than the room, or any text, has to be rejected
        if k == 0 and not run.violations:
            lines = open(trace, encoding="utf-8").read().rstrip("\n").split("\n")
            for field, more in (("memory", 70000), ("threads", 1), ("files", 1), ("written", 1)):
                e = json.loads(lines[-1])
                e["out"][field] += more
                f = "%s.%s" % (trace, field)
                open(f, "w", encoding="utf-8").write("\n".join(lines[:-1] + [json.dumps(e)]) + "\n")
                code, out, _, _ = run.tlc("HeldTrace", env={"TRACE": f}, workers=1, heap="2g")
                if code == 0 or '"REJECTED"' not in out:
                    raise ToolError("a falsified look was accepted: %s more by %d" % (field, more))
                with run.lock:
                    run.parts["falsified_answers_rejected"] = run.parts.get("falsified_answers_rejected", 0) + 1

    run.together(lambda: build("release"), lambda: build("checked"), lambda: run.model("HeldMC", run.pick(None, "HeldMCBig"), workers=3), lambda: run.model("HeldMC", "HeldLeaky", workers=1, bad="GivenBack"))
    if not run.violations:
        run.together(*[lambda k=k: use(k, shares, run.pick(4, 60)) for k in range(shares)], lambda: use(0, 1, run.pick(1, 6), "checked"), width=CORES)


# what a program may find around it: the shell that starts it, or its own doing
SHELL = {
    "as it comes": 'exec "$@"',
    "no environment": 'exec env -i "$@"',
    "many variables": 'exec env RUST_BACKTRACE=full RUST_LOG=trace DEBUG=1 CI=1 TEST=1 SEED=1 RAND_SEED=1 POKER=1 POKER_SEED=7 POKER_ACE_LOW=1 POKER_DEBUG=1 HOME=/nonexistent '
                      'TMPDIR=/nonexistent TERM=dumb NO_COLOR=1 CLICOLOR=0 COLUMNS=7 LINES=3 USER=nobody LD_BIND_NOW=1 DETERMINISTIC=1 OMP_NUM_THREADS=1 RAYON_NUM_THREADS=1 "$@"',
    "another language": 'exec env LANG=tr_TR.UTF-8 LC_ALL=tr_TR.UTF-8 LANGUAGE=tr TZ=Pacific/Kiritimati "$@"',
    "the C locale": 'exec env LANG=C LC_ALL=C TZ=UTC "$@"',
    "another directory": 'cd / && exec "$@"',
    "a directory that is gone": 'd=$(mktemp -d) && cd "$d" && rmdir "$d" && exec "$@"',
    "closed streams": 'exec "$@" <&- >&- 2>&-',
    "full and empty streams": 'exec "$@" </dev/null >/dev/full 2>/dev/full',
    "few files": 'ulimit -n 16; exec "$@"',
    "a small stack": 'ulimit -s 256; exec "$@"',
    "one processor": 'taskset -pc "$(taskset -pc $$ | sed "s/.*: *//; s/[-,].*//")" $$ >/dev/null; exec "$@"',
    "the lowest priority": 'exec nice -n 19 "$@"',
    "other arguments": 'exec "$@" --help -v --seed=7 --ace-low debug',
    "addresses as they are": 'setarch -R true 2>/dev/null && exec setarch -R "$@"; exec "$@"',
    "signals ignored": "trap '' PIPE INT TERM HUP USR1; exec \"$@\"",
    "unwinding": 'exec "$@"', "another thread": 'exec "$@"', "another user": 'exec "$@"', "a forked child": 'exec "$@"',
    "later": 'sleep 2; exec "$@"',
}
PEEKS = ["a variable", "all variables", "a program's name", "the directory", "the clock", "the date", "a file", "whether a file exists", "a terminal", "the process", "a network"]


@check("C26")
def c26(run):
    """The same script in many surroundings, watched from inside the process."""
    exe, told, lock = {}, {}, threading.Lock()

    def build(profile):
        fault, out = run.cargo("harness-around", "around-" + profile, profile=profile)
        if fault == "ours":
            run.violation({"what": "programs using the library as documented no longer compile", "compiler": out[-6000:]})
        elif fault:
            raise ToolError("the library does not build\n" + out[-3000:])
        else:
            exe[profile] = os.path.join(out, "pka")

    def program(k, name, shell, profile="release", peek=None):
        tag = "around-%s%d" % ("peek-" if peek else "", k)
        res, trace = run.path(tag + ".json"), run.path(tag + ".ndjson")
        cmd = ["sh", "-c", shell, "sh", exe[profile], res, trace, name, str(run.seed), str(1 if peek else run.pick(12, 200))] + (["--peek=" + peek] if peek else [])
        code, text = run.proc(cmd, limit=True)
        run.absorb(code, text, res, cmd, count=not peek)
        with lock:
            told[tag] = trace
        return trace

    def control(k, what):
        """The binding must bite: a program that looks has to be rejected."""
        trace = program(k, "as it comes", 'exec "$@"', peek=what)
        if run.violations:
            return
        code, out, _, _ = run.tlc("SurroundingsTrace", env={"TRACE": trace}, workers=1, heap="2g")
        if code == 0 or '"REJECTED"' not in out:
            raise ToolError("looking at %s was not noticed" % what)
        with run.lock:
            run.parts["looks_noticed"] = run.parts.get("looks_noticed", 0) + 1

    run.together(lambda: build("release"), lambda: build("checked"), lambda: run.model("SurroundingsMC", run.pick(None, "SurroundingsMCBig")),
                 lambda: run.model("SurroundingsMC", "SurroundingsShown"), lambda: run.model("SurroundingsMC", "SurroundingsPeeking", workers=1, bad="NeverWrong"))
    if run.violations:
        return
    programs = list(SHELL.items())
    run.together(*[lambda k=k, n=n, s=s: program(k, n, s) for k, (n, s) in enumerate(programs)],
                 lambda: program(len(programs), "with the checks of a debug build", 'exec "$@"', "checked"), width=CORES)
    if run.violations:
        return
    trace = run.path("surroundings.ndjson")
    with open(trace, "w", encoding="utf-8") as f:
        for k in range(len(programs) + 1):
            f.write(open(told["around-%d" % k], encoding="utf-8").read())
    run.parts["surroundings"] = len(programs) + 1
    if run.validate("SurroundingsTrace", trace, "the same calls by programs in different surroundings"):
        run.together(*[lambda k=k, w=w: control(k, w) for k, w in enumerate(PEEKS)], width=CORES)


def misfit(out):
    """Is every compiler error about the table put in place of the download?"""
    blocks = re.split(r"\n(?=error(?:\[E\d+\])?: )", out)
    errors = [b for b in blocks if re.match(r"error(\[E\d+\])?: ", b) and not re.match(r"error: (could not compile|aborting)", b)]
    where = [re.search(r"^\s*(?:-->|:::) (\S+?):\d+", e, re.M) for e in errors]
    return bool(errors) and all(w and w.group(1).endswith("codegen.rs") for w in where)


def compare(run, a, b, name, by):
    ha, hb = open(a + ".hands", "rb").read(), open(b + ".hands", "rb").read()
    if ha != hb:
        n = next((i for i in range(0, min(len(ha), len(hb)), 2) if ha[i:i + 2] != hb[i:i + 2]), min(len(ha), len(hb)))
        run.violation({"what": "five-card hands get another strength in another build", "features": name, "by": by, "first_difference": hand_at(n // 2),
                       "default": int.from_bytes(ha[n:n + 2], "little"), "this": int.from_bytes(hb[n:n + 2], "little")})
    la, lb = open(a + ".lines", encoding="utf-8").read().split("\n"), open(b + ".lines", encoding="utf-8").read().split("\n")
    bad = [(x, y) for x, y in zip(la, lb) if x != y]
    if bad or len(la) != len(lb):
        run.violation({"what": "a call answers differently in another build", "features": name, "by": by, "differences": len(bad), "default": bad[0][0] if bad else len(la), "this": bad[0][1] if bad else len(lb)})


def hand_at(n):
    """The n-th five-card hand in the order of the dump."""
    names = [r + s for r in "23456789TJQKA" for s in "chsd"]
    i = 0
    for e in range(4, 52):
        size = e * (e - 1) * (e - 2) * (e - 3) // 24
        if n >= i + size:
            i += size
            continue
        for d in range(3, e):
            for c in range(2, d):
                for b in range(1, c):
                    for a in range(b):
                        if i == n:
                            return [names[x] for x in (a, b, c, d, e)]
                        i += 1
    return n
