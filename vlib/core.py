"""Running TLC, cargo and the harness; evidence and verdicts."""
import concurrent.futures as cf, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
TLA = "/opt/veriftools/tla"
CP = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class ToolError(Exception):
    """The check itself failed: exit 2."""


class Violation(Exception):
    """Stop early: what there is, is reported."""


def limits():
    # a runaway call ends as an allocation failure, not as a dead machine
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Run:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.thorough = self.tier == "thorough"
        self.level = level
        self.start = time.time()
        self.work = os.path.join(BUILD, "work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.samples, self.violations, self.models, self.parts = [], [], [], {}
        self.exhaustive = None
        self.lock = threading.Lock()
        self.timings = {}

    def path(self, *p):
        return os.path.join(self.work, *p)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- processes ---------------------------------------------------------
    def proc(self, cmd, env=None, cwd=None, timeout=700, limit=False, stdin=None):
        e = dict(os.environ)
        e.update({"JAVA_TOOL_OPTIONS": "-Dfile.encoding=UTF-8", "LC_ALL": "C.UTF-8"})
        e.update(env or {})
        p = subprocess.Popen(cmd, cwd=cwd or VERIF, env=e, stdin=stdin or subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, preexec_fn=limits if limit else None, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            raise ToolError("timed out after %d s: %s" % (timeout, " ".join(cmd[:8])))
        return p.returncode, out.decode("utf-8", "replace")

    # -- TLC ----------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=2, args=(), heap="3g", timeout=700):
        meta = self.path("tlc-%s-%d" % (module, time.monotonic_ns()))
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
               "-metadir", meta, "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
        code, out = self.proc(cmd, env=env, cwd=SPEC, timeout=timeout)
        shutil.rmtree(meta, ignore_errors=True)
        gen = states = 0
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            gen, states = int(m.group(1)), int(m.group(2))
        m = re.search(r"The number of states generated: (\d+)", out)
        if m and not states:
            gen = states = int(m.group(1))
        return code, out, states, max(gen - 1, 0)

    def model(self, module, cfg=None, env=None, workers=2, bad=None, args=(), timeout=700):
        """Check a model.  `bad`: a negative control, the invariant that must fail."""
        t = time.time()
        code, out, states, gen = self.tlc(module, cfg, env, workers, args, timeout=timeout)
        name = cfg or module
        if bad:
            if code == 0 or ("Invariant %s is violated" % bad) not in out:
                raise ToolError("the negative control %s did not fail as it must\n%s" % (name, out[-2000:]))
        elif code != 0 or "No error has been found" not in out:
            raise ToolError("TLC refuses the specification %s (exit %d)\n%s" % (name, code, out[-3000:]))
        with self.lock:
            self.states += states
            self.transitions += gen
            self.models.append({"model": name, "states": states, "transitions": gen, "seconds": round(time.time() - t, 1),
                                **({"negative_control": bad} if bad else {})})

    def prove(self, module):
        """A machine-checked proof (TLAPS) about the specification, for any size."""
        t, d = time.time(), self.path("proof-" + module)
        shutil.copytree(os.path.join(SPEC, "proofs"), d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        code, out = self.proc(["tlapm", "--threads", "4", "--stretch", "5", module + ".tla"], cwd=d)
        m = re.search(r"All (\d+) obligations proved", out)
        if code or not m:
            raise ToolError("TLAPS does not prove %s (exit %d)\n%s" % (module, code, out[-3000:]))
        with self.lock:
            self.parts.setdefault("proofs", []).append({"module": module, "obligations": int(m.group(1)), "discharged": int(m.group(1)), "checker_cmd": "tlapm " + module + ".tla", "seconds": round(time.time() - t, 1)})

    def export(self, module, env=None):
        """A model whose postcondition writes a table."""
        f = self.path(module + ".ndjson")
        self.model(module, env=dict(env or {}, OUT=f), workers=2)
        if not os.path.exists(f):
            raise ToolError("%s exported nothing" % module)
        return f

    def generate(self, profile, num, depth, seed=None, module="PokerLibGen"):
        """Behaviours of the specification, one file each."""
        d = self.path("gen-%s-%d" % (profile, seed or self.seed))
        os.makedirs(d, exist_ok=True)
        code, out, states, gen = self.tlc(module, env={"DEPTH": str(depth), "PROFILE": profile, "OUT": os.path.join(d, "b")}, workers=1,
                                          args=["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(seed or self.seed)])
        files = sorted(os.path.join(d, f) for f in os.listdir(d))
        if code != 0 or not files:
            raise ToolError("TLC generated no behaviours (exit %d)\n%s" % (code, out[-2000:]))
        with self.lock:
            self.states += states
            self.transitions += gen
        return files

    def validate(self, module, trace, what, env=None, corrupt=True):
        """Does the specification allow what the code was seen to do?"""
        code, out, states, gen = self.tlc(module, env=dict(env or {}, TRACE=trace), workers=1, heap="2g")
        with self.lock:
            self.states += states
            self.transitions += gen
        m = re.search(r'<<"REJECTED", (\d+), "(.*)">>', out)
        if m:
            keep = self.keep(trace)
            ev = m.group(2).replace('\\"', '"').replace("\\\\", "\\")
            self.violation({"what": "TLC rejects what the code did: no behaviour of %s explains it" % module, "trace": keep,
                            "event_number": int(m.group(1)), "event": ev, "recorded": what})
            return False
        iv = re.search(r"Invariant (\w+) is violated", out)
        if iv:
            self.violation({"what": "an invariant of %s fails on a recorded behaviour" % module, "invariant": iv.group(1), "trace": self.keep(trace), "recorded": what})
            return False
        if code != 0 or "No error has been found" not in out:
            raise ToolError("TLC could not validate %s (exit %d)\n%s" % (trace, code, out[-3000:]))
        with self.lock:
            self.traces += 1
        if corrupt:
            self.corrupted(module, trace, env)
        return True

    def corrupted(self, module, trace, env=None):
        """The binding must bite: one falsified answer has to be rejected."""
        import random
        rnd = random.Random(self.seed)
        lines = open(trace, encoding="utf-8").read().split("\n")
        cand = [i for i, l in enumerate(lines) if '"out":{' in l and '"op":"hint"' not in l and '"op":"dhint"' not in l and leaf_paths(json.loads(l)["out"])]
        if not cand:
            raise ToolError("nothing observed in " + trace)
        if module == "HistoryTrace":
            cand = answered_twice(lines)
        i = rnd.choice(cand)
        e = json.loads(lines[i])
        before = json.dumps(e["out"])
        falsify(e["out"], rnd)
        lines[i] = json.dumps(e, ensure_ascii=False)
        f = trace + ".false"
        # nothing after the falsified answer is needed
        open(f, "w", encoding="utf-8").write("\n".join(lines[:i + 1]) + "\n")
        code, out, _, _ = self.tlc(module, env=dict(env or {}, TRACE=f), workers=1, heap="2g")
        if code == 0 or not re.search(r'"REJECTED"|Invariant \w+ is violated', out):
            raise ToolError("a falsified answer was accepted: event %d of %s, %s became %s" % (i + 1, trace, before, json.dumps(e["out"])))
        with self.lock:
            self.parts["falsified_answers_rejected"] = self.parts.get("falsified_answers_rejected", 0) + 1

    # -- cargo ---------------------------------------------------------------
    def cargo(self, crate, target, features=(), env=None, profile="release", args=()):
        """Build a crate of ours against the working tree of /repo."""
        t = time.time()
        cmd = ["cargo", "build", "--profile", profile, "--offline", "--locked", "--quiet"] + list(args)
        if features:
            cmd += ["--features", ",".join(features)]
        e = {"CARGO_TARGET_DIR": os.path.join(BUILD, target), "CARGO_NET_OFFLINE": "true", "RUSTUP_TOOLCHAIN": "stable", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "CARGO_INCREMENTAL": "0"}
        e.update(env or {})
        code, out = self.proc(cmd, env=e, cwd=os.path.join(VERIF, crate))
        with self.lock:
            self.timings["cargo " + target] = round(time.time() - t, 1)
        if code != 0:
            if re.search(r"could not compile `poker` \(lib\)", out) or not re.search(r"error(\[E\d+\])?: ", out):
                return "poker", out
            if re.search(r"could not compile `pk[ahlms]`", out):
                return "ours", out
            return "poker", out
        return None, os.path.join(BUILD, target, profile)

    def build(self):
        """The harness, with the checks of a debug build and without."""
        built = self.together(lambda: self.cargo("harness", "harness"), lambda: self.cargo("harness", "harness-plain", profile="plain"))
        fault, out = built[0] if built[0][0] else built[1]
        if fault == "poker":
            raise ToolError("the library does not build\n" + out[-4000:])
        if fault:
            self.violation({"what": "programs using the library as documented no longer compile", "compiler": out[-6000:]})
            raise Violation()
        self.pkh, self.plain = [os.path.join(b[1], "pkh") for b in built]

    # -- harness ---------------------------------------------------------------
    def harness(self, *args, exe=None, name=None, env=None, timeout=700, count=True, seed=None):
        out = self.path("result-%s-%d.json" % (name or args[0], time.monotonic_ns()))
        t = time.time()
        cmd = [exe or self.pkh] + [str(a) for a in args] + ["--out", out, "--seed", str(seed or self.seed), "--tier", self.tier]
        code, text = self.proc(cmd, env=env, timeout=timeout, limit=True)
        with self.lock:
            self.timings[name or args[0]] = round(time.time() - t, 1)
        return self.absorb(code, text, out, cmd, count)

    def absorb(self, code, text, out, cmd, count=True):
        rerun = " ".join(cmd)
        if code < 0 and -code in (signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGFPE, signal.SIGBUS, signal.SIGTRAP):
            self.violation({"what": "the process running the library died", "signal": signal.Signals(-code).name, "output": text[-2000:], "command": rerun})
            return {}
        if code not in (0, 1) or not os.path.exists(out):
            raise ToolError("the harness failed (exit %d): %s\n%s" % (code, rerun, text[-3000:]))
        r = json.load(open(out, encoding="utf-8"))
        with self.lock:
            if count:
                self.evaluations += r["evaluations"]
            self.samples += r["samples"]
            for k, v in r["notes"].items():
                if isinstance(v, int) and isinstance(self.parts.get(k), int):
                    self.parts[k] += v
                else:
                    self.parts[k] = v
        for v in r["violations"]:
            self.violation(dict(v, command=rerun))
        if code == 1 and not r["violations"]:
            raise ToolError("the harness reports a violation it does not describe: " + rerun)
        return r

    # -- verdict ---------------------------------------------------------------
    def keep(self, f):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        to = os.path.join(d, "%s-%s" % (self.prop, os.path.basename(f)))
        shutil.copyfile(f, to)
        return os.path.relpath(to, VERIF)

    def violation(self, v):
        with self.lock:
            self.violations.append(v)

    def together(self, *jobs, width=None):
        """Run jobs at the same time; the first tool error ends the check."""
        with cf.ThreadPoolExecutor(width or max(1, len(jobs))) as ex:
            fs = [ex.submit(j) for j in jobs]
            err = None
            res = []
            for f in fs:
                try:
                    res.append(f.result())
                except Violation:
                    res.append(None)
                except Exception as e:  # noqa
                    err = err or e
            if err:
                # an observed violation outweighs a tool that stumbled over it
                if isinstance(err, ToolError) and self.violations:
                    print("note: " + str(err)[:500], file=sys.stderr)
                else:
                    raise err
            return res

    def known(self):
        f = os.path.join(VERIF, "known-findings.txt")
        r = []
        for l in open(f, encoding="utf-8") if os.path.exists(f) else []:
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == self.prop:
                r.append((m.group(2), m.group(3).strip()))
        return r

    def finish(self):
        known = self.known()
        open_ = []
        for v in self.violations:
            text = json.dumps(v, ensure_ascii=False)
            if not any(re.search(m, text) for m, _ in known):
                open_.append(v)
        for m, d in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, d))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:12], "evaluations": self.evaluations, "models": self.models, "details": self.parts, "seconds": self.timings}
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": getattr(self, "assumptions", []), "wall_s": round(time.time() - self.start, 2), "violations": len(open_)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        shutil.rmtree(self.work, ignore_errors=True)
        if open_:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, "%s-%d.json" % (self.prop, self.seed))
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "violations": open_[:50]}, open(f, "w", encoding="utf-8"), indent=1, ensure_ascii=False)
            for v in open_[:3]:
                print("  " + json.dumps(v, ensure_ascii=False)[:900])
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(f, VERIF)))
            return 1
        print("%s holds on everything explored: %d states, %d transitions, %d traces, %d evaluations, %.1f s"
              % (self.prop, self.states, self.transitions, self.traces, self.evaluations, time.time() - self.start))
        return 0


def answered_twice(lines):
    """Finish events of a history whose input was answered before."""
    open_, seen, r = {}, set(), []
    for i, l in enumerate(lines):
        e = json.loads(l) if l else {"k": ""}
        if e["k"] == "start":
            open_.setdefault(e["th"], []).append(tuple(e["cards"]))
        elif e["k"] == "abandon":
            open_[e["th"]].pop()
        elif e["k"] == "finish":
            k = open_[e["th"]].pop()
            if e["out"].get("t") == "ok":
                k = tuple(sorted(k))
            if k in seen:
                r.append(i)
            seen.add(k)
    return r


def leaf_paths(o, at=()):
    r = []
    items = o.items() if isinstance(o, dict) else enumerate(o) if isinstance(o, list) else []
    for k, v in items:
        if k in ("msg", "class", "r1", "r2", "eval"):
            continue
        if isinstance(v, (dict, list)):
            r += leaf_paths(v, at + (k,))
        else:
            r.append(at + (k,))
    return r


def falsify(o, rnd, path=None):
    p = path or rnd.choice(leaf_paths(o))
    for k in p[:-1]:
        o = o[k]
    v = o[p[-1]]
    if isinstance(v, bool):
        o[p[-1]] = not v
    elif isinstance(v, int):
        o[p[-1]] = v + 1
    elif v in ("lt", "gt", "eq"):
        o[p[-1]] = {"lt": "gt", "gt": "eq", "eq": "lt"}[v]
    else:
        o[p[-1]] = str(v) + "x"
    return p
