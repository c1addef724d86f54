"""Shared machinery: running TLC, judging recorded behaviour, evidence, verdicts.

A driver makes cases from what the real code does and hands them to `Check.judge`; only TLC decides.
"""
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


def exc(e):
    """An exception as an observation."""
    return "!" + type(e).__name__


def call(f, *args, seconds=20, **kw):
    """Run f; returns (True, value) or (False, exception name).  Hangs count as the exception "!Hang"."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return True, f(*args, **kw)
    except CaseTimeout:
        return False, "!Hang"
    except (Exception, SystemExit, GeneratorExit) as e:
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        return False, exc(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{prop}-{self.seed}-{self.tier}")
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.parts = {}
        self.assumptions = []
        self.failures = []          # (part, case, text)
        self.known_hit = {}
        self.known = self._load_known()

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def _load_known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line and not line.startswith("#") and not line.startswith("fixed:"):
                    r = json.loads(line)
                    if r.get("property") == self.prop:
                        out.append(r)
        return out

    # -- TLC -------------------------------------------------------------------------------------------------

    def tlc(self, module, cfg, env=None, workers=8, timeout=800, extra=(), heap="8g"):
        """Run TLC on spec/<module>.tla with the configuration text cfg.  Returns its output."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cfgp = os.path.join(d, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={d}",
               "-cp", TLC_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-seed", str(self.seed), "-config", cfgp, *extra,
               os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        out = r.stdout.decode("utf-8", "replace")
        shutil.rmtree(d, ignore_errors=True)
        m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", out)
        self.last_states = (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)
        return out

    @staticmethod
    def _error(out):
        """Text of TLC's error, or None."""
        if "Error:" not in out and "Model checking completed. No error" in out:
            return None
        i = out.find("Error:")
        return out[i:i + 3000] if i >= 0 else out[-3000:]

    def judge(self, module, cases, part=None, chunks=64, timeout=800, workers=8, heap="8g", sample=2,
              env=None):
        """Let TLC judge every case with operator Verdict of spec/<module>.tla (see Judge boilerplate there).

        A case is a dict; the driver's reserved keys are "id" (text naming the case) and "trace": its length in
        recorded events when the case is an execution."""
        part = part or module
        if not cases:
            raise MachineryError(f"{part}: no cases")
        todo = list(range(len(cases)))
        bad = {}
        rounds = 0
        p = os.path.join(self.work, f"{part}.ndjson")
        while todo:
            rounds += 1
            with open(p, "w") as f:
                for k in todo:
                    f.write(json.dumps({x: y for x, y in cases[k].items() if not x.startswith("_")},
                                       separators=(",", ":")) + "\n")
            out = self.tlc(module, "INIT JInit\nNEXT JNext\nINVARIANT JInv\nCONSTANT Verdict <- CaseVerdict\nCHECK_DEADLOCK FALSE\n",
                           env={"CASES": p, **(env or {})}, workers=workers, timeout=timeout, heap=heap)
            for m in re.finditer(r'^"FAIL (\d+) (.*)"$', out, re.M):
                bad[todo[int(m.group(1)) - 1]] = m.group(2).replace('\\"', '"')
            err = self._error(out)
            if err is None:
                self.states += self.last_states[0]
                self.transitions += self.last_states[1]
                break
            # evaluation failed on some case: the observation lies outside what the specification can even express
            i = re.findall(r"/\\ ji = (\d+)", out)
            i = [int(x) for x in i if int(x) > 0]
            if not i or "Parsing or semantic analysis failed" in out \
                    or "OutOfMemory" in out or "StackOverflow" in out:
                if bad:
                    break                       # what was rejected stands; the rest was not judged
                raise MachineryError(f"{part}: TLC failed:\n{err}")
            if rounds > 4:
                break
            k = todo[i[-1] - 1]
            m = re.search(r"(Attempted to .*|In evaluation.*|The argument .*|.*out of range.*|.*argument of.*)", err)
            bad[k] = "{\"outside-specification-domain\"} " + (m.group(1)[:300] if m else err[:300])
            if os.environ.get("VERIF_DEBUG"):
                print(err)
            todo = [x for x in todo if x != k and x not in bad]
        os.unlink(p)
        self.traces += len(cases)
        d = self.parts.setdefault(part, {"cases": 0, "events": 0, "rejected": 0})
        d["cases"] += len(cases)
        d["events"] += sum(c.get("trace", 1) if isinstance(c.get("trace", 1), int) else 1 for c in cases)
        d["rejected"] += len(bad)
        for c in cases[:sample]:
            t = json.dumps({x: y for x, y in c.items() if not x.startswith("_")})
            self.samples.append({"part": part, "case": t[:1500]})
        for k in sorted(bad):
            self._fail(part, module, cases[k], bad[k])
        return {k: bad[k] for k in bad}

    def model(self, module, cfg, part=None, timeout=800, workers=8, extra=(), env=None, must=()):
        """Exhaustively check a model; a design error here is a machinery error.  Returns TLC's output."""
        part = part or module
        out = self.tlc(module, cfg, workers=workers, timeout=timeout, extra=extra, env=env)
        err = self._error(out)
        if err is not None:
            raise MachineryError(f"model {part}: {err}")
        self.states += self.last_states[0]
        self.transitions += self.last_states[1]
        self.parts["model:" + part] = {"states": self.last_states[0], "transitions": self.last_states[1]}
        return out

    def refuted(self, module, cfg, part):
        """The model without what makes it correct: TLC must find a counterexample."""
        out = self.tlc(module, cfg)
        if not re.search(r"Invariant \w+ is violated|Temporal properties were violated|Deadlock reached", out):
            raise MachineryError(f"model {part}: no counterexample found")
        self.parts["model:" + part] = {"counterexample": True}

    def behaviours(self, module, cfg, part=None, **kw):
        """Lines printed by the model as PrintT("BEH " \\o ToJson(..)): behaviours to replay in the real code."""
        out = self.model(module, cfg, part, **kw)
        res = []
        for m in re.finditer(r'^"BEH (.*)"$', out, re.M):
            res.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
        res.sort(key=lambda x: json.dumps(x, sort_keys=True))
        self.parts["model:" + (part or module)]["behaviours"] = len(res)
        if not res:
            raise MachineryError(f"{module}: no behaviours")
        return res

    # -- verdicts ----------------------------------------------------------------------------------------------

    def _fail(self, part, module, case, text):
        for k in self.known:
            if k.get("part") in (None, part) and re.search(k["id_re"], str(case.get("id", ""))) \
                    and re.search(k["clause_re"], text):
                self.known_hit.setdefault(k["what"], 0)
                self.known_hit[k["what"]] += 1
                return
        self.failures.append((part, module, case, text))

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:12], "parts": self.parts},
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.failures)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for w in self.known_hit:
            print(f"KNOWN-FINDING: property={self.prop} {w}")
        shutil.rmtree(self.work, ignore_errors=True)
        if not self.failures:
            print(f"OK property={self.prop} cases={self.traces} states={self.states} wall={wall:.1f}s")
            return 0
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        first = None
        seen = set()
        n = 0
        for part, module, case, text in self.failures:
            os.environ.get("VERIF_LIST") and print("  -", case.get("id"))
            key = (part, re.sub(r"\d+", "", text)[:60])
            if key in seen or n >= 8:
                continue
            seen.add(key)
            path = os.path.join(rd, f"{self.prop}-{n}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "part": part, "module": module, "verdict": text,
                           "seed": self.seed, "tier": self.tier, "case": case}, f, indent=1, default=str)
            print(f"  {part} [{case.get('id')}]: " + re.sub(r'[\\\\"]+', "", text)[:300])
            first = first or path
            n += 1
        print(f"{len(self.failures)} failing case(s)")
        print(f"VIOLATION property={self.prop} replay={first}")
        return 1


def crashed(prop, sig, text):
    """The verdict on a check whose interpreter the code under test brought down."""
    c = Check(prop)
    frame = next((x.strip() for x in text.splitlines() if "mediagrains" in x), "")
    c._fail("harness", None, {"id": "crash", "trace": text.splitlines()[:40]}, f"signal {sig} in {frame}")
    return c.finish()


def main(prop, run):
    c = Check(prop)
    try:
        run(c)
        rc = c.finish()
    except MachineryError as e:
        print("MACHINERY ERROR:", e)
        rc = 3 if not c.failures else c.finish()
    except Exception as e:
        traceback.print_exc()
        # raised by the code under test where it returned a value before: the harness asks only for documented things
        last = traceback.extract_tb(e.__traceback__)[-1]
        if not c.failures and os.path.join(os.environ.get("VERIF_REPO", "/repo"), "mediagrains") in last.filename:
            c._fail("harness", None, {"id": "exception"}, f"{type(e).__name__} from {os.path.basename(last.filename)}")
        rc = 3 if not c.failures else c.finish()
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)
