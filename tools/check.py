#!/usr/bin/env python3
"""check.py ID [--replay FILE]: one property against the code in /repo.

  scenarios   enumerated by TLC from a generator module of spec/, drawn at
              random by the driver, and the fixed ones of scenarios/
  execution   the driver, built from /repo's working tree, acts them out on
              the real packages and writes down what it saw
  verdict     TLC judges every recorded event with the specification

Exit 0: held.  Exit 1: VIOLATION line.  Anything else: the check failed.
"""
import collections
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import CHECKS, KNOWN  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"
CHUNK = 40000


class Broken(Exception):
    pass


class Run:
    def __init__(self, pid):
        self.pid = pid
        self.check = CHECKS[pid]
        self.start = time.time()
        os.makedirs(os.path.join(HERE, "out", "run"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(HERE, "out", "run"))
        self.tmp = tempfile.mkdtemp(prefix="verif-check-")
        self.counter = 0
        self.states = self.transitions = self.validated = 0
        self.distinct = set()
        self.what = set()
        self.samples = []
        self.known = collections.Counter()
        self.notes = []
        self.extra = collections.Counter()
        self.exhaustive = None
        self.generators = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.rmtree(self.tmp, ignore_errors=True)

    def path(self, name):
        self.counter += 1
        return os.path.join(self.dir, "%d-%s" % (self.counter, name))

    def env(self, **more):
        e = dict(os.environ)
        e.setdefault("HOME", "/root")
        e["TMPDIR"] = self.tmp
        e.update(more)
        return e

    # ------------------------------------------------------------- the driver
    def build(self, race=False):
        p = subprocess.run(["bash", os.path.join(HERE, "tools", "build.sh")] + (["race"] if race else []),
                           capture_output=True, text=True, env=self.env(GOTMPDIR=self.tmp))
        if p.returncode != 0:
            raise Broken("the driver does not build:\n" + p.stdout + p.stderr)
        # a copy of its own, so that parallel checks do not exchange it
        binary = os.path.join(self.dir, "driver-race" if race else "driver")
        shutil.copy2(p.stdout.strip().splitlines()[-1], binary)
        return binary

    def driver(self, binary, args):
        p = subprocess.run([binary] + args, capture_output=True, text=True, env=self.env(), cwd=self.tmp)
        if p.returncode != 0:
            raise Broken("the driver failed (%d) on %s:\n%s" % (p.returncode, " ".join(args), (p.stdout + p.stderr)[-4000:]))
        return p.stdout

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, lines, env=None):
        """Runs TLC, feeding its output to lines(); returns its exit code."""
        meta = self.path("meta")
        cfgfile = self.path(module + ".cfg")
        with open(cfgfile, "w") as f:
            f.write(cfg)
        cmd = ["tlc", "-workers", "8", "-metadir", meta, "-noGenerateSpecTE", "-config", cfgfile, module + ".tla"]
        p = subprocess.Popen(cmd, cwd=os.path.join(HERE, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             text=True, env=self.env(**(env or {})))
        tail = collections.deque(maxlen=60)
        for line in p.stdout:
            if not lines(line):
                tail.append(line)
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                self.transitions += int(m.group(1))
                self.states += int(m.group(2))
        code = p.wait()
        shutil.rmtree(meta, ignore_errors=True)
        return code, "".join(tail)

    def enumerate(self, gen):
        """Scenarios printed by a generator module."""
        cap = gen["cap"][TIER == "thorough"] if "cap" in gen else None
        rng = random.Random("%s %s" % (SEED, gen))
        kept, seen = [], 0

        def take(line):
            nonlocal seen
            if not line.startswith('"JSON '):
                return False
            seen += 1
            if cap is None or len(kept) < cap:
                kept.append(line)
            else:
                i = rng.randrange(seen)
                if i < cap:
                    kept[i] = line
            return True
        consts = dict(gen["const"])
        if TIER == "thorough":
            consts.update(gen.get("thorough", {}))
        cfg = "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
        for k, v in consts.items():
            cfg += "  %s = %s\n" % (k, json.dumps(v) if isinstance(v, str) and not v.startswith("{") else
                                    ("TRUE" if v is True else "FALSE" if v is False else v))
        for inv in gen.get("invariants", []):
            cfg += "INVARIANT %s\n" % inv
        code, tail = self.tlc(gen["module"], cfg, take)
        if code != 0:
            raise Broken("TLC failed on %s (%d):\n%s" % (gen["module"], code, tail))
        if seen == 0:
            raise Broken("%s produced nothing" % gen["module"])
        self.exhaustive = (self.exhaustive is not False) and seen == len(kept)
        self.extra["enumerable"] += seen
        self.extra["enumerated"] += len(kept)
        self.generators.append({"module": gen["module"], "constants": consts, "produced": seen, "run": len(kept)})
        return sorted(json.loads(x)[5:] for x in kept)

    def model(self, m):
        """A model without the code: invariants and temporal properties."""
        consts = dict(m["const"])
        if TIER == "thorough":
            consts.update(m.get("thorough", {}))
        cfg = "SPECIFICATION Spec\n" + "".join("INVARIANT %s\n" % i for i in m.get("invariants", [])) + \
            "".join("PROPERTY %s\n" % i for i in m.get("properties", [])) + \
            "".join("CONSTANT %s = %s\n" % (k, json.dumps(v) if isinstance(v, str) and not v.startswith("{") else
                                            ("TRUE" if v is True else "FALSE" if v is False else v)) for k, v in consts.items())
        if m.get("deadlock") is False:
            cfg += "CHECK_DEADLOCK FALSE\n"
        before = self.states
        code, tail = self.tlc(m["module"], cfg, lambda line: False)
        if code != 0:
            raise Broken("TLC failed on %s (%d):\n%s" % (m["module"], code, tail))
        self.extra["model_states"] += self.states - before

    def scenarios(self, part, binary):
        ret = []
        for name in part.get("fixed", []):
            with open(os.path.join(HERE, "scenarios", name)) as f:
                ret += [x.strip() for x in f if x.strip()]
        for gen in part.get("enumerate", []):
            ret += self.enumerate(gen)
        for name, quick, thorough in part.get("random", []):
            out = self.path(name)
            n = thorough if TIER == "thorough" else quick
            self.driver(binary, ["gen", "-mode", name, "-seed", str(SEED), "-n", str(n), "-out", out])
            with open(out) as f:
                lines = [x.strip() for x in f if x.strip()]
            os.remove(out)
            self.extra["random"] += len(lines)
            ret += lines
        return ret

    def execute(self, part, binary, lines, par=None):
        src, out = self.path("scenarios"), self.path("events")
        with open(src, "w") as f:
            f.write("\n".join(lines) + "\n")
        self.driver(binary, ["run", "-mode", part["engine"], "-opts", part.get("opts", ""), "-in", src, "-out", out,
                             "-par", str(par or part.get("par", 8)), "-limit", part.get("limit", "60s")])
        os.remove(src)
        return out

    def judge(self, part, events):
        """Verdicts other than ok, by event number."""
        verdicts = {}

        def take(line):
            m = re.match(r'<<"VERDICT", (\d+), "([^"]*)">>', line)
            if m:
                verdicts[int(m.group(1))] = m.group(2)
            return bool(m)
        cfg = "SPECIFICATION Spec\nINVARIANT NothingBad\nCHECK_DEADLOCK FALSE\n"
        for k, v in dict({"Chains": 16}, **part.get("const", {})).items():
            cfg += "CONSTANT %s = %s\n" % (k, v)
        code, tail = self.tlc(part["trace"], cfg, take, {"EVENTS": events, "PROP": part.get("prop", self.pid)})
        bad = [i for i, v in verdicts.items() if v in ("bad", "crash")]
        if code != 0 and not bad:
            raise Broken("TLC failed on %s (%d):\n%s" % (part["trace"], code, tail))
        if code == 0 and bad:
            raise Broken("TLC accepted bad verdicts")
        return verdicts

    # ------------------------------------------------------------ one part
    def part(self, number, part):
        binary = self.build(part.get("race", False))
        lines = self.scenarios(part, binary)
        for at in range(0, len(lines), CHUNK):
            chunk = lines[at:at + CHUNK]
            events = self.execute(part, binary, chunk)
            verdicts = self.judge(part, events)
            with open(events) as f:
                recorded = f.readlines()
            self.account(part, chunk, recorded)
            bad = [i for i in sorted(verdicts) if verdicts[i] in ("bad", "crash")]
            for i in bad[:6]:
                if self.confirm(number, part, binary, chunk[i - 1]):
                    return False
            if bad and self.confirm_among(number, part, binary, chunk):
                return False
            if bad:
                raise Broken("event %d was judged %s, but again it is not:\n%s" % (bad[0], verdicts[bad[0]], recorded[bad[0] - 1][:3000]))
            if len(recorded) < len(chunk):
                raise Broken("the driver left out scenarios")
            for v in verdicts.values():
                self.known[v] += 1
            os.remove(events)
        return True

    def account(self, part, chunk, recorded):
        self.validated += len(recorded)
        for line in recorded:
            e = json.loads(line)
            key = json.dumps(e["in"], sort_keys=True) if not isinstance(e["in"], dict) else \
                json.dumps({k: v for k, v in e["in"].items() if k != "tag"}, sort_keys=True)
            self.distinct.add(hashlib.md5(key.encode()).digest())
            if isinstance(e["out"], dict) and "what" in e["out"]:
                self.what.add(e["out"]["what"])
            for k, v in (e["out"].get("count") or {}).items() if isinstance(e["out"], dict) else ():
                self.extra[k] += v
        if len(self.samples) < 4:
            e = json.loads(recorded[len(recorded) // 2])
            text = json.dumps({"in": e["in"], "out": e["out"]})
            self.samples.append(json.loads(text) if len(text) < 6000 else {"beginning": text[:6000]})

    def confirm(self, number, part, binary, scenario):
        """A violation must show again when its scenario is played alone."""
        for attempt in range(part.get("attempts", 3)):
            events = self.execute(part, binary, [scenario] * part.get("again", 1), par=1)
            again = self.judge(part, events)
            hit = [i for i in again if again[i] in ("bad", "crash")]
            if hit:
                with open(events) as f:
                    self.report(number, scenario, f.readlines()[hit[0] - 1], again[hit[0]])
                return True
        return False

    def confirm_among(self, number, part, binary, chunk):
        """... or, when it depends on the timing, when all scenarios are played again."""
        events = self.execute(part, binary, chunk)
        again = self.judge(part, events)
        hit = sorted(i for i in again if again[i] in ("bad", "crash"))
        if hit:
            with open(events) as f:
                self.report(number, chunk[hit[0] - 1], f.readlines()[hit[0] - 1], again[hit[0]])
        return bool(hit)

    def report(self, number, scenario, shown, verdict):
        os.makedirs(os.path.join(HERE, "out", "replay"), exist_ok=True)
        name = "%s-%s.json" % (self.pid, hashlib.md5(scenario.encode()).hexdigest()[:12])
        replay = os.path.join(HERE, "out", "replay", name)
        with open(replay, "w") as f:
            json.dump({"property": self.pid, "part": number, "seed": SEED, "verdict": verdict,
                       "scenario": json.loads(scenario), "event": json.loads(shown)}, f, indent=1)
        print("verdict %s on scenario %s" % (verdict, scenario[:1500]))
        try:
            e = json.loads(shown)
            print("observed: %s %s" % (json.dumps(e["out"])[:1500], e.get("msg", "")[:1500]))
        except (ValueError, KeyError):
            pass
        print("VIOLATION property=%s replay=%s" % (self.pid, replay))

    # -------------------------------------------------------------- evidence
    def evidence(self, violations):
        level = self.check.get("level", "model_checking")
        cov = {"samples": self.samples}
        if level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated)
        else:
            cov.update(evaluations=self.validated, distinct_nontrivial=len(self.what - {""}) if self.what else len(self.distinct), rule=self.check["rule"],
                       states=self.states)
        cov["distinct_scenarios"] = len(self.distinct)
        for k, v in self.extra.items():
            cov[k] = v
        if self.generators:
            cov["generators"] = self.generators
        if self.known:
            cov["known_findings_seen"] = dict(self.known)
        if self.exhaustive is not None and not self.extra.get("random"):
            cov["exhaustive"] = self.exhaustive
        e = {"property": self.pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
             "assumptions": self.check.get("assumptions", []), "wall_s": round(time.time() - self.start, 2),
             "violations": violations}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        out = os.path.join(HERE, "evidence", self.pid + ".json")
        with open(out + ".tmp", "w") as f:
            json.dump(e, f, indent=1)
        os.replace(out + ".tmp", out)

    def main(self):
        for m in self.check.get("models", []):
            self.model(m)
        for number, part in enumerate(self.check["parts"]):
            if part.get("tier", TIER) != TIER:
                continue
            if not self.part(number, part):
                self.evidence(1)
                return 1
        for v in sorted(self.known):
            print("KNOWN-FINDING: property=%s %s (%d times)" % (self.pid, KNOWN[v], self.known[v]))
        self.evidence(0)
        print("%s held: %d events judged, %d distinct scenarios, %.1f s" %
              (self.pid, self.validated, len(self.distinct), time.time() - self.start))
        return 0

    def replay(self, path):
        with open(path) as f:
            r = json.load(f)
        part = self.check["parts"][r["part"]]
        binary = self.build(part.get("race", False))
        line = json.dumps(r["scenario"])
        if self.confirm(r["part"], part, binary, line):
            return 1
        print("not reproduced")
        return 0


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py ID [--replay FILE]; IDs: " + " ".join(sorted(CHECKS)))
        return 2
    run = Run(sys.argv[1])
    try:
        if len(sys.argv) == 4 and sys.argv[2] == "--replay":
            return run.replay(sys.argv[3])
        return run.main()
    except Broken as e:
        print("CHECK ERROR: %s" % e)
        return 2
    finally:
        run.close()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:  # never mistaken for a violation
        import traceback
        traceback.print_exc()
        print("CHECK ERROR: %r" % e)
        sys.exit(2)
