#!/usr/bin/env python3
"""The check of one property: builds the harness from /repo's working tree, generates
scripts, records the executions of the real code and has TLC decide whether each of
them is a behaviour of the specification. See DESIGN.md."""
import fcntl
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ProcessPoolExecutor

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
sys.path.insert(0, LIB)
import campaigns  # noqa: E402
import gen  # noqa: E402

BUILD = os.path.join(VERIF, "build")
DRV = os.path.join(BUILD, "drv")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 8)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class CannotDecide(Exception):
    pass


# ------------------------------------------------------------------------ build
def build():
    os.makedirs(DRV, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for attempt in (1, 2):
            ok = True
            if not os.path.exists(os.path.join(DRV, "build.ninja")):
                p = subprocess.run(["cmake", "-S", os.path.join(VERIF, "harness"), "-B", DRV, "-G", "Ninja",
                                    "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "--no-warn-unused-cli"],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                ok = p.returncode == 0
            if ok:
                p = subprocess.run(["ninja", "-C", DRV, "driver"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                ok = p.returncode == 0
            if ok:
                return os.path.join(DRV, "driver")
            if attempt == 1:                      # a stale build folder: once more from nothing
                shutil.rmtree(DRV)
                os.makedirs(DRV)
        raise CannotDecide("the harness does not build:\n" + p.stdout[-4000:])


# -------------------------------------------------------------------- recording
def record(driver, scripts, work, errlog=None):
    """Runs the scripts; returns {id: trace}. Scripts the driver gave up on are missing."""
    sp = os.path.join(work, "scripts.ndjson")
    with open(sp, "w") as f:
        for s in scripts:
            f.write(json.dumps(s, separators=(",", ":")) + "\n")
    out = os.path.join(work, "out")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2000")
    jobs = min(CORES, max(1, len(scripts)))
    p = subprocess.run([driver, sp, out, str(jobs)] + ([errlog] if errlog else []), env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if p.returncode not in (0,):
        raise CannotDecide("driver exit %d" % p.returncode)
    traces = {}
    for k in range(jobs):
        with open("%s.%d" % (out, k)) as f:
            for line in f:
                i = int(line[6:line.index(",")])
                traces[i] = line
        os.remove("%s.%d" % (out, k))
    return traces


# ------------------------------------------------------------------------- TLC
def java(args, env, work, timeout, workers=CORES, heap="6g"):
    meta = os.path.join(work, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-noTE", "-workers", str(workers),
           "-metadir", meta] + args
    p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return p


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


class Tally:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.lax = 0                              # behaviours not judged to their end


def conform(traces, work, tally, timeout=600):
    """{id: None | (event, set of property ids)}; undecided ids are missing."""
    path = os.path.join(work, "traces.ndjson")
    with open(path, "w") as f:
        for t in traces.values():
            f.write(t)
    p = java(["-config", "Conformance.cfg", "Conformance.tla"], {"TRACE": path}, work, timeout)
    res = {}
    for i, lax in re.findall(r'<<"ACCEPT", (\d+), (TRUE|FALSE)>>', p.stdout):
        res[int(i)] = None
        tally.lax += lax == "TRUE"
    for i, l, b in re.findall(r'<<"REJECT", (\d+), (\d+), \{([^}]*)\}>>', p.stdout):
        res[int(i)] = (int(l), set(re.findall(r'"([^"]+)"', b)))
    m = STATES.search(p.stdout)
    if m:
        tally.states += int(m.group(2))
        tally.transitions += max(0, int(m.group(1)) - len(traces))
    if len(res) < len(traces):
        log("TLC: %d of %d behaviours undecided" % (len(traces) - len(res), len(traces)))
        with open(os.path.join(work, "tlc.log"), "w") as f:
            f.write(p.stdout)
    return res


def decide(traces, work, tally, depth=0):
    """As conform, but a behaviour on which the specification cannot be evaluated
    (an event it has no meaning for) is isolated and counts as rejected."""
    res = conform(traces, work, tally)
    rest = [i for i in traces if i not in res]
    if not rest:
        return res
    if len(traces) == 1:
        return {rest[0]: (0, {"UNDEFINED"})}
    if depth > 12:
        return res
    k = max(1, len(rest) // 4)
    for j in range(0, len(rest), k):
        res.update(decide({i: traces[i] for i in rest[j:j + k]}, work, tally, depth + 1))
        if sum(1 for v in res.values() if v) >= 5:
            break
    return res


# ------------------------------------------------------------------- generation
def _make(a):
    return gen.make(*a)


def generate(fams, seed, start):
    """fams: {family: count} -> scripts"""
    jobs = []
    for f, n in fams.items():
        k = 100
        for j in range(0, n, k):
            jobs.append((f, seed, min(k, n - j), start + j))
    with ProcessPoolExecutor(CORES) as ex:
        parts = list(ex.map(_make, jobs))
    return [s for p in parts for s in p]


# ----------------------------------------------------------------- known findings
def known_findings():
    """[(property, family, tag)] of the lines 'finding: property=X family=Y tag=Z ...'"""
    out = []
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) family=(\S+) tag=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


def brief(tr, event):
    """the events around a rejection, shortened"""
    ev = json.loads(tr)["ev"]
    lo = max(0, event - 6)
    return [json.dumps(e)[:600] for e in ev[lo:event]]


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.primary, self.fams = campaigns.C[prop]
        self.work = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.tally = Tally()
        self.validated = {}
        self.events = {}
        self.sample = []
        self.violations = []
        self.known = {}
        self.ignored = {}
        self.unrepeated = 0
        self.mc = []
        self.next_id = 0

    def counts(self, fam, bad):
        if fam in self.primary:
            return True
        return self.prop in bad or "UNDEFINED" in bad

    def batch(self, driver, scripts):
        for s in scripts:
            s["id"] = self.next_id
            self.next_id += 1
        by = {s["id"]: s for s in scripts}
        traces = record(driver, scripts, self.work)
        res = decide(traces, self.work, self.tally)
        rejected = []
        for i, v in sorted(res.items()):
            fam = by[i]["fam"]
            self.validated[fam] = self.validated.get(fam, 0) + 1
            for op in by[i]["ops"]:
                self.events[op["op"]] = self.events.get(op["op"], 0) + 1
            if v is not None:
                rejected.append((i, v))
        missing = [i for i in by if i not in res]
        if missing and not rejected:
            raise CannotDecide("%d behaviours have no verdict" % len(missing))
        if not self.sample:
            for i in sorted(res):
                if by[i]["fam"] in self.primary and res[i] is None and len(traces[i]) < 6000:
                    self.sample.append(json.loads(traces[i]))
                    break
        find = known_findings()
        for i, (l, bad) in rejected:
            s = by[i]
            k = [f for f in find if f[0] in campaigns.C and f[1] == s["fam"] and bad == {f[2]}]
            if k:
                if k[0][0] == self.prop:
                    self.known[k[0]] = self.known.get(k[0], 0) + 1
                continue
            bad = {"P03" if b == "P03stale" else b for b in bad}
            if not self.counts(s["fam"], bad):
                self.ignored[s["fam"]] = self.ignored.get(s["fam"], 0) + 1
                continue
            if len(self.violations) < 3:
                self.confirm(driver, s, traces[i], l, bad)

    def confirm(self, driver, s, tr, l, bad):
        """once more, alone (the machine may have been too busy for the limits of the first run)"""
        for _ in range(3):
            t2 = record(driver, [s], self.work, os.path.join(self.work, "err"))
            v = decide(t2, self.work, Tally()).get(s["id"])
            if v is not None:
                break
        else:
            log("not reproduced: %s %s at event %d" % (s["fam"], sorted(bad), l))
            self.unrepeated += 1
            return
        if self.prop in ("P26", "P27") and self.fails_anyway(driver, s):
            self.ignored[s["fam"]] = self.ignored.get(s["fam"], 0) + 1
            return
        err = ""
        if os.path.exists(os.path.join(self.work, "err")):
            with open(os.path.join(self.work, "err"), errors="replace") as f:
                err = f.read()[:6000]
            os.remove(os.path.join(self.work, "err"))
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        path = os.path.join(BUILD, "replay", "%s-%d-%s.json" % (self.prop, len(self.violations), s["fam"]))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "blamed": sorted(bad), "event": l, "script": s,
                       "trace": json.loads(tr), "last_events": brief(tr, l or len(json.loads(tr)["ev"])),
                       "stderr": err,
                       "rerun": "bin/replay " + path}, f)
        self.violations.append(path)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        for e in brief(tr, l)[-3:]:
            log("   ", e)

    def fails_anyway(self, driver, s):
        """is the script rejected without its signals (or without a log), too? Then it is not they that do the harm"""
        s = json.loads(json.dumps(s))
        if self.prop == "P27":
            s["log"] = "off"
            s["ops"] = [op for op in s["ops"] if op["op"] != "loglevel"]
            return any(decide(record(driver, [s], self.work), self.work, Tally()).values())
        for op in s["ops"]:
            op.pop("sig", None)
            if "tx" in op:
                op["tx"] = [t for t in op["tx"] if t.get("k") != "eintr"]
            if "rx" in op:
                op["rx"] = [[e for e in q if e.get("k") != "eintr"] if isinstance(q, list) else q for q in op["rx"]]
        return any(decide(record(driver, [s], self.work), self.work, Tally()).values())

    # ------------------------------------------------------------ model checking
    def models(self, driver):
        """TLC explores the models of this property and checks their invariants; the
        behaviours they print as scripts are run by the code (see campaigns.MODELS)"""
        for m in campaigns.MODELS.get(self.prop, []):
            t = time.time()
            quick = self.tier == "quick"
            consts = dict(m.get("set", {}), **m.get("quick" if quick else "thorough", {}))
            cfg = os.path.join(self.work, m["model"] + ".cfg")
            with open(os.path.join(SPEC, m["model"] + ".cfg")) as f:
                text = f.read()
            for k, v in consts.items():
                text, n = re.subn(r"^  %s = .*$" % k, lambda _: "  %s = %s" % (k, v), text, flags=re.M)
                if n != 1:
                    raise CannotDecide("%s has no constant %s" % (m["model"], k))
            with open(cfg, "w") as f:
                f.write(text)
            p = java(["-config", cfg, m["model"] + ".tla"], {}, self.work, 850, workers=m.get("workers", CORES))
            st = STATES.findall(p.stdout)
            if "No error has been found" not in p.stdout or not st:
                raise CannotDecide("%s: the model does not satisfy its properties:\n%s" % (m["model"], p.stdout[-3000:]))
            scripts = sorted(set(re.findall(r'^"SCRIPT (.*)"$', p.stdout, re.M)))
            made = len(scripts)
            limit = m.get("limit", {}).get(self.tier)
            if limit and made > limit:
                scripts = random.Random("%s/%d" % (m["model"], self.seed)).sample(scripts, limit)
            scripts = [json.loads(x.replace('\\"', '"').replace("\\\\", "\\")) for x in scripts]
            if "log" in m:
                scripts = [dict(x, log=m["log"], fam="loud") for x in scripts]
            secs = round(time.time() - t, 1)
            self.mc.append({"model": m["model"], "constants": consts, "distinct_states": int(st[-1][1]),
                            "states_generated": int(st[-1][0]), "behaviours_printed": made,
                            "behaviours_run_by_the_code": len(scripts), "seconds": secs})
            log("%s: %s distinct states, %d of %d behaviours, %.1fs" % (m["model"], st[-1][1], len(scripts), made, secs))
            self.tally.states += int(st[-1][1])
            self.tally.transitions += int(st[-1][0])
            for j in range(0, len(scripts), 3000):
                self.batch(driver, scripts[j:j + 3000])
                if self.violations:
                    return

    # --------------------------------------------------------------------- run
    def run(self):
        driver = build()
        log("built %.1fs" % (time.time() - self.t0))
        self.models(driver)
        if self.violations:
            pass
        elif self.tier == "quick":
            self.batch(driver, generate(self.fams, self.seed, 0))
        else:
            budget = float(os.environ.get("VERIF_BUDGET", "420"))
            rnd = 0
            while not self.violations and (rnd == 0 or time.time() - self.t0 < budget):
                fams = {f: 4 * n for f, n in self.fams.items() if f != "late"}
                if rnd == 0:
                    fams.update(campaigns.THOROUGH.get(self.prop, {}))
                    if "late" in self.fams:
                        fams["late"] = 3
                self.batch(driver, generate(fams, self.seed, 1000000 * rnd if rnd else 0))
                rnd += 1
        for (prop, fam, tag, what), n in self.known.items():
            print("KNOWN-FINDING: property=%s %s" % (prop, what), flush=True)
        self.evidence()
        return 1 if self.violations else 0

    def evidence(self):
        total = sum(self.validated.values())
        cov = {
            "states": self.tally.states,
            "transitions": self.tally.transitions,
            "traces_validated_against_impl": total,
            "traces_not_judged_to_their_end": self.tally.lax,
            "behaviours_per_family": self.validated,
            "calls_exercised": dict(sorted(self.events.items())),
            "models": self.mc,
            "rejections_not_repeated": self.unrepeated,
            "known_findings_seen": sum(self.known.values()),
            "rejections_of_other_properties": self.ignored,
            "samples": self.sample,
            "rule": "one trace per script, recorded from the code built from the working tree, each checked event by "
                    "event against System.tla by TLC (Conformance.tla); primary families: " + ", ".join(self.primary),
            "exhaustive": False,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": [
                  "the operating system's sockets and clocks are replaced by harness/world.cpp (link-time interposition)",
                  "the behaviours explored are those of the generated scripts; the specification judges each completely",
              ],
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")


def replay(path):
    """bin/replay FILE: runs the script of a replay file against the current tree"""
    with open(path) as f:
        d = json.load(f)
    driver = build()
    work = os.path.join(BUILD, "work-replay-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        tr = record(driver, [d["script"]], work)
        res = decide(tr, work, Tally())
        for i, v in res.items():
            if v is None:
                print("accepted")
            else:
                print("rejected at event %d: %s" % (v[0], sorted(v[1])))
                for e in brief(tr[i], v[0]):
                    print("   ", e)
        return 0 if all(v is None for v in res.values()) else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    os.makedirs(BUILD, exist_ok=True)
    if sys.argv[1:] == ["--build"]:
        build()
        return 0
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(prop, tier, seed)
    try:
        return c.run()
    except CannotDecide as e:
        log("cannot decide: %s" % e)
        return 1 if c.violations else 2
    except subprocess.TimeoutExpired as e:
        log("cannot decide: %s" % e)
        return 1 if c.violations else 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
