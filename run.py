#!/usr/bin/env python3
"""Runs the monitors of one property against the library in /repo.

usage: run.py <property> [quick|thorough] [--replay FILE]

Builds the harness with the library from /repo's working tree in the variants
the property needs (plain with coverage counters, race detector, statement-level
yield injection, 32-bit), runs the workload in each, merges what the monitors observed
into evidence/<property>.json and exits 0 (held on everything observed), 1 (a
VIOLATION line was printed) or 2 (inconclusive: an error of the check itself).
"""
import glob
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = "github.com/alexispb/mygosnmp"
CONCURRENT = {  # extra build variants
    "C11": ["race", "race-yield", "yield"],
    "C13": ["race-yield", "yield"],
    "C19": ["race", "race-yield", "yield"],
    "C20": ["race", "race-yield", "yield"],
    "C27": ["race-yield", "yield"],
    "C31": ["race", "race-yield", "yield"],
    "C32": ["race", "race-yield", "yield"],
}
# properties that are also run as a 32-bit program (int of 32 bits), with the
# quick workload; skipped with a note where such programs cannot be run
WORD32 = {"quick": set(),
          "thorough": {"C01", "C02", "C03", "C04", "C06", "C07", "C08", "C10", "C12", "C14", "C15", "C16", "C17", "C18", "C21", "C22", "C23", "C26", "C28", "C30"}}
TIMEOUT = {"quick": 420, "thorough": 3600}

ASSUME = {
    "codec": "the reference codec in harness/ref states RFC 2741 sections 5 and 6 correctly",
    "conc": "only the interleavings that the Go scheduler produced under stress, yield injection and the race detector were observed",
    "gen": "inputs outside the generated families were not observed",
}


class Inconclusive(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GONOSUMDB="*", GOWORK="off", CGO_ENABLED="1", GODEBUG="")
    e.setdefault("HOME", "/root")
    for k in ("GOCOVERDIR", "GORACE", "GOGC", "GOMEMLIMIT", "GOMAXPROCS"):
        e.pop(k, None)
    return e


def sh(cmd, cwd, word32=False, **kw):
    e = env()
    if word32:
        e.update(GOARCH="386", CGO_ENABLED="0")
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def harness_dir(work):
    """The harness module; a copy with another replacement if VERIF_REPO is set."""
    src = os.path.join(VERIF, "harness")
    if REPO == "/repo":
        return src
    dst = os.path.join(work, "harness")
    shutil.copytree(src, dst)
    p = os.path.join(dst, "go.mod")
    s = open(p).read().replace("=> /repo", "=> " + REPO)
    open(p, "w").write(s)
    return dst


class Build:
    def __init__(self, work):
        self.work = work
        self.dir = harness_dir(work)
        self.overlay = None
        self.points = 0
        self.notes = []

    def yields(self):
        if self.overlay is None:
            out = os.path.join(self.work, "overlay")
            os.makedirs(out, exist_ok=True)
            r = sh(["go", "run", "./cmd/yieldgen", "-repo", REPO, "-out", out], self.dir)
            if r.returncode != 0:
                self.overlay = ""
                self.notes.append("yield injection unavailable: " + r.stdout[-300:])
            else:
                self.points = int(r.stdout.split()[-1])
                self.overlay = os.path.join(out, "overlay.json")
        return self.overlay

    def make(self, variant):
        exe = os.path.join(self.work, "vh-" + variant)
        cmd = ["go", "build", "-o", exe]
        if variant == "plain":
            cmd += ["-cover", "-covermode=set", "-coverpkg=verif/harness/cmd/vh," + LIB + "/...", "-gcflags=" + LIB + "/...=-d=checkptr"]
        if "race" in variant:
            cmd += ["-race"]
        if "yield" in variant:
            ov = self.yields()
            if not ov:
                return None
            cmd += ["-overlay", ov]
        if variant == "386":
            r = sh(cmd + ["./cmd/vh"], self.dir, word32=True)
            if r.returncode == 0:
                try:
                    r = sh([exe, "-list"], self.work)
                except OSError as e:
                    self.notes.append("32-bit programs cannot be run here: %s" % e)
                    return None
        else:
            r = sh(cmd + ["./cmd/vh"], self.dir)
        if r.returncode != 0 and variant == "plain":
            r = sh(["go", "build", "-o", exe, "./cmd/vh"], self.dir)
            if r.returncode == 0:
                self.notes.append("built without coverage counters")
        if r.returncode != 0:
            if variant == "plain":
                raise Inconclusive("build of variant plain failed:\n" + r.stdout[-3000:])
            self.notes.append("variant %s not built: %s" % (variant, r.stdout[-300:]))
            return None
        return exe


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setpgid(0, 0)


def limits_plain():
    limits()
    gb = 1 << 30
    resource.setrlimit(resource.RLIMIT_AS, (26 * gb, 26 * gb))


def lib_frames(text):
    return (LIB + "/") in text


def race_reports(pattern):
    """Data race reports, split into those that involve the library and others."""
    lib, other = [], []
    for f in sorted(glob.glob(pattern + ".*")):
        text = open(f, errors="replace").read()
        for block in text.split("==================\n"):
            if "WARNING: DATA RACE" in block:
                (lib if lib_frames(block) else other).append(block.strip())
    return lib, other


def crash(text):
    """The violation message of a fatal crash that involves the library, or None."""
    m = re.search(r"^(panic: |fatal error: |runtime: goroutine stack exceeds|unexpected fault|SIGSEGV|.*checkptr)", text, re.M)
    if not m:
        return None
    tail = text[m.start():]
    blocks = re.split(r"\n\n(?=goroutine )", tail)
    first = "\n".join(blocks[:2])
    if lib_frames(first) or ("fatal error" in tail[:3000] and lib_frames(tail)):
        return tail[:6000]
    return None


def run_variant(exe, prop, tier, seed, variant, work, only=None):
    out = os.path.join(work, "result-%s.json" % variant)
    race = os.path.join(work, "race-" + variant)
    e = env()
    e["GORACE"] = "halt_on_error=0 atexit_sleep_ms=0 history_size=3 log_path=" + race
    e["GOTRACEBACK"] = "all"
    cov = None
    if variant == "plain":
        cov = os.path.join(work, "cov")
        os.makedirs(cov, exist_ok=True)
        e["GOCOVERDIR"] = cov
    e["TMPDIR"] = work
    cmd = [exe, "-prop", prop, "-tier", tier, "-variant", variant, "-seed", str(seed), "-out", out, "-repo", REPO]
    if only:
        cmd += ["-section", only[0]] + (["-index", str(only[1])] if only[1] is not None and only[1] >= 0 else [])
    errf = os.path.join(work, "stderr-" + variant)
    with open(errf, "w") as ef:
        p = subprocess.Popen(cmd, cwd=work, env=e, stdout=ef, stderr=ef, preexec_fn=limits_plain if variant == "plain" else limits)
        try:
            rc = p.wait(timeout=TIMEOUT[tier])
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            raise Inconclusive("variant %s did not finish within %d s" % (variant, TIMEOUT[tier]))
        finally:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
    text = open(errf, errors="replace").read()
    res = None
    if os.path.exists(out):
        res = json.load(open(out))
    viol = list(res["violations"] or []) if res else []
    lib, other = race_reports(race)
    seen = set()
    for b in lib:
        key = re.sub(r"0x[0-9a-f]+|goroutine \d+|:\d+|\+0x\S+", "", b)
        if key not in seen and len(seen) < 5:
            seen.add(key)
            viol.append({"section": "race-detector", "index": -1, "message": "data race:\n" + b})
    if res is None and not viol:
        c = crash(text)
        if c:
            viol.append({"section": "crash", "index": -1, "message": "the process crashed inside the library:\n" + c})
    if not viol:
        if other:
            raise Inconclusive("data race in the harness:\n" + other[0][:3000])
        if res is None:
            raise Inconclusive("variant %s ended with %d and left no result:\n%s" % (variant, rc, text[-3000:]))
        if res["errors"]:
            raise Inconclusive("variant %s: %s" % (variant, "; ".join(res["errors"])[:3000]))
        if rc not in (0, 66):
            raise Inconclusive("variant %s ended with %d:\n%s" % (variant, rc, text[-3000:]))
    coverage = {}
    if cov and os.listdir(cov):
        r = sh(["go", "tool", "covdata", "percent", "-i=" + cov], work)
        for line in r.stdout.splitlines():
            m = re.match(r"\s*" + re.escape(LIB) + r"/(\S+)\s+coverage: ([0-9.]+)%", line)
            if m:
                coverage[m.group(1)] = float(m.group(2))
    return res, viol, coverage, len(lib) + len(other)


def known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=(.+?) \| (.*)$", line.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    args = [a for a in sys.argv[1:]]
    replay = None
    if "--replay" in args:
        i = args.index("--replay")
        replay = json.load(open(args[i + 1]))
        del args[i:i + 2]
    prop = replay["property"] if replay else args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if replay:
        tier = replay["tier"]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if replay:
        seed = replay["seed"]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=os.path.join(VERIF, ".build"))
    try:
        return check(prop, tier, seed, work, t0, replay)
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, work, t0, replay):
    b = Build(work)
    variants = ["plain"] + CONCURRENT.get(prop, []) + (["386"] if prop in WORD32[tier] else [])
    if replay:
        variants = [replay["variant"]]
    results, viol, cover, races = [], [], {}, 0
    for v in variants:
        exe = b.make(v)
        if exe is None:
            continue
        only = None
        if replay and replay["index"] >= 0:
            only = (replay["section"], replay["index"])
        res, vs, cov, nr = run_variant(exe, prop, "quick" if v == "386" else tier, seed, v, work, only)
        os.remove(exe)
        races += nr
        cover.update(cov)
        if res:
            results.append(res)
        for x in vs:
            x["variant"] = v
        viol += vs
        if vs:
            break
    if replay:
        for x in viol:
            print(x["message"])
            if x.get("stack"):
                print(x["stack"])
        print("replay: %s" % ("violated again" if viol else "held this time"))
        return 1 if viol else 0
    # known findings
    fresh, shown = [], set()
    for x in viol:
        for pid, match, what in known():
            if pid == prop and match in x["message"]:
                if what not in shown:
                    print("KNOWN-FINDING: property=%s %s" % (prop, what))
                    shown.add(what)
                break
        else:
            fresh.append(x)
    evidence(prop, tier, seed, t0, b, results, fresh, cover, races)
    if not fresh:
        r0 = results[0]
        print("property=%s held: %d executions, %d distinct non-trivial observations in variants %s" % (
            prop, sum(r["evaluations"] for r in results), sum(r["distinct"] for r in results), [r["variant"] for r in results]))
        return 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    x = fresh[0]
    name = "replays/%s-%s-%s-%s.json" % (prop, x["variant"], re.sub(r"[^A-Za-z0-9_-]", "_", x["section"]), x["index"])
    with open(os.path.join(VERIF, name), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "variant": x["variant"], "section": x["section"], "index": x["index"],
                   "how": "python3 run.py %s --replay %s" % (prop, name), "violations": fresh}, f, indent=1)
    print(x["message"][:2000])
    print("VIOLATION property=%s replay=%s" % (prop, name))
    return 1


def evidence(prop, tier, seed, t0, b, results, viol, cover, races):
    per = {}
    samples = []
    for r in results:
        per[r["variant"]] = {"evaluations": r["evaluations"], "distinct": r["distinct"], "wall_s": round(r["wall_s"], 2), "sections": {s["name"]: s["cases"] for s in r["sections"] or []}, "events": r["events"]}
    for r in results:
        for s in (r["samples"] or [])[:12]:
            if len(samples) < 16:
                samples.append("[%s] %s" % (r["variant"], s))
    asm = [ASSUME["gen"]]
    if prop in ("C01", "C02", "C03", "C04", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C24", "C28", "C29", "C31"):
        asm.append(ASSUME["codec"])
    if prop in CONCURRENT:
        asm.append(ASSUME["conc"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["distinct"] for r in results),
            "rule": results[0]["rule"] if results else "the run ended before any result",
            "samples": samples or ["none: the run crashed"],
            "variants": per,
            "statement_coverage_percent_by_package": cover,
            "race_reports": races,
            "yield_points_injected": b.points,
            "notes": b.notes,
        },
        "assumptions": asm,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
