#!/usr/bin/env python3
"""Decides one property: builds the monitors from /repo's working tree, runs them in parallel
workers, and turns what they observed into a verdict and an evidence file.

  check.py PID [thorough]      run the check (tier from VERIF_TIER or the argument, seed VERIF_SEED)
  check.py --build             build what the checks need (setup)
  check.py --replay FILE       run the case recorded in a replay file again
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path.insert(0, os.path.join(VERIF, "bin"))
from plan import PARTS, PLAN, VARIANTS  # noqa: E402

BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known-findings.txt")
SANITIZER_ENV = {
    "ASAN_OPTIONS": "exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=6000",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1",
    "MSAN_OPTIONS": "exitcode=78",
    "MIRIFLAGS": "-Zmiri-disable-isolation",
    "RUST_BACKTRACE": "0",
}
SANITIZER_EXIT = {77: "AddressSanitizer", 66: "ThreadSanitizer", 78: "MemorySanitizer"}


class Inconclusive(Exception):
    pass


def source_hash(crate):
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness")):
        for d, dirs, names in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != "target")
            files += [os.path.join(d, n) for n in sorted(names)]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


ALONE = {}  # variant -> flags that leave out the parts of the hooks which the check does not need


def flags(variant):
    return VARIANTS[variant]["flags"] + ALONE.get(variant, "")


def build_for(pid):
    """Builds variants; when the code no longer fits the hooks, without the parts this check does not need."""
    need = PLAN[pid].get("parts")

    def go(variant):
        try:
            return build(variant)
        except Inconclusive:
            if need is None or VARIANTS[variant]["crate"] != "internal":
                raise
            left_out = ["some"] + [p for p in PARTS if p not in need]
            ALONE[variant] = "".join(f' --cfg auto_palette_verif_without="{p}"' for p in left_out)
            print(f"the hooks do not compile; building {variant} without {', '.join(left_out[1:])}")
            return build(variant)
    return go


def build(variant):
    """Builds a harness variant against the current tree and returns the binary and its time."""
    v = VARIANTS[variant]
    target = os.path.join(BUILD, variant)
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, ".source-hash")
    now = source_hash(v["crate"])
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        # cargo decides by modification times; contents decide here
        for pat in ("auto-palette-*", "auto_palette-*", "vcommon-*", "*-monitors-*"):
            for d in glob.glob(os.path.join(target, "**", ".fingerprint", pat), recursive=True):
                shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ)
    env.update({"CARGO_TARGET_DIR": target, "CARGO_NET_OFFLINE": "true", "RUSTFLAGS": flags(variant)})
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    env.update(SANITIZER_ENV)
    crate = os.path.join(VERIF, "harness", v["crate"])
    start = time.time()
    p = subprocess.run(v["cmd"], cwd=crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Inconclusive(f"building {variant} failed:\n{p.stdout[-4000:]}")
    with open(stamp, "w") as fh:
        fh.write(now)
    return time.time() - start


class Worker:
    def __init__(self, pid, group, index, seed, tier, work, extra=()):
        v = VARIANTS[group["variant"]]
        self.group = group
        self.variant = group["variant"]
        self.out = os.path.join(work, f"{self.variant}-{group.get('tag', '')}-{index}.json")
        self.args = [pid, "--seed", str(seed), "--worker", f"{index}/{group['of']}", "--tier", tier,
                     "--ms", str(group["ms"]), "--min", str(group.get("min", 1)),
                     "--scale", str(group.get("scale", 1.0)), "--out", self.out]
        if "max" in group:
            self.args += ["--max", str(group["max"])]
        for e in group.get("extra", []):
            self.args += ["--extra", e]
        self.args += list(extra)
        target = os.path.join(BUILD, self.variant)
        self.cmd = [c.format(target=target, crate=v["crate"]) for c in v["run"]] + self.args
        self.crate = os.path.join(VERIF, "harness", v["crate"])
        self.sanitizer = v.get("sanitizer", False)
        self.verdict = None
        self.case = None
        self.since_cpu = 0.0
        self.since_wall = time.time()

    def start(self):
        env = dict(os.environ)
        env.update(SANITIZER_ENV)
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, self.variant)
        env["CARGO_NET_OFFLINE"] = "true"
        env["RUSTFLAGS"] = flags(self.variant)
        limit = None if self.sanitizer else 5 << 30

        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if limit:
                resource.setrlimit(resource.RLIMIT_AS, (limit, limit))

        self.log = open(self.out + ".log", "w+")
        self.p = subprocess.Popen(self.cmd, cwd=self.crate, env=env, stdout=self.log, stderr=self.log,
                                  stdin=subprocess.DEVNULL, preexec_fn=pre, start_new_session=True)
        self.since_wall = time.time()

    def progress(self):
        try:
            return int(open(self.out + ".progress").read().split()[0])
        except (OSError, ValueError, IndexError):
            return None

    def cpu(self):
        try:
            f = open(f"/proc/{self.p.pid}/stat").read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12]) + int(f[13]) + int(f[14])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            return 0.0

    def hung(self):
        """The case that has been running beyond any legitimate time."""
        case, cpu, now = self.progress(), self.cpu(), time.time()
        if case != self.case:
            self.case, self.since_cpu, self.since_wall = case, cpu, now
            return False
        spent, waited = cpu - self.since_cpu, now - self.since_wall
        limit = self.group.get("case_cpu", 100 if not self.sanitizer else 240)
        return spent > limit or waited > self.group.get("case_wall", 420)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def tail(self):
        self.log.flush()
        try:
            text = open(self.out + ".log", errors="replace").read()
        except OSError:
            text = ""
        lines = [x for x in text.splitlines() if x.strip()]
        keep = [x for x in lines if re.search(r"SUMMARY|WARNING: ThreadSan|ERROR: (Addr|Mem)|overflow|panicked|unsafe precond|Undefined Behavior|error:|#[0-6] ", x)]
        return " | ".join((keep or lines)[-0:][:14])[:1800]

    def conclude(self):
        """Returns (result dict or None, list of violations [(case, what)])."""
        rc = self.p.returncode
        case = self.progress()
        if rc in (0, 1) and os.path.exists(self.out):
            r = json.load(open(self.out))
            return r, [(v["case"], v["what"]) for v in r["violations"]]
        if rc in SANITIZER_EXIT and self.sanitizer:
            return None, [(case, f"{SANITIZER_EXIT[rc]}: {self.tail()}")]
        if self.variant.startswith("miri") and rc not in (0, 101) and "Undefined Behavior" in self.tail():
            return None, [(case, f"Miri: {self.tail()}")]
        if rc < 0 and -rc in (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
            return None, [(case, f"the process died of {signal.Signals(-rc).name}: {self.tail()}")]
        raise Inconclusive(f"worker {' '.join(self.cmd)} ended with {rc}: {self.tail()}")


def run_workers(pid, groups, seed, tier, work, stop_early=True):
    """Runs all workers of a phase; returns [(worker, result, violations)]."""
    ws = []
    for g in groups:
        for i in g["workers"]:
            ws.append(Worker(pid, g, i, seed, tier, work))
    for w in ws:
        w.start()
    pending, done, found = list(ws), [], False
    while pending:
        time.sleep(0.05)
        for w in list(pending):
            if w.p.poll() is not None:
                pending.remove(w)
                r, v = w.conclude()
                done.append((w, r, v))
                found = found or bool(v)
            elif w.hung():
                case = w.case
                w.kill()
                pending.remove(w)
                done.append((w, None, [(case, "did not return within the time limit for one case")]))
                found = True
        if found and stop_early:
            for w in pending:
                w.kill()
            break
    return done


def known_findings(pid):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) match=\"([^\"]+)\" (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def check(pid, tier, seed):
    plan = PLAN[pid]
    started = time.time()
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    evidence_path = os.path.join(EVIDENCE, f"{pid}.json")
    if os.path.exists(evidence_path):
        os.remove(evidence_path)
    phases = plan[tier] if tier in plan else plan["quick"]
    variants = []
    for phase in phases:
        for g in phase:
            if g["variant"] not in variants:
                variants.append(g["variant"])
    work = tempfile.mkdtemp(prefix=f"vcheck-{pid}-")
    try:
        with concurrent.futures.ThreadPoolExecutor(max_workers=len(variants)) as ex:
            built = dict(zip(variants, ex.map(build_for(pid), variants)))
        done = []
        for phase in phases:
            done += run_workers(pid, phase, seed, tier, work)
            if any(v for _, _, v in done):
                break
        keys, evaluations, exact = set(), 0, 0
        counters, samples, per_variant = {}, [], {}
        violations = []
        for w, r, vs in done:
            violations += [(w, case, what) for case, what in vs]
            if r is None:
                continue
            evaluations += r["evaluations"]
            exact += r["exact"]
            pv = per_variant.setdefault(w.variant, {"workers": 0, "evaluations": 0, "cpu_wall_s": 0.0})
            pv["workers"] += 1
            pv["evaluations"] += r["evaluations"]
            pv["cpu_wall_s"] = round(pv["cpu_wall_s"] + r["wall_s"], 2)
            for k, n in r["counters"].items():
                counters[k] = max(counters.get(k, 0), n) if k.startswith("max_") else counters.get(k, 0) + n
            if len(samples) < 6:
                samples += r["samples"][:2]
            try:
                raw = open(w.out + ".keys", "rb").read()
                keys.update(x[0] for x in struct.iter_unpack("<Q", raw))
            except OSError:
                pass
        if plan.get("exhaustive"):
            exact //= max(1, len([v for v in per_variant]))
        evidence = {
            "property": pid,
            "tier": tier,
            "seed": seed,
            "level": plan.get("level", "exploration"),
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(keys) + exact,
                "rule": plan["rule"],
                "samples": samples or ["(none completed)"],
                "observed": counters,
                "builds": per_variant,
                "build_s": {k: round(v, 1) for k, v in built.items()},
            },
            "assumptions": plan.get("assumptions", []),
            "wall_s": round(time.time() - started, 2),
        }
        new, known = [], []
        for w, case, what in violations:
            hit = [text for match, text in known_findings(pid) if match in what]
            (known if hit else new).append((w, case, what, hit))
        evidence["violations"] = len(new)
        with open(evidence_path, "w") as fh:
            json.dump(evidence, fh, indent=1)
        for _, _, _, hit in known:
            print(f"KNOWN-FINDING: property={pid} {hit[0]}")
        if new:
            for n, (w, case, what, _) in enumerate(new[:3]):
                name = f"{pid}-{w.variant}-{case}.json"
                path = os.path.join(REPLAYS, name)
                with open(path, "w") as fh:
                    json.dump({"property": pid, "variant": w.variant, "seed": seed, "tier": tier,
                               "case": case, "what": what, "args": w.args,
                               "replay": f"python3 bin/check.py --replay replays/{name}"}, fh, indent=1)
                print(f"  [{w.variant} case {case}] {what[:1500]}")
                if n == 0:
                    first = name
            print(f"VIOLATION property={pid} replay=replays/{first}")
            return 1
        for c in plan.get("require", []):
            if counters.get(c, 0) <= 0:
                raise Inconclusive(f"nothing was observed of: {c}")
        if evaluations <= 0 or len(keys) + exact <= 0:
            raise Inconclusive("no non-trivial case was judged")
        print(f"{pid} held: {evaluations} evaluations, {len(keys) + exact} distinct non-trivial, "
              f"{', '.join(f'{k} {v}' for k, v in list(counters.items())[:6])}; {evidence['wall_s']} s")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    r = json.load(open(path))
    build_for(r["property"])(r["variant"])
    work = tempfile.mkdtemp(prefix="vreplay-")
    try:
        v = VARIANTS[r["variant"]]
        args, skip = [], False
        for a in r["args"]:
            if skip:
                skip = False
                continue
            if a in ("--out", "--worker"):
                skip = True
                continue
            args.append(a)
        target = os.path.join(BUILD, r["variant"])
        cmd = [c.format(target=target, crate=v["crate"]) for c in v["run"]] + args
        if r["case"] is not None:
            cmd += ["--case", str(r["case"])]
        env = dict(os.environ)
        env.update(SANITIZER_ENV)
        env["CARGO_TARGET_DIR"] = target
        env["RUSTFLAGS"] = flags(r["variant"])
        print(" ".join(cmd))
        return subprocess.run(cmd, cwd=os.path.join(VERIF, "harness", v["crate"]), env=env).returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--build"]:
            names = a[1:] or ["pub", "pub-checked", "int", "int-checked", "asan", "msan", "tsan"]
            with concurrent.futures.ThreadPoolExecutor(max_workers=3) as ex:
                for n, t in zip(names, ex.map(build, names)):
                    print(f"built {n} in {t:.1f} s")
            return 0
        if a[:1] == ["--replay"]:
            return replay(a[1])
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return check(a[0], tier, seed)
    except Inconclusive as e:
        print(f"INCONCLUSIVE: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
