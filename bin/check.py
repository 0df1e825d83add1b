#!/usr/bin/env python3
"""Driver:  check.py <ID> [quick|thorough]   run the check of one property
            check.py --setup                 prebuild everything (content-addressed cache)
            check.py --list                  list the registered checks

A check builds its harness together with /repo's current sources, lets the explorer enumerate the
bounded space in parallel shards, confirms any violation by replaying it, and writes
evidence/<ID>.json.  Exit status: 0 held on everything explored, 1 violation."""
import array
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CRU_REPO", "/repo")
CACHE = os.path.join(VERIF, "build", "cache")
NPROC = 8
sys.path.insert(0, os.path.join(VERIF, "bin"))
from registry import CHECKS  # noqa: E402

INC = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "lib"),
       "-I", os.path.join(VERIF, "harness"), "-I", os.path.join(VERIF, "lib", "ros"),
       "-isystem", "/usr/include/eigen3"]
BASE = ["-std=c++17", "-g1", "-Wno-deprecated-declarations", "-Wno-psabi"]
ASAN_OPTIONS = ("detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99:"
                "hard_rss_limit_mb=3500:allocator_may_return_null=1:handle_abort=0:"
                "detect_odr_violation=0:quarantine_size_mb=16:malloc_context_size=4")
FR_FMT = "<8sQII256sI"


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def object_for(src, flags, workdir, cxx="g++"):
    """Compile src with flags; returns an object path. Reuses a cached object if the preprocessed
    text and flags are identical."""
    allf = BASE + flags + INC
    pre = subprocess.run([cxx, "-E", "-P"] + allf + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode != 0:
        raise BuildError(pre.stderr.decode("utf-8", "replace")[-3000:])
    key = hashlib.sha256(("\0".join([cxx] + BASE + flags) + "\0").encode() + pre.stdout).hexdigest()[:32]
    cached = os.path.join(CACHE, key + ".o")
    if os.path.exists(cached):
        return cached
    out = os.path.join(workdir, key + ".o")
    r = run([cxx] + allf + ["-c", src, "-o", out])
    if r.returncode != 0:
        raise BuildError(r.stdout.decode("utf-8", "replace")[-4000:])
    if os.environ.get("CRU_CACHE_WRITE"):
        os.makedirs(CACHE, exist_ok=True)
        tmp = f"{cached}.{os.getpid()}"
        shutil.copy(out, tmp)
        os.replace(tmp, cached)
    return out


def build(pid, spec, workdir):
    """Returns a list of (variant name, executable)."""
    exes = []
    jobs = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for name, v in spec["variants"].items():
            objs = []
            for s in v["srcs"]:
                path = s["src"].replace("@repo", REPO).replace("@verif", VERIF)
                objs.append(ex.submit(object_for, path, s["flags"], workdir, s.get("cxx", "g++")))
            jobs.append((name, v, objs))
        for name, v, objs in jobs:
            files = [o.result() for o in objs]
            exe = os.path.join(workdir, f"{pid}.{name}")
            r = run(["g++", "-o", exe] + files + v["ldflags"])
            if r.returncode != 0:
                raise BuildError(r.stdout.decode("utf-8", "replace")[-4000:])
            exes.append((name, exe, v))
    return exes


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def child_env(tier):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ASAN_OPTIONS
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env["OMP_DYNAMIC"] = "false"
    env["OMP_WAIT_POLICY"] = "passive"
    env.pop("OMP_NUM_THREADS", None)
    env["VERIF_TIER"] = tier
    return env


def read_fr(path):
    with open(path, "rb") as f:
        data = f.read()
    n = struct.calcsize(FR_FMT)
    magic, execs, inexec, hang, scen, depth = struct.unpack(FR_FMT, data[:n])
    scen = scen.split(b"\0")[0].decode()
    depth = min(depth, (len(data) - n) // 2)
    trail = list(struct.unpack(f"<{depth}H", data[n:n + 2 * depth]))
    return dict(executions=execs, in_execution=inexec, hang=hang, scenario=scen, trail=trail)


def describe_output(text):
    keep = []
    for line in text.splitlines():
        if re.search(r"ERROR: AddressSanitizer|runtime error|terminate called|what\(\)|Assertion|SUMMARY|RACE|DEADLOCK", line):
            keep.append(line.strip()[:300])
    return " | ".join(keep[:6]) or text.strip()[-300:]


def run_shard(exe, spec, tier, shard, nshards, deadline, workdir, tag):
    out = os.path.join(workdir, f"{tag}.{shard}.json")
    fr = os.path.join(workdir, f"{tag}.{shard}.fr")
    log = os.path.join(workdir, f"{tag}.{shard}.log")
    cmd = [exe, "--tier", tier, "--shard", str(shard), "--nshards", str(nshards), "--deadline", str(deadline),
           "--out", out, "--fr", fr, "--hang", str(spec.get("hang", 15))]
    if spec.get("known"):
        cmd += ["--known", ",".join(spec["known"])]
    with open(log, "wb") as lf:
        try:
            rc = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=child_env(tier), cwd=workdir,
                                preexec_fn=limits, timeout=deadline * 2 + 60).returncode
        except subprocess.TimeoutExpired:
            rc = -1000
    text = open(log, "rb").read().decode("utf-8", "replace")
    rep = None
    if os.path.exists(out):
        try:
            rep = json.load(open(out))
        except ValueError:
            rep = None
    states = set()
    if rep is not None and os.path.exists(out + ".states"):
        a = array.array("Q")
        a.frombytes(open(out + ".states", "rb").read())
        states = set(a)
    return dict(states=states, shard=shard, rc=rc, report=rep, fr=read_fr(fr) if os.path.exists(fr) else None, text=text)


def replay(exe, spec, tier, scenario, trail, workdir, timeout):
    cmd = [exe, "--tier", tier, "--out", os.path.join(workdir, "replay.json"), "--hang", str(timeout),
           "--replay", scenario, ",".join(map(str, trail))]
    cmd += ["--known", ",".join(spec["known"])] if spec.get("known") else []
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=child_env(tier), cwd=workdir,
                           preexec_fn=limits, timeout=timeout + 5)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return "hang", (e.stdout or b"").decode("utf-8", "replace")


def violation(pid, tier, variant, scenario, trail, message, note, text):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}.{variant}.{hashlib.sha1((scenario + str(trail)).encode()).hexdigest()[:8]}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, tier=tier, variant=variant, scenario=scenario, trail=trail,
                       message=message, execution=note, output=text[-6000:],
                       how=f"python3 /verif/bin/check.py --replay {path}"), f, indent=1)
    msg = re.sub(r"\s+", " ", message)[:400]
    print(f"violated: {msg}")
    print(f"VIOLATION property={pid} replay={path}", flush=True)
    return path


def symbolize(exe, text):
    """Adds source lines to the code addresses in a race report."""
    def one(m):
        lines = run(["addr2line", "-ie", exe, hex(int(m.group(1), 16) - 1)]).stdout.decode("utf-8", "replace").split("\n")
        best = [l for l in lines if "/include/common_robotics_utilities/" in l or "/src/common_robotics_utilities/" in l] or \
            [l for l in lines if "/harness/" in l] or [l for l in lines if l and not l.startswith("?")]
        return os.path.basename(best[0].split(" ")[0]) if best else m.group(0)
    return re.sub(r"pc=0x([0-9a-f]+)", one, text)


def load_known(pid):
    keys = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                keys[m.group(2)] = m.group(3)
    return keys


def check(pid, tier):
    t0 = time.time()
    spec = dict(CHECKS[pid])
    known = load_known(pid)
    spec["known"] = list(known)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix=f"cru.{pid}.")
    bad = None
    reports = []
    states = set()
    try:
        try:
            exes = build(pid, spec, scratch)
        except BuildError as e:
            # The public interface used by the harness no longer compiles against this tree.
            print(str(e))
            print(f"check of {pid}: the harness does not build against the current tree")
            return 2
        t_build = time.time() - t0
        total = spec["quick"] if tier == "quick" else spec["thorough"]
        wsum = sum(v.get("weight", 1) for _, _, v in exes)
        for name, exe, v in exes:
            if bad:
                break
            ns = v.get("shards", NPROC)
            budget = max(3.0, total * v.get("weight", 1) / wsum)
            with cf.ThreadPoolExecutor(ns) as ex:
                rs = list(ex.map(lambda i: run_shard(exe, spec, tier, i, ns, budget, scratch, name), range(ns)))
            for r in rs:
                rep = r["report"]
                states |= r["states"]
                if r["rc"] == 0 and rep:
                    reports.append((name, rep))
                    continue
                if r["rc"] == 1 and rep and rep.get("violation"):
                    reports.append((name, rep))
                    v0 = rep["violation"]
                    scen, trail, msg = v0["scenario"], v0["trail"], v0["message"]
                    rc, text = replay(exe, spec, tier, scen, trail, scratch, 60)
                    if rc == 0 and v.get("deterministic", True):
                        print(f"internal: shard {r['shard']} reported '{msg}' but the replay is clean; ignored")
                        continue
                    note = ""
                    try:
                        rj = json.load(open(os.path.join(scratch, "replay.json")))
                        note = (rj.get("violation") or {}).get("note", "")
                    except (OSError, ValueError):
                        pass
                    msg = symbolize(exe, msg)
                    bad = bad or (name, scen, trail, msg, note or v0.get("note", ""), text)
                    continue
                fr = r["fr"]
                if fr and (fr["in_execution"] or r["rc"] == 97):
                    rc, text = replay(exe, spec, tier, fr["scenario"], fr["trail"], scratch, 45)
                    if rc == 0:
                        print(f"internal: shard {r['shard']} ended with {r['rc']} in {fr['scenario']} {fr['trail']}, "
                              f"but the replay is clean: {describe_output(r['text'])}")
                        continue
                    if rc == "hang" or rc == 97:
                        msg = "the execution does not terminate"
                    elif rc == 1:
                        msg = "violation: " + text[-400:]
                    else:
                        msg = f"the execution crashed (status {rc}): {describe_output(text)}"
                    bad = bad or (name, fr["scenario"], fr["trail"], msg, "", text)
                else:
                    print(f"internal: shard {r['shard']} of {name} ended with {r['rc']}: {r['text'][-500:]}")
        hits = sorted({k for _, r in reports for k in r.get("known_hits", [])})
        for k in hits:
            print(f"KNOWN-FINDING: property={pid} {known.get(k, k)}")
        agg = lambda k: sum(r.get(k, 0) for _, r in reports)
        per_scenario = {}
        for n, r in reports:
            for k, x in r.get("extra", {}).items():
                per_scenario.setdefault(n, {}).setdefault(k, 0)
                per_scenario[n][k] += x
        samples = []
        for n, r in reports:
            for s in r["samples"]:
                if len(samples) < 12 and s not in samples:
                    samples.append(s)
        complete = bool(reports) and all(r["complete"] for _, r in reports) and not bad and \
            len(reports) == sum(v.get("shards", NPROC) for _, _, v in exes)
        cov = dict(states=len(states), transitions=agg("transitions"),
                   traces_validated_against_impl=agg("executions"), evaluations=agg("executions"),
                   distinct_nontrivial=len(states),
                   rule=reports[0][1]["rule"] if reports else "",
                   exhaustive=complete, bounds=spec.get("bounds", ""),
                   scenarios=max([r["scenarios"] for _, r in reports], default=0),
                   max_choice_depth=max([r["max_depth"] for _, r in reports], default=0),
                   per_variant={n: dict(executions=sum(r["executions"] for m, r in reports if m == n),
                                        by_scenario=per_scenario.get(n, {}))
                                for n, _, _ in exes},
                   samples=samples or ["none"])
        ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
                  assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if bad else 0)
        ev["coverage"]["build_s"] = round(t_build, 2)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{pid} {tier}: {cov['evaluations']} executions, {cov['transitions']} transitions, {cov['states']} states, "
              f"{'exhaustive' if complete else 'NOT exhaustive'} within bounds, build {t_build:.1f}s, total {time.time()-t0:.1f}s")
        if not reports and not bad:
            print(f"{pid}: no answer")
            return 2
        if bad:
            name, scen, trail, msg, note, text = bad
            violation(pid, tier, name, scen, trail, msg, note, text)
            return 1
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def do_replay(path):
    r = json.load(open(path))
    spec = dict(CHECKS[r["property"]])
    spec["known"] = list(load_known(r["property"]))
    scratch = tempfile.mkdtemp(prefix="cru.replay.")
    try:
        for name, exe, v in build(r["property"], spec, scratch):
            if name == r["variant"]:
                rc, text = replay(exe, spec, r["tier"], r["scenario"], r["trail"], scratch, 120)
                print(text)
                print("status", rc)
                return 0 if rc == 0 else 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 2


def setup():
    os.environ["CRU_CACHE_WRITE"] = "1"
    shutil.rmtree(CACHE, ignore_errors=True)
    os.makedirs(CACHE, exist_ok=True)
    seen, jobs = set(), []
    for spec in CHECKS.values():
        for v in spec["variants"].values():
            for s in v["srcs"]:
                key = (s["src"], tuple(s["flags"]), s.get("cxx", "g++"))
                if key not in seen:
                    seen.add(key)
                    jobs.append(key)
    def one(j):
        d = tempfile.mkdtemp(prefix="cru.setup.")
        try:
            object_for(j[0].replace("@repo", REPO).replace("@verif", VERIF), list(j[1]), d, j[2])
            return None
        except BuildError as e:
            return f"{j[0]}: {e}"
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    for e in errs:
        print(e)
    print(f"setup: {len(jobs)} objects, {len(errs)} errors")
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        return setup()
    if a and a[0] == "--list":
        print("\n".join(CHECKS))
        return 0
    if a and a[0] == "--replay":
        return do_replay(a[1])
    return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))


if __name__ == "__main__":
    sys.exit(main())
