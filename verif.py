#!/usr/bin/env python3
"""Driver of the property checks (see DESIGN.md).

  verif.py check ID            tier from VERIF_TIER (quick|thorough), seed from VERIF_SEED
  verif.py replay FILE         re-execute a replay file against /repo's current tree
  verif.py list

Harnesses under harness/ are compiled against /repo's working tree on every run; a content-addressed
cache under build/ only short-cuts byte-identical inputs.
"""
import concurrent.futures as cf
import hashlib, json, os, re, subprocess, sys, tempfile, threading, time, shutil

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, "build")
REPLAYS = os.path.join(ROOT, "replays")
EVID = os.path.join(ROOT, "evidence")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

sys.path.insert(0, ROOT)
from props import PROPS, VARIANTS  # noqa: E402

BASE_FLAGS = ["-std=c++14", "-g1", "-w", "-I" + os.path.join(HARNESS, "cfg"), "-I" + HARNESS]
RUN_ENV = dict(os.environ,
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:max_malloc_fill_size=16777216:malloc_fill_byte=165:"
                            "allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=1",
               UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=78",
               TSAN_OPTIONS="halt_on_error=1:exitcode=79:report_signal_unsafe=0",
               MALLOC_PERTURB_="165")


class BuildError(Exception):
    def __init__(self, cmd, log, genuine):
        Exception.__init__(self, "build failed")
        self.cmd, self.log, self.genuine = cmd, log, genuine


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash(path, exts=None):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(path)):
        ds[:] = sorted(x for x in ds if x != "__pycache__")
        if "__pycache__" in d:
            continue
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, path).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def cpu_flags():
    try:
        with open("/proc/cpuinfo") as f:
            for line in f:
                if line.startswith("flags"):
                    return set(line.split(":", 1)[1].split())
    except OSError:
        pass
    return set()


CPU = cpu_flags()


def run_compile(cmd, out):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        # one retry: a killed compiler (memory) is not a verdict about the code
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        genuine = re.search(r"(error|undefined reference|Error):?", p.stdout) is not None and "internal compiler error" not in p.stdout \
            and "Killed" not in p.stdout and "No space left" not in p.stdout
        raise BuildError(cmd, p.stdout, genuine)


_key_lock = threading.Lock()
_locks = {}


def keyed_lock(k):
    with _key_lock:
        return _locks.setdefault(k, threading.Lock())


class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.repo_hash = tree_hash(os.path.join(REPO, "include"))
        self.harness_hash = tree_hash(HARNESS)

    def shim(self, name):
        """A directory with sources of /repo passed through a stated textual transformation (e.g. CUDA launches)."""
        import shims
        key = sha("shim", name, self.repo_hash, self.harness_hash)
        d = os.path.join(BUILD, "shim-" + key)
        with keyed_lock(d):
            if not os.path.isdir(d):
                tmp = tempfile.mkdtemp(dir=BUILD)
                getattr(shims, name)(REPO, tmp)
                os.rename(tmp, d)
        return d

    def gen(self, seed):
        """A directory with a header of random cell types."""
        d = os.path.join(BUILD, "gen-%d-%s" % (seed, self.harness_hash[:16]))
        with keyed_lock(d):
            if not os.path.isdir(d):
                sys.path.insert(0, HARNESS)
                import gen
                tmp = tempfile.mkdtemp(dir=BUILD)
                with open(os.path.join(tmp, "gencells.hpp"), "w") as fh:
                    fh.write(gen.generate(seed))
                with open(os.path.join(tmp, "genlists.hpp"), "w") as fh:
                    fh.write(gen.lists(seed))
                with open(os.path.join(tmp, "genestimates.hpp"), "w") as fh:
                    fh.write(gen.estimates(seed))
                import genk
                with open(os.path.join(tmp, "genkernels.hpp"), "w") as fh:
                    fh.write(genk.kernels(seed))
                os.rename(tmp, d)
        return d

    def obj(self, src, compiler, flags, inc):
        key = sha(src, compiler, " ".join(flags), inc, self.repo_hash, self.harness_hash)
        out = os.path.join(BUILD, key + ".o")
        with keyed_lock(out):
            if not os.path.exists(out):
                tmp = out + ".%d.tmp" % os.getpid()
                cmd = [compiler] + flags + BASE_FLAGS + ["-I" + inc, "-c", os.path.join(HARNESS, src), "-o", tmp]
                run_compile(cmd, tmp)
                os.rename(tmp, out)
        return out

    def binary(self, src, variant, defines, fuzz=False, extra=(), shim=None):
        v = VARIANTS[variant]
        comp = v["cxx"]
        flags = list(v["flags"])
        link = list(v.get("link", []))
        inc = os.path.join(REPO, "include")
        if shim:
            inc = self.shim(shim)
        san = [f for f in flags if f.startswith("-fsanitize")]
        mflags = ["-O1"] + san
        if fuzz:
            flags += ["-fsanitize=fuzzer-no-link"]
            mflags += ["-DPBT_LIBFUZZER"]
            link += ["-fsanitize=fuzzer"]
        flags += ["-D" + d for d in defines] + list(extra)
        for d in defines:
            if d.startswith("GENSEED="):
                flags += ["-I" + self.gen(int(d.split("=")[1]))]
        o1 = self.obj(src, comp, flags, inc)
        o2 = self.obj("pbt_main.cpp", comp, mflags, inc)
        out = os.path.join(BUILD, sha("bin", o1, o2, " ".join(link)))
        with keyed_lock(out):
            if not os.path.exists(out):
                tmp = out + ".%d.tmp" % os.getpid()
                run_compile([comp] + san + [o1, o2] + link + ["-o", tmp, "-lpthread"], tmp)
                os.rename(tmp, out)
        return out


def list_targets(binary, prefix):
    p = subprocess.run([binary, "--list"], stdout=subprocess.PIPE, text=True, env=RUN_ENV)
    return sorted(t for t in p.stdout.split() if t.startswith(prefix))


def known_findings():
    res = []
    try:
        with open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) target=(\S+) message~/(.*)/ :: (.*)$", line.strip())
                if m:
                    res.append(m.groups())
    except OSError:
        pass
    return res


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    P = PROPS[pid]
    T = P[tier] if tier in P else P["quick"]
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    try:
        os.unlink(os.path.join(EVID, pid + ".json"))
    except OSError:
        pass
    B = Builder()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    failures, results, skipped, notes = [], [], [], []
    stop = threading.Event()
    lock = threading.Lock()
    pool = cf.ThreadPoolExecutor(JOBS)
    futs = []

    def submit(fn, *a):
        f = pool.submit(fn, *a)
        with lock:
            futs.append(f)

    def run_job(binary, variant, unit, target, n, begin, shard):
        if stop.is_set():
            return
        out = os.path.join(tmp, "%s-%s-%s-%d.json" % (variant, sha(*unit)[:12], target, shard))
        hsh = out + ".h"
        salt = variant
        cmd = [binary, "--target", target, "--seed", str(seed), "--salt", salt, "--begin", str(begin), "--end", str(begin + n),
               "--out", out, "--hashes", hsh, "--budget", str(T.get("budget", 200 if tier == "quick" else 1500)),
               "--samples", "12" if shard == 0 else "0"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=RUN_ENV, cwd=tmp)
        if p.returncode != 0 or not os.path.exists(out):
            raise RuntimeError("runner failed (%s): %s" % (" ".join(cmd), p.stdout[-2000:]))
        r = json.load(open(out))
        r.update(variant=variant, unit=unit, target=target, hashes=hsh, begin=begin)
        with lock:
            results.append(r)
        if "failure" in r:
            record_failure(r, variant, unit, target)

    def record_failure(r, variant, unit, target):
        f = r["failure"]
        # a race that was seen once did happen; anything else has to be reproducible
        race = P.get("racy") and (f["kind"] == "property" or "status 79" in f["message"])
        if f["mode"] == "run" and f["confirmed"] == 0 and not race:
            notes.append("unconfirmed failure in %s/%s: %s" % (variant, target, f["message"]))
            return
        for (kp, kt, rx, text) in known_findings():
            if kp == pid and kt == target and re.search(rx, f["message"]):
                with lock:
                    known.append(text)
                return
        name = "%s-%s-%s-%s.json" % (pid, target, variant, sha(json.dumps(f, sort_keys=True))[:8])
        path = os.path.join(REPLAYS, name)
        with open(path, "w") as fh:
            json.dump({"property": pid, "target": target, "variant": variant, "unit": unit, "seed": seed, "salt": variant, "failure": f}, fh, indent=1)
        with lock:
            failures.append((path, target, variant, f))
        stop.set()

    known = []

    def fuzz_job(binary, plain, variant, unit, target, seconds):
        if stop.is_set():
            return
        d = tempfile.mkdtemp(dir=tmp)
        os.makedirs(os.path.join(d, "corpus"))
        dump = os.path.join(d, "values")
        env = dict(RUN_ENV, PBT_TARGET=target, PBT_FUZZ_DUMP=dump)
        p = subprocess.run([binary, "-seed=%d" % (seed + 1), "-max_total_time=%d" % seconds, "-max_len=600", "-timeout=60", "-print_final_stats=1",
                            "-artifact_prefix=" + d + "/", os.path.join(d, "corpus")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=d)
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", p.stdout)
        n = int(m.group(1)) if m else 0
        cov = re.findall(r"cov: (\d+)", p.stdout)
        with lock:
            results.append({"fuzz": True, "evaluations": n, "variant": variant, "target": target, "coverage_edges": int(cov[-1]) if cov else 0,
                            "corpus": len(os.listdir(os.path.join(d, "corpus")))})
        if p.returncode != 0 and os.path.exists(dump):
            # re-run the recorded choices through the plain runner: shrinks and confirms
            q = subprocess.run([plain, "--target", target, "--replay-values", dump], stdout=subprocess.PIPE, text=True, env=RUN_ENV)
            vals = [int(x) for x in open(dump).read().split()]
            if q.returncode == 1:
                record_failure({"failure": {"mode": "values", "kind": "fuzz", "values": vals, "message": q.stdout[-1500:], "decoded": q.stdout[:6000]}},
                               variant, unit, target)
            else:
                notes.append("fuzzer failure not confirmed by replay in %s/%s" % (variant, target))

    def build_job(variant, unit):
        if stop.is_set():
            return
        binary = B.binary(P["src"], variant, unit, extra=P.get("extra", []), shim=P.get("shim"))
        targets = list_targets(binary, pid + "_")
        if not targets:
            raise RuntimeError("no targets in %s %s" % (variant, unit))
        scale = VARIANTS[variant].get("scale", 1.0)
        for t in targets:
            w = 1.0
            for k, x in P.get("weights", {}).items():
                if re.search(k, t):
                    w = x
            n = int(T["cases"] * w)
            n = max(int(n * scale), 1)
            shards = T.get("shards", 1)
            per = (n + shards - 1) // shards
            for s in range(shards):
                submit(run_job, binary, variant, unit, t, per, s * per, s)
        if variant in T.get("fuzz_variants", []):
            fb = B.binary(P["src"], variant, unit, fuzz=True, extra=P.get("extra", []), shim=P.get("shim"))
            for t in targets:
                submit(fuzz_job, fb, binary, variant, unit, t, T.get("fuzz_seconds", 60))

    all_units = [] if P.get("only_gen") else list(P.get("units", [[]]))
    for i in range(T.get("gen", 0)):
        all_units.append(["UNIT=9", "GENSEED=%d" % (seed * 10000 + int(sha(pid), 16) % 97 * 100 + i)])
    for variant in T["variants"]:
        need = VARIANTS[variant].get("cpu", [])
        if any(x not in CPU for x in need):
            skipped.append(variant)
            continue
        for unit in all_units:
            submit(build_job, variant, unit)

    error = None
    i = 0
    while True:
        with lock:
            if i >= len(futs):
                break
            f = futs[i]
        i += 1
        try:
            f.result()
        except BuildError as e:
            if e.genuine:
                path = os.path.join(REPLAYS, "%s-build-%s.txt" % (pid, sha(" ".join(e.cmd))[:8]))
                with open(path, "w") as fh:
                    fh.write("a harness that only uses the public interface no longer compiles\n" + " ".join(e.cmd) + "\n" + e.log[:20000])
                failures.append((path, "build", "-", {"message": "harness does not compile any more:\n" + e.log[:1500]}))
                stop.set()
            else:
                error = "build problem: %s\n%s" % (" ".join(e.cmd), e.log[-3000:])
                stop.set()
        except Exception as e:  # noqa
            error = "internal: %r" % (e,)
            stop.set()
    pool.shutdown()

    # aggregate
    hs = set()
    for r in results:
        if "hashes" in r and os.path.exists(r["hashes"]):
            b = open(r["hashes"], "rb").read()
            tag = (r["target"], str(r.get("unit")))
            for j in range(0, len(b), 8):
                hs.add((tag, b[j:j + 8]))
    labels = {}
    for r in results:
        for k, v in r.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + v
    samples, seen_t = [], set()
    for r in sorted(results, key=lambda r: (r.get("variant"), r.get("target"))):
        if r.get("samples") and r["target"] not in seen_t and len(samples) < 12:
            seen_t.add(r["target"])
            samples.append({"target": r["target"], "variant": r["variant"], "case": r["samples"][0]})
    fuzz = [r for r in results if r.get("fuzz")]
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r.get("evaluations", 0) for r in results),
            "distinct_nontrivial": len(hs),
            "rule": P["rule"],
            "samples": samples,
            "operations": sum(r.get("ops", 0) for r in results),
            "labels": labels,
            "variants": sorted(set(r["variant"] for r in results)),
            "variants_skipped_no_cpu_support": skipped,
            "targets": sorted(set(r["target"] for r in results)),
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    if fuzz:
        ev["coverage"]["libfuzzer"] = [{k: r[k] for k in ("target", "variant", "evaluations", "coverage_edges", "corpus")} for r in fuzz]
    if notes:
        ev["coverage"]["notes"] = notes
    with open(os.path.join(EVID, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    shutil.rmtree(tmp, ignore_errors=True)
    for k in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for n in notes:
        print("note:", n)
    if failures:
        for path, target, variant, f in failures:
            print("--- %s (%s, variant %s)" % (pid, target, variant))
            print(f.get("decoded", "").rstrip()[-3000:])
            print("=>", f["message"])
            if f.get("stderr"):
                print(f["stderr"][:1500])
        for path, *_ in failures:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.stdout.flush()
        return 1
    if error:
        print("ERROR:", error)
        return 2
    print("%s %s: held on %d cases (%d distinct non-trivial), variants %s, %.1f s" % (
        pid, tier, ev["coverage"]["evaluations"], len(hs), ",".join(ev["coverage"]["variants"]), ev["wall_s"]))
    return 0


def replay(path):
    r = json.load(open(path))
    pid = r["property"]
    P = PROPS[pid]
    B = Builder()
    try:
        binary = B.binary(P["src"], r["variant"], r["unit"], extra=P.get("extra", []), shim=P.get("shim"))
    except BuildError as e:
        print(e.log)
        return 1
    f = r["failure"]
    if f["mode"] == "values":
        with tempfile.NamedTemporaryFile("w", delete=False) as t:
            t.write("\n".join(map(str, f["values"])))
        p = subprocess.run([binary, "--target", r["target"], "--replay-values", t.name], env=RUN_ENV)
        os.unlink(t.name)
    else:
        p = subprocess.run([binary, "--target", r["target"], "--replay-run", "--seed", str(r["seed"]), "--salt", r["salt"],
                            "--begin", str(f["begin"]), "--end", str(f["end"])], env=RUN_ENV)
    if p.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return p.returncode


if __name__ == "__main__":
    if len(sys.argv) >= 3 and sys.argv[1] == "check":
        sys.exit(check(sys.argv[2]))
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) >= 2 and sys.argv[1] == "list":
        print("\n".join(sorted(PROPS)))
        sys.exit(0)
    print(__doc__)
    sys.exit(2)
