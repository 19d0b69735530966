#!/usr/bin/env python3
"""Driver: builds the monitored module from /repo's working tree, runs one property's workload sharded over the
cores, judges what the monitors reported, and writes the evidence file.

  run.py C02 [--tier quick|thorough] [--cases N]     run a check
  run.py --replay FILE                               re-run the case of a replay file
  run.py --build-only                                build everything once (setup)
Exit 0: held on everything explored.  Exit 1 with "VIOLATION property=.. replay=..": broken.  Exit 2: no verdict.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VM_REPO", "/repo")
BUILD = os.environ.get("VM_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VM_JOBS", "8"))

SAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
PLAIN = ["-O1", "-g"]
LINK = ["-Wl,--wrap=malloc", "-Wl,--wrap=free"]   # lets a check make an allocation of the library fail, and count what is in use
INC = ["-I", REPO + "/src", "-I", REPO + "/Arduino", "-I", VERIF + "/harness"]

# Which check sources make up the binary of each property; properties without an entry use checks/<id>.cpp only.
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402


class HarnessError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


_hdr_hash = None


def headers_hash():
    global _hdr_hash
    if _hdr_hash is None:
        h = hashlib.sha256()
        for d in (REPO + "/src", REPO + "/Arduino", VERIF + "/harness", VERIF + "/checks", VERIF + "/platform"):
            for f in sorted(glob.glob(d + "/**/*", recursive=True)):
                if os.path.isfile(f) and not f.endswith((".cpp", ".md", ".py")):
                    h.update(f.encode() + b"\0")
                    with open(f, "rb") as fh:
                        h.update(fh.read())
        for f in sorted(glob.glob(REPO + "/examples/**/*", recursive=True)):
            if os.path.isfile(f):
                with open(f, "rb") as fh:
                    h.update(f.encode() + b"\0" + fh.read())
        _hdr_hash = h.hexdigest()
    return _hdr_hash


def sources_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + "/src/*.cpp")):
        with open(f, "rb") as fh:
            h.update(f.encode() + b"\0" + fh.read())
    return h.hexdigest()[:15]


def compile_one(src, flags, cxx):
    with open(src, "rb") as fh:
        content = fh.read()
    key = hashlib.sha256(b"\0".join([src.encode(), content, headers_hash().encode(), " ".join(flags).encode(), cxx.encode()])).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh([cxx, "-w"] + flags + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            raise HarnessError("compile of %s failed:\n%s" % (src, r.stdout[-6000:]))
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj


def build(prop, variant="san"):
    """Builds the binary for a property and returns its path."""
    try:
        return build_as(prop, variant, True)
    except HarnessError as e:
        # the width of long cannot be narrowed for every conceivable source (`long long`)
        print("note: not built with a 32-bit long: %s" % str(e)[:300])
        return build_as(prop, variant, False)


# Built as for an ESP32, so that restarting the board is a call the harness sees. (EepromInternalStorage does not compile
# for it, and has nothing to do with restarts.)
BOARD = ["-DESP32", "-include", VERIF + "/harness/platform/esp32.h"]


def compile_library(src, flags):
    """Returns the object and whether it was built with restarts visible."""
    if not src.endswith("/EepromInternalStorage.cpp"):
        try:
            return compile_one(src, flags + BOARD, "g++"), True
        except HarnessError as e:
            err = e
        try:
            obj = compile_one(src, flags, "g++")
        except HarnessError:
            raise err
        print("note: %s not built for the board with visible restarts: %s" % (os.path.basename(src), str(err)[:300]))
        return obj, False
    return compile_one(src, flags, "g++"), True


def build_as(prop, variant, narrow):
    cfg = PROPS[prop]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    base = SAN if variant == "san" else PLAIN
    extra = cfg.get("defines", [])
    if narrow:
        extra = extra + ["-include", VERIF + "/harness/long32.h"]
    inc = [x for d in cfg.get("include", []) for x in ("-I", os.path.join(VERIF, d))] + (["-I", REPO + "/examples"] if cfg.get("examples") else []) + INC
    jobs = []
    for s in sorted(glob.glob(REPO + "/src/*.cpp")):
        jobs.append((s, ["-std=gnu++11"] + base + extra + inc, None))
    for s in cfg.get("harness", ["core.cpp", "sim.cpp", "node.cpp"]):
        jobs.append((VERIF + "/harness/" + s, ["-std=gnu++17"] + base + (cfg.get("defines", []) if s == "core.cpp" else extra) + inc, "g++"))
    for s in cfg.get("sources", [prop + ".cpp"]):
        # a pair gives a source that includes library sources itself, with an include directory of its own
        own = []
        if not isinstance(s, str):
            s, d = s
            own = ["-I", VERIF + "/" + d, "-DVM_SRC_HASH=0x" + sources_hash()]
        jobs.append((VERIF + "/checks/" + s, ["-std=gnu++17"] + base + extra + own + inc, "g++"))
    # slowest first
    jobs.sort(key=lambda j: j[0].startswith(REPO))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda j: compile_one(*j) if j[2] else compile_library(j[0], j[1]), jobs))
    objs = [r[0] if isinstance(r, tuple) else r for r in res]
    if not all(r[1] for r in res if isinstance(r, tuple)):
        os.environ["VM_NO_RESTARTS"] = "1"  # a restart that is not seen is not judged
    key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:32]
    out = os.path.join(BUILD, "bin", prop + "-" + variant + ("" if narrow else "-wide") + "-" + key)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh(["g++"] + base + LINK + objs + ["-o", tmp])
        if r.returncode != 0:
            raise HarnessError("link failed:\n" + r.stdout[-6000:])
        os.replace(tmp, out)
    return out


def gc_build():
    """Keep the object cache bounded."""
    fs = []
    for d in ("obj", "bin"):
        for f in glob.glob(os.path.join(BUILD, d, "*")):
            try:
                st = os.stat(f)
                fs.append((st.st_mtime, st.st_size, f))
            except OSError:
                pass
    total = sum(s for _, s, _ in fs)
    for _, size, f in sorted(fs):
        if total < 1.5e9:
            break
        try:
            os.unlink(f)
        except OSError:
            pass
        total -= size


def run_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:symbolize=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    return e


def crash_key(rec):
    """Stable identification of a sanitizer report: kind plus innermost frames in the code under test."""
    err = rec.get("stderr", "")
    if rec["kind"] == "hang":
        return "hang"
    kind = "crash-rc%d" % rec["rc"]
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        kind = "asan-" + m.group(1)
    else:
        m = re.search(r"runtime error: (.+)", err)
        if m:
            t = re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))
            kind = "ubsan-" + re.sub(r"[^A-Za-z]+", "-", t)[:60]
        elif "std::bad_alloc" in err or "terminate called" in err:
            kind = "terminate"
    fn = "unknown"
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", err):
        if m.group(2).startswith((REPO + "/src", REPO + "/examples")):
            fn = re.sub(r"^i\d+::", "", re.sub(r"\(.*", "", m.group(1)))  # the copies of a sketch are one
            break
    # a check names the input it gives for a defect that is known, so that only that input is recognised
    m = re.search(r"provoking: (\S+)(?!.*provoked)", rec.get("trace", "").replace("\n", " ")[-20000:])
    return kind + "@" + fn + ("[" + m.group(1) + "]" if m else "")


def load_known(prop):
    known = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d["property"] == prop:
                known[d["key"]] = d["what"]
    return known


def run_shards(binary, prop, seed, tier, cases, outdir, cpu):
    procs = []
    for s in range(JOBS):
        procs.append(subprocess.Popen([binary, prop, str(seed), tier, str(s), str(JOBS), str(cases), outdir, str(cpu)],
                                      env=run_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    limit = 840 if tier == "quick" else 6 * 3600
    t0 = time.time()
    for p in procs:
        try:
            p.wait(timeout=max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            for q in procs:
                q.kill()
            raise HarnessError("run did not finish within %d s: inconclusive" % limit)
    for p in procs:
        if p.returncode != 0:
            raise HarnessError("runner shard failed rc=%s" % p.returncode)


def run_valgrind(prop, seed, tier, cfg, outdir):
    """The same workload without compiler instrumentation under memcheck: uninitialised values."""
    binary = build(prop, "plain")
    n = cfg["valgrind"][0 if tier == "quick" else 1]
    per = max(1, n // JOBS)
    procs = []
    for s in range(JOBS):
        log = os.path.join(outdir, "vg.%d" % s)
        procs.append((s, log, subprocess.Popen(
            ["valgrind", "-q", "--error-exitcode=99", "--track-origins=no", "--undef-value-errors=yes", "--log-file=" + log,
             binary, prop, str(seed), tier, "inproc", str(s * per), str((s + 1) * per)],
            stdout=subprocess.DEVNULL, stderr=open(log + ".err", "w"))))
    bad, done = [], 0
    for s, log, p in procs:
        try:
            p.wait(timeout=700 if tier == "quick" else 3600)
        except subprocess.TimeoutExpired:
            p.kill()
            raise HarnessError("valgrind run did not finish: inconclusive")
        text = open(log, errors="replace").read()
        err = open(log + ".err", errors="replace").read()
        if p.returncode == 0 and "VM-DONE" in err:
            done += per
            continue
        last = re.findall(r"VM-CASE (\d+)", err)
        if p.returncode == 99 or "==" in text:
            m = re.search(r"==\d+== (.+)\n", text)
            fm = re.search(r"(?:at|by) 0x[0-9A-F]+: (VLCB::[^\(\n]+)", text)
            bad.append({"kind": "valgrind", "rc": 99, "case": int(last[-1]) if last else 0,
                        "key": "memcheck-" + re.sub(r"[^A-Za-z]+", "-", m.group(1) if m else "error")[:50] + "@" + (fm.group(1) if fm else "unknown"),
                        "msg": text[:3000], "trace": "", "stderr": text[:15000]})
        elif p.returncode == 3:
            done += per  # a behavioural violation, which the sanitizer build reports with its trace
        else:
            raise HarnessError("valgrind shard rc=%s: %s %s" % (p.returncode, text[-500:], err[-500:]))
    return done, bad


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()

    if a.build_only:
        for p in sorted(PROPS):
            build(p)
        print("built", len(PROPS))
        return 0

    if a.replay:
        r = json.load(open(a.replay))
        binary = build(r["property"])
        out = os.path.join(BUILD, "replay-%d" % os.getpid())
        os.makedirs(out, exist_ok=True)
        p = subprocess.run([binary, r["property"], str(r["seed"]), r["tier"], "case", str(r["case"]), out], env=run_env())
        shutil.rmtree(out)
        return p.returncode

    prop = a.prop
    cfg = PROPS[prop]
    t0 = time.time()
    binary = build(prop)
    t_build = time.time() - t0
    info = None
    for line in sh([binary, "list"], env=run_env()).stdout.splitlines():
        d = json.loads(line)
        if d["id"] == prop:
            info = d
    if info is None:
        raise HarnessError("binary has no check " + prop)
    cases = a.cases or info[a.tier]
    outdir = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    cpu = cfg.get("cpu", 20)
    try:
        run_shards(binary, prop, a.seed, a.tier, cases, outdir, cpu)
        tot = {"evaluations": 0, "nontrivial": 0, "observed": 0}
        counters, samples, bad = {}, [], []
        hashes, states = set(), set()
        for s in range(JOBS):
            for line in open(os.path.join(outdir, "res.%d" % s)):
                d = json.loads(line)
                if d["type"] == "sample":
                    samples.append({"case": d["case"], "trace": d["trace"]})
                elif d["type"] == "bad":
                    bad.append(d)
                else:
                    for k in tot:
                        tot[k] += d[k]
                    for k, v in d["counters"].items():
                        counters[k] = counters.get(k, 0) + v
            for name, acc in (("hash", hashes), ("states", states)):
                with open(os.path.join(outdir, "%s.%d" % (name, s)), "rb") as fh:
                    data = fh.read()
                acc.update(struct.unpack("<%dQ" % (len(data) // 8), data))
        vg_done = 0
        if cfg.get("valgrind") and not any(b["kind"] != "valgrind" for b in bad):
            vg_done, vg_bad = run_valgrind(prop, a.seed, a.tier, cfg, outdir)
            bad += vg_bad

        # Judge.
        errors = [b for b in bad if b["kind"] == "harness"]
        real = [b for b in bad if b["kind"] != "harness"]
        for b in real:
            if b["kind"] in ("hang", "crash"):
                b["key"] = crash_key(b)
                if b["key"].endswith("@unknown") and re.search(r"#\d+ 0x[0-9a-f]+ in .*" + re.escape(VERIF), b["stderr"]):
                    # the report names only code of this framework: a defect here, not a verdict
                    errors.append(dict(b, msg="framework defect: " + b["stderr"][:1500]))
        real = [b for b in real if not any(e.get("case") == b["case"] for e in errors)]
        confirmed = []
        for b in real:
            if b["kind"] == "hang":
                # run once more with three times the CPU time before believing it
                o2 = os.path.join(outdir, "again")
                os.makedirs(o2, exist_ok=True)
                r = subprocess.run([binary, prop, str(a.seed), a.tier, "case", str(b["case"]), o2, str(cpu * 3)],
                                   env=run_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                again = [json.loads(l) for l in open(os.path.join(o2, "res.0"))]
                if any(x["type"] == "bad" and x["kind"] == "hang" for x in again):
                    confirmed.append(b)
                else:
                    print("note: case %d timed out once and finished on the second run" % b["case"])
                if len([c for c in confirmed if c["kind"] == "hang"]) >= 2:
                    break
            else:
                confirmed.append(b)
        known = load_known(prop)
        seen_known, viol = {}, {}
        for b in confirmed:
            if b["key"] in known:
                seen_known.setdefault(b["key"], b)
            else:
                viol.setdefault(b["key"], b)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)

    # Coverage floor: a run that observed nothing is no verdict.
    missing = [n for n in cfg.get("must_observe", []) if counters.get(n, 0) == 0]

    evidence = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": tot["evaluations"],
            "distinct_nontrivial": len(hashes),
            "rule": info["rule"] + " A case counts as distinct and non-trivial when the oracle compared at least one observation in it and the hash of everything it observed differs from every other case.",
            "samples": sorted(samples, key=lambda s: s["case"])[:4],
            "oracle_comparisons": tot["observed"],
            "distinct_abstract_states": len(states),
            "observed_events": dict(sorted(counters.items())),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    if cfg.get("valgrind"):
        evidence["coverage"]["memcheck_cases"] = vg_done
    if seen_known:
        evidence["coverage"]["known_findings_seen"] = sorted(seen_known)
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)

    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[k], k))
    print("%s: %d cases, %d distinct, %d oracle comparisons, %d states, build %.1fs, total %.1fs" %
          (prop, tot["evaluations"], len(hashes), tot["observed"], len(states), t_build, time.time() - t0))
    if viol:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for k, b in sorted(viol.items()):
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", k)[:80]))
            json.dump({"property": prop, "seed": a.seed, "tier": a.tier, "case": b["case"], "key": k, "kind": b["kind"],
                       "message": b["msg"], "trace": b["trace"], "stderr": b["stderr"],
                       "how": "python3 /verif/run.py --replay " + path}, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  key=%s case=%d %s" % (k, b["case"], b["msg"][:600].replace("\n", "\n  ")))
            if b["kind"] in ("crash", "valgrind"):
                print("  " + b["stderr"][:1500].replace("\n", "\n  "))
        return 1
    if errors:
        print("HARNESS: " + errors[0]["msg"])
        return 2
    if missing or tot["observed"] == 0:
        print("INCONCLUSIVE: nothing observed for " + ", ".join(missing or ["any oracle"]))
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
        gc_build()
    except HarnessError as e:
        print("HARNESS: %s" % e)
        rc = 2
    sys.exit(rc)
