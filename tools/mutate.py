#!/usr/bin/env python3
"""Mutation campaign (development aid, no check uses it).

  mutate.py OUT.jsonl FILE.cpp...   mutate each source of /repo/src in a scratch copy; a mutant the project's own tests
                                    let pass is run against all checks (reduced case counts); survivors are listed.
"""
import concurrent.futures as cf, glob, hashlib, json, os, random, re, subprocess, sys, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import run as drv
W = os.environ.get("MT_DIR", "/tmp/mt")
REPO = os.environ.get("VM_REPO", "/repo")   # mutants are made in scratch, but the sources must not change meanwhile
SCALE = int(os.environ.get("MT_SCALE", "12"))   # quick cases divided by this
CHECKS = [c for c in sorted(drv.PROPS) if c not in ("C22", "C31")]
FIRST = {  # checks most likely to notice, tried first
    "EventTeachingService": "C02 C03 C25 C07 C16", "Configuration": "C02 C08 C27 C30 C05", "LongMessageService": "C18 C19 C01 C26",
    "MinimumNodeService": "C10 C11 C14 C15 C25", "MinimumNodeServiceWithDiagnostics": "C16 C14", "CanService": "C12 C24 C28 C13", "CanServiceWithDiagnostics": "C16",
    "EventProducerService": "C05 C06 C16 C25", "EventConsumerService": "C04 C16 C25", "NodeVariableService": "C07 C08 C25", "Controller": "C20 C13 C10 C02 C14",
    "GridConnect": "C17", "SerialGC": "C17", "CAN2515": "C29", "EventConsumerServiceWithDiagnostics": "C16", "EventProducerServiceWithDiagnostics": "C16", "EventTeachingServiceWithDiagnostics": "C16", "LEDUserInterface": "C21", "LED": "C33", "Switch": "C33", "SerialUserInterface": "C23", "Parameters": "C14", "Service": "C16"}
TI = ["-I" + REPO + "/examples" + s for s in ("", "/VLCB_1in1out", "/VLCB_4in4out", "/VLCB_empty", "/VLCB_long_message_example")] + ["-I" + REPO + "/src", "-I" + REPO + "/Arduino"]


def sh(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def code_lines(path):
    out, comment = [], False
    for i, l in enumerate(open(path).read().split("\n")):
        s = re.sub(r"//.*", "", l)
        if comment:
            if "*/" in s: comment = False
            continue
        if "/*" in s:
            if "*/" not in s: comment = True
            continue
        if not s.strip() or s.strip().startswith("#") or "DEBUG_SERIAL" in s: continue
        out.append((i, l, len(s)))
    return out


def mutants(path):
    res = []
    for i, l, n in code_lines(path):
        c = l[:n]
        instr = '"' in c
        def add(a, b, rep, what):
            res.append((i, l[:a] + rep + l[b:], what))
        if not instr:
            for m in re.finditer(r"<=|>=|==|!=|&&|\|\||(?<![<>-])[<>](?![<>=])|\+\+|--|\|=|&=|\+=|-=", c):
                if "include" in c or "template" in c: continue
                t = m.group(0)
                alts = {"<=": ["<", ">"], ">=": [">", "<"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "<": ["<=", ">="], ">": [">=", "<="], "++": ["--"], "--": ["++"], "|=": ["="], "&=": ["="], "+=": ["-=", "="], "-=": ["+="]}[t]
                for a in alts: add(m.start(), m.end(), a, t + "->" + a)
            for m in re.finditer(r"(?<=[\w\)\] ]) ?([+\-*/%]) ?(?=[\w\(])", c):
                if c[m.start():m.end()].strip() in "+-" : add(m.start(1), m.end(1), "-" if m.group(1) == "+" else "+", "arith")
                elif m.group(1) in "/%": add(m.start(1), m.end(1), "*", "arith")
            for m in re.finditer(r"(?<![\w.\[x])(\d+|0x[0-9A-Fa-f]+)(?![\w.])", c):
                v = int(m.group(1), 0)
                add(m.start(), m.end(), str(v + 1), "const+1")
                if v: add(m.start(), m.end(), str(v - 1), "const-1")
            for m in re.finditer(r"(?<![\w])(true|false)(?!\w)", c):
                add(m.start(), m.end(), "false" if m.group(1) == "true" else "true", "bool")
            for m in re.finditer(r"\[(\d)\]", c):
                v = int(m.group(1)); add(m.start(1), m.end(1), str(v + 1), "index+1")
                if v: add(m.start(1), m.end(1), str(v - 1), "index-1")
            m = re.match(r"(\s*(?:else )?(?:if|while) \()(.*)\)\s*\{?\s*$", c)
            if m:
                add(m.start(2), m.end(2), "!(" + m.group(2) + ")", "negate")
                if "if" in m.group(1):
                    add(m.start(2), m.end(2), "true || (" + m.group(2) + ")", "if-true"); add(m.start(2), m.end(2), "false && (" + m.group(2) + ")", "if-false")
            for m in re.finditer(r"\b(OPC_\w+|CMDERR_\w+|GRSP_\w+|MODE_\w+|SERVICE_ID_\w+|PF_\w+)\b", c):
                if not c.strip().startswith("case"): add(m.start(), m.end(), "(__typeof__(%s))(%s ^ 1)" % (m.group(1), m.group(1)), "symbol")
        s = c.strip()
        if s.endswith(";") and not re.match(r"(return\b.*\S|case|default|typedef|using|const|static|extern|struct|class|public|private|\w+(::\w+)?[ *&]+\w+( = .*|\[.*\])?;$|for)", s) and "(" in s or re.match(r"[\w\->.\[\]]+ *[|&+\-]?= *[^=].*;$", s) or re.match(r"(\+\+|--)?[\w\->.]+(\+\+|--)?;$", s):
            a = len(c) - len(c.lstrip())
            add(a, n, ";", "delete")
        if s.startswith("case ") and s.endswith(":") and s != "case 0:": add(len(c) - len(c.lstrip()), n, "", "case-removed")
    seen, out = set(), []
    for m in res:
        if (m[0], m[1]) not in seen: seen.add((m[0], m[1])); out.append(m)
    return out


def compile_(src, flags, out):
    return sh(["timeout", "120", "g++", "-w"] + flags + ["-c", src, "-o", out])


def prepare():
    os.makedirs(W + "/t", exist_ok=True); os.makedirs(W + "/s", exist_ok=True)
    jobs = []
    tested = set(re.findall(r"-c (\S+)", sh(["ninja", "-C", REPO + "/_build", "-t", "commands", "testAll"]).stdout.replace("/repo/", REPO + "/")))
    for f in sorted(tested): jobs.append((f, ["-g0", "-std=gnu++11"] + TI, W + "/t/" + os.path.basename(f) + ".o"))
    san = drv.SAN + ["-include", VERIF + "/harness/long32.h"] + drv.INC
    for f in sorted(glob.glob(REPO + "/src/*.cpp")): jobs.append((f, ["-std=gnu++11"] + san, W + "/s/" + os.path.basename(f) + ".o"))
    jobs.append((VERIF + "/harness/core.cpp", ["-std=gnu++17"] + drv.SAN + drv.INC, W + "/s/h_core.o"))
    for h in ("sim", "node"): jobs.append((VERIF + "/harness/%s.cpp" % h, ["-std=gnu++17"] + san, W + "/s/h_%s.o" % h))
    for c in CHECKS: jobs.append((VERIF + "/checks/%s.cpp" % c, ["-std=gnu++17"] + san, W + "/s/c_%s.o" % c))
    with cf.ThreadPoolExecutor(8) as ex:
        for j, r in zip(jobs, ex.map(lambda j: compile_(*j), jobs)):
            if r.returncode: print(j[0], r.stdout[-1500:]); sys.exit(1)
    r = sh(["g++"] + drv.SAN + drv.LINK + glob.glob(W + "/s/*.o") + ["-o", W + "/all"])
    if r.returncode: print(r.stdout[-3000:]); sys.exit(1)
    q = {}
    for line in sh([W + "/all", "list"], env=drv.run_env()).stdout.splitlines():
        d = json.loads(line); q[d["id"]] = d["quick"]
    # the unchanged library has to be quiet in this combined program
    def base(c):
        o = W + "/base_" + c; os.makedirs(o, exist_ok=True)
        subprocess.run([W + "/all", c, "1", "quick", "0", "1", str(max(60, q[c] // 2)), o, "10"], env=drv.run_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        known = drv.load_known(c)
        return [(c, b["kind"], b["key"]) for b in map(json.loads, open(o + "/res.0")) if b["type"] == "bad" and b["kind"] != "harness" and (b["key"] not in known or b["kind"] == "crash")]
    with cf.ThreadPoolExecutor(8) as ex:
        bad = [b for l in ex.map(base, CHECKS) for b in l]
    if bad: print("not quiet on the unchanged library:", bad[:5]); sys.exit(1)
    r = sh(["g++"] + glob.glob(W + "/t/*.o") + ["-o", W + "/testAll"])
    if r.returncode: print(r.stdout[-3000:]); sys.exit(1)
    return q


def judge(job):
    q, f, i, line, what, k = job
    d = "%s/m%d" % (W, k)
    os.makedirs(d, exist_ok=True)
    name = os.path.basename(f)
    try:
        src = open(f).read().split("\n")
        orig = src[i]; src[i] = line
        m = d + "/" + name
        open(m, "w").write("\n".join(src))
        rec = {"file": name, "line": i + 1, "what": what, "old": orig.strip(), "new": line.strip()}
        r = compile_(m, ["-g0", "-std=gnu++11"] + TI, d + "/t.o")
        if r.returncode: rec["result"] = "does-not-compile"; return rec
        objs = [o for o in glob.glob(W + "/t/*.o") if os.path.basename(o) != name + ".o"]
        r = sh(["g++"] + objs + [d + "/t.o", "-o", d + "/testAll"])
        if r.returncode and os.path.exists(W + "/t/" + name + ".o"): rec["result"] = "does-not-link"; return rec
        try:
            if not os.path.exists(W + "/t/" + name + ".o"): raise FileNotFoundError
            r = subprocess.run([d + "/testAll"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=20, cwd=d)
            if r.returncode: rec["result"] = "tests"; return rec
        except subprocess.TimeoutExpired:
            rec["result"] = "tests"; return rec
        except FileNotFoundError: pass
        san = drv.SAN + ["-include", VERIF + "/harness/long32.h"] + drv.INC
        r = compile_(m, ["-std=gnu++11"] + san, d + "/s.o")
        if r.returncode: rec["result"] = "does-not-compile-san"; return rec
        objs = [o for o in glob.glob(W + "/s/*.o") if os.path.basename(o) != name + ".o"]
        r = sh(["g++"] + drv.SAN + drv.LINK + objs + [d + "/s.o", "-o", d + "/all"])
        if r.returncode: rec["result"] = "does-not-link-san " + r.stdout[-300:]; return rec
        first = FIRST.get(name[:-4], "").split()
        if "C01" not in first: first.append("C01")
        for c in first if os.environ.get("MT_FIRST") else first + [c for c in CHECKS if c not in first]:   # MT_FIRST: only the checks concerned
            n = max(60, q[c] // SCALE)
            # the library's known findings do not count
            known = drv.load_known(c)
            o = d + "/o"; os.makedirs(o, exist_ok=True)
            try:
                subprocess.run([d + "/all", c, "1", "quick", "0", "1", str(n), o, "10"], env=drv.run_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
            except subprocess.TimeoutExpired:
                rec["result"] = "caught"; rec["check"] = c; rec["key"] = "timeout"; return rec
            for l in open(o + "/res.0"):
                b = json.loads(l)
                if b["type"] == "bad" and b["kind"] != "harness" and b["key"] not in known or b["type"] == "bad" and b["kind"] == "crash":
                    rec["result"] = "caught"; rec["check"] = c; rec["key"] = b["key"] or b["kind"]; return rec
        rec["result"] = "SURVIVED"
        return rec
    finally:
        subprocess.run(["rm", "-rf", d])


def main():
    out = sys.argv[1]
    q = prepare()
    jobs = []
    rng = random.Random(int(os.environ.get("MT_SEED", "1")))
    for f in sys.argv[2:]:
        f = REPO + "/src/" + f
        ms = mutants(f)
        cap = int(os.environ.get("MT_MAX", "100000"))
        if len(ms) > cap: ms = rng.sample(ms, cap)
        jobs += [(q, f, i, l, w, 0) for i, l, w in ms]
    done = set()
    if os.path.exists(out):   # resume
        for l in open(out):
            d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
    jobs = [j for j in jobs if (os.path.basename(j[1]), j[2] + 1, j[3].strip()) not in done]
    jobs = [j[:5] + (k,) for k, j in enumerate(jobs)]
    print(len(jobs), "mutants", flush=True)
    tally = {}
    with open(out, "a") as fh, cf.ThreadPoolExecutor(8) as ex:
        for k, rec in enumerate(ex.map(judge, jobs)):
            fh.write(json.dumps(rec) + "\n"); fh.flush()
            tally[rec["result"]] = tally.get(rec["result"], 0) + 1
            if k % 50 == 49: print(k + 1, tally, flush=True)
    print(tally)


main()
