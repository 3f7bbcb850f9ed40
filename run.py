#!/usr/bin/env python3
"""Builds a check from /repo's current tree, explores, confirms what it finds by replay, writes the evidence file.

  run.py <property> [--thorough] [--budget S] [--only NAME] [--cxx g++|clang++]

exit 0: held on everything explored; 1: VIOLATION (confirmed by an independent replay); 2: no answer.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BPPTREE_REPO", "/repo")
MC = os.path.join(HERE, "mc")
BUILD = os.path.join(HERE, "build")


def files(*roots):
    r = []
    for root in roots:
        if os.path.isfile(root):
            r.append(root)
        for d, _, fs in os.walk(root):
            r += [os.path.join(d, f) for f in fs]
    return sorted(r)


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def compile_one(cmd, out, deps, log):
    key = digest(deps, " ".join(cmd))
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return None
    tmp = out + ".tmp%d" % os.getpid()
    p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return "%s\n%s" % (" ".join(cmd), p.stdout[-6000:])
    os.replace(tmp, out)
    with open(stamp, "w") as f:
        f.write(key)
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--only", default="")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    thorough = a.thorough or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    src = os.path.join(MC, "check_%s.cpp" % a.prop)
    text = open(src).read()

    def tag(name, default):
        m = re.search(r"^// %s: (.*)$" % name, text, re.M)
        return m.group(1).strip() if m else default

    ncfg = int(tag("CFGS", "1"))
    nthorough = int(tag("THOROUGH_CFGS", str(ncfg)))
    flags = tag("FLAGS", "").replace("{REPO}", REPO).split()
    cfgflags = tag("CFGFLAGS", "").split()        # additional flags for the check's own units only
    extra = tag("UNITS", "engine.cpp alloc.cpp").split()
    cxx = tag("CXX", "g++")
    n = nthorough if thorough else ncfg
    out = os.path.join(BUILD, a.prop)
    os.makedirs(out, exist_ok=True)
    base = [cxx, "-std=gnu++17", "-O1", "-g0", "-w", "-DBPPTREE_SAFETY_CHECKS", "-I" + REPO + "/include", "-I" + MC] + flags
    deps = files(REPO + "/include", REPO + "/examples") + [f for f in files(MC) if f.endswith(".hpp")]
    jobs = []
    for i in range(n):
        jobs.append((base + cfgflags + ["-DCFG=%d" % i, "-c", src], os.path.join(out, "cfg%d.o" % i), deps + [src]))
    for u in extra:
        jobs.append((base + ["-c", os.path.join(MC, u)], os.path.join(out, u.replace(".cpp", ".o")), deps + [os.path.join(MC, u)]))
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(j[0], j[1], j[2], None), jobs) if e]
    if errs:
        print("BUILD FAILED\n" + errs[0])
        return 2
    exe = os.path.join(out, "check")
    p = subprocess.run([cxx] + [j[1] for j in jobs] + ["-o", exe, "-pthread"] + tag("LDFLAGS", "").split(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print("LINK FAILED\n" + p.stdout[-4000:])
        return 2
    tb = time.time() - t0
    print("built %s in %.1fs" % (a.prop, tb), flush=True)
    if a.build_only:
        return 0
    stats_file = os.path.join(out, "stats.json")
    for f in (stats_file, os.path.join(out, "replay-candidate.txt")):
        if os.path.exists(f):
            os.remove(f)
    budget = a.budget or (float(tag("THOROUGH_BUDGET", "3000")) if thorough else float(tag("BUDGET", "240")))
    cmd = [exe, "--out", out, "--budget", str(budget)] + (["--thorough"] if thorough else []) + (["--only", a.only] if a.only else [])
    hard = budget * 1.5 + 240
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=hard)
        outp, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        outp, rc = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), -999
    print(outp[-20000:], flush=True)
    wall = time.time() - t0
    violations = 0
    result = 0
    m = re.search(r"^CANDIDATE (.*)$", outp, re.M)
    message = ""
    # findings: reported by the check itself (FINDING <tag> <text>) or by a use of the repository that must compile
    findings = re.findall(r"^FINDING (\S+) (.*)$", outp, re.M)
    for probe in tag("PROBES", "").split():
        name, f = probe.split("=")
        q = subprocess.run([cxx, "-std=gnu++17", "-w", "-fsyntax-only", "-DBPPTREE_SAFETY_CHECKS", "-I" + REPO + "/include"] + flags + [os.path.join(MC, f)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if q.returncode:
            e = re.search(r"error: (.*)", q.stdout)
            findings.append((name, "mc/%s does not compile: %s" % (f, e.group(1) if e else "?")))
    known = set()
    for line in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
        k = re.match(r"open: property=(\S+) (\S+)", line)
        if k and k.group(1) == a.prop:
            known.add(k.group(2))
    unlisted = []
    for name, what in findings:
        if name in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, name, what))
        else:
            unlisted.append("%s: %s" % (name, what))
    replay = ""
    if m:
        cand = m.group(1)
        mm = re.search(r"^MESSAGE (.*)$", outp, re.M)
        message = mm.group(1) if mm else ""
        replay = os.path.join(out, "replay-%s.txt" % a.prop)
        shutil.copy(cand, replay)
        try:
            r = subprocess.run([exe, "--replay", replay], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=150)
            confirmed, rout = r.returncode not in (0, 2), r.stdout
        except subprocess.TimeoutExpired:
            confirmed, rout = True, "the replay does not terminate"
        print("--- replay ---\n" + rout[-6000:])
        if confirmed:
            violations, result = 1, 1
        else:
            print("the candidate was not reproduced by replay: no verdict")
            result = 2
    elif unlisted:
        replay = os.path.join(out, "findings.txt")
        with open(replay, "w") as f:
            f.write("\n".join(unlisted) + "\n")
        message, violations, result = unlisted[0], len(unlisted), 1
    elif rc != 0:
        print("the exploration ended with status %d without a verdict" % rc)
        result = 2
    st = {}
    if os.path.exists(stats_file):
        st = json.load(open(stats_file))
    ev = {
        "property": a.prop,
        "tier": "thorough" if thorough else "quick",
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": st.get("states", 0),
            "transitions": st.get("transitions", 0) + st.get("probes", 0),
            "traces_validated_against_impl": st.get("replayed", 0),
            "samples": st.get("samples", [])[:12],
            "expanding_transitions": st.get("transitions", 0),
            "probe_transitions": st.get("probes", 0),
            "answers_compared": st.get("queries", 0),
            "explorations": st.get("explorations", 0),
            "explorations_closed": st.get("closed", 0),
            "longest_history": st.get("max_depth", 0),
            "deepest_tree": st.get("tree_depth", 0),
            "exhaustive": bool(st) and not st.get("capped", False),
            "per_exploration": st.get("lines", []),
            "how": "explicit-state breadth-first search over the real objects; every state is rebuilt from its history on fresh objects "
                   "(traces_validated_against_impl counts the states rebuilt a second time and found identical), every enabled operation is "
                   "executed in every state and every answer is compared with a plain reference model",
        },
        "assumptions": [x.strip() for x in tag("ASSUMES", "").split(";") if x.strip()],
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    if "schedules" in st:
        for k in ("expanding_transitions", "probe_transitions", "explorations_closed", "longest_history"):
            del ev["coverage"][k]
        ev["coverage"].update({
            "states": st["scheduling_points"],
            "transitions": st["scheduling_points"] + st["schedules"],
            "schedules": st["schedules"],
            "thread_programs": st["programs"],
            "memory_accesses_checked": st["accesses_checked"],
            "traces_validated_against_impl": st["schedules"],
            "how": "stateless exploration of the real code under a controlled scheduler: every program of the stated spaces is executed under every "
                   "schedule within the preemption bound (states are scheduling points, transitions the steps between them); every memory access is "
                   "checked against vector clocks and the state of its block, every answer is compared with what the thread would see alone",
        })
    if message:
        ev["coverage"]["violation_message"] = message
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if result == 1:
        print("%s: %s" % (a.prop, message))
        print("VIOLATION property=%s replay=%s" % (a.prop, replay))
    elif result == 0:
        print("%s: held on everything explored (%d states, %d transitions, %.1fs)" % (a.prop, ev["coverage"]["states"], ev["coverage"]["transitions"], wall))
    sys.stdout.flush()
    return result


if __name__ == "__main__":
    sys.exit(main())
