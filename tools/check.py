#!/usr/bin/env python3
"""Driver: check.py <property-id>.  Compiles the specifications of the property together with /repo's
current sources to LLVM IR, runs the abstract interpreter on every entry, runs the syntax-tree and
compile-witness rules of the property, and writes the verdict and the evidence."""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
REPO = os.environ.get("ROFL_REPO", "/repo")
CLANG = "/usr/bin/clang++"
ENGINE = os.path.join(VERIF, "build", "roflai")
INC = ["-I" + os.path.join(VERIF, "specs"), "-I" + REPO + "/common/include", "-I" + REPO + "/geometry/include",
       "-I" + REPO + "/pcl/include", "-I/usr/include/eigen3"]
BASE = ["-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DEIGEN_DONT_VECTORIZE",
        "-DEIGEN_MAX_STATIC_ALIGN_BYTES=0", "-DEIGEN_NO_DEBUG" ]


# the model streams include less than the real ones; code may rely on what those bring in
PRELUDE = [w for h in ("vector", "algorithm", "functional", "memory", "map", "set", "string", "cmath", "numeric") for w in ("-include", h)]
FOUND = []


class Broken(Exception):
    pass


def run(cmd, timeout=800):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return -9, "", "timeout"


def ensure_engine():
    if not os.path.exists(ENGINE):
        rc, o, e = run(["make", "-C", os.path.join(VERIF, "engine"), "-j8"])
        if rc != 0:
            raise Broken("engine does not build: " + e[-2000:])


def compile_bc(src, out, flags):
    cmd = [CLANG, "-c", "-emit-llvm"] + BASE + flags + INC + [src, "-o", out]
    rc, o, e = run(cmd, 300)
    if rc != 0:
        raise Broken("cannot compile %s for analysis:\n%s" % (src, e[-3000:]))
    return out


def analyse_module(pool, work, mod, tier, seed, deadline):
    """mod: dict(spec, srcs, flags, entries?)"""
    name = os.path.splitext(os.path.basename(mod["spec"]))[0]
    work = tempfile.mkdtemp(prefix=name + "_", dir=work)  # several modules may share a specification
    srcs = [os.path.join(VERIF, "specs", mod["spec"])]
    for s in mod.get("support", ["support.cpp"]):
        srcs.append(os.path.join(VERIF, "specs", s))
    for s in mod.get("srcs", []):
        m = sorted(glob.glob(os.path.join(REPO, s)))
        if not m:
            raise Broken("anchor vanished: no source matches " + s)
        srcs += m
    futs = []
    for i, s in enumerate(srcs):
        futs.append(pool.submit(compile_bc, s, os.path.join(work, "%s_%d.bc" % (name, i)), mod.get("flags", []) + (["-isystem", os.path.join(VERIF, "specs", "model")] + PRELUDE if mod.get("model") else [])))
    bcs = [f.result() for f in futs]
    rc, o, e = run([ENGINE] + bcs + ["--list"])
    if rc != 0:
        raise Broken("cannot list entries: " + e[-1000:])
    entries = [x for x in o.split() if x]
    pref = mod.get("prefix", "spec_")
    entries = [x for x in entries if x.startswith(pref)]
    if tier == "quick":
        entries = [x for x in entries if not x.startswith("spec_thorough_")]
    want = mod.get("min_entries", 1)
    if len(entries) < want:
        raise Broken("only %d of %d specification entries" % (len(entries), want))
    out = []

    def one(e):
        outf = os.path.join(work, name + "_" + e + ".json")
        secs = max(20, deadline - time.time())
        cmd = [ENGINE] + bcs + ["--entry", e, "--out", outf, "--tier", "1" if tier == "thorough" else "0", "--repo", REPO, "--specs",
                                os.path.join(VERIF, "specs"), "--secs", "%.0f" % secs, "--seed", str(seed)]
        cmd += mod.get("args", [])
        if FOUND and time.time() > FOUND[0]:
            return {"entry": e, "cancelled": True}
        pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        t1 = time.time()
        er, rc = "", None
        while rc is None:
            try:
                o, er = pr.communicate(timeout=0.5)
                rc = pr.returncode
            except subprocess.TimeoutExpired:
                if time.time() > t1 + secs + 60:
                    pr.kill()
                    rc, er = -9, "timeout"
                elif FOUND and time.time() > FOUND[0] and time.time() > t1 + 5:
                    pr.kill()
                    pr.communicate()
                    return {"entry": e, "cancelled": True}
        if rc != 0 or not os.path.exists(outf):
            return {"entry": e, "crash": "exit %s: %s" % (rc, er[-800:])}
        d = json.load(open(outf))
        if d["violations"] and not FOUND:
            FOUND.append(time.time() + 15)  # a violation decides the run: the other entries get a little more time
        return d

    return [(mod, pool.submit(one, e)) for e in entries]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = 420 if tier == "quick" else 840
    deadline = t0 + budget
    import props
    import catalog
    cfg = dict(props.PROPS[pid])
    for c in catalog.CAT:
        if c["id"] == pid:
            cfg.update(level=c["level"], explain=c["explain"], assume=c["assume"])
    work = tempfile.mkdtemp(prefix="rofl_%s_" % pid)
    violations, notes, results = [], [], []
    broken = None
    rules = []
    try:
        if cfg.get("modules"):
            ensure_engine()
        with cf.ThreadPoolExecutor(max_workers=8) as pool, cf.ThreadPoolExecutor(max_workers=8) as pool2:
            pend = []
            try:
                for f in [pool2.submit(analyse_module, pool, work, m, tier, seed, deadline) for m in cfg.get("modules", [])]:
                    pend += f.result()
            except Broken:
                FOUND.append(0)  # no verdict: end the analyses that run
                raise
            for m, f in pend:
                d = f.result()
                d["spec"] = m["spec"]
                results.append(d)
        for fn in cfg.get("rules", []):
            r = fn(REPO, work, tier)
            rules.append(r)
            for v in r.get("violations", []):
                violations.append(v)
    except Broken as b:
        broken = str(b)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    obligations = discharged = undecided = 0
    fns = {}
    cancelled = [d["entry"] for d in results if "cancelled" in d]
    results = [d for d in results if "cancelled" not in d]
    if cancelled:
        notes.append("not finished after the first violation: " + ", ".join(cancelled))
    for d in results:
        if "crash" in d:
            broken = broken or ("analysis of %s crashed: %s" % (d["entry"], d["crash"]))
            continue
        pr = sum(d["proved"].values())
        un = sum(d["undecided"].values()) + sum(d["killed"].values())
        obligations += pr + un + len(d["violations"])
        discharged += pr
        undecided += un
        if d["budget"]:
            notes.append("%s: analysis budget exhausted before all partitions" % d["entry"])
            undecided += 1
        for k, n in list(d["undecided"].items())[:10] + list(d["killed"].items())[:10]:
            notes.append("%s: undecided %s (%d)" % (d["entry"], k, n))
        asserts = sum(n for k, n in d["proved"].items() if k.startswith("assert"))
        if asserts == 0 and not d["violations"] and not d["budget"] and not d["undecided"] and not d["killed"]:
            broken = broken or ("entry %s discharged no obligation: the specification no longer reaches the code" % d["entry"])
        for f in d["functions"]:
            k = fns.setdefault(f["f"], [f["n"], 0])
            k[1] = max(k[1], f["seen"])
        for v in d["violations"]:
            v["entry"] = d["entry"]
            v["spec"] = d["spec"]
            violations.append(v)
    for r in rules:
        obligations += r.get("obligations", 0)
        discharged += r.get("obligations", 0) - len(r.get("violations", []))
        if r.get("obligations", 0) < r.get("min", 1):
            broken = broken or ("rule %s matched %d instances, expected at least %d" % (r.get("rule"), r.get("obligations", 0), r.get("min", 1)))
        notes += r.get("notes", [])
    # known findings
    known = []
    kf = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k.get("property") == pid and k.get("status") == "known":
                    known.append(k)
    fresh, printed = [], set()
    for v in violations:
        hit = None
        for k in known:
            if k["kind"] == v["kind"] and k["msg"] == v["msg"] and k.get("site_file", "") in v.get("site", "") and k.get("func", "") in v.get("func", ""):
                hit = k
        if hit:
            if hit["what"] not in printed:
                print("KNOWN-FINDING: property=%s %s" % (pid, hit["what"]))
                printed.add(hit["what"])
        else:
            fresh.append(v)
    if not broken and fns == {} and cfg.get("modules") and not cfg.get("macros"):
        broken = "no repository function was analysed"
    wall = time.time() - t0
    level = cfg.get("level", "proof")
    cov = {
        "obligations": obligations,
        "discharged": discharged,
        "undecided": undecided,
        "checker_cmd": "python3 tools/check.py " + pid,
        "trusted_base": ["clang 18 front end (LLVM IR of /repo's current sources)", "the abstract interpreter in /verif/engine", "the specifications in /verif/specs"],
        "explanation": cfg.get("explain", ""),
        "entries": [{"entry": d["entry"], "spec": d["spec"], "partitions": d.get("paths"), "abstract_states": d.get("states"), "steps": d.get("steps")} for d in results if "crash" not in d],
        "repo_functions_analysed": [{"function": k, "ir_instructions": n[0], "covered": n[1]} for k, n in sorted(fns.items())],
        "rules": [{k: v for k, v in r.items() if k != "violations"} for r in rules],
        "notes": notes[:60],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": cfg.get("assume", []), "wall_s": round(wall, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if fresh:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.json")
        json.dump(fresh, open(rp, "w"), indent=1)
        for v in fresh[:10]:
            print("  %s: %s" % (v["kind"], v["msg"]))
            print("    at %s in %s" % (v.get("site", "?"), v.get("func", "?")))
            if v.get("entry"):
                print("    specification %s (%s); partition choices: %s" % (v["entry"], v["spec"], v.get("choices", "")))
            if v.get("detail"):
                print("    " + v["detail"][:600])
            if v.get("witness"):
                print("    witness of the abstract trace: " + v["witness"][:600])
            if v.get("trail"):
                print("    last repository branches: " + " -> ".join(x.replace(REPO + "/", "") for x in v["trail"][-8:]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if broken:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, broken))
        return 2
    print("OK property=%s obligations=%d discharged=%d undecided=%d functions=%d wall=%.1fs" % (pid, obligations, discharged, undecided, len(fns), wall))
    for n in notes[:20]:
        print("  note: " + n)
    return 0


if __name__ == "__main__":
    sys.exit(main())
