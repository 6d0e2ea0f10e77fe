"""Rules over the compiler's front end (no abstract interpretation)."""
import concurrent.futures as cf
import glob
import os
import re
import subprocess

CLANG = "/usr/bin/clang++"


def _run(cmd):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return -9, "", "timeout"


def headers(repo, work, tier):
    """every public header stands alone, all of them go together, and in several translation units"""
    roots = [m + "/include" for m in ("common", "geometry", "pcl") if os.path.isdir(os.path.join(repo, m, "include"))]
    hs = []
    for r in roots:
        for d, _, fs in sorted(os.walk(os.path.join(repo, r))):
            for f in sorted(fs):
                if f.endswith((".h", ".hpp")):
                    hs.append((os.path.relpath(os.path.join(d, f), os.path.join(repo, r)), r))
    inc = ["-I" + os.path.join(repo, r) for r in roots] + ["-isystem", "/usr/include/eigen3"]
    for p in sorted(glob.glob("/usr/include/pcl-*")):
        inc += ["-isystem", p]
    light = [h for h in hs if not h[1].startswith("pcl")]
    fl = ["-std=c++17", "-w", "-ferror-limit=3"] + inc
    jobs = []  # (what, text, mode, site)
    def tu(name, lst):
        p = os.path.join(work, name + ".cpp")
        with open(p, "w") as f:
            for h in lst:
                f.write("#include <%s>\n" % h[0])
        return p
    n = [0]
    def add(what, lst, mode, site):
        n[0] += 1
        jobs.append((what, tu("t%d" % n[0], lst), mode, site))
    for h in hs:
        add("the header %s does not compile on its own" % h[0], [h], "syntax", os.path.join(repo, h[1], h[0]))
    for i, lst in enumerate((light, light[::-1])):
        add("the public headers cannot be included together" + (" in reverse order" if i else ""), lst, "syntax", repo)
    # each header second to each other one of its own library (thorough: of all)
    if tier == "thorough":
        for a in light:
            for b in light:
                if a != b:
                    add("the header %s cannot be included after %s" % (b[0], a[0]), [a, b], "syntax", os.path.join(repo, b[1], b[0]))
    add("definition", light, "defs", repo)
    add("shadow", light, "shadow", repo)
    obligations, viol, notes = 0, [], []
    def one(j):
        what, p, mode, site = j
        if mode == "syntax":
            return j, _run([CLANG, "-fsyntax-only"] + fl + [p])
        if mode == "defs":
            return j, _run([CLANG, "-S", "-emit-llvm", "-O0", "-o", "-"] + fl + [p])
        return j, _run([CLANG, "-E", "-dD", "-o", "-"] + fl + [p])
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(one, jobs))
    for (what, p, mode, site), (rc, out, err) in res:
        if mode == "syntax":
            obligations += 1
            if rc != 0:
                m = re.search(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", err, re.M)
                viol.append({"kind": "header", "msg": what, "site": "%s:%s" % (m.group(1), m.group(2)) if m else site, "func": "",
                             "detail": m.group(3) if m else err[-300:]})
        elif mode == "defs" and rc == 0:
            for line in out.splitlines():
                m = re.match(r'define (?!.*\b(?:linkonce_odr|linkonce|weak_odr|weak|internal|private|available_externally)\b)[^@]*@("?[^( "]+"?)\(', line)
                if m:
                    obligations += 1
                    viol.append({"kind": "header", "msg": "a header defines a function that is not inline: two translation units including it do not link", "site": repo, "func": m.group(1)})
                m = re.match(r'@(\S+) = (?:dso_local )?(?:global|constant) ', line)
                if m and not m.group(1).startswith("llvm."):
                    obligations += 1
                    viol.append({"kind": "header", "msg": "a header defines a variable with external linkage: two translation units including it do not link", "site": repo, "func": m.group(1)})
                if re.match(r"define .*(linkonce|internal)", line):
                    obligations += 1
        elif mode == "shadow" and rc == 0:
            seen, cur = {}, ""
            for line in out.splitlines():
                m = re.match(r'# \d+ "([^"]+)"', line)
                if m:
                    cur = m.group(1)
                elif line.strip():
                    seen[cur] = seen.get(cur, 0) + 1
            for h in light:
                obligations += 1
                if not seen.get(os.path.join(repo, h[1], h[0])):
                    viol.append({"kind": "header", "msg": "the header %s is empty after the other ones (it shares their include guard)" % h[0], "site": os.path.join(repo, h[1], h[0]), "func": ""})
    return {"rule": "public headers compile alone, together in both orders%s, define nothing with external linkage, and are not hidden by another one's guard" % (" and in every ordered pair" if tier == "thorough" else ""),
            "obligations": obligations, "min": 30, "violations": viol, "headers": [h[0] for h in hs], "compilations": len(jobs), "notes": notes}
