#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides one property on /repo's current working tree.

 1. builds the verifier (tool/prove), the executable contracts (tool/rac) and tsh from /repo's working tree,
 2. lets the verifier discharge the proof obligations of the property,
 3. evaluates the executable contracts (labelled bounded; they also search the failing input of a failed obligation),
 4. writes evidence/ID.json.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod",
           GOWORK="off", CGO_ENABLED="0", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
           GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), LANG="C.UTF-8", LC_ALL="C.UTF-8")

sys.path.insert(0, VERIF)
import registry


def run(cmd, cwd, timeout=600, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                          text=True, errors="replace", **kw)


def build(d, prove):
    """Builds everything from the working tree into d."""
    tool = os.path.join(VERIF, "tool")
    over = []
    goroot = run(["go", "env", "GOROOT"], tool).stdout.strip()
    src = os.path.join(goroot, "src/regexp/regexp.go")
    try:  # The lexer compiles its expressions for each token: remember them (has no influence on the result).
        s = open(src).read()
        a = "func MustCompile(str string) *Regexp {\n\tregexp, err := Compile(str)"
        if a in s:
            s = s.replace(a, "var verifMemo sync.Map\n\nfunc MustCompile(str string) *Regexp {\n\tif r, ok := verifMemo.Load(str); ok {\n\t\treturn r.(*Regexp)\n\t}\n\tr := verifMustCompile(str)\n\tverifMemo.Store(str, r)\n\treturn r\n}\n\nfunc verifMustCompile(str string) *Regexp {\n\tregexp, err := Compile(str)")
            f = os.path.join(d, "regexp.go")
            open(f, "w").write(s)
            o = os.path.join(d, "overlay.json")
            json.dump({"Replace": {src: f}}, open(o, "w"))
            over = ["-overlay", o]
    except OSError:
        pass
    mod = os.path.join(d, "go.mod")  # A copy, as the go command may rewrite it.
    m = open(os.path.join(tool, "go.mod")).read().replace("=> /repo", "=> " + REPO)
    open(mod, "w").write(m)
    if os.path.exists(os.path.join(tool, "go.sum")):
        shutil.copy(os.path.join(tool, "go.sum"), os.path.join(d, "go.sum"))
    r = run(["go", "build", "-modfile", mod, *over, "-o", os.path.join(d, "rac"), "./rac"], tool)
    if r.returncode and over:
        r = run(["go", "build", "-modfile", mod, "-o", os.path.join(d, "rac"), "./rac"], tool)
    if r.returncode == 0 and prove:
        r = run(["go", "build", "-modfile", mod, "-o", os.path.join(d, "prove"), "./prove"], tool)
    if r.returncode == 0:
        r = run(["go", "build", "-o", os.path.join(d, "tsh"), "."], REPO)
    if r.returncode:
        print("the build failed:\n" + r.stdout[-3000:])
        sys.exit(2)
    shutil.copytree(os.path.join(REPO, "std"), os.path.join(d, "std"))
    subprocess.run(["chmod", "-R", "a+rX", d])


def main():
    pid = sys.argv[1]
    if pid == "--warm":  # Fills the build cache only.
        d = tempfile.mkdtemp(prefix="tsverif")
        try:
            build(d, any(p.get("prove") for p in registry.PROPS.values()))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        sys.exit(0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    p = registry.PROPS[pid]
    d = tempfile.mkdtemp(prefix="tsverif")
    os.chmod(d, 0o755)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    try:
        code = decide(pid, tier, seed, start, p, d, ev)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(code)


def decide(pid, tier, seed, start, p, d, ev):
    proving = bool(p.get("prove"))
    build(d, proving)
    proof, failed, undecided = None, [], []
    rep = os.path.join(ev, "replay")
    os.makedirs(rep, exist_ok=True)
    if proving:
        out = os.path.join(d, "prove.json")
        limit = 240 if tier == "quick" else 2400
        try:
            r = run([os.path.join(d, "prove"), "-repo", REPO, "-verif", VERIF, "-tier", tier, "-o", out, pid], VERIF, limit + 60)
            text = r.stdout
        except subprocess.TimeoutExpired as x:
            text = "the verifier has been stopped after %d s" % limit
        if os.path.exists(out):
            proof = json.load(open(out))
        else:
            # The verifier itself gave no answer: nothing is proved, the bounded check decides.
            proof = {"obligations": [], "error": text[-2000:]}
        for o in proof["obligations"]:
            if o["status"] == "failed":
                failed.append(o)
            elif o["status"] != "discharged":
                undecided.append(o)
    # The executable contracts.
    racs = None
    out = os.path.join(d, "rac.json")
    secs = p.get("rac_secs", 120) if tier == "quick" else p.get("rac_thorough", 1500)
    if failed:
        secs = max(secs, 240)
    if p.get("rac", True):
        try:
            r = run([os.path.join(d, "rac"), "check", pid, tier, out, rep, str(secs), str(seed)], d, secs + 240)
            text = r.stdout
        except subprocess.TimeoutExpired:
            text = "timeout"
        if not os.path.exists(out):
            print("the executable contracts gave no answer: " + text[-3000:])
            return 2
        racs = json.load(open(out))
    known = [k for k in registry.known() if k["property"] == pid and k["kind"] == "finding"]
    violations = []
    for f in (racs or {}).get("fails") or []:
        violations.append((f["Replay"], ""))
    for k in (racs or {}).get("known") or []:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if failed and not violations:
        knames = {k["id"] for k in known}
        new = [o for o in failed if o["name"] not in knames]
        for o in failed:
            if o["name"] in knames:
                print("KNOWN-FINDING: property=%s obligation %s" % (pid, o["name"]))
        if new:
            f = os.path.join(rep, pid + "-obligation.txt")
            with open(f, "w") as h:
                for o in new:
                    h.write("failed obligation %s\n%s\n%s\n\n" % (o["name"], o.get("where", ""), o.get("detail", "")))
                h.write("No failing input was found by the executable contracts within %d s (seed %d).\n" % (secs, seed))
            violations.append((f, " no-failing-input-found"))
    elif failed:
        f = os.path.join(rep, pid + "-obligation.txt")
        with open(f, "w") as h:
            for o in failed:
                h.write("failed obligation %s\n%s\n%s\n\n" % (o["name"], o.get("where", ""), o.get("detail", "")))
    # Evidence.
    cov, assumptions = {}, list(p.get("assumptions", []))
    level = p["level"]
    if proof is not None:
        obl = [o for o in proof["obligations"] if not o.get("bounded")]
        bnd = [o for o in proof["obligations"] if o.get("bounded")]
        cov["obligations"] = len(obl)
        cov["discharged"] = sum(o["status"] == "discharged" for o in obl)
        cov["obligation_names"] = [o["name"] for o in obl]
        cov["path_conditions"] = sum(o.get("paths", 0) for o in obl)
        cov["bounded_obligations"] = {"obligations": len(bnd), "discharged": sum(o["status"] == "discharged" for o in bnd)}
        cov["failed"] = [o["name"] for o in failed]
        cov["undecided"] = [{"name": o["name"], "why": o.get("detail", "")[:300]} for o in undecided]
        cov["checker_cmd"] = "python3 /verif/check.py %s %s (tool/prove over the go/ssa form of /repo's sources; z3)" % (pid, tier)
        cov["trusted_base"] = proof.get("trusted") or ["-"]
        for k in ("functions", "backends", "solver_s", "queries", "paths", "bounded", "reachability", "error"):
            if k in proof:
                cov[k] = proof[k]
        assumptions += proof.get("assumptions") or []
    if racs is not None:
        cov["evaluations"] = racs["evaluations"]
        cov["distinct_nontrivial"] = racs["distinct"]
        cov["rule"] = p["rule"]
        cov["samples"] = racs["samples"] or ["-"]
        cov["bounded_counts"] = racs["counts"]
        if proof is not None:
            cov["bounded_note"] = "evaluations, distinct_nontrivial, rule, samples and bounded_counts describe the bounded evaluation of the executable contracts; nothing of it is counted as proved."
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
               "wall_s": round(time.time() - start, 2), "violations": len(violations)},
              open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    if proof is not None:
        print("%s: %d obligations, %d discharged, %d failed, %d undecided" % (pid, cov["obligations"], cov["discharged"], len(failed), len(undecided)))
    if racs is not None:
        print("%s: bounded: %s" % (pid, json.dumps(racs["counts"])))
    for f, suffix in violations:
        print("VIOLATION property=%s replay=%s%s" % (pid, f, suffix))
    return 1 if violations else 0


if __name__ == "__main__":
    main()
