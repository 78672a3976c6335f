#!/usr/bin/env python3
"""Decide one property: python3 tools/check.py R02 [quick|thorough]

1. gvc (built from /verif/gvc) generates the proof obligations of the property's functions from /repo's
   current source and discharges them with the installed SMT solvers.
2. The replay harness runs the same functions on concrete inputs, so that a failed obligation is reported
   with a failing input where there is one. Where a part of the property is beyond the verifier, the harness
   is the stand-in, bounded as its rule says, and never counted as proved.
Exit 0: held. Exit 1 with a VIOLATION line: broken.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS  # noqa: E402

GOROOT = "/opt/veriftools/go1.26.10"


def env(scratch):
    e = dict(os.environ)
    e["PATH"] = GOROOT + "/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["HOME"] = e.get("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def run(cmd, timeout, **kw):
    """Run in its own process group and end all of it on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return -1, out or "", True


def prove(cfg, scratch, tier, log):
    """Returns the verifier's result or None when the property has no proved part."""
    if not cfg.get("funcs") and not cfg.get("lemmas") and not cfg.get("locks") and not cfg.get("codec"):
        return None
    gvc = os.path.join(scratch, "gvc")
    rc, out, _ = run(["go", "build", "-o", gvc, "."], 300, cwd=os.path.join(VERIF, "gvc"), env=env(scratch))
    if rc != 0:
        print(out)
        sys.exit(2)
    modes = []  # the arguments of each run
    for k in ("locks", "codec"):
        if cfg.get(k):
            modes.append(["-" + k, os.path.join(VERIF, "contracts", cfg[k])])
    if cfg.get("funcs") or cfg.get("lemmas"):
        m = []
        if cfg.get("funcs"):
            m += ["-funcs", ",".join(cfg["funcs"])]
        if cfg.get("lemmas"):
            m += ["-lemmas", ",".join(cfg["lemmas"])]
        if tier == "thorough":
            m += ["-fast", "10000", "-slow", "120000"]
        modes.append(m)
    total = None
    for i, m in enumerate(modes):
        res = os.path.join(scratch, "proof%d.json" % i)
        keep = os.path.join(scratch, "queries%d" % i)
        cmd = [gvc, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-json", res, "-keep", keep] + m
        if cfg.get("targets"):
            cmd += ["-targets", ",".join(cfg["targets"])]
        t0 = time.time()
        rc, out, late = run(cmd, 500 if tier == "quick" else 3000, env=env(scratch))
        log.append("$ " + " ".join(cmd) + "\n" + out)
        if rc == 3:
            print(out)
            sys.exit(2)
        r = {"rc": rc, "output": out, "late": late, "cmd": " ".join(cmd[1:]), "wall": time.time() - t0, "data": None}
        if os.path.exists(res):
            with open(res) as f:
                r["data"] = json.load(f)
        if total is None:
            total = r
            continue
        total["cmd"] += "; gvc " + r["cmd"]
        total["wall"] += r["wall"]
        total["output"] += r["output"]
        total["late"] = total["late"] or r["late"]
        d, n = total["data"], r["data"]
        if d is None or n is None:
            total["data"] = None
            continue
        for k in ("Obligations", "Discharged", "WallMs"):
            d[k] = (d.get(k) or 0) + (n.get(k) or 0)
        d["Functions"] = (d["Functions"] or []) + (n["Functions"] or [])
        d["Ok"] = d["Ok"] and n["Ok"]
        for c in ("BySolver", "SolverMs"):
            d[c] = d.get(c) or {}
            for k, v in (n.get(c) or {}).items():
                d[c][k] = d[c].get(k, 0) + v
    return total


def overlay_for(pkgdir, files, scratch):
    """An overlay that replaces the package's own tests with the harness files."""
    d = os.path.join(REPO, pkgdir)
    rep = {}
    pkg = None
    for f in sorted(os.listdir(d)):
        if f.endswith("_test.go"):
            rep[os.path.join(d, f)] = ""
        elif f.endswith(".go") and pkg is None:
            with open(os.path.join(d, f)) as fh:
                m = re.search(r"^package (\w+)", fh.read(), re.M)
                if m:
                    pkg = m.group(1)
    odir = os.path.join(scratch, "harness")
    os.makedirs(odir, exist_ok=True)
    for f in ["common.go.txt"] + files:
        src = os.path.join(VERIF, "harness", f)
        with open(src) as fh:
            text = fh.read().replace("package PKG", "package " + pkg, 1)
        name = "vf_" + os.path.basename(f)[:-len(".go.txt")].lower() + "_verif_test.go"
        dst = os.path.join(odir, name)
        with open(dst, "w") as fh:
            fh.write(text)
        rep[os.path.join(d, name)] = dst
    path = os.path.join(scratch, "overlay.json")
    with open(path, "w") as fh:
        json.dump({"Replace": rep}, fh)
    return path


def harness(pid, h, scratch, tier, seed, log):
    pkgdir, files = h["pkg"], h["files"]
    ov = overlay_for(pkgdir, files, scratch)
    mod = os.path.join(scratch, "m.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(scratch, "m.sum"))
    binp = os.path.join(scratch, "h.test")
    e = env(scratch)
    cmd = ["go", "test", "-mod=mod", "-modfile=" + mod, "-vet=off", "-overlay", ov, "-c", "-o", binp]
    if h.get("race"):
        cmd.append("-race")
    cmd.append("./" + pkgdir if pkgdir else ".")
    rc, out, _ = run(cmd, 600, cwd=REPO, env=e)
    log.append("$ " + " ".join(cmd) + "\n" + out)
    if rc != 0 or not os.path.exists(binp):
        return {"error": "harness does not build against the current tree:\n" + out[-4000:], "violations": [], "known": []}
    outp = os.path.join(scratch, "h.json")
    for p in (outp, outp + ".cur"):
        if os.path.exists(p):
            os.remove(p)
    e.update(VF_PROP=h.get("name", pid), VF_OUT=outp, VERIF_SEED=str(seed), VERIF_TIER=tier)
    work = os.path.join(scratch, "work")
    os.makedirs(work, exist_ok=True)
    e["TMPDIR"] = work
    lim = h.get("limit", 240) if tier == "quick" else 3000
    rc, out, late = run([binp, "-test.run", "^TestVerif$", "-test.timeout", "%ds" % lim], lim + 20, cwd=work, env=e)
    log.append("$ harness " + pid + "\n" + out[-6000:])
    r = {"violations": [], "known": [], "done": False}
    if os.path.exists(outp):
        with open(outp) as f:
            r.update(json.load(f))
    r["violations"] = r.get("violations") or []
    r["known"] = r.get("known") or []
    if not r.get("done") and not r["violations"]:
        cur = ""
        if os.path.exists(outp + ".cur"):
            cur = open(outp + ".cur").read()
        if late or "test timed out" in out:
            r["error"] = "harness ran out of time\n" + out[-3000:]
        else:
            # The code under test ended the process (fatal error, e.g. unlock of an unlocked mutex).
            r["violations"] = [{"id": "crash", "case": cur or "see output", "error": "the process ended: " + out[-6000:]}]
    return r


def known_ids(pid):
    ids = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                ids[m.group(2)] = m.group(3)
    return ids


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[pid]
    t0 = time.time()
    log = []
    rdir = os.environ.get("VF_REPLAY_DIR", os.path.join(VERIF, "replays"))
    scratch = tempfile.mkdtemp(prefix="vf-" + pid + "-")
    try:
        hres = []
        for h in cfg.get("harness", []):
            hres.append(harness(pid, h, scratch, tier, seed, log))
        pr = prove(cfg, scratch, tier, log)
        known = known_ids(pid)
        lines, fails = [], []
        for r in hres:
            for k in r["known"]:
                if k["id"] in known:
                    lines.append("KNOWN-FINDING: property=%s %s" % (pid, known[k["id"]]))
                else:
                    r["violations"].append(k)
            for v in r["violations"]:
                fails.append(dict(v, kind="input"))
        obl_fail = []
        obligations = discharged = 0
        if pr is not None:
            d = pr["data"]
            if d is None:
                obl_fail.append({"name": "verifier", "detail": ("time limit reached" if pr["late"] else "the source could not be loaded") + "\n" + pr["output"][-4000:]})
            else:
                obligations, discharged = d["Obligations"], d["Discharged"]
                for f in d["Functions"]:
                    if f["Status"] == "error":
                        obl_fail.append({"name": f["Func"], "detail": "no obligations could be generated: " + f["Err"]})
                    for o in f.get("Failed") or []:
                        obl_fail.append({"name": o["Name"], "kind": o["Kind"], "pos": o["Pos"], "path": o["Path"],
                                         "status": o["Status"], "solver": o["Solver"], "detail": o["Output"]})
                if obligations == 0:
                    obl_fail.append({"name": "verifier", "detail": "no obligations were generated"})
        herr = [r["error"] for r in hres if r.get("error")]
        # Evidence
        level = cfg.get("level", "proof")
        cov = {}
        evals = sum(r.get("evaluations", 0) for r in hres)
        distinct = sum(r.get("distinct_nontrivial", 0) for r in hres)
        samples = sum([r.get("samples") or [] for r in hres], [])
        rule = "; ".join(r.get("rule", "") for r in hres if r.get("rule"))
        if pr is not None and pr["data"]:
            d = pr["data"]
            trusted = set(cfg.get("trusted", []))
            assumptions = set()
            for f in d["Functions"]:
                for a in f.get("Assumptions") or []:
                    assumptions.add(a)
            cov.update({
                "obligations": obligations, "discharged": discharged,
                "checker_cmd": "gvc " + pr["cmd"],
                "trusted_base": sorted(trusted) + ["contract assumed: " + a for a in sorted(assumptions)] + trusted_base(cfg),
                "functions_under_contract": [{"function": f["Func"], "at": f["Pos"], "obligations": f["Obligations"],
                                              "discharged": f["Discharged"], "paths": f["Paths"],
                                              "inlined": f.get("Inlined") or [], "by_solver": f["BySolver"]} for f in d["Functions"]],
                "obligations_by_solver": d["BySolver"], "solver_ms": d.get("SolverMs", 0), "verifier_wall_ms": d["WallMs"],
            })
        if evals:
            cov["replay_harness" if level == "proof" else "bounded_check"] = {"evaluations": evals, "distinct_nontrivial": distinct, "rule": rule,
                                     "note": "concrete inputs; bounded, not counted as proved"}
            if level != "proof":
                cov.update({"evaluations": evals, "distinct_nontrivial": distinct, "rule": rule, "samples": samples})
            else:
                cov["replay_harness"]["samples"] = samples[:4]
        if cfg.get("bounded"):
            cov["bounded_stand_ins"] = cfg["bounded"]
        if level == "other":
            cov["explanation"] = cfg["note"]
        ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov or {"explanation": "nothing ran"},
              "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
              "violations": len(fails) + len(obl_fail)}
        evdir = os.environ.get("VF_EVIDENCE_DIR", os.path.join(VERIF, "evidence"))
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for l in lines:
            print(l)
        if pr is not None and pr["data"]:
            print("%s: %d/%d obligations discharged over %d functions, %d concrete cases (%d distinct), %.1f s" % (
                pid, discharged, obligations, len(pr["data"]["Functions"]), evals, distinct, time.time() - t0))
        else:
            print("%s: %d concrete cases (%d distinct), %.1f s" % (pid, evals, distinct, time.time() - t0))
        if fails or obl_fail:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%d-%d.json" % (pid, int(time.time()), os.getpid()))
            with open(path, "w") as f:
                json.dump({"property": pid, "seed": seed, "tier": tier,
                           "replay": "VERIF_SEED=%d python3 tools/check.py %s %s" % (seed, pid, tier),
                           "failing_inputs": fails, "failed_obligations": obl_fail, "harness_errors": herr, "log": log}, f, indent=1)
            for o in obl_fail[:20]:
                print("FAILED-OBLIGATION %s %s %s" % (o["name"], o.get("pos", ""), (o.get("detail") or "").split("\n")[0][:200]))
            for v in fails[:5]:
                print("FAILING-INPUT %s: %s => %s" % (v["id"], v["case"][:400], v["error"][:400]))
            if fails:
                print("VIOLATION property=%s replay=%s" % (pid, path))
            else:
                print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
            return 1
        if herr and (pr is None or level != "proof"):
            print("ERROR: " + herr[0])
            return 2
        if herr:
            print("NOTE: " + herr[0])
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


TRUST = [
    "gvc (/verif/gvc): the obligation generator and its memory model of Go slices, maps and structs",
    "z3 and cvc5 (an 'unsat' answer of either is accepted)",
    "go/parser and go/types of the installed Go toolchain",
    "len, cap and slice offsets are mathematical integers below 2^62; int arithmetic is checked for overflow; uint arithmetic wraps",
    "functions run without concurrent interference on the data they are given",
]
LOCK_TRUST = [
    "gvc's ledger executor (/verif/gvc/led*.go): its symbolic execution of Go statements, closures, defers and goroutines; its obligations are decided by that executor itself, without an SMT solver",
    "go/parser and go/types of the installed Go toolchain",
    "functions outside the repository, interface methods and function values of unknown origin neither lock nor unlock the repository's locks",
    "code that panics is not followed; waiting on channels and condition variables is not modelled, except that the channels named in 'waits' are closed on every path",
    "two objects are the same only if the code shows it: a lock taken through one reference and released through an unrelated alias is reported, not assumed equal",
]

CODEC_TRUST = [
    "gvc's codec executor (/verif/gvc/codec.go): its symbolic execution of Go statements over sequences of encoded parts; its obligations are decided by that executor itself, without an SMT solver",
    "go/parser and go/types of the installed Go toolchain",
    "each Append/Write function of github.com/tinylib/msgp encodes its value in a self-delimiting form of at most the documented size, and the Read function of the same kind (or of a wider integer kind) returns that value and consumes exactly that form; headers carry lengths below 2^32",
    "writes to a stream keep their order; the reader sees what was written",
    "functions around the codecs, assumed: Segment.StorageKey depends on the segment only; Segments.elementFullIdx gives segment i and its stored elements; Segments.replaceSegment stores a segment with its elements at its position; List.loadSegments gives the list's segments; List.Reindex keeps settings, metadata and elements; Segments.Delete removes stored data only",
    "values are shorter than 2^32 parts; aliasing between parts of one value is not considered beyond what the code shows",
]


def trusted_base(cfg):
    r = []
    for on, ts in [(cfg.get("funcs") or cfg.get("lemmas"), TRUST), (cfg.get("locks"), LOCK_TRUST), (cfg.get("codec"), CODEC_TRUST)]:
        r += [t for t in ts if on and t not in r]
    return r


if __name__ == "__main__":
    sys.exit(main())
