"""Running the real generator, the extractor and Verus."""
import json, os, subprocess, tempfile, time, re, concurrent.futures as cf, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "target")
WFH = os.path.join(TARGET, "debug", "wfh")
XT = os.path.join(TARGET, "debug", "xtract")


def build(crate):
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=os.path.join(VERIF, crate), env=env, capture_output=True, text=True)
    if p.returncode:
        raise SystemExit("cannot build %s:\n%s" % (crate, p.stderr[-4000:]))


def lines(cmd, reqs, timeout=300, each=20):
    """One answer per request.  A request that kills or hangs the driver is
    found by halving and answered {"panic": ...}."""
    def go(rs, limit):
        try:
            p = subprocess.run(cmd, input="".join(json.dumps(r) + "\n" for r in rs), capture_output=True, text=True, timeout=limit)
            out = [json.loads(l) for l in p.stdout.splitlines() if l.endswith("}") or l.endswith("]")]
            why = "the process died (status %d): %s" % (p.returncode, p.stderr[-300:])
        except subprocess.TimeoutExpired:
            out, why = [], "no answer within %d s" % limit
        except ValueError:
            out, why = [], "the process died"
        if len(out) == len(rs):
            return out
        if len(rs) == 1:
            return [{"panic": why, "died": True}]
        dead[0] += 1
        if dead[0] > 60:
            raise RuntimeError("the driver keeps dying: " + why)
        h = len(rs) // 2
        return go(rs[:h], each + limit // 4) + go(rs[h:], each + limit // 4)
    dead = [0]
    return go(reqs, timeout) if reqs else []


def wfh(reqs):
    return lines([WFH], reqs)


def xgen(reqs):
    return lines([XT, "gen"], reqs)


def verus(text, name, workdir, rlimit=60, timeout=600, extra=(), errors=2):
    """-> {"verified": n, "errors": n, "diags": [...], "time_ms": .., "smt_ms":.., "ok": bool, "crash": text or None}"""
    path = os.path.join(workdir, name + ".rs")
    with open(path, "w") as f:
        f.write(text)
    t0 = time.time()
    cmd = ["verus", path, "--crate-type=lib", "--output-json", "--time", "--rlimit", str(rlimit), "--multiple-errors", str(errors), "--num-threads", "1", "--error-format=json", *extra]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=workdir)
    except subprocess.TimeoutExpired:
        return {"verified": 0, "errors": 0, "diags": [], "crash": "timeout after %ds" % timeout, "ok": False, "wall": time.time() - t0, "smt_ms": 0, "path": path, "cmd": " ".join(cmd)}
    r = {"ok": False, "verified": 0, "errors": 0, "diags": [], "crash": None, "wall": time.time() - t0, "smt_ms": 0, "path": path, "cmd": " ".join(cmd)}
    try:
        j = json.loads(p.stdout)
        vr = j["verification-results"]
        r["verified"], r["errors"] = vr.get("verified", 0), vr.get("errors", 0)
        r["ok"] = bool(vr.get("success"))
        if "--verify-function" in extra or "--verify-only-module" in extra:
            # not reported as a success of the whole
            r["ok"] = p.returncode == 0 and r["verified"] > 0 and r["errors"] == 0 and not vr.get("encountered-vir-error") and not vr.get("encountered-error")
        r["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0)
        if vr.get("encountered-vir-error"):
            r["crash"] = "vir error"
    except (ValueError, KeyError):
        r["crash"] = "no result"
    for l in p.stderr.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error":
                r["diags"].append(d)
    if r["crash"] and not r["diags"]:
        r["crash"] += ": " + p.stderr[-1500:]
    return r
