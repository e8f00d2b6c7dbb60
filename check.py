#!/usr/bin/env python3
"""Decides one property of autocxx.   usage: check.py <property-id>

1. vx extracts the functions under contract from /repo's working tree and
   weaves the contracts of /verif/contracts around them; Verus discharges every
   obligation.  Kani units do the same for the runtime library.
2. The probe (/verif/harness) drives the real engine built from /repo's working
   tree and looks for a concrete input on which the property fails.  It supplies
   the failing input when an obligation fails, and stands in (labelled bounded)
   for a function whose source the extractor can no longer follow.

exit 0: held;  exit 1 + VIOLATION line: broken;  exit 2: the check itself failed.
"""
import json, os, re, subprocess, sys, time, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(V, ".target")
sys.path.insert(0, V)
from lib.props import PROPS

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
LIMIT = 840 if TIER == "quick" else 3 * 3600


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    return e


def left():
    return max(5.0, LIMIT - (time.time() - T0))


def sh(cmd, timeout=None, cwd=None, extra=None):
    e = env()
    if extra:
        e.update(extra)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout or left())
        return p.returncode, o.decode("utf8", "replace"), r.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, "", "timeout"


def build(crate, sub, features=()):
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet", "--target-dir", os.path.join(TARGET, sub)], cwd=os.path.join(V, crate))
    return rc, o + e


# ---------------------------------------------------------------- Verus units
def run_unit(unit, work):
    """-> dict(status=ok|failed|undecided, ...)"""
    out = os.path.join(work, unit + ".rs")
    rep = os.path.join(work, unit + ".json")
    res = {"unit": unit, "backend": "verus/z3"}
    rc, o, e = sh([os.path.join(TARGET, "vx/debug/vx"), REPO, os.path.join(V, "contracts", unit + ".vrs"),
                   os.path.join(V, "contracts/prelude"), out, rep], timeout=120)
    if rc != 0:
        res.update(status="undecided", reason="extraction: " + e.strip()[-600:])
        return res
    res["functions"] = json.load(open(rep))["functions"]
    text = open(out).read()
    res["trusted"] = len(re.findall(r"#\[verifier::external_body\]", text))
    res["assumes"] = len(re.findall(r"\b(assume|admit)\s*\(", text))
    res["extracted_sha256"] = hashlib.sha256(text.encode()).hexdigest()
    for rl in (30, 120):
        cmd = ["verus", "--triggers-mode", "silent", "--output-json", "--time", "--multiple-errors", "8", "--rlimit", str(rl), "-A", "warnings", unit + ".rs"]
        rc, o, e = sh(cmd, timeout=min(left(), 400), cwd=work)
        res["cmd"] = "vx /repo contracts/%s.vrs && %s" % (unit, " ".join(cmd))
        try:
            j = json.loads(o)
            vr = j["verification-results"]
        except Exception:
            res.update(status="undecided", reason="verus gave no verdict: " + (e.strip() or o.strip())[-800:])
            return res
        res["verified"] = vr.get("verified", 0)
        res["errors"] = vr.get("errors", 0)
        try:
            res["smt_ms"] = j["times-ms"]["smt"]["total"]
        except Exception:
            res["smt_ms"] = None
        if vr.get("success") and vr.get("verified", 0) > 0 and vr.get("errors", 1) == 0:
            res["status"] = "ok"
            return res
        if vr.get("encountered-vir-error") or vr.get("errors", 0) == 0:
            res.update(status="undecided", reason="not in the verifier's subset: " + e.strip()[-800:])
            return res
        fails = parse_failures(e, text)
        real = [f for f in fails if "Resource limit" not in f["msg"]]
        if real:
            moved = reshaped(unit, res["functions"])
            if moved and all(f["fn"] in moved for f in real):
                # loop invariants are written for the loops the function had; over other loops they decide nothing
                res.update(status="undecided", reason="loops rewritten, invariants not applicable: %s; %s" % (sorted(moved), e.strip()[-500:]))
                return res
            res.update(status="failed", failed=real, output=e[-6000:])
            return res
    res.update(status="undecided", reason="solver resource limit: " + e.strip()[-600:])
    return res


def shape(functions):
    out = {}
    for f in functions:
        out.setdefault(f["file"] + " " + f["fn"], []).append(f.get("loops", ""))
    return out


def reshaped(unit, functions):
    """functions whose loops are not the ones (kind, order, nesting) their invariants were written for"""
    try:
        want = json.load(open(os.path.join(V, "contracts/shapes.json")))[unit]
    except (OSError, KeyError):
        return set()
    have = shape(functions)
    return {k for k in have if k in want and want[k] != have[k]}


def parse_failures(err, text):
    lines = text.split("\n")
    def owner(n):
        for k in range(min(n, len(lines)) - 1, -1, -1):
            m = re.match(r"\s*// @@VX-FN (.*)", lines[k])
            if m:
                return m.group(1)
            m = re.match(r"(pub )?(broadcast )?(proof |open spec |spec )fn (\w+)", lines[k])
            if m:
                return "lemma " + m.group(4)
        return "?"
    out = []
    for m in re.finditer(r"^error(?:\[\w+\])?: (.*?)\n\s*--> [^:\n]+:(\d+):\d+", err, re.M):
        if m.group(1).startswith("aborting"):
            continue
        n = int(m.group(2))
        out.append({"msg": m.group(1), "fn": owner(n), "text": lines[n - 1].strip() if n <= len(lines) else ""})
    return out or [{"msg": "verification failed", "fn": "?", "text": ""}]


def canary(unit, work):
    """Every contract must be satisfiable: `assert(false)` woven in at the end of each function must fail."""
    out = os.path.join(work, unit + "_canary.rs")
    rc, o, e = sh([os.path.join(TARGET, "vx/debug/vx"), REPO, os.path.join(V, "contracts", unit + ".vrs"),
                   os.path.join(V, "contracts/prelude"), out, out + ".json"], timeout=120, extra={"VX_CANARY": "1"})
    if rc != 0:
        return None
    n = open(out).read().count("VX-CANARY")
    rc, o, e = sh(["verus", "--triggers-mode", "silent", "--output-json", "--multiple-errors", "1", "--rlimit", "30", "-A", "warnings", os.path.basename(out)], timeout=min(left(), 400), cwd=work)
    try:
        errs = json.loads(o)["verification-results"]["errors"]
    except Exception:
        return None
    return {"unit": unit, "canaries": n, "rejected": errs}


# ----------------------------------------------------------------- Kani units
def run_kani(mod, work):
    """All harnesses of one module of /verif/kani: every value and branch of the real runtime library."""
    res = {"unit": "kani:" + mod, "backend": "kani/cbmc"}
    base = ["cargo", "kani", "--lib", "--target-dir", os.path.join(TARGET, "kani")]
    cmd = base + ["--harness", mod + "::", "-j", "4", "--output-format", "terse"]
    rc, o, e = sh(cmd, timeout=min(left(), 500), cwd=os.path.join(V, "kani"))
    res["cmd"] = " ".join(cmd)
    m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total", o)
    n = len(re.findall(r"kani::proof\)\]", open(os.path.join(V, "kani", "src", mod + ".rs")).read()))
    if mod == "byvalue":
        n += 1      # the macro `borrowed!` holds one proof attribute and is used twice
    if not m or int(m.group(3)) != n:
        res.update(status="undecided", reason="kani gave no verdict: " + (e or o).strip()[-800:])
        return res
    res["verified"], res["errors"] = int(m.group(1)), int(m.group(2))
    t = re.findall(r"Verification Time: ([\d.]+)s", o)
    res["smt_ms"] = int(sum(map(float, t)) * 1000)
    res["functions"] = []
    if res["errors"] == 0:
        res["status"] = "ok"
        return res
    failed, odd = [], []
    for h in re.findall(r"Verification failed for - (\S+)", o):
        rc, o1, e1 = sh(base + ["--harness", h], timeout=min(left(), 200), cwd=os.path.join(V, "kani"))
        fails = re.findall(r"Failed Checks: (.*)\n(?:\s*File: (.*))?", o1)
        texts = " ".join(a for a, b in fails)
        if not fails and "SUCCESSFUL" not in o1 and "should_panic" not in o1:
            odd.append("%s: no verdict" % h)
        elif re.search(r"unwinding assertion|unsupported|not currently supported", texts):
            odd.append("%s: %s" % (h, texts[:200]))
        else:
            failed += [{"msg": a, "fn": "kani harness " + h, "text": b} for a, b in fails] or [{"msg": "did not panic, as its contract requires", "fn": "kani harness " + h, "text": ""}]
            res["output"] = o1[-4000:]
    if failed:
        res.update(status="failed", failed=failed)
    else:
        res.update(status="undecided", reason="kani: " + "; ".join(odd))
    return res


def replay_kani(mods, outdir):
    """Runs the same harnesses natively on a few values: a concrete input for what Kani refutes."""
    cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", os.path.join(TARGET, "kanin")]
    rc, o, e = sh(cmd, timeout=min(left(), 300), cwd=os.path.join(V, "kani"))
    if rc != 0:
        return []
    exe = os.path.join(TARGET, "kanin", "debug", "vkani")
    out = []
    for h in re.findall(r'"(\w+::\w+)" =>', open(os.path.join(V, "kani", "src", "main.rs")).read()):
        if h.split("::")[0] not in mods:
            continue
        for seed in range(1, 9):
            rc, o, e = sh([exe, h, str(seed)], timeout=20, cwd=outdir)
            if rc != 0:
                out.append({"key": "kani-" + h, "message": "%s (exit %s): %s" % (h, rc, (o + e).strip()[-400:]), "replay_cmd": "%s %s %d" % (exe, h, seed), "seed": seed, "input": h})
                break
    return out


# ---------------------------------------------------------------------- probe
def run_probe(pid, cfg, outdir, budget):
    """-> dict(status=ok|failed|broken|none)"""
    if not cfg:
        return {"status": "none"}
    os.makedirs(outdir, exist_ok=True)
    exe = os.path.join(TARGET, "harness", "debug", "vharness")
    profiles = cfg["profile"] if isinstance(cfg["profile"], list) else [(cfg["profile"], 1.0)]
    tot = {"status": "ok", "profile": "+".join(x for x, _ in profiles), "cases": 0, "distinct": 0, "nontrivial": 0, "failures": [], "samples": [], "rule": "", "skipped": {}}
    for prof, share in profiles:
        b = max(5, int(budget * share))
        rc, o, e = sh([exe, "probe", prof, "--seed", str(SEED), "--seconds", str(b), "--out", outdir, "--jobs", "8"], timeout=b + 240)
        try:
            j = json.loads(o.strip().split("\n")[-1])
        except Exception:
            return {"status": "broken", "reason": "probe %s rc=%s: %s" % (prof, rc, (e or o)[-1500:])}
        for k in ("cases", "distinct", "nontrivial"):
            tot[k] += j[k]
        tot["failures"] += j["failures"]
        tot["samples"] += j["samples"][:1]
        tot["rule"] = (tot["rule"] + " | " + prof + ": " + j["rule"]).strip(" |")
        if j["cases"] == 0:
            return {"status": "broken", "reason": "probe %s ran no case" % prof}
    tot["status"] = "failed" if tot["failures"] else "ok"
    return tot


def known_findings(pid):
    try:
        lines = open(os.path.join(V, "known_findings.txt")).read().split("\n")
    except OSError:
        return []
    out = []
    for l in lines:
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    P = PROPS[pid]
    work = os.path.join(TARGET, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    replay_dir = os.path.join(V, "replay", pid)
    shutil.rmtree(replay_dir, ignore_errors=True)
    os.makedirs(replay_dir)
    units, kanis, probe = P.get("units", []), P.get("kani", []), P.get("probe")

    # builds, in parallel
    with ThreadPoolExecutor(4) as ex:
        fv = ex.submit(build, "vx", "vx")
        fh = ex.submit(build, "harness", "harness") if probe else None
        rcv, ev = fv.result()
        if rcv != 0:
            print("cannot build the extractor:\n" + ev[-2000:]); sys.exit(2)
        with ThreadPoolExecutor(4) as ex2:
            fu = [ex2.submit(run_unit, u, work) for u in units]
            fk = ex2.submit(lambda: [run_kani(h, work) for h in kanis])
            results = [f.result() for f in fu] + fk.result()
            fc = [ex2.submit(canary, u, work) for u in units] if TIER == "thorough" else []
            canaries = [f.result() for f in fc]
        built, eh = fh.result() if fh else (0, "")
    if built != 0:
        print("the tree under /repo does not build with the probe:\n" + eh[-3000:])
        sys.exit(2)

    failed = [r for r in results if r["status"] == "failed"]
    undecided = [r for r in results if r["status"] == "undecided"]
    budget = P.get("seconds", {}).get(TIER, 60 if TIER == "quick" else 900)
    if failed or undecided:
        budget *= 2
    pr = run_probe(pid, probe, replay_dir, min(budget, left() - 60))
    kf = replay_kani(kanis, replay_dir) if kanis else []
    if kf:
        pr = {**pr, "status": "failed", "failures": kf + pr.get("failures", [])}

    known = known_findings(pid)
    violations = []
    if pr["status"] == "failed":
        for f in pr["failures"]:
            hit = [k for k in known if f.get("key") == k[0]]
            if not hit:
                violations.append(f)
    shown = set()
    for key, what in known:
        if key not in shown:
            shown.add(key)
            print("KNOWN-FINDING: property=%s %s" % (pid, what))

    lines = []
    if violations:
        f = violations[0]
        path = os.path.join(replay_dir, "violation.txt")
        with open(path, "w") as fh:
            fh.write("property %s fails on a concrete input\n\n" % pid)
            for v in violations[:5]:
                fh.write(json.dumps(v, indent=1) + "\n")
            for r in failed:
                fh.write("\nfailed obligations of unit %s:\n%s\n%s\n" % (r["unit"], json.dumps(r["failed"], indent=1), r.get("output", "")))
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        print("%s: %s" % (pid, f.get("message", "")))
    elif failed:
        path = os.path.join(replay_dir, "obligation.txt")
        with open(path, "w") as fh:
            for r in failed:
                fh.write("unit %s: obligations not discharged\n%s\ncommand: %s\n\n%s\n" % (r["unit"], json.dumps(r["failed"], indent=1), r.get("cmd"), r.get("output", "")))
        for r in failed:
            for x in r["failed"]:
                print("%s: obligation failed: %s [%s] %s" % (pid, x["fn"], x["msg"], x["text"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))

    proved = not failed and not undecided and bool(results)
    ver = sum(r.get("verified", 0) or 0 for r in results)
    err = sum(r.get("errors", 0) or 0 for r in results)
    cov = {
        "obligations": ver + err, "discharged": ver,
        "checker_cmd": "; ".join(r.get("cmd", "") for r in results),
        "trusted_base": P.get("trusted", []) + ["%s: %s external_body items in the extracted file (prelude contracts of std/indexmap collections and iterator adaptors, and the assumed callees listed in contracts/%s.vrs)" % (r["unit"], r.get("trusted"), r["unit"]) for r in results if "trusted" in r],
        "functions_under_contract": [{"unit": r["unit"], "fn": f["fn"], "file": f["file"], "rewrites": f["rewrites"]} for r in results for f in r.get("functions", [])],
        "units": [{k: r.get(k) for k in ("unit", "backend", "status", "verified", "errors", "smt_ms", "reason", "assumes", "extracted_sha256") if r.get(k) is not None} for r in results],
        "undecided_units": [r["unit"] for r in undecided],
        "probe_bounded": {k: pr.get(k) for k in ("status", "profile", "cases", "distinct", "nontrivial", "rule", "samples", "reason", "compiled") if pr.get(k) is not None},
    }
    if canaries:
        cov["vacuity_canaries"] = canaries
    if pr.get("cases") is not None:
        cov["evaluations"] = pr["cases"]
        cov["distinct_nontrivial"] = pr.get("nontrivial", 0)
        cov["rule"] = pr.get("rule", "")
        cov["samples"] = pr.get("samples", [])
    level = P["level"] if (proved or failed) else "other"
    if undecided:
        cov["explanation"] = "units %s undecided on this tree (%s); the bounded probe stood in for them, so nothing is counted as proved for those units" % ([r["unit"] for r in undecided], "; ".join(r["reason"][:200] for r in undecided))
    elif level == "other":
        cov["explanation"] = P.get("note", "")
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": P.get("assumptions", []) + COMMON, "wall_s": round(time.time() - T0, 1),
          "violations": len(violations) + (len(failed) if not violations else 0)}
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)

    for r in results:
        print("%s %-22s %-9s verified=%s errors=%s smt_ms=%s %s" % (pid, r["unit"], r["status"], r.get("verified"), r.get("errors"), r.get("smt_ms"), r.get("reason", "")[:300].replace("\n", " ")))
    print("%s probe %s cases=%s %s" % (pid, pr["status"], pr.get("cases"), pr.get("reason", "")[:600]))
    for c in canaries:
        print("%s canary %s" % (pid, c))
        if c and c["rejected"] < c["canaries"]:
            print("vacuous contract in unit " + c["unit"]); sys.exit(2)
    for l in lines:
        print(l)
    if lines:
        sys.exit(1)
    if pr["status"] == "broken":
        sys.exit(2)
    sys.exit(0)


COMMON = [
    "vx rewrites (listed per function in coverage.functions_under_contract) preserve meaning; vx and syn are trusted",
    "Verus and Z3 are sound; machine integers are Verus' bounded integers; panics are proof obligations (vx_panic requires false)",
    "std / indexmap collections and iterator adaptors behave as contracted in contracts/prelude/core.rs",
]
if __name__ == "__main__":
    main()
