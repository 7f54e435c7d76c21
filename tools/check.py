#!/usr/bin/env python3
"""Decides one property: runs the deductive verifier on /repo's current source, and, if it rejects an obligation,
looks for a concrete failing input by running the real code. See DESIGN.md."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PROP, TIER = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
REPLAY = {}
for i in range(1, 12):
    REPLAY["C%02d" % i] = ["forkjoin"]
for i in range(12, 16):
    REPLAY["C%02d" % i] = ["sync"]
for i in range(16, 20):
    REPLAY["C%02d" % i] = ["sort"]
for i in range(20, 31):
    REPLAY["C%02d" % i] = ["pipeline"]
for p in ("C03", "C04", "C05", "C09"):
    REPLAY[p] = ["forkjoin", "sync"]
RACE = {"C03", "C04", "C06", "C09", "C12", "C13", "C15", "C16", "C17", "C18", "C22", "C23", "C29", "C21"}

env = dict(os.environ, GOFLAGS="", GOWORK="off", GOTOOLCHAIN="local", GOPROXY="off", VERIF_SEED=str(SEED))
scratch = tempfile.mkdtemp(prefix="verif-%s-" % PROP)


def sh(cmd, timeout, cwd=None, extra=None):
    e = dict(env, **(extra or {}))
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        out = x.stdout or ""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        return 124, out


def build_gocv():
    os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
    exe = os.path.join(scratch, "gocv")
    rc, out = sh(["go", "build", "-mod=vendor", "-o", exe, "."], 600, cwd=os.path.join(VERIF, "gocv"))
    if rc != 0:
        sys.stderr.write(out)
        raise SystemExit("cannot build the verifier")
    return exe


def units_of(failed):
    r = []
    for f in failed:
        for n in re.findall(r"\b(?:parallel|sequential|speculative|sync|sort|pipeline|internal)\.[A-Za-z][\w.]*", f["unit"]):
            if n not in r:
                r.append(n)
    return r


def hints(failed):
    """numbers that occur in the counterexamples and in the sources of the packages concerned"""
    nums = []
    pk = {u.split(".")[0] for u in units_of(failed)} | {"internal"}
    for f in failed:
        nums += [int(n) for n in re.findall(r"(?<![\w.])\d{1,4}(?![\w.])", f.get("detail") or "")]
    for p in pk:
        d = os.path.join(REPO, p)
        for fn in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if fn.endswith(".go") and not fn.endswith("_test.go"):
                s = open(os.path.join(d, fn), errors="replace").read()
                s = re.sub(r"//[^\n]*", "", s)
                for n in re.findall(r"(?<![\w.\"])(0x[0-9a-fA-F]+|\d+)(?![\w.\"])", s):
                    try:
                        nums.append(int(n, 0))
                    except ValueError:
                        pass
    out = []
    for n in nums:
        if 2 <= n <= 20000 and n not in out:
            out.append(n)
    return out[:60]


def replay(failed, budget):
    """runs the scenario generators against the real code; returns (failing input or None, log, evaluations)"""
    log, evals = [], 0
    for pkg in REPLAY.get(PROP, []):
        d = os.path.join(VERIF, "replay", pkg)
        if not os.path.isdir(d):
            continue
        if not any(("TestVerif_%s(" % PROP) in open(os.path.join(d, f)).read() for f in os.listdir(d)):
            continue
        rep = {os.path.join(REPO, "verifreplay_" + pkg, f): os.path.join(d, f) for f in os.listdir(d) if f.endswith(".go")}
        ov = os.path.join(scratch, "ov-%s.json" % pkg)
        json.dump({"Replace": rep}, open(ov, "w"))
        for race in ([False, True] if PROP in RACE else [False]):
            exe = os.path.join(scratch, "%s%s.test" % (pkg, "-race" if race else ""))
            cmd = ["go", "test", "-overlay", ov, "-vet=off", "-c", "-o", exe] + (["-race"] if race else []) + ["./verifreplay_" + pkg]
            rc, out = sh(cmd, 300, cwd=REPO)
            if rc != 0:
                log.append("$ %s\n%s" % (" ".join(cmd), out[-3000:]))
                continue
            cur = os.path.join(scratch, "current")
            run = os.path.join(scratch, "run-" + pkg)
            os.makedirs(run, exist_ok=True)
            rc, out = sh([exe, "-test.run", "^TestVerif_%s$" % PROP, "-test.v", "-test.timeout", "%ds" % (budget * 3 + 90)], budget * 3 + 120, cwd=run,
                         extra=dict(VERIF_BUDGET=str(budget), VERIF_UNITS=" ".join(units_of(failed)), VERIF_HINTS=" ".join(map(str, hints(failed))), VERIF_CURRENT=cur))
            log.append("$ %s test, race detector %s\n%s" % (pkg, "on" if race else "off", out[-6000:]))
            evals += sum(int(n) for n in re.findall(r"evaluations=(\d+)", out))
            if rc != 0:
                m = re.search(r"FAILING INPUT:.*(?:\n .*)*", out)
                what = m.group(0) if m else ""
                if "WARNING: DATA RACE" in out:
                    what += "\nDATA RACE\n" + out[out.index("WARNING: DATA RACE"):][:3000]
                if not m:
                    c = open(cur).read().strip() if os.path.exists(cur) else "?"
                    what += "\nFAILING INPUT: %s\n  the process crashed, deadlocked or was reported by the race detector:\n%s" % (c, out[-3000:])
                return what.strip(), "\n".join(log), evals
    return None, "\n".join(log), evals


def main():
    exe = build_gocv()
    rj = os.path.join(scratch, "report.json")
    cmd = [exe, "-repo", REPO, "-contracts", os.path.join(VERIF, "contracts"), "-prop", PROP, "-json", rj]
    if TIER == "thorough":
        cmd.append("-thorough")
    rc, out = sh(cmd, 600)
    rep, failed = {}, []
    if os.path.exists(rj):
        rep = json.load(open(rj))
        failed = rep.get("failed", [])
    elif rc != 0:
        failed = [dict(unit="(all)", obligation="load", position="", detail=out[-4000:], properties=[PROP], untranslatable=True)]
    if not failed and (rc != 0 or rep.get("obligations", 0) == 0 or not rep.get("functions_under_contract")):
        failed = [dict(unit="(all)", obligation="no-obligations-generated", position="", detail=out[-4000:], properties=[PROP], untranslatable=True)]
    refuted = [f for f in failed if not f.get("untranslatable")]
    undec = [f for f in failed if f.get("untranslatable")]

    violation, suffix, found, rlog, evals = False, "", None, "", 0
    if failed or TIER == "thorough":
        found, rlog, evals = replay(failed, 20 if TIER == "quick" else 60)
        if found:
            violation = True
        elif refuted:
            violation, suffix = True, " no-failing-input-found"
        elif undec and evals == 0:
            violation, suffix = True, " no-failing-input-found"
    bounded = [] if violation else undec
    replay_path = os.path.join(VERIF, "evidence", "replay-%s.txt" % PROP)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if failed or found:
        with open(replay_path, "w") as fh:
            fh.write("property %s, tier %s, seed %d, %s\n" % (PROP, TIER, SEED, REPO))
            fh.write("\nfailing input on the real code:\n%s\n" % (found or "none found"))
            fh.write("\nobligations the verifier rejected:\n")
            for f in failed:
                fh.write("  %s: %s at %s%s\n      %s\n" % (f["unit"], f["obligation"], f["position"], " (untranslatable)" if f.get("untranslatable") else "", (f.get("detail") or "").replace("\n", "\n      ")[:4000]))
            fh.write("\nto repeat: %s\n" % " ".join(cmd))
            fh.write("\nreplay log:\n%s\n" % rlog)

    info = json.load(open(os.path.join(VERIF, "tools", "trusted.json")))
    assumptions = [a["text"] for a in info if PROP in a["props"] or a["props"] == ["all"]]
    cov = dict(
        obligations=rep.get("obligations", 0), discharged=rep.get("discharged", 0),
        checker_cmd=" ".join(["gocv"] + cmd[1:]).replace(rj, "REPORT.json"),
        trusted_base=[a["text"] for a in info if a.get("trusted") and (PROP in a["props"] or a["props"] == ["all"])],
        verified_units=rep.get("units", 0), functions_under_contract=rep.get("functions_under_contract", []),
        discharged_by=rep.get("discharged_by", {}), solver_queries=rep.get("solver_queries", {}), solver_seconds=rep.get("solver_seconds", {}),
        obligations_by_name=rep.get("obligations_by_name", {}), unit_seconds=rep.get("unit_seconds", {}),
        failed_obligations=[{k: f.get(k) for k in ("unit", "obligation", "position")} for f in failed][:50],
        bounded_stand_ins=[dict(unit=f["unit"], reason=(f.get("detail") or "")[:300], bound="random and small exhaustive scenarios, see replay/") for f in bounded],
        replay_evaluations=evals)
    ev = dict(property=PROP, tier=TIER, seed=SEED, level="proof" if not bounded else "other", coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - T0, 3), violations=1 if violation else 0)
    if bounded:
        cov["explanation"] = "some functions could not be translated; a bounded check of these functions stands in for the proof (never counted as proved)"
    json.dump(ev, open(os.path.join(VERIF, "evidence", PROP + ".json"), "w"), indent=1)

    print("%s %s: %d units, %d functions under contract, %d obligations, %d discharged, %d rejected, %d untranslatable, %.1f s" % (
        PROP, TIER, rep.get("units", 0), len(rep.get("functions_under_contract", [])), cov["obligations"], cov["discharged"], len(refuted), len(undec), time.time() - T0))
    for f in failed[:12]:
        print("  rejected: %s: %s at %s %s" % (f["unit"], f["obligation"], f["position"], (f.get("detail") or "").split("\n")[0][:200]))
    for f in bounded[:12]:
        print("  BOUNDED (not proved): %s: %d scenarios of the real code stand in" % (f["unit"], evals))
    if violation:
        if found:
            print("  " + found[:1500].replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s%s" % (PROP, replay_path, suffix))
        return 1
    return 0


try:
    rc = main()
finally:
    shutil.rmtree(scratch, ignore_errors=True)
sys.exit(rc)
