#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current tree.

1. extract the functions under contract from /repo, and let the verifier discharge
   every obligation of the functions the property depends on;
2. replay: run the property against the code that was really compiled, with
   generated inputs, to give a failing input when there is one, and to stand in
   (bounded) for functions which the extraction or the verifier could not take.
"""
import json, os, re, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN, TITLES

T0 = time.time()
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
TIER = TIER if TIER in ("quick", "thorough") else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
plan = PLAN[PROP]
RUN = os.path.join(HERE, "build", "run", PROP)
LIMIT = 840 if TIER == "quick" else 6 * 3600


def left():
    return max(5, LIMIT - (time.time() - T0))


def sh(cmd, **kw):
    kw.setdefault("timeout", left())
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.PIPE)
    try:
        p = subprocess.run(cmd, text=True, errors="replace", **kw)
        return p.returncode, p.stdout or "", p.stderr or ""
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return 124, o if isinstance(o, str) else o.decode(errors="replace"), "timed out"
    except OSError as e:
        return 127, "", str(e)


# ---------------------------------------------------------------- the verifier
def build_extract():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HERE, "build", "extract"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    env["RUSTUP_TOOLCHAIN"] = "stable"
    rc, o, e = sh(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(HERE, "tools", "extract"), env=env)
    return os.path.join(HERE, "build", "extract", "release", "extract"), rc, e


def extract(exe, out, stub, only, vacuity=False):
    os.makedirs(out, exist_ok=True)
    sf, of = os.path.join(out, "stub.txt"), os.path.join(out, "only.txt")
    open(sf, "w").write("\n".join(sorted(stub)) + "\n")
    cmd = [exe, "--src", "/repo/app/roster/src", "--contracts", os.path.join(HERE, "contracts"),
           "--out", out, "--stub", sf]
    if only is not None:
        open(of, "w").write("\n".join(sorted(only)) + "\n")
        cmd += ["--only", of]
    if vacuity:
        cmd += ["--vacuity", "1"]
    rc, o, e = sh(cmd)
    main = open(os.path.join(HERE, "verus", "main.rs")).read().replace("/verif/", HERE + "/")
    open(os.path.join(out, "main.rs"), "w").write(main)
    if rc != 0:
        return None, e
    return json.load(open(os.path.join(out, "report.json"))), ""


def verus(out, extra=()):
    cmd = ["verus", "main.rs", "--crate-type=lib", "--triggers-mode", "silent", "--multiple-errors", "4",
           "--rlimit", "30", "--output-json", "--time-expanded", "--error-format=json"] + list(extra)
    rc, o, e = sh(cmd, cwd=out, timeout=min(left(), 500))
    try:
        js = json.loads(o)
    except ValueError:
        js = None
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans"):
                diags.append(d)
            elif d.get("level") == "error" and not re.match(r"aborting due", d.get("message", "")):
                diags.append(d)
    return rc, js, diags, " ".join(cmd), e


PROOF_ERRORS = re.compile(
    r"^(loop )?(postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
    r"possible arithmetic (underflow/)?overflow|possible division by zero|decreases not satisfied|bitvector assertion not satisfied|"
    r"could not prove termination|possible bit shift|unable to prove|requires not satisfied|assertion not satisfied)")
UNDECIDED = re.compile(r"rlimit|Resource limit|timed out|time out|canceled")


def refused(d):
    """An error of the compiler or of the front end, not a failed obligation."""
    return bool(d.get("code")) or not PROOF_ERRORS.search(d["message"]) and not UNDECIDED.search(d["message"])


def owner(report, diag):
    """The functions a diagnostic is about."""
    ids = []
    for s in diag.get("spans", []):
        f = s["file_name"]
        for it in report["items"]:
            if "id" not in it or it["status"] == "missing":
                continue
            if f.endswith(it["file"]) and it["gen_lines"][0] <= s["line_start"] <= it["gen_lines"][1]:
                ids.append((0 if s.get("is_primary") else 1, it["id"]))
    # the failing body: an obligation at a call shows the callee's contract too
    return [i for _, i in sorted(ids)]


def body_owner(report, diag):
    """The function whose body carries the failed obligation."""
    msg = diag["message"]
    spans = diag.get("spans", [])
    def at(s):
        for it in report["items"]:
            if "id" in it and it["status"] != "missing" and s["file_name"].endswith(it["file"]) \
                    and it["gen_lines"][0] <= s["line_start"] <= it["gen_lines"][1]:
                return it
        return None
    if "precondition" in msg:
        # the primary span is the call
        order = sorted(spans, key=lambda s: 0 if s.get("is_primary") else 1)
    else:
        order = sorted(spans, key=lambda s: 0 if s.get("is_primary") else 1)
    for s in order:
        it = at(s)
        if it and it["status"] == "verified":
            return it
    for s in order:
        it = at(s)
        if it:
            return it
    return None


CALLS = re.compile(r"shim/(monoio/io|std/cell|text|scc)\.rs$")


def could_stop(d):
    """Whether the failed obligation is one without which the code panics, or never ends."""
    m = d["message"]
    if re.search(r"arithmetic|division|bit shift|decreases|terminat", m):
        return True
    if "precondition" not in m:
        return False
    if all(s.get("is_primary") for s in d["spans"]):
        # of what the verifier knows itself: indexing
        return True
    for s in d["spans"]:
        if s.get("is_primary"):
            continue
        f = s["file_name"]
        if not CALLS.search(f) and ("shim/" in f or "vstd" in f):
            return True
        if s.get("text") and s["text"][0]["text"].strip().startswith("requires false"):
            return True
    return False


def prove():
    r = {"failed": [], "undecided": {}, "functions": [], "obligations": 0, "discharged": 0,
         "cmd": "", "solver_ms": 0, "trusted": [], "notes": [], "ok": False, "breakdown": [], "rules": {}}
    exe, rc, e = build_extract()
    if rc != 0:
        r["notes"].append("extractor not built: " + e[-400:])
        return r
    gen = os.path.join(RUN, "gen")
    rep, e = extract(exe, gen, set(), None)
    if rep is None:
        r["notes"].append("extraction failed: " + e[-400:])
        return r
    want = [i for i in rep["items"] if "id" in i and PROP in i["props"]]
    # every function, for what could stop it
    whole = {i["id"] for i in want}
    if plan.get("panics"):
        want += [i for i in rep["items"] if "id" in i and PROP not in i["props"] and i["props"]]
    ids = {i["id"] for i in want}
    und = {}
    for i in want:
        if i["status"] == "missing":
            und[i["id"]] = "not found in the source"
        elif i["status"] == "trusted":
            r["trusted"].append("assumed contract: " + i["id"])
    only = {i["id"] for i in want if i["status"] == "verified"}
    if not only:
        r["undecided"] = und
        return r
    stub = set()
    for f in rep["fatal"]:
        r["notes"].append("file not read: " + f)
    js = diags = None
    for attempt in range(8):
        rep, e = extract(exe, gen, stub, only)
        if rep is None:
            r["notes"].append("extraction failed: " + e[-400:])
            return r
        rc, js, diags, cmd, err = verus(gen, plan.get("verus", ()))
        r["cmd"] = cmd
        vr = (js or {}).get("verification-results", {})
        front = (js is None) or vr.get("encountered-vir-error") or "verified" not in vr \
            or any(refused(d) for d in diags)
        if not front:
            break
        # the front end refuses something: set the functions it names aside
        bad = set()
        for d in diags:
            if not refused(d):
                continue
            for i in owner(rep, d):
                if i in only and i not in stub:
                    bad.add(i)
                    und[i] = "not accepted by the verifier: " + d["message"][:200]
                    break
        r["notes"].append("front end: " + "; ".join(d["message"][:150] for d in diags[:4]))
        if not bad:
            for i in only - stub:
                und[i] = "the verifier did not take the file: " + "; ".join(d["message"][:120] for d in diags[:2])
            r["undecided"] = und
            return r
        stub |= bad
    else:
        for i in only - stub:
            und[i] = "the verifier did not take the file"
        r["undecided"] = und
        return r
    vr = js["verification-results"]
    items = {i["id"]: i for i in rep["items"] if "id" in i}
    failed = {}
    for d in diags:
        if UNDECIDED.search(d["message"]):
            it = body_owner(rep, d)
            if it:
                und[it["id"]] = "resource limit"
            else:
                r["notes"].append("resource limit outside the functions under contract: " + d.get("rendered", "")[:300])
            continue
        if not d.get("spans"):
            continue
        it = body_owner(rep, d)
        if it is None and plan.get("panics") and any(s["file_name"] in {x.get("file") for x in rep["items"]} for s in d["spans"]):
            # a lemma over the constants of a file
            s0 = d["spans"][0]
            r["failed"].append({"function": "lemma of " + s0["file_name"], "source": s0["file_name"], "obligation": d["message"],
                                "at": s0["text"][0]["text"].strip() if s0.get("text") else "", "verifier_output": d.get("rendered", "")})
            continue
        if it is None:
            r["notes"].append("obligation outside the functions under contract: " + d.get("rendered", "")[:400])
            und.setdefault("(specification)", "an obligation of the specification itself")
            continue
        failed.setdefault(it["id"], []).append(d)
    for i, ds in failed.items():
        it = items[i]
        if it["problems"] or it["unknown_helpers"]:
            und[i] = "not decided: " + "; ".join(it["problems"] + ["calls " + h for h in it["unknown_helpers"]])
            continue
        if und.get(i) == "resource limit":
            continue
        if i not in whole:
            other = [d for d in ds if not could_stop(d)]
            ds = [d for d in ds if could_stop(d)]
            if other and not ds:
                und[i] = "its contract does not hold, but for nothing that could stop it: " + other[0]["message"][:100]
        for d in ds:
            txt = ""
            for s in d["spans"]:
                if s.get("is_primary") and s.get("text"):
                    txt = s["text"][0]["text"].strip()
            r["failed"].append({"function": i, "source": "app/roster/src/%s:%d-%d" % (it["file"], it["src_lines"][0], it["src_lines"][1]),
                                "obligation": d["message"], "at": txt, "verifier_output": d.get("rendered", "")})
    for i in only:
        it = items.get(i)
        if it and i not in und and i not in failed and it["problems"]:
            # verified although an anchor is lost: the contract still is
            r["notes"].append("%s: %s" % (i, "; ".join(it["problems"])))
    r["undecided"] = und
    fb = []
    for m in js["times-ms"].get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            fb.append(f)
    r["solver_ms"] = js["times-ms"].get("smt", {}).get("total", 0)
    r["obligations"] = vr["verified"] + vr["errors"]
    r["discharged"] = vr["verified"]
    r["breakdown"] = fb
    for i in sorted(only - set(und) - set(failed)):
        it = items[i]
        r["functions"].append("%s (app/roster/src/%s:%d)" % (i, it["file"], it["src_lines"][0]))
        for x in it["rules"]:
            k = x.split("@")[0]
            r["rules"][k] = r["rules"].get(k, 0) + 1
    # vacuity: `assert(false)` at the start of every function must fail
    live = only - set(und) - set(failed)
    if live and not r["failed"]:
        vg = os.path.join(RUN, "vac")
        rep2, e = extract(exe, vg, stub, only, vacuity=True)
        if rep2 is not None:
            rc2, js2, d2, cmd2, err2 = verus(vg, plan.get("verus", ()))
            hit = set()
            for d in d2:
                for i in owner(rep2, d):
                    hit.add(i)
            missed = sorted(i for i in live - hit if "::const " not in i)
            if js2 is None or "verified" not in js2.get("verification-results", {}):
                r["notes"].append("vacuity run: no answer")
            elif missed:
                r["notes"].append("vacuous: " + ", ".join(missed))
                for i in missed:
                    und[i] = "its precondition may be unsatisfiable"
            r["vacuity_checked"] = len(live) - len(missed)
    r["ok"] = not r["failed"] and not und and r["discharged"] > 0
    return r


def scan_trusted():
    """Every assumption the verifier was given, counted from the text."""
    out = []
    for base, _, fs in os.walk(os.path.join(HERE, "verus")):
        for f in sorted(fs):
            p = os.path.join(base, f)
            t = open(p).read()
            n = len(re.findall(r"external_body|assume_specification|\bassume\(|\badmit\(|external_type_specification|\baxiom fn", t))
            if n:
                out.append("%s: %d assumed contracts or axioms" % (os.path.relpath(p, HERE), n))
    for base, _, fs in os.walk(os.path.join(HERE, "contracts")):
        for f in sorted(fs):
            p = os.path.join(base, f)
            t = open(p).read()
            n = len(re.findall(r"external_body|assume_specification|\bassume\(|\badmit\(|\+trusted", t))
            if n:
                out.append("%s: %d assumed contracts or axioms" % (os.path.relpath(p, HERE), n))
    return out


# ---------------------------------------------------------------- the replay
def build_harness(bins):
    exe = os.path.join(HERE, "tools", "build_harness.sh")
    rc, o, e = sh(["bash", exe] + bins)
    if rc == 0:
        return set(bins), ""
    built, why = set(), e[-1500:]
    for b in bins:
        rc, o, e = sh(["bash", exe, b])
        if rc == 0:
            built.add(b)
    if "serve" in bins and "serve" not in built:
        rc, o, e = sh(["bash", exe, "--plain", "serve"])
        if rc == 0:
            built.add("serve")
    return built, why


def assume(built):
    """Compare what the shim assumes of the libraries with what they do."""
    if "assume" not in built:
        return ["not built"]
    env = dict(os.environ, VERIF_SEED=str(SEED), VERIF_TIER=TIER)
    rc, o, e = sh([os.path.join(HERE, "build", "harness", "debug", "assume"), PROP], env=env, timeout=120)
    out = [l[6:] for l in o.splitlines() if l.startswith("COUNT ")] + ["BROKEN: " + l[7:] for l in o.splitlines() if l.startswith("BROKEN ")]
    return out if rc == 0 else out + ["exit %d" % rc]


def replay(built):
    """Run the property against the compiled code."""
    res = {"runs": [], "fail": None, "evaluations": 0, "samples": []}
    env = dict(os.environ, VERIF_SEED=str(SEED), VERIF_TIER=TIER)
    for step in plan["replay"]:
        kind, name, args = step[0], step[1], list(step[2:])
        if name not in built or (name == "bb" and "serve" not in built):
            res["runs"].append({"run": " ".join([name] + args), "result": "not built"})
            continue
        cmd = [os.path.join(HERE, "build", "harness", "debug", name)] + args
        rc, o, e = sh(cmd, env=env, timeout=min(left(), 400 if TIER == "quick" else 4 * 3600))
        n = 0
        for l in o.splitlines():
            if l.startswith("DONE "):
                n += int(l.split()[1])
            if l.startswith("SAMPLE "):
                res["samples"].append(l[7:][:300])
        res["evaluations"] += n
        fails = [l for l in o.splitlines() if l.startswith("FAIL ")]
        # 3: the run could not be made
        crash = rc not in (0, 1, 124, 127, 3) and not fails
        res["runs"].append({"run": " ".join(os.path.basename(c) for c in cmd), "cases": n, "exit": rc})
        if fails or (crash and kind == "bin"):
            res["fail"] = {"command": cmd, "seed": SEED, "tier": TIER,
                           "failing_input": fails[0][5:] if fails else "the code under test crashed",
                           "stdout": o[-3000:], "stderr": e[-3000:]}
            return res
        if rc != 0:
            res["runs"][-1]["note"] = (o[-300:] + " | " + e[-300:])
    return res


def known():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\S+) match=\[(.*?)\] (.*)", l)
            if m and m.group(1) == PROP:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    os.makedirs(RUN, exist_ok=True)
    bins = sorted({"assume"} | {s[1] for s in plan["replay"]} | ({"serve"} if any(s[1] == "bb" for s in plan["replay"]) else set()))
    box = {}
    def hb():
        box["h"] = build_harness(bins) if bins else (set(), "")
    th = threading.Thread(target=hb)
    th.start()
    pr = prove()
    th.join()
    built, why = box.get("h", (set(), "not built"))
    if why:
        pr["notes"].append("harness: " + why[-300:])
    assumed = assume(built)
    rp = replay(built)

    viol = 0
    lines = []
    rdir = os.path.join(HERE, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, PROP + ".json")
    if rp["fail"]:
        hit = [k for k in known() if k[0] in rp["fail"]["failing_input"]]
        if hit:
            lines.append("KNOWN-FINDING: property=%s %s" % (PROP, hit[0][1]))
        else:
            viol = 1
            json.dump({"property": PROP, "failing_input": rp["fail"], "failed_obligations": pr["failed"]}, open(path, "w"), indent=1)
            print("failing input: " + rp["fail"]["failing_input"][:1500])
            for f in pr["failed"][:6]:
                print("failed obligation: %s: %s: %s" % (f["function"], f["obligation"], f["at"]))
            lines.append("VIOLATION property=%s replay=%s" % (PROP, path))
    elif pr["failed"]:
        viol = 1
        json.dump({"property": PROP, "failed_obligations": pr["failed"], "failing_input": None, "replay_runs": rp["runs"]}, open(path, "w"), indent=1)
        for f in pr["failed"][:6]:
            print("failed obligation: %s (%s): %s: %s" % (f["function"], f["source"], f["obligation"], f["at"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (PROP, path))
    for n in pr["notes"]:
        print("note: " + n[:400])
    for k, v in pr["undecided"].items():
        print("bounded only: %s (%s)" % (k, v[:200]))
    trusted = pr["trusted"] + scan_trusted() + plan.get("trusted", [])
    slow = sorted(pr["breakdown"], key=lambda f: -f.get("time", 0))[:5]
    level = plan["level"]
    cov = {
        "obligations": pr["obligations"], "discharged": pr["discharged"],
        "checker_cmd": pr["cmd"] or "verus main.rs", "trusted_base": trusted,
        "functions_under_contract": pr["functions"],
        "failed_obligations": ["%s: %s: %s" % (f["function"], f["obligation"], f["at"]) for f in pr["failed"]],
        "bounded_only": ["%s: %s" % kv for kv in pr["undecided"].items()],
        "back_end": "Verus (Z3)", "solver_ms": pr["solver_ms"],
        "slowest": ["%s %d ms" % (f["function"], f["time"]) for f in slow],
        "vacuity_checked_functions": pr.get("vacuity_checked", 0),
        "extraction_rewritings": pr["rules"],
        "assumed_contracts_tested": assumed,
        "replay_runs": rp["runs"],
        "evaluations": rp["evaluations"],
        "samples": (rp["samples"] or [s["run"] for s in rp["runs"]])[:5],
        "notes": pr["notes"],
        "explanation": plan["explanation"],
    }
    ev = {"property": PROP, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": viol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", PROP + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged, %d functions under contract, %d replay cases, %.0f s" % (
        PROP, pr["discharged"], pr["obligations"], len(pr["functions"]), rp["evaluations"], time.time() - T0))
    for l in lines:
        print(l)
    sys.stdout.flush()
    os._exit(1 if viol else 0)


if __name__ == "__main__":
    main()
