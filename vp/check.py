#!/usr/bin/env python3
"""check.py PROPERTY — decides one property on /repo's current working tree. See DESIGN.md."""
import json, os, re, subprocess, sys, time, shutil, threading, concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
B = os.path.join(V, "build")
T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
NCPU = os.cpu_count() or 4
FOUND = threading.Event()


def run(cmd, timeout, env=None, cwd=None):
    """(rc, stdout, stderr); rc None on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         env=env or ENV, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, e = p.communicate()
        return None, o, e


def build_tools():
    rc, o, e = run(["cargo", "build", "--release", "--quiet"], 600, cwd=f"{V}/extract")
    if rc != 0:
        print(e[-2000:])
        sys.exit("extractor does not build")


def build_rt(log):
    """the real crate with the executable contracts; first with the hook, then without"""
    # the crate has no committed lock file: use the one the sandbox builds with, else the committed copy
    for flags in ("--cfg vp_hooks", ""):
        env = dict(ENV, RUSTFLAGS=flags)
        d = f"{B}/rt-hooks" if flags else f"{B}/rt-plain"
        rc, o, e = run(["cargo", "build", "--release", "--quiet", "--target-dir", d], 600, env=env, cwd=f"{V}/rt")
        log.append(f"cargo build rt [{flags}] -> {rc}")
        if rc == 0:
            return f"{d}/release/rt", bool(flags)
        last = e
    print(last[-3000:])
    return None, False


def build_py(log):
    """the Python extension of the tree, for the executable contract of C16"""
    for py in ("/usr/bin/python3.12", "/usr/bin/python3", "python3"):
        if shutil.which(py):
            break
    env = dict(ENV, PYO3_PYTHON=shutil.which(py) or py)
    rc, o, e = run(["cargo", "build", "--release", "--quiet", "--offline", "-p", "disc-riider-py", "--manifest-path", f"{REPO}/Cargo.toml", "--target-dir", f"{B}/py"], 600, env=env, cwd=B)
    log.append(f"cargo build disc-riider-py -> {rc}")
    so = f"{B}/py/release/libdisc_riider_py.so"
    if rc != 0 or not os.path.exists(so):
        print(e[-2000:])
        return False
    d = f"{B}/pymod"
    os.makedirs(d, exist_ok=True)
    shutil.copyfile(so, f"{d}/disc_riider_py.so")
    ENV["VP_PYMOD"], ENV["VP_PYDRIVE"] = d, f"{V}/rt/py/drive.py"
    return True


# ------------------------------------------------------------------------------------------------
# Verus units

IGNORED = ("Resource limit", "rlimit")
# messages of obligations the solver could not discharge, as opposed to text Verus does not take
OBLIG = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
         "possible arithmetic underflow/overflow", "decreases not satisfied", "possible division by zero",
         "possible bit shift", "recommendation not met", "unreachable", "loop invariant", "constructor")
SAFETY = ("precondition not satisfied", "possible arithmetic", "possible division", "possible bit shift", "decreases not satisfied", "unreachable")


def verus(src, rlimit, timeout, errors=5):
    rc, o, e = run(["verus", src, "--rlimit", str(rlimit), "--multiple-errors", str(errors), "--output-json", "--time", "--error-format=json"],
                   timeout, cwd=os.path.dirname(src))
    res = {"rc": rc, "verified": 0, "errors": 0, "smt_ms": 0, "msgs": []}
    if rc is None:
        res["msgs"].append({"text": "verus timed out", "lines": [], "rlimit": True})
        return res
    try:
        j = json.loads(o)
        vr = j.get("verification-results", {})
        res["verified"], res["errors"] = vr.get("verified", 0) or 0, vr.get("errors", 0) or 0
        res["ok"] = bool(vr.get("success"))
        t = j.get("times-ms", {})
        res["smt_ms"] = (t.get("smt", {}) or {}).get("total", 0)
    except ValueError:
        res["ok"] = False
    for line in e.splitlines():
        if not line.startswith("{"):
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level") != "error" or m["message"].startswith("aborting due to"):
            continue
        lines = [(s["line_start"], s["line_end"], bool(s["is_primary"])) for s in m.get("spans", [])]
        t = m["message"]
        res["msgs"].append({"text": t, "lines": lines, "rlimit": any(x in t for x in IGNORED),
                            "oblig": any(t.startswith(x) or x in t for x in OBLIG) and m.get("code") is None,
                            "rendered": m.get("rendered", "")[:4000]})
    return res


def scan_trusted(text):
    out = []
    for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]", text):
        out.append(f"assumed contract of {' '.join(m.group(1).split())}")
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:broadcast )?((?:proof |const )?(?:fn|struct)\s+\w+)", text):
        out.append(f"external_body {m.group(1)}")
    for m in re.finditer(r"\b(axiom fn \w+)", text):
        out.append(m.group(1))
    n = len(re.findall(r"\b(?:assume|admit)\s*\(", text))
    if n:
        out.append(f"{n} assume/admit statements")
    for m in re.finditer(r"uninterp spec fn (\w+)", text):
        out.append(f"uninterpreted {m.group(1)}")
    return out


def run_probe(u, tier, where):
    d = f"{B}/units"
    ps, pm = f"{d}/{u}_probe_{where}.rs", f"{d}/{u}_probe_{where}.json"
    run([f"{V}/extract/target/release/extract", f"{V}/contracts/{u}.vrs", f"{REPO}/src", ps, pm], 60, env=dict(ENV, VP_PROBE=where))
    if tier != "thorough":  # a contradiction shows at once; what does not is counted as failing as it must
        t = re.sub(r"#\[verifier::rlimit\(\d+\)\]", "", open(ps).read())
        open(ps, "w").write(t)
    pv = verus(ps, 30 if tier == "thorough" else 4, 300, errors=0)
    pmap = json.load(open(pm))["map"]
    hit = set()
    for x in pv["msgs"]:
        for f in pmap:
            if any(f["from"] <= a and b <= f["to"] for a, b, _ in x["lines"]):
                hit.add(f["fn"])
    return hit, [f["fn"] for f in pmap]


def run_unit(u, tier, probe=True):
    d = f"{B}/units"
    os.makedirs(d, exist_ok=True)
    src, meta = f"{d}/{u}.rs", f"{d}/{u}.json"
    r = {"unit": u, "state": "lost", "verified": 0, "obligations": 0, "failed": [], "notes": [], "smt_ms": 0, "trusted": [], "functions": [],
         "cmd": f"verus build/units/{u}.rs --rlimit 30"}
    rc, o, e = run([f"{V}/extract/target/release/extract", f"{V}/contracts/{u}.vrs", f"{REPO}/src", src, meta], 60)
    if rc != 0:
        r["notes"].append("extraction: " + (o + e).strip()[-500:])
        return r
    m = json.load(open(meta))
    base = {(s["file"], s["path"]): s for s in json.load(open(f"{V}/contracts/shapes.json")).get(u, [])}
    changed = set()
    for s in m["shapes"]:
        b = base.get((s["file"], s["path"]))
        if not b or b["loops"] != s["loops"]:
            changed.add(s["path"])
    r["functions"] = [f"{s['file']}:{s['path']}" for s in m["shapes"]]
    r["rewrites"], r["substitutions"] = m["rewrites"], m["substitutions"]
    text = open(src).read()
    proved_in = {}
    for un, fs in json.load(open(f"{V}/contracts/shapes.json")).items():
        for f in fs:
            proved_in.setdefault(f"{f['file']}:{f['path']}", un)
    r["by_contract"] = [f"{x} (proved in unit {proved_in.get(x, '?')})" for x in m.get("by_contract", [])]
    names = {"fn " + x.split(":")[-1] for x in m.get("by_contract", []) if x in proved_in}
    r["trusted"] = [t for t in scan_trusted(text) if t.replace("external_body ", "") not in names]
    # the probe runs beside the proof
    wheres = ("start", "end") if tier == "thorough" else ("start",)
    probes = cf.ThreadPoolExecutor(1)
    early = {wheres[0]: probes.submit(run_probe, u, tier, wheres[0])} if probe else {}
    res = verus(src, 30, 300)
    # a second, longer attempt, unless a failing input is known already
    if not res.get("ok") and any(x["rlimit"] or x.get("oblig") for x in res["msgs"]) and not FOUND.is_set():
        again = verus(src, 150, 400 if tier == "thorough" else max(60, min(400, 560 - int(time.time() - T0))))
        if again["rc"] is not None:
            res = again
    r["smt_ms"] = res["smt_ms"]
    r["verified"], r["obligations"] = res["verified"], res["verified"] + res["errors"]
    if res.get("ok") and res["errors"] == 0 and res["verified"] > 0:
        r["state"] = "proved"
    elif res["msgs"] and all(x.get("oblig") or x["rlimit"] for x in res["msgs"]) and res["verified"] + res["errors"] > 0:
        r["state"] = "failed"
        for x in res["msgs"]:
            fns = []
            for f in m["map"]:
                if any(f["from"] <= a and b <= f["to"] for a, b, prim in x["lines"]):
                    fns.append(f["fn"])
            decided = not x["rlimit"] and not (changed & set(fns)) and (bool(fns) or not changed)
            r["failed"].append({"functions": fns or ["(lemma or glue over the contracts)"], "message": x["text"], "decided": decided,
                                "shape_changed": sorted(changed & set(fns)), "output": x.get("rendered", "")})
    else:
        r["state"] = "unsupported"
        r["notes"] += [x["text"][:300] for x in res["msgs"][:5]] or [f"verus exit {res['rc']}"]
    # vacuity: with `assert(false)` at the start (thorough: also before the result) every function must fail
    if r["state"] == "proved" and probe:
        for where in wheres:
            hit, names = (early.pop(where) if where in early else probes.submit(run_probe, u, tier, where)).result()
            silent = [f for f in names if f not in hit]
            r["notes"].append(f"reachability probe at {where}: {len(hit)} of {len(names)} functions fail as they must")
            if silent:
                r["notes"].append(f"VACUOUS at {where}: " + ", ".join(silent))
                if where == "start":
                    r["state"] = "vacuous"
    probes.shutdown(wait=False, cancel_futures=True)
    return r


# ------------------------------------------------------------------------------------------------
# executable contracts

def rt_one(bin, prop, seed, secs, k):
    out, cur = f"{B}/rt-{prop}-{k}.json", f"{B}/rt-{prop}-{k}.cur"
    for p in (out, cur):
        if os.path.exists(p):
            os.remove(p)
    scratch = f"{B}/scratch-{prop}-{k}"
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    env = dict(ENV, TMPDIR=scratch)
    try:
        rc, o, e = run([bin, prop, "--seed", str(seed), "--secs", str(secs), "--out", out, "--cur", cur], secs + 90, env=env, cwd=scratch)
        if rc in (0, 1) and os.path.exists(out):
            return json.load(open(out))
        if rc == 2:
            return None
        # hung, aborted or killed: is it the case itself?
        try:
            case = int(open(cur).read())
        except (OSError, ValueError):
            return None
        out2 = out + ".again"
        rc2, o2, e2 = run([bin, prop, "--seed", str(seed), "--case", str(case), "--out", out2], 120, env=env, cwd=scratch)
        if rc2 in (0, 1):
            return json.load(open(out2)) if rc2 == 1 else {"evaluations": case, "distinct_nontrivial": 0, "samples": [], "failure": None, "seed": seed}
        what = "did not end within 120 s" if rc2 is None else f"process ended with status {rc2}: {e2[-400:]}"
        return {"evaluations": case, "distinct_nontrivial": 0, "samples": [], "seed": seed, "failure": {"case": case, "what": what, "input": []}}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def rt_many(bin, prop, seed, secs, n, off=0):
    def one(k):
        x = rt_one(bin, prop, seed * 1000 + off + k, secs, off + k)
        if x and x.get("failure"):
            FOUND.set()
        return x
    with cf.ThreadPoolExecutor(n) as ex:
        return [x for x in ex.map(one, range(n)) if x]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = json.load(open(f"{V}/contracts/props.json"))[prop]
    os.makedirs(B, exist_ok=True)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    log = []
    build_tools()
    rt_bin, hooks = build_rt(log)
    if not rt_bin:
        print("rt does not build against the current tree")
    if conf.get("python") and rt_bin and not build_py(log):
        print("the Python extension does not build from the current tree")
    quick = tier == "quick"
    secs = conf.get("secs", 40) if quick else conf.get("secs_thorough", 420)
    nrt = max(2, NCPU - 2)
    sys.path.insert(0, f"{V}/vp")
    with cf.ThreadPoolExecutor(8) as ex:
        frt = ex.submit(rt_many, rt_bin, prop, seed, secs, nrt) if rt_bin else None
        fus = [ex.submit(run_unit, u, tier) for u in conf["units"]]
        fk = None
        if conf.get("kani"):
            import kani
            fk = ex.submit(kani.run_all, V, REPO, B, conf["kani"], tier, run, ENV)
        runs = frt.result() if frt else []
        units = [f.result() for f in fus]
        kres = fk.result() if fk else []
    safety_only = conf.get("safety_only", False)
    relevant = conf.get("functions")  # unit -> list of functions, None: all
    decided = []
    undecided = []
    for u in units:
        keep = (relevant or {}).get(u["unit"])
        for f in u["failed"]:
            if keep and not (set(f["functions"]) & set(keep)) and not f["functions"][0].startswith("("):
                continue
            if safety_only and not any(f["message"].startswith(x) or x in f["message"] for x in SAFETY):
                undecided.append(f)
                continue
            f["unit"] = u["unit"]
            (decided if f["decided"] else undecided).append(f)
    for k in kres:
        if k["state"] == "failed":
            decided.append({"unit": "kani", "functions": [k["harness"]], "message": k["what"], "output": k["output"], "kani": True})
    failure = next((x for x in runs if x.get("failure")), None)
    if not failure and (decided or undecided or any(u["state"] != "proved" for u in units)) and rt_bin:
        # look harder for an input before reporting or passing over an undischarged obligation
        more = rt_many(rt_bin, prop, seed, 60 if quick else 300, nrt, off=100)
        runs += more
        failure = next((x for x in more if x.get("failure")), None)
    violations = 0
    if failure or decided:
        violations = 1
        os.makedirs(f"{V}/build/replay", exist_ok=True)
        rp = f"{V}/build/replay/{prop}.txt"
        pyenv = "".join(f"{k}={ENV[k]} " for k in ("VP_PYMOD", "VP_PYDRIVE") if k in ENV)
        with open(rp, "w") as f:
            if failure:
                fl = failure["failure"]
                f.write(f"property {prop} broken on the real code\n{fl['what']}\n\nreplay: cd {V} && {pyenv}{rt_bin} {prop} --seed {failure['seed']} --case {fl['case']}\n\ninput:\n" + "\n".join(map(str, fl["input"])) + "\n")
            for d in decided:
                f.write(f"\nfailed obligation: {d['message']} in {', '.join(d['functions'])} (unit {d['unit']})\n{d['output']}\n")
        if failure:
            print("failing input:", failure["failure"]["what"][:600])
        for d in decided:
            print(f"failed obligation: {d['message']} in {', '.join(d['functions'])} (unit {d['unit']})")
        print(f"VIOLATION property={prop} replay={rp}" + ("" if failure else " no-failing-input-found"))
    ev_n = sum(x["evaluations"] for x in runs)
    obl = sum(u["obligations"] for u in units) + sum(k["checks"] for k in kres)
    dis = sum(u["verified"] for u in units) + sum(k["checks"] - k["failed_checks"] for k in kres if k["state"] == "proved")
    trusted = sorted({t for u in units for t in u["trusted"]})
    trusted += ["Verus 0.2026.09.13 and its Z3", "the extractor's rewrites (DESIGN.md, Extraction)"] if units else []
    trusted += ["Kani 0.68 / CBMC"] if kres else []
    proved = all(u["state"] == "proved" for u in units) and all(k["state"] == "proved" for k in kres)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": conf["level"], "violations": violations, "wall_s": 0,
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": "; ".join([u["cmd"] for u in units] + ["cargo kani --harness " + k["harness"] for k in kres]),
            "trusted_base": trusted,
            "proof_complete_this_run": proved,
            "functions_under_contract": sorted({f for u in units for f in u["functions"]}),
            "used_by_contract": sorted({f for u in units for f in u.get("by_contract", [])}),
            "back_ends": ([{"unit": u["unit"], "state": u["state"], "verified": u["verified"], "obligations": u["obligations"], "solver_ms": u["smt_ms"], "notes": u["notes"],
                            "undischarged": [{k: v for k, v in f.items() if k != "output"} for f in u["failed"]]} for u in units]
                          + [{"kani": k["harness"], "state": k["state"], "checks": k["checks"], "bound": k.get("bound", ""), "wall_s": k["wall_s"], "notes": k.get("notes", [])} for k in kres]),
            "extraction": {"rewrites": sorted({t for u in units for t in u.get("rewrites", [])}), "substitutions": sorted({t for u in units for t in u.get("substitutions", [])})},
            "bounded_stand_in": {"for": conf.get("bounded", []), "label": "bounded, never counted as proved",
                                 "bound": f"{ev_n} generated cases, {secs} s on each of {nrt} processes"},
            "evaluations": ev_n, "distinct_nontrivial": sum(x["distinct_nontrivial"] for x in runs),
            "rule": "executable form of the contract run on the real crate over generated inputs (rt/src); distinct by the recorded steps, non-trivial with at least two steps",
            "samples": [s for x in runs for s in x.get("samples", [])][:3],
        },
        "assumptions": conf.get("assumptions", []) + ([] if hooks else ["built without the vp_hooks hook: the encrypting stream was only driven through the builder"]),
    }
    ev["wall_s"] = round(time.time() - T0, 2)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    for line in open(f"{V}/known_findings.txt"):
        if line.startswith("KNOWN-FINDING:") and f"property={prop} " in line:
            print(line.strip())
    for u in units:
        print(f"unit {u['unit']}: {u['state']} ({u['verified']}/{u['obligations']} verified, {u['smt_ms']} ms) {'; '.join(u['notes'])[:300]}")
    for k in kres:
        print(f"kani {k['harness']}: {k['state']} ({k['checks']} checks, {k['wall_s']} s)")
    print(f"{prop}: {ev_n} executable-contract cases; {'VIOLATION' if violations else 'held'}; {ev['wall_s']} s")
    if not rt_bin and not violations and not proved:
        sys.exit(2)
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
