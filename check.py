#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the symbolic executor, the crate's LLVM IR and the native replay binary
from the current tree, lets the executor decide the property's harnesses, and
replays every counterexample against the ordinary build before reporting it."""
import glob, hashlib, json, os, subprocess, sys, threading, time, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from props import PROPS, REACH  # noqa: E402

CACHE = os.path.join(VERIF, ".cache")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)
T0 = time.time()


def die(msg, code=2):
    print(f"check error: {msg}", flush=True)
    sys.exit(code)


def run(cmd, cwd, log, env=ENV):
    with open(log, "w") as f:
        return subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT).returncode


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        files = []
        if os.path.isfile(root):
            files = [root]
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def build(variant):
    """variant: cargo feature list of the harness crate ('' or 'v1' ...)"""
    os.makedirs(CACHE, exist_ok=True)
    v = variant or "base"
    eng, irt, rep = (os.path.join(CACHE, x) for x in ("eng", "irt-" + v, "rep-" + v))
    ll = os.path.join(CACHE, f"{v}.ll")
    key = tree_hash(["/repo/src", "/repo/Cargo.toml", "/repo/Cargo.lock", "/repo/tools", os.path.join(VERIF, "harness"), os.path.join(VERIF, "ir.sh")])
    stamp = ll + ".key"
    rc = {}
    fresh = os.path.exists(ll) and os.path.exists(stamp) and open(stamp).read() == key
    if not fresh:
        # what was built before (by setup.sh) was built from other sources: leave nothing of it to cargo's time stamps but the other dependencies
        for d in glob.glob(os.path.join(irt, "release/.fingerprint/kdl*")) + glob.glob(os.path.join(rep, "fast/.fingerprint/kdl*")):
            shutil.rmtree(d)

    def b_eng():
        rc["engine"] = run(["cargo", "build", "--offline", "--release", "--target-dir", eng], os.path.join(VERIF, "engine"), os.path.join(CACHE, "eng.log"))

    def b_ir():
        if fresh:
            rc["ir"] = 0
            return
        if os.path.exists(stamp):
            os.remove(stamp)
        rc["ir"] = run(["bash", os.path.join(VERIF, "ir.sh"), irt, ll, variant], VERIF, os.path.join(CACHE, f"ir-{v}.log"))
        if rc["ir"] == 0:
            open(stamp, "w").write(key)

    def b_rep():
        rc["replay"] = run(["cargo", "build", "--offline", "--profile", "fast", "--bin", "replay", "--target-dir", rep] + (["--features", variant] if variant else []), os.path.join(VERIF, "harness"), os.path.join(CACHE, f"rep-{v}.log"))

    ts = [threading.Thread(target=f) for f in (b_eng, b_ir, b_rep)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for k, r in rc.items():
        if r != 0:
            for l in (f"{k}.log", f"{k}-{v}.log", "eng.log" if k == "engine" else "", f"rep-{v}.log" if k == "replay" else ""):
                p = os.path.join(CACHE, l)
                if l and os.path.exists(p):
                    print(open(p).read()[-3000:])
            die(f"building {k} failed")
    return os.path.join(eng, "release/symrs"), ll, os.path.join(rep, "fast/replay")


def native(replay, entry, scn, vals, timeout=30):
    try:
        p = subprocess.run([replay, entry, str(scn), ",".join(map(str, vals))], capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", []
    out = p.stdout.decode("utf8", "replace").strip().split("\n")
    last = out[-1] if out else ""
    if last.startswith("OUTCOME "):
        return last[8:], out
    return f"crash rc={p.returncode}", out


BAD = ("fail", "panic", "hang", "nopanic", "crash")


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    prop = sys.argv[1]
    if prop == "--build":
        for v in sorted({r.get("features", "") for p in PROPS.values() for r in p["quick"] + p.get("thorough", [])}):
            build(v)
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    ev_path = os.path.join(ev_dir, f"{prop}.json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    runs = spec["quick"] + (spec.get("thorough", []) if tier == "thorough" else [])
    variants = sorted({r.get("features", "") for r in runs})
    tools = {}
    for v in variants:
        tools[v] = build(v)
    t_build = time.time() - T0
    confirmed, unconfirmed, results, missing, crashed, disagree = [], [], [], [], [], []
    tot, funcs, scen_tot, unsup, samples = {}, {}, dict(paths=0, done=0, assume=0, viol=0, unsup=0, hang=0, left=0), {}, []
    replayed = agree = 0
    weight = sum(r.get("time", 60) for r in runs)
    budget = spec.get("budget", {}).get(tier, 150 if tier == "quick" else 1500)
    t_sym = time.time()
    findings = [f for f in known_findings()["findings"] if f["property"] == prop]
    kf_seen = set()
    max_viol = 400 if findings else 60
    for r in runs:
        if confirmed:
            break  # decided: the other entries could not change the verdict
        symrs, ll, replay = tools[r.get("features", "")]
        left_t = budget - (time.time() - t_sym)
        share = max(10.0, min(left_t, budget * r.get("time", 60) / weight * 2))
        out = os.path.join(CACHE, f"out-{prop}.json")
        if os.path.exists(out):
            os.remove(out)
        cmd = [symrs, "--ll", ll, "--entry", r["entry"], "--scn", r["scn"], "--time", f"{share:.0f}", "--out", out, "--seed", str(seed), "--max-viol", str(max_viol), "--max-insts", str(r.get("max_insts", 30_000_000))]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if not os.path.exists(out):
            print(p.stderr[-3000:])
            die(f"symbolic executor failed on {r['entry']}")
        d = json.load(open(out))
        os.remove(out)
        if p.returncode != 0 or d["crashed"]:
            crashed.append(r["entry"])
            print(p.stderr[-2000:])
        if d["totals"].get("certificate_failures") or d["totals"].get("final_unsat"):
            die(f"solver certificates disagree with the evaluator on {r['entry']}: {d['totals']}")
        for k, x in d["totals"].items():
            tot[k] = max(tot.get(k, 0), x) if k == "solver_max_seconds" else tot.get(k, 0) + x
        reach = 0
        for s in d["scenarios"].values():
            reach |= s["reach"]
            for k in scen_tot:
                scen_tot[k] += s[k]
        for k, x in d["unsupported"].items():
            unsup[k] = unsup.get(k, 0) + x
        for k, (n, c, t) in d["functions"].items():
            o = funcs.get(k, (0, 0, t))
            funcs[k] = (o[0] + n, max(o[1], c), t)
        want = r.get("reach", REACH.get(r["entry"], []))
        miss = [w for w in want if not reach >> w & 1]
        # counterexamples
        groups = {}
        for v in d["violations"]:
            groups.setdefault((v["scn"], v["kind"], v["msg"]), []).append(v)
        here = 0
        for (scn, kind, msg), vs in sorted(groups.items(), key=lambda x: x[0][0]):
            ok = False
            for v in vs[:12]:
                res, log = native(replay, r["entry"], scn, v["vals"])
                known = [i for i, f in enumerate(findings) if f["entry"] == r["entry"] and f.get("features", "") == r.get("features", "") and scn in f["scenarios"] and res == f["outcome"]]
                if known:
                    kf_seen.update(known)
                    ok = True
                    break
                if res.split()[0] in BAD:
                    ok = True
                    confirmed.append(dict(entry=r["entry"], features=r.get("features", ""), scenario=scn, values=v["vals"], symbolic_verdict=f"{kind}: {msg}", native=res, log=[l for l in log if not l.startswith("REACH")]))
                    break
            here += ok
            if not ok:
                unconfirmed.append(dict(entry=r["entry"], scenario=scn, values=vs[0]["vals"], verdict=f"{kind}: {msg}", paths=len(vs)))
            if len(confirmed) >= 40:
                break
        # the executor's explored paths against native runs
        ss = d["samples"]
        step = max(1, len(ss) // 40)
        for scn, m in ss[::step]:
            res, log = native(replay, r["entry"], scn, m)
            replayed += 1
            if res == "done":
                agree += 1
                notes = [l[5:] for l in log if l.startswith("NOTE ")]
                if len(samples) < 12:
                    samples.append(dict(entry=r["entry"], scenario=scn, values=m[:40], text=notes[:3]))
            else:
                disagree.append(dict(entry=r["entry"], scenario=scn, values=m, native=res, log=log[-3:]))
        if miss and not here:
            missing.append((r["entry"], miss))
        results.append(dict(entry=r["entry"], scenarios=r["scn"], paths=sum(s["paths"] for s in d["scenarios"].values()), unexplored=sum(s["left"] for s in d["scenarios"].values()), wall_s=round(d["wall_s"], 1)))
    # known findings
    kf_lines = list(dict.fromkeys(f"KNOWN-FINDING: property={prop} {f['what']}" for i, f in enumerate(findings) if i in kf_seen))
    exhaustive = scen_tot["left"] == 0 and scen_tot["unsup"] == 0 and not unconfirmed
    cov = dict(
        explanation=spec["how"] + " Every count below was measured on this run. A path is one equivalence class of inputs (all values of its symbolic variables that satisfy its path condition); the solver decided each branch and each assertion for all of them at once.",
        evaluations=scen_tot["paths"], distinct_nontrivial=scen_tot["done"],
        rule="one evaluation = one symbolic path (a set of inputs with its own path condition); non-trivial = ran to the end of the harness with its assertions checked (not cut by an assumption)",
        samples=samples or ["none"],
        bounds=spec["bounds"], runs=results, exhausted_within_bounds=exhaustive,
        paths=scen_tot, unsupported=unsup, unconfirmed_counterexamples=unconfirmed[:50],
        queries=dict(total=tot.get("solver_queries", 0), sat=tot.get("solver_sat", 0), unsat=tot.get("solver_unsat", 0), unknown=tot.get("solver_unknown", 0), seconds=round(tot.get("solver_seconds", 0), 2), longest_seconds=round(tot.get("solver_max_seconds", 0), 2), certified_predicates=tot.get("certified_predicates", 0), uncertified_predicates=tot.get("uncertified_predicates", 0), decided_by_certified_predicates=tot.get("domain_decisions", 0), cached=tot.get("query_cache_hits", 0)),
        instructions_executed_symbolically=tot.get("instructions", 0),
        functions_encoded=len(funcs),
        functions=[dict(name=k, instructions=n, blocks_reached=c, blocks=t) for k, (n, c, t) in sorted(funcs.items(), key=lambda x: -x[1][0]) if "kdl" in k and "kdlsym" not in k.split("3kdl")[0]][:120],
        native_replays_of_explored_paths=replayed, native_agreements=agree,
        known_findings=kf_lines,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="other", coverage=cov, wall_s=round(time.time() - T0, 1), build_s=round(t_build, 1))
    json.dump(ev, open(ev_path, "w"), indent=1)
    print(f"{prop} {tier}: paths {scen_tot['paths']} (completed {scen_tot['done']}, unexplored {scen_tot['left']}, unsupported {scen_tot['unsup']}), queries {int(tot.get('solver_queries', 0))}, solver {tot.get('solver_seconds', 0):.1f} s, build {t_build:.0f} s, wall {time.time() - T0:.0f} s")
    for l in kf_lines:
        print(l)
    for c in disagree[:10]:
        if c["native"].split()[0] in BAD:
            confirmed.append(dict(entry=c["entry"], scenario=c["scenario"], values=c["values"], symbolic_verdict="explored path, input of the path", native=c["native"], log=c["log"]))
    if confirmed:
        rd = os.path.join(ev_dir, "replay")
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, f"{prop}.json")
        json.dump(dict(property=prop, how="cargo run --profile fast --bin replay -- ENTRY SCENARIO VALUES in /verif/harness (with --features FEATURES when given)", counterexamples=confirmed), open(p, "w"), indent=1)
        for c in confirmed[:5]:
            print(f"  {c['entry']} scenario {c['scenario']}: {c['symbolic_verdict']} / native {c['native']} {' | '.join(c['log'])[:400]}")
        print(f"VIOLATION property={prop} replay={p}")
        sys.exit(1)
    if unconfirmed:
        print(f"note: {len(unconfirmed)} symbolic counterexample groups did not reproduce natively; counted as undecided")
        for u in unconfirmed[:5]:
            print("  ", u)
    if crashed:
        die(f"symbolic executor thread crashed on {crashed}")
    if disagree:
        die(f"explored paths end differently natively: {disagree[:3]}")
    undecided = scen_tot["unsup"] + sum(u["paths"] for u in unconfirmed)
    if scen_tot["paths"] == 0 or undecided > 0.5 * scen_tot["paths"]:
        die(f"too much undecided: {scen_tot} {list(unsup)[:5]}")
    if missing:
        die(f"vacuous: reachability witnesses missing {missing}")
    sys.exit(0)


main()
