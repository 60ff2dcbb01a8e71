#!/usr/bin/env python3
"""Decides one property: check.py <ID> [--tier quick|thorough] [--keep]

1. builds, from /repo's current working tree, the LLVM IR of the harness plus
   the real crate (one module), the symbolic executor, and a native replayer;
2. runs every scenario of the property: the executor explores all values of
   the symbolic inputs within the scenario's bounds, deciding branches and
   assertions with z3;
3. replays each counterexample, and a sample of the explored paths, natively.
Exit: 0 held; 1 VIOLATION (confirmed natively); 2 undecided.
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import scenarios

T0 = time.time()
BUILD = os.path.join(ROOT, ".build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
ENV.pop("RUSTC_WRAPPER", None)
LINT = "-A dependency_on_unit_never_type_fallback"


def die(msg):
    print(msg)
    sys.exit(2)


def cargo(name, cwd, args, rustflags):
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, name), RUSTFLAGS=rustflags)
    p = subprocess.run(["cargo"] + args, cwd=os.path.join(ROOT, cwd), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build():
    os.makedirs(BUILD, exist_ok=True)
    deps = os.path.join(BUILD, "ir/release/deps")
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.endswith(".ll"):
                os.remove(os.path.join(deps, f))
    if os.path.isdir(deps):  # make cargo emit again even when nothing changed
        os.utime(os.path.join(ROOT, "harness/src/main.rs"))
    jobs = {
        "ir": ("harness", ["rustc", "--offline", "--release", "--bin", "harness", "--", "--emit=llvm-ir", "-C", "linker=/bin/true"], LINT + " -C no-vectorize-loops -C no-vectorize-slp"),
        "irsym": ("irsym", ["build", "--offline", "--release"], ""),
        "replay": ("replay", ["build", "--offline"], LINT),
    }
    with cf.ThreadPoolExecutor() as ex:
        fs = {n: ex.submit(cargo, n, *j) for n, j in jobs.items()}
    for n, f in fs.items():
        rc, out = f.result()
        if rc:
            die(f"building {n} failed:\n" + out[-4000:])
    lls = [f for f in os.listdir(deps) if f.startswith("harness-") and f.endswith(".ll")]
    if len(lls) != 1:
        die(f"expected one IR module, found {lls}")
    return os.path.join(deps, lls[0]), os.path.join(BUILD, "irsym/release/irsym"), os.path.join(BUILD, "replay/debug/replay")


def run_engine(irsym, ll, sc, seconds):
    out = os.path.join(BUILD, f"o.{os.getpid()}.json")
    cmd = [irsym, "--ll", ll, "--harness", str(sc["h"]), "--params", ",".join(map(str, sc["p"])), "--time", str(int(seconds)), "--workers", str(sc.get("w", 8)),
           "--out", out, "--samples", str(sc.get("samples", 2)), "--max-viol", "6", "--path-steps", str(sc.get("steps", 60_000_000))]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or not os.path.exists(out):
        die(f"the symbolic executor failed on scenario {sc['name']}:\n{p.stdout[-3000:]}")
    r = json.load(open(out))
    os.remove(out)
    return r


def replay(binary, cases, verbose=False, timeout=60):
    """cases: (harness, params, values); returns the replayer's lines"""
    if not cases:
        return []
    inp = "".join(f"{h} {','.join(map(str, p)) or ','} {','.join(map(str, v)) or ','}\n" for h, p, v in cases)
    try:
        p = subprocess.run([binary] + (["-v"] if verbose else []), input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return None
    return p.stdout.splitlines(), p.returncode


def confirm(binary, case):
    r = replay(binary, [case], timeout=20)
    if r is None:
        return "hang", "no answer within 20 s"
    lines, rc = r
    if not lines:
        return "crash", f"the process died (exit status {rc})"
    w = lines[-1].split(" ", 1)
    return w[0], w[1] if len(w) > 1 else ""


def known(prop):
    out = []
    f = os.path.join(ROOT, "known_findings.txt")
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r"finding: property=(\S+) input=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = scenarios.CHECKS[prop]
    scs = [s for s in chk["scenarios"] if tier == "thorough" or not s.get("thorough")]
    if "--only" in sys.argv:
        k = sys.argv[sys.argv.index("--only") + 1]
        scs = [s for s in chk["scenarios"] if k in s["name"]]
    budget = 820 if tier == "quick" else 6 * 3600
    ll, irsym, rep = build()
    t_build = time.time() - T0
    print(f"{prop} [{tier}] built in {t_build:.1f} s; {len(scs)} scenarios")
    tot, fns, undecided, viols, findings, samples, per = {}, set(), [], [], [], [], []
    validated = 0
    replays = os.path.join(ROOT, "evidence", "replay")
    kn = known(prop)
    for sc in scs:
        left = budget - (time.time() - T0)
        if left < 15:
            undecided.append(f"{sc['name']}: no time left")
            continue
        r = run_engine(irsym, ll, sc, min(left - 10, sc.get("t", 400 if tier == "quick" else 3600)))
        for k, v in r.items():
            if isinstance(v, int):
                tot[k] = tot.get(k, 0) + v
        fns |= set(r["functions"])
        per.append({"scenario": sc["name"], "bound": sc["bound"], "paths": r.get("paths", 0), "forks": r.get("forks", 0), "asserts": r.get("asserts", 0), "z3_queries": r.get("z3_queries", 0), "wall_s": r["wall_s"], "covers": r["covers"]})
        print(f"  {sc['name']}: {r.get('paths', 0)} paths, {r.get('asserts', 0)} assertions, {r.get('z3_queries', 0)} solver queries, {r['wall_s']:.1f} s")
        sys.stdout.flush()
        confirmed = 0
        for v in r["violations"]:
            case = (sc["h"], sc["p"], [x[1] for x in v["model"]])
            kind, msg = confirm(rep, case)
            if kind in ("panic", "assert", "crash", "hang"):
                confirmed += 1
                ident = f"{sc['name']}:{'.'.join(map(str, case[2]))}"
                kf = [d for i, d in kn if i == ident]
                if kf:
                    findings.append(kf[0])
                    continue
                os.makedirs(replays, exist_ok=True)
                path = os.path.join(replays, f"{prop}-{len(viols)}.json")
                shown = replay(rep, [case], True)
                json.dump({"property": prop, "scenario": sc["name"], "input": ident, "harness": case[0], "params": case[1], "values": case[2], "engine": v["msg"], "native": f"{kind} {msg}",
                           "observed": shown[0] if shown else [], "rerun": f"printf '%s\\n' '{case[0]} {','.join(map(str, case[1])) or ','} {','.join(map(str, case[2])) or ','}' | {rep} -v"}, open(path, "w"), indent=1)
                viols.append((path, f"{sc['name']}: {kind} {msg}"[:600]))
            else:
                undecided.append(f"{sc['name']}: counterexample not reproduced natively ({v['msg'][:300]} -> {kind} {msg}; values {case[2]})")
        for k in ("q_unknown", "cut", "incomplete", "engine_errors", "dead_workers"):
            if r.get(k, 0) and not (k == "cut" and confirmed):
                undecided.append(f"{sc['name']}: {k}={r[k]} {' | '.join(r['errors'])[:1500]}")
        if not r["violations"] and r["covers"] & sc["covers"] != sc["covers"]:
            undecided.append(f"{sc['name']}: vacuous, reached {r['covers']:#x} of the expected {sc['covers']:#x}")
        cases = [(sc["h"], sc["p"], [x[1] for x in s["model"]]) for s in r["samples"]]
        res = replay(rep, cases, timeout=120)
        lines = [] if res is None else [l for l in (res[0] if cases else [])]
        for (s, c, l) in zip(r["samples"], cases, lines + ["no answer"] * len(cases)):
            if l == f"ok {s['hash']}":
                validated += 1
            else:
                undecided.append(f"{sc['name']}: a sampled path disagrees with the native run: {c} -> {l}, executor {s['hash']}")
        if cases:
            sh = replay(rep, cases[:1], True)
            samples.append({"scenario": sc["name"], "values": cases[0][2], "observed": [l[4:] for l in sh[0] if l.startswith("  | ")][:12] if sh else []})
        if viols:
            break
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0) + tot.get("infeasible", 0), "transitions": tot.get("forks", 0), "traces_validated_against_impl": validated, "samples": samples[:12],
            "explanation": "states: symbolic end states (path conditions) reached; transitions: symbolic branches where both sides were feasible; each state stands for every input satisfying its path condition",
            "technique": "symbolic execution of the LLVM IR of papyri_lang with z3",
            "scenarios": per, "symbolic_branches": tot.get("branches", 0), "assertions_decided": tot.get("asserts", 0), "assertions_constant": tot.get("asserts_concrete", 0),
            "queries": {k: tot.get(k, 0) for k in ("q_witness", "q_domain", "q_repair", "q_cache", "q_z3", "q_unknown", "z3_queries", "path_z3", "prunes_checked")},
            "solver_ms": tot.get("z3_ms", 0), "instructions": tot.get("steps", 0), "functions_encoded": len(fns), "functions": sorted(fns), "build_s": round(t_build, 1), "undecided": undecided[:20],
        },
        "wall_s": round(time.time() - T0, 2),
        "assumptions": scenarios.ASSUMPTIONS + chk.get("assumptions", []),
        "violations": len(viols),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1)
    for f in sorted(set(findings)):
        print(f"KNOWN-FINDING: property={prop} {f}")
    for path, what in viols:
        print(f"  {what}")
        print(f"VIOLATION property={prop} replay={path}")
    for u in undecided:
        print("UNDECIDED " + u)
    print(f"{prop}: {'violated' if viols else 'undecided' if undecided else 'held'}; {tot.get('paths', 0)} paths, {time.time() - T0:.1f} s")
    sys.exit(1 if viols else 2 if undecided else 0)


main()
