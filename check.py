#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its compiled code.

    check.py P01            (tier from VERIF_TIER, default quick)
    check.py P01 --tier thorough [--only ENTRY] [--keep]

Rebuilds from /repo's working tree: the harness crate to LLVM IR (whole program, std included),
the engine (engine/), and the harness natively (replay/). Every harness entry of the property is
executed symbolically; counterexamples are replayed natively before they are reported.
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil
import subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, ASSUMPTIONS

WORK = os.path.join(HERE, ".work")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
    ENV.pop(k, None)
T0 = time.time()


def log(s):
    print(f"[{time.time()-T0:6.1f}s] {s}", flush=True)


class Broken(Exception):
    pass


def cargo(cwd, target, args, what):
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock-check"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["cargo"] + args, cwd=cwd, env=dict(ENV, CARGO_TARGET_DIR=target),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Broken(f"building {what} failed:\n{r.stdout[-6000:]}")


def build_engine():
    t = os.path.join(WORK, "engine")
    cargo(os.path.join(HERE, "engine"), t, ["build", "--release", "--offline", "-q"], "the engine")
    return os.path.join(t, "release", "symx")


def build_ir(feats, config):
    """whole-program LLVM IR of the harness crate over /repo's current tree"""
    t = os.path.join(WORK, "ir-" + config)
    out = os.path.join(WORK, f"{'-'.join(feats)}-{config}-{os.getpid()}.ll")
    f = feats + [config + "-cfg"]
    cargo(os.path.join(HERE, "harness"), t,
          ["rustc", "--release", "--lib", "--offline", "-q", "--no-default-features",
           "--features", ",".join(f), "--",
           f"--emit=llvm-ir={out}", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp",
           "-A", "warnings"], "the harness")
    if not os.path.exists(out):
        raise Broken("no LLVM IR was written")
    return out


def build_replay(feats, config, release=False):
    t = os.path.join(WORK, "replay-" + config)
    f = feats + [config + "-cfg"]
    cargo(os.path.join(HERE, "replay"), t,
          ["build", "--offline", "-q", "--no-default-features", "--features", ",".join(f)]
          + (["--release"] if release else []), "the replay binary")
    src = os.path.join(t, "release" if release else "debug", "replay")
    dst = os.path.join(WORK, f"replay-{'-'.join(feats)}-{config}-{'r' if release else 'd'}-{os.getpid()}")
    shutil.copy(src, dst)
    return dst


def build_threads(ll, feats, config):
    """the harness natively along given schedules: its IR with a call of the scheduler (native/sched.c) before every
    step that synchronises"""
    base = os.path.join(WORK, f"threads-{'-'.join(feats)}-{config}-{os.getpid()}")
    sync = re.compile(r"  (?:%\S+ = )?(?:tail )?(load atomic|store atomic|cmpxchg|atomicrmw|call [^@]*@sched_yield)\b")
    with open(ll) as f, open(base + ".ll", "w") as o:
        for l in f:
            if l.startswith("  "):
                if "@llvm.x86.sse2.pause()" in l:
                    o.write("  call void @symx_point(i32 2)\n")
                    continue
                m = sync.match(l)
                if m and "GLOBAL_PANIC_COUNT" not in l:
                    o.write(f"  call void @symx_point(i32 {1 if m[1] == 'load atomic' else 2 if 'yield' in m[1] else 0})\n")
            o.write(l.replace("@syscall(", "@symx_syscall("))
        o.write("declare void @symx_point(i32)\n")
    bin_ = subprocess.run(["rustc", "--print", "sysroot"], env=ENV, stdout=subprocess.PIPE, text=True).stdout.strip()
    llc = os.path.join(bin_, "lib/rustlib/x86_64-unknown-linux-gnu/bin/llc")
    for cmd in ([llc, "-O1", "-filetype=obj", "-relocation-model=pic", base + ".ll", "-o", base + ".o"],
                ["gcc", "-O1", "-rdynamic", os.path.join(HERE, "native", "sched.c"), base + ".o", "-o", base,
                 "-lpthread", "-ldl", "-lm", "-lgcc_s"]):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise Broken(f"building the replay with threads failed:\n{r.stdout[-3000:]}")
    os.remove(base + ".ll")
    os.remove(base + ".o")
    return base


def native(binary, lines, timeout=120):
    if os.path.basename(binary).startswith("threads-"):
        # a process each: what is shared by the threads is static
        rs = [native1(binary, [l], timeout) for l in lines]
        bad = [r for r in rs if r[0] != 0]
        return bad[0][0] if bad else 0, [x for r in rs for x in (r[1] or [""])], bad[0][2] if bad else ""
    return native1(binary, lines, timeout)


def native1(binary, lines, timeout):
    try:
        r = subprocess.run([binary], input="".join(l + "\n" for l in lines), text=True, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return r.returncode, r.stdout.splitlines(), r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", [], ""


def runline(entry, params, inputs):
    return f"{entry}|{','.join(f'{k}={v}' for k, v in sorted(params.items()))}|{','.join(inputs)}"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only build the engine")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(WORK, exist_ok=True)
    if a.setup:
        print(build_engine())
        return 0
    pid = a.prop
    spec = PROPS[pid]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = []
    try:
        return decide(a, pid, spec, tier, seed, tmp)
    except Broken as e:
        print(f"ERROR property={pid} {e}", flush=True)
        return 2
    finally:
        if not a.keep:
            for f in tmp:
                try:
                    os.remove(f)
                except OSError:
                    pass


def entries_of(ll, prefix):
    """entry points of the property, with the number of cover points each declares"""
    names = set()
    with open(ll) as f:
        for l in f:
            if l.startswith("define ") and prefix in l:
                m = re.search(r"@(%s_\w+)\(" % prefix, l)
                if m:
                    names.add(m.group(1))
    return sorted(names)


def decide(a, pid, spec, tier, seed, tmp):
    feats = [pid.lower()]
    configs = spec.get("configs", {}).get(tier, ["default"])
    findings = [f for f in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
                if f["property"] == pid and f["status"] == "known"]
    known = {f["entry"]: f for f in findings}
    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(build_engine)
        fi = {c: ex.submit(build_ir, feats, c) for c in configs}
        fr = {c: ex.submit(build_replay, feats, c) for c in configs if not spec.get("threads")}
        symx = fe.result()
        lls = {c: f.result() for c, f in fi.items()}
        rps = {c: f.result() for c, f in fr.items()}
        if spec.get("threads"):
            rps = {c: build_threads(lls[c], feats, c) for c in configs}
    tmp += list(lls.values()) + list(rps.values())
    log(f"built engine, IR ({', '.join(str(os.path.getsize(l)//1000000)+' MB' for l in lls.values())}) and replay")
    t_build = time.time() - T0

    limit = spec.get("time", {}).get(tier, 200 if tier == "quick" else 3000)
    total = spec.get("total", {}).get(tier, 600 if tier == "quick" else 14000)
    params = dict(spec.get("params", {}).get(tier, {}))
    jobs = []
    for c in configs:
        es = entries_of(lls[c], pid.lower())
        if not es:
            raise Broken("no harness entries in the module")
        for e in es:
            if a.only and not re.search(a.only, e):
                continue
            p = dict(params)
            p.update(spec.get("entry_params", {}).get(tier, {}).get(e, {}))
            jobs.append((c, e, p))
    # the ones that take longest first
    heavy = spec.get("heavy", [])
    jobs.sort(key=lambda j: heavy.index(j[1][4:]) if j[1][4:] in heavy else 999)

    def one(job):
        c, e, p = job
        out = os.path.join(WORK, f"{e}-{c}-{os.getpid()}.json")
        left = total - (time.time() - T0)
        cmd = [symx, "--ll", lls[c], "--entry", e, "--out", out, "--time", str(max(1.0, min(limit, left))),
               "--solver", "z3 -in", "--max-depth", str(spec.get("depth", 600)),
               "--keep", "60" if tier == "quick" else "400",
               "--query-timeout", "20000" if tier == "quick" else "120000",
               "--max-paths", str(spec.get("paths", {}).get(tier, 400000))]
        if tier == "thorough":
            cmd += ["--cross", "cvc5 --incremental --produce-models --lang smt2"]
        for k, v in sorted(p.items()):
            cmd += ["--param", f"{k}={v}"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if not os.path.exists(out):
            raise Broken(f"engine failed on {e}: {r.stderr[-1500:]}")
        j = json.load(open(out))
        os.remove(out)
        # replay the sampled paths natively: same inputs, same events
        bad, good = [], 0
        sam = j["samples"]
        if sam:
            rc, lines, err = native(rps[c], [runline(e, p, s[0]) for s in sam])
            for i, s in enumerate(sam):
                want = "ok " + ",".join(x.lstrip("0") or "0" for x in s[1])
                got = lines[i] if i < len(lines) else f"(died: {rc}) {err[-300:]}"
                if got.strip() == want.strip():
                    good += 1
                else:
                    bad.append((s[0], want, got))
                    if i >= len(lines):
                        break
        return c, e, p, j, good, bad

    res = []
    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for r in ex.map(one, jobs):
            res.append(r)
    log(f"{len(res)} harness runs done")

    viol, errors, warn, kf = [], [], [], []
    for c, e, p, j, good, bad in res:
        if a.only:
            log(f"{e} [{c}] {j['wall_s']}s paths={j['paths']} queries={j['queries']} covers={j['covers']} "
                f"inc={j['inconclusive'][:3]} viol={[(v['kind'], v['detail'], v['inputs'][:12], v['stack'][-5:]) for v in j['violations']]}")
        if bad:
            errors.append(f"{e} [{c}]: a path of the engine does not replay natively: {bad[0]}")
        for v in j["violations"]:
            line = runline(e, p, v["inputs"])
            rel = os.path.join(WORK, f"replay-{'-'.join(feats)}-{c}-r-{os.getpid()}")
            if spec.get("threads"):
                rel = rps[c]
            elif not os.path.exists(rel):
                rel = build_replay(feats, c, True)
                tmp.append(rel)
            d = native(rps[c], [line])
            r = native(rel, [line])
            def failed(x):
                return x[0] not in (0, 4, 5)
            rep = {"property": pid, "entry": e, "config": c, "kind": v["kind"], "detail": v["detail"],
                   "clause": f"{e}:{v['detail']}" if v["kind"] == "assert" else v["kind"],
                   "params": p, "inputs": v["inputs"], "stack": v["stack"], "stdin_line": line,
                   "native_dev": [d[0], d[1][-3:], d[2][-600:]], "native_release": [r[0], r[1][-3:], r[2][-600:]],
                   "how": f"echo the stdin_line into the binary that check.py's build_threads makes" if spec.get("threads") else
                          f"cd /verif/replay && echo '{line}' | cargo run --offline --features {feats[0]}"}
            # a data race is undefined behaviour, whatever is seen of it
            if not (failed(d) or failed(r) or v["kind"] == "race"):
                errors.append(f"{e} [{c}]: counterexample does not replay natively: {v['kind']} {v['detail']} {line} {v['stack'][-6:]}")
                continue
            k = known.get(e)
            if k and k["clause"] == rep["clause"]:
                kf.append((e, k))
                continue
            path = os.path.join(WORK, "replays", f"{pid}-{e}-{c}.json")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            json.dump(rep, open(path, "w"), indent=1)
            viol.append((path, rep))
        if not j["violations"]:
            if "0" not in j["covers"]:
                errors.append(f"{e} [{c}]: no path reached the end ({j['inconclusive'][:3]})")
            elif j["inconclusive"]:
                warn.append(f"{e} [{c}]: not fully explored: {sorted(set(j['inconclusive']))[:4]}")
    for e in known:
        if e not in [x[0] for x in kf] and not a.only:
            warn.append(f"listed finding {e} no longer fails")
    evidence(pid, spec, tier, seed, res, viol, warn, kf, errors, t_build, params, configs)
    for w in warn:
        print("WARNING " + w, flush=True)
    for e, k in kf:
        print(f"KNOWN-FINDING: property={pid} {k['what']}", flush=True)
    if viol:
        for path, rep in viol:
            print(f"  {rep['entry']} [{rep['config']}]: {rep['kind']} {rep['detail']} inputs {rep['inputs'][:16]} "
                  f"native dev {rep['native_dev'][0]} {rep['native_dev'][1][-1:]} release {rep['native_release'][0]}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    if errors:
        for e in errors:
            print(f"ERROR property={pid} {e}", flush=True)
        return 2
    log("held")
    return 0


def evidence(pid, spec, tier, seed, res, viol, warn, kf, errors, t_build, params, configs):
    S = lambda k: sum(r[3][k] for r in res)
    fns, lib = set(), set()
    for r in res:
        for n, f in r[3]["functions"]:
            fns.add(n)
            if n.startswith("mirror_mirror") or "/repo/" in f or n.startswith("<mirror_mirror"):
                lib.add(n)
    samples = []
    for c, e, p, j, good, bad in res:
        for s in j["samples"][:1]:
            samples.append({"entry": e, "inputs": s[0][:40], "events": s[1][:40]})
    samples = samples[:12]
    cov = {
        "states": S("paths") + S("infeasible"),
        "transitions": S("instructions"),
        "traces_validated_against_impl": sum(r[4] for r in res),
        "samples": samples,
        "harnesses": len(res),
        "configurations": configs,
        "paths_completed": S("paths"),
        "paths_infeasible": S("infeasible"),
        "forks": S("forks"),
        "queries": S("queries"),
        "queries_sat": S("sat"),
        "queries_unsat": S("unsat"),
        "queries_unknown": S("unknown"),
        "queries_cross_checked_cvc5": S("cross_checked"),
        "assertions_decided_by_solver": S("assertions_decided"),
        "assertions_reduced_to_true_by_rewriting": S("assertions_folded"),
        "solver_s": round(S("solver_ms") / 1000, 3),
        "build_s": round(t_build, 1),
        "symbolic_input_values_max": max([r[3]["max_inputs"] for r in res] or [0]),
        "functions_encoded": len(fns),
        "functions_encoded_of_repo": sorted(lib),
        "bounds": spec.get("bounds", ""),
        "bounds_params": params,
        "outside_bounds": spec.get("outside", ""),
        "per_harness": {f"{e}@{c}": {"paths": j["paths"], "queries": j["queries"], "assertions": j["asserts"],
                                     "wall_s": j["wall_s"], "complete": not j["inconclusive"]}
                        for c, e, p, j, good, bad in res},
        "incomplete": warn,
        "errors": errors,
        "known_findings": [k["what"] for _, k in kf],
        "exhaustive": not warn and not errors,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": ASSUMPTIONS + spec.get("assumptions", []),
          "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
