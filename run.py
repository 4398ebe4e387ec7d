#!/usr/bin/env python3
"""Decide one property: rebuild the code under test from /repo, execute the
property's harness symbolically (engine/eusym), replay counterexamples against
the native build of the same code, write evidence/<id>.json.

usage: run.py <ID> [--tier quick|thorough] [--entry NAME ...]      run a check
       run.py --setup                                              build everything
exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no answer"""
import fcntl, glob, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           CARGO_TARGET_DIR=os.path.join(BUILD, "target"), RUSTFLAGS="-C embed-bitcode=yes", CARGO_INCREMENTAL="0")
for k in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "EU_GC_STRESS"):
    ENV.pop(k, None)


class Fail(Exception):
    pass


def sh(cmd, what, **kw):
    p = subprocess.run(cmd, env=dict(ENV, GLIBC_TUNABLES="glibc.malloc.hugetlb=1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)
    if p.returncode:
        out = "\n".join(x for x in p.stdout.splitlines() if not x.startswith("{"))
        err = p.stderr[p.stderr.find("error"):] if "error" in p.stderr else p.stderr
        raise Fail(f"{what} failed ({p.returncode})\n{out[-2000:]}\n{err[-6000:]}")
    return p


def newer(out, srcs):
    return not os.path.exists(out) or any(os.path.getmtime(s) > os.path.getmtime(out) for s in srcs)


def build_tools():
    os.makedirs(BUILD, exist_ok=True)
    eng = os.path.join(HERE, "engine")
    if newer(os.path.join(BUILD, "eusym"), [os.path.join(eng, f) for f in ("eusym.cpp", "lower.hpp", "expr.hpp", "build.sh")]):
        sh(["bash", os.path.join(eng, "build.sh"), BUILD], "building the engine")
    c = os.path.join(HERE, "harness/symrt.c")
    lib = os.path.join(BUILD, "libsymrt.a")
    if newer(lib, [c]):
        o = os.path.join(BUILD, "symrt.o")
        sh(["gcc", "-O1", "-c", c, "-o", o], "symrt")
        if os.path.exists(lib):
            os.unlink(lib)
        sh(["ar", "rcs", lib, o], "ar")


def overlay():
    sh([sys.executable, os.path.join(HERE, "tools/overlay.py"), os.path.join(BUILD, "overlay")], "overlay")


def build_bin(name):
    """cargo build of one harness; returns (bitcode, native binary, rlibs)"""
    p = sh(["cargo", "rustc", "--offline", "--release", "--bin", name, "--message-format=json-render-diagnostics", "--", "-C", "codegen-units=1",
            "--emit=llvm-bc,link", "-L", f"native={BUILD}", "-l", "static=symrt"], f"building {name} against the current tree",
           cwd=os.path.join(HERE, "harness"))
    libs, exe = set(), None
    for line in p.stdout.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("reason") != "compiler-artifact":
            continue
        if d["target"]["name"] == name and d.get("executable"):
            exe = d["executable"]
        elif d["profile"]["opt_level"] != "0":
            libs.update(f for f in d["filenames"] if f.endswith(".rlib"))
    # the bitcode beside the hashed executable that the artifact is a link to
    st = os.stat(exe)
    dep = [f for f in glob.glob(f"{BUILD}/target/release/deps/{name}-*") if "." not in os.path.basename(f) and os.stat(f).st_ino == st.st_ino]
    bc = dep[0] + ".bc" if dep else max(glob.glob(f"{BUILD}/target/release/deps/{name}-*.bc"), key=os.path.getmtime)
    root = sh(["rustc", "--print", "sysroot"], "sysroot").stdout.strip()
    std = [f for f in glob.glob(f"{root}/lib/rustlib/x86_64-unknown-linux-gnu/lib/*.rlib")
           if not any(x in f for x in ("libtest-", "proc_macro", "profiler"))]
    return bc, exe, sorted(libs) + sorted(std)


def flat(model):
    return [v for g in model for v in g["values"]]


def replay(exe, entry, model, path, tier, covers=False, limit=120):
    with open(path, "w") as f:
        f.write("\n".join(str(v) for v in flat(model)) + "\n")
    env = dict(ENV, SYM_REPLAY=path, RUST_BACKTRACE="0", SYM_TIER=str(tier))
    if covers:
        env["SYM_COVERS"] = "1"
    try:
        p = subprocess.run([exe, entry], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit, cwd=BUILD)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    return p.returncode, p.stderr


def pretty(model):
    return "; ".join(f"{g['name']}={g['values'][0] if len(g['values']) == 1 else bytes(v & 255 for v in g['values'])!r}" for g in model)


def run(pid, tier, only):
    t0 = time.time()
    cfg = CHECKS[pid]
    ti = 1 if tier == "thorough" else 0
    build_tools()
    overlay()
    name = cfg.get("bin", pid.lower())
    bc, exe, libs = build_bin(name)
    tb = time.time()
    entries = only or cfg["entries"] + (cfg.get("thorough_entries", []) if ti else [])
    lf = os.path.join(BUILD, f"{pid}.libs")
    open(lf, "w").write("\n".join(libs) + "\n")
    out = os.path.join(BUILD, f"{pid}.json")
    if os.path.exists(out):
        os.unlink(out)
    limit = cfg.get("time", [300, 3000])[ti]
    cmd = [os.path.join(BUILD, "eusym"), bc, "--libs", lf, "--preload", "libeucalypt", "--tier", str(ti), "--jobs", str(cfg.get("jobs", 8)),
           "--time", str(limit), "--steps", str(cfg.get("steps", [2_000_000_000, 20_000_000_000])[ti]), "--out", out]
    for e in entries:
        cmd += ["--entry", e]
    p = subprocess.run(cmd, env=dict(ENV, GLIBC_TUNABLES="glibc.malloc.hugetlb=1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit + 120)
    if not os.path.exists(out):
        raise Fail(f"engine: {p.returncode} {p.stderr[-3000:]}")
    res = json.load(open(out))
    known = {}
    with open(os.path.join(HERE, "known-findings.jsonl")) as f:
        for line in f:
            if line.strip():
                d = json.loads(line)
                if d["status"] == "open" and d["property"] == pid:
                    known[d["assert"]] = d
    status, lines, problems, samples, validated, nviol = 0, [], [], [], 0, 0
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    seen_known = set()
    allcov = set()
    for e in res["entries"]:
        if e["incomplete"]:
            problems.append(f"{e['name']}: exploration incomplete: {e['incomplete_msg'][:600]}")
        allcov |= {(e["name"], c) for c in e["covers"]}
        done = set()
        for i, v in enumerate(e["violations"]):
            key = (v["kind"], v["id"], v["msg"])
            if key in done:
                continue
            path = os.path.join(rdir, f"{pid}-{e['name']}-{i}.txt")
            rc, err = replay(exe, e["name"], v["model"], path, ti, limit=30 if v["kind"] == "hang" else 120)
            if v["kind"] == "assert":
                ok = rc == 101 and f"ASSERT-FAILED {v['id']}" in err
                # the real code may already go wrong on these values in another way
                other = rc == 101 or (rc is not None and rc < 0)
            elif v["kind"] == "hang":
                ok = other = rc is None or rc == -9
            else:
                ok = other = rc is None or rc < 0 or rc == 134 or rc == 101
            what = f"{v['id']} [{e['name']}] {v['msg']} with {pretty(v['model'])}"
            if v["notes"]:
                what += " notes: " + " | ".join(v["notes"][:6])
            if v["id"].startswith("known:") and ok:
                if v["id"] in known:
                    if v["id"] not in seen_known:
                        lines.append(f"KNOWN-FINDING: property={pid} {known[v['id']]['what']} ({pretty(v['model'])})")
                    seen_known.add(v["id"])
                    continue
            if ok or other:
                done.add(key)
                nviol += 1
                status = 1
                script = os.path.join(rdir, f"{pid}-{e['name']}-{i}.sh")
                with open(script, "w") as f:
                    f.write(f"#!/bin/sh\n# {what}\nSYM_TIER={ti} SYM_REPLAY={path} exec {exe} {e['name']}\n")
                lines.append(f"violated: {what}\n  native replay: exit {rc}: {err.strip()[-300:]}")
                lines.append(f"VIOLATION property={pid} replay={script}")
            else:
                problems.append(f"{e['name']}: counterexample does not reproduce natively (exit {rc}): {what} | {v.get('stack', '')[:800]} | {err[-300:]}")
        for s in e["samples"][:cfg.get("validate", 4)]:
            path = os.path.join(rdir, f"{pid}-sample.txt")
            rc, err = replay(exe, e["name"], s["model"], path, ti, covers=True)
            cov = f"COVER {s['cover']}\n" in err
            samples.append({"entry": e["name"], "cover": s["cover"], "inputs": pretty(s["model"])[:300], "native_exit": rc, "native_reaches_cover": cov})
            if cov:
                validated += 1
            elif not e["violations"]:
                problems.append(f"{e['name']}: native run of {pretty(s['model'])[:300]} does not reach cover {s['cover']} (exit {rc}) {err[-300:]}")
    if not only:
        for ent, cs in cfg.get("covers", {}).items():
            miss = [c for c in cs if (ent, c) not in allcov]
            if miss and ent in entries and status == 0:
                problems.append(f"{ent}: goals {miss} were not reached")
    fns = [f for f in res["functions"] if "eucalypt" in f and "3euh" not in f]
    tot = lambda k: sum(e[k] for e in res["entries"])  # noqa: E731
    ids = {}
    for e in res["entries"]:
        for k, (r, d, c) in e["asserts_by_id"].items():
            a = ids.setdefault(k, [0, 0, 0])
            a[0] += r; a[1] += d; a[2] += c
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {
              "states": tot("paths"), "transitions": tot("steps"), "traces_validated_against_impl": validated, "samples": samples,
              "explanation": "bounded symbolic execution of the compiled implementation: states = completed execution paths, transitions = LLVM instructions executed on them, traces validated = path models re-run natively",
              "bounds": cfg.get("bounds", ""), "outside": cfg.get("outside", ""), "pruned_paths": tot("pruned"), "symbolic_inputs": tot("symvars"),
              "queries": {"z3": tot("z3_queries"), "decided_by_domain_table": tot("domain_decided"), "decided_by_known_model": tot("model_hits"), "cached": tot("cache_hits"), "solver_s": round(tot("z3_us") / 1e6, 3)},
              "assertions": {k: {"reached": a[0], "discharged_by_solver": a[1], "concrete_on_path": a[2]} for k, a in sorted(ids.items())},
              "entries": [{"name": e["name"], "paths": e["paths"], "wall_s": e["wall_s"], "complete": not e["incomplete"], "goals_reached": e["covers"]} for e in res["entries"]],
              "functions_encoded": len(fns), "functions_sample": sorted(fns)[:400], "ir_functions_lowered": res["lowered"], "ir_instructions_lowered": res["instructions"],
              "problems": problems, "known_findings_seen": sorted(seen_known)},
          "assumptions": cfg.get("assumptions", []) + COMMON, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, f"evidence/{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for line in lines:
        print(line)
    for q in problems:
        print("PROBLEM " + q, file=sys.stderr if status else sys.stdout)
    print(f"{pid} {tier}: {tot('paths')} paths, {tot('steps')/1e6:.0f}M steps, {tot('asserts')} assertions, {tot('z3_queries')} z3 queries ({tot('z3_us')/1e6:.1f}s), "
          f"{validated} traces validated; build {tb-t0:.0f}s, total {time.time()-t0:.0f}s; " + ", ".join(f"{e['name']}:{e['paths']}p/{e['wall_s']}s" for e in res["entries"]))
    return status if status else (2 if problems else 0)


COMMON = ["the bitcode rustc embeds for the tree (opt-level 1, no overflow checks, as in release) has the meaning eusym gives it; path models re-run natively check this on samples",
          "yaml-rust is absent from this sandbox, so YAML/JSON import and YAML export are not in the build under test",
          "rowan's node-interning cache is switched off (same trees)"]


def setup():
    build_tools()
    overlay()
    build_bin("smoke")
    for pid in CHECKS:
        build_bin(CHECKS[pid].get("bin", pid.lower()))


def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if a[0] == "--setup":
            setup()
            return 0
        tier = os.environ.get("VERIF_TIER", "quick")
        only, i = [], 1
        while i < len(a):
            if a[i] == "--tier":
                tier = a[i + 1]
            elif a[i] == "--entry":
                only.append(a[i + 1])
            i += 2
        return run(a[0], tier, only)
    except Fail as e:
        print(f"ERROR {e}")
        return 2


sys.exit(main())
