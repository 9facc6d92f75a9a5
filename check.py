#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real code.

  check.py PROPERTY [--tier quick|thorough]     (VERIF_TIER is only a default)
  check.py --setup                               build engine and harness

Steps: rebuild the harness (which links /repo's current source) to optimised
LLVM bitcode and to a native binary; run every job of the property in the
symbolic engine (engine/); replay every counterexample natively before
reporting it; replay a sample of path models natively and compare what the
code computed with what the encoding predicts; write evidence/<id>.json.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
TC = "stable-x86_64-unknown-linux-gnu"
NCPU = min(8, os.cpu_count() or 8)
sys.path.insert(0, V)


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTDOCFLAGS"):
            e.pop(k)
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    return e


def run(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        print(p.stdout[-6000:])
        print(f"ERROR: {what} failed")
        sys.exit(2)
    return p.stdout


def stale():
    """cargo goes by time stamps; this goes by content: a changed /repo is always rebuilt"""
    h = hashlib.sha256()
    for base in ("/repo/src", "/repo/Cargo.toml", "/repo/build.rs"):
        fs = [base] if os.path.isfile(base) else sorted(os.path.join(d, f) for d, _, n in os.walk(base) for f in n)
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as x: h.update(hashlib.sha256(x.read()).digest())
    mark = os.path.join(B, "repo.sha256")
    if not os.path.exists(mark) or open(mark).read() != h.hexdigest():
        for d in glob.glob(os.path.join(B, "harness/release/.fingerprint/vpin-*")): shutil.rmtree(d)
        with open(mark, "w") as x: x.write(h.hexdigest())


def build():
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = env()
        stale()
        with ThreadPoolExecutor(2) as ex:
            def eng():
                e1 = dict(e, CARGO_TARGET_DIR=os.path.join(B, "engine"))
                run(["cargo", "build", "--release", "--offline", "-q"], os.path.join(V, "engine"), e1, "engine build")
            def har():
                e2 = dict(e, CARGO_TARGET_DIR=os.path.join(B, "harness"), RUSTC_WRAPPER=os.path.join(V, "rustc-wrap.sh"),
                          RUSTFLAGS="--cfg vpin_verif")
                run(["cargo", "rustc", "--release", "--offline", "-q", "--bin", "vh", "--", "--emit=llvm-bc,link"], os.path.join(V, "harness/top"), e2, "harness build")
            a, b = ex.submit(eng), ex.submit(har)
            a.result(); b.result()
        vh = os.path.join(B, "harness/release/vh")
        bc = [f for f in glob.glob(os.path.join(B, "harness/release/deps/vh-*.bc")) if "rcgu" not in f]
        bc = max(bc, key=os.path.getmtime)
        return os.path.join(B, "engine/release/llsym"), vh, bc


def native(vh, func, inp, params, timeout=60):
    d = tempfile.mkdtemp(prefix="vh")
    try:
        f = os.path.join(d, "in")
        with open(f, "wb") as h: h.write(bytes.fromhex(inp))
        try:
            p = subprocess.run([vh, func, f] + [str(x) for x in params], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            return "timeout", "", ""
        o, e = p.stdout.decode("latin1"), p.stderr.decode("latin1")
        if p.returncode == 0:
            m = re.search(r"^OBS ([0-9a-f]+) (\d+)", o, re.M)
            return "ok", m.group(1) if m else "", e
        if p.returncode == 3: return "check", o.strip()[len("CHECK-FAILED "):], e
        if p.returncode == 4: return "assume", "", e
        m = re.search(r"panicked at (\S+):\n?(.*)", e)
        return "panic", (m.group(1) + " " + m.group(2)) if m else f"exit status {p.returncode}", e
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        build(); print("built"); return 0
    prop = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    only = a[a.index("--only") + 1] if "--only" in a else None
    t0 = time.time()
    from jobs import PROPS
    P = PROPS[prop]
    llsym, vh, bc = build()
    tb = time.time() - t0
    jobs = P["jobs"](tier)
    if only: jobs = [j for j in jobs if re.search(only, j["id"])]
    budget = float(os.environ.get("VERIF_BUDGET", 480 if tier == "quick" else 3000))
    out = os.path.join(B, "out", prop)
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    jf = os.path.join(out, "jobs.txt")
    with open(jf, "w") as f:
        for j in jobs:
            o = dict(secs=60 if tier == "quick" else 400, qtimeout=20 if tier == "quick" else 120, samples=6, viol=6)
            o.update(j.get("opts", {}))
            f.write(" ".join([j["id"], j["func"]] + [str(x) for x in j.get("params", [])] + [f"{k}={v}" for k, v in o.items()]) + "\n")
    t1 = time.time()
    try:
        p = subprocess.run([llsym, bc, jf, out, str(NCPU)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget, text=True, errors="replace")
        eo = p.stdout
    except subprocess.TimeoutExpired as x:
        eo = ""; subprocess.run(["pkill", "-9", "-f", jf])
        print(f"note: time budget of {budget:.0f} s reached")
    tw = time.time() - t1
    known = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
    tot = dict(paths=0, forks=0, branches=0, steps=0, checks_proved=0, queries=0, sat=0, unsat=0, z3_unknown=0, solver_s=0.0)
    lines, viols, incom, errs, missing, vac, samples, jr = {}, [], [], [], [], [], [], []
    for j in jobs:
        f = os.path.join(out, j["id"] + ".json")
        if not os.path.exists(f):
            missing.append(j["id"]); continue
        r = json.load(open(f))
        for k in tot: tot[k] += r[k]
        for k, v in r["lines"].items(): lines.setdefault(k, set()).update(v)
        for v in r["violations"]: viols.append((j, v))
        for x in r["incomplete"]: incom.append(j["id"] + ": " + x)
        for x in r["errors"]: errs.append(j["id"] + ": " + x)
        for w in j.get("reach", [1]):
            if not r["reached"].get(str(w)): vac.append(f"{j['id']}: witness {w} not reached")
        samples += [(j, s) for s in r["samples"]]
        jr.append({k: r[k] for k in ("job", "paths", "forks", "checks_proved", "queries", "solver_s", "wall_s", "max_sym")} | {"params": r["params"], "complete": not r["incomplete"] and not r["errors"]})
    # ---- counterexamples: replay natively
    rep = os.path.join(V, "evidence", "replay"); os.makedirs(rep, exist_ok=True)
    for f in glob.glob(os.path.join(rep, prop + "-*")): os.unlink(f)
    real, notrep, seen, kf = [], [], set(), {}
    for j, v in viols:
        key = (j["id"], v["kind"], v["msg"])
        if key in seen: continue
        kind, msg, err = native(vh, j["func"], v["input"], j.get("params", []))
        if kind in ("check", "panic"):
            seen.add(key)
            k = next((k for k in known if k["property"] == prop and k["func"] == j["func"] and (k.get("params") is None or k["params"] == j.get("params", [])) and re.search(k["match"], msg)), None)
            if k: kf.setdefault(k["id"], k); continue
            fn = os.path.join(rep, f"{prop}-{len(real)}.json")
            json.dump(dict(property=prop, func=j["func"], params=j.get("params", []), input=v["input"], kind=kind, message=msg, trace=v["trace"][:30], cmd=f"vh {j['func']} INPUT " + " ".join(map(str, j.get("params", [])))), open(fn, "w"), indent=1)
            real.append((fn, j["id"], kind, msg))
        else:
            notrep.append(f"{j['id']}: {v['kind']} '{v['msg']}' native={kind} input={v['input'][:200]}")
    # ---- sampled path models: native result must equal the encoding's
    lim = 160 if tier == "quick" else 1500
    if len(samples) > lim: samples = samples[:: len(samples) // lim + 1]
    okn, bad = 0, []
    def val(js):
        j, s = js
        k, o, e = native(vh, j["func"], s["input"], j.get("params", []))
        return k == "ok" and o == s["obs"], f"{j['id']}: input={s['input'][:160]} native={k} {o} encoding={s['obs']}"
    with ThreadPoolExecutor(NCPU) as ex:
        for ok, d in ex.map(val, samples):
            if ok: okn += 1
            else: bad.append(d)
    files = {k.replace("/repo/", ""): len(v) for k, v in sorted(lines.items())}
    fns = functions(lines)
    ev = dict(property=prop, level="model_checking", tier=tier, states=max(1, tot["paths"]), transitions=max(1, tot["steps"]),
              traces_validated_against_impl=okn,
              samples=[dict(harness=j["func"], params=j.get("params", []), input=s["input"][:400], observed_bytes=s["nobs"], native_hash=s["obs"]) for j, s in samples[:8]] or [dict(note="no sample")],
              method="symbolic execution of the optimised LLVM IR of /repo's crate (regenerated this run), z3 decides every branch and assertion",
              bounds=P.get("bounds", ""), assumptions=P.get("assumptions", []), functions_encoded=fns, lines_encoded_per_file=files,
              paths=tot["paths"], branches_decided=tot["branches"], forks=tot["forks"], ir_steps=tot["steps"], assertions_discharged=tot["checks_proved"],
              queries=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_unknown=tot["z3_unknown"], solver_seconds=round(tot["solver_s"], 2),
              jobs=jr, exhaustive_within_bounds=not (incom or errs or missing), incomplete=incom[:60], encoding_errors=errs[:60], jobs_without_result=missing,
              model_mismatches=bad[:20], not_reproduced=notrep[:20], known_findings=sorted(kf), violations=[dict(job=x[1], kind=x[2], message=x[3], replay=x[0]) for x in real],
              build_seconds=round(tb, 1), engine_seconds=round(tw, 1), wall_seconds=round(time.time() - t0, 1))
    try:
        ev["repo_head"] = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    except OSError: pass
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} [{tier}]: {len(jobs)} jobs, {tot['paths']} paths, {tot['checks_proved']} assertions discharged, {tot['queries']} queries ({tot['solver_s']:.1f} s solver), {okn} path models validated natively, build {tb:.0f} s, engine {tw:.0f} s")
    for x in (incom + errs)[:12]: print("incomplete:", x)
    if missing: print("incomplete: no result from", ", ".join(missing[:12]))
    for k in kf.values(): print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if real:
        for fn, jid, kind, msg in real[:20]:
            print(f"  {jid}: {kind}: {msg}")
        for fn in sorted({x[0] for x in real})[:20]: print(f"VIOLATION property={prop} replay={fn}")
        return 1
    if notrep or bad:
        for x in notrep[:10]: print("ERROR: counterexample does not reproduce:", x)
        for x in bad[:10]: print("ERROR: path model disagrees with the real code:", x)
        return 2
    if len(missing) == len(jobs) or tot["paths"] == 0:
        print("ERROR: nothing was explored"); return 2
    if vac and not (incom or errs):
        for x in vac[:10]: print("ERROR: vacuous:", x)
        return 2
    return 0


def functions(lines):
    """names of the /repo functions whose lines were executed by the encoding"""
    r = []
    for f, ls in sorted(lines.items()):
        try: src = open(f, errors="replace").read().split("\n")
        except OSError: continue
        heads = [(i + 1, m.group(1)) for i, l in enumerate(src) if (m := re.match(r"\s*(?:pub(?:\([^)]*\))?\s+)?(?:const\s+)?(?:unsafe\s+)?fn\s+(\w+)", l))]
        seen = set()
        for l in ls:
            n = None
            for h, name in heads:
                if h > l: break
                n = name
            if n: seen.add(n)
        if seen: r.append(f.replace("/repo/", "") + ": " + ", ".join(sorted(seen)))
    return r


if __name__ == "__main__":
    sys.exit(main())
