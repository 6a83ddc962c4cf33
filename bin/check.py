#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--dev]

Decides one property: builds its harness against /repo's working tree, explores every path
symbolically (solver verdicts), replays counterexamples and a sample of passing paths on the
native build, and writes evidence/ID.json.  Exit 0 / 1 (VIOLATION) / 2 (error of the check).
"""
import collections, hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(ROOT, "target")
REPO = "/repo"

ENV = dict(os.environ)
ENV.update(RUST_BACKTRACE="0", RUST_LIB_BACKTRACE="0", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTFLAGS="--cap-lints warn",
           LIBCLANG_PATH="/usr/lib/llvm-14/lib", RAYON_NUM_THREADS="1")
ENV.pop("CARGO_TARGET_DIR", None)


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def load():
    with open(os.path.join(ROOT, "checks.json")) as f:
        return json.load(f)


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for base, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(base, f)
                    h.update(p.encode())
                    try:
                        with open(p, "rb") as fh:
                            h.update(fh.read())
                    except OSError:
                        pass
    return h.hexdigest()


def build(ws, spec, release=False, timeout=1500):
    """cargo build of one harness workspace; never trusts mtimes alone."""
    tdir = os.path.join(TARGET, spec.get("target", ws))
    os.makedirs(tdir, exist_ok=True)
    stamp = os.path.join(tdir, ".stamp-" + ws)
    want = tree_hash([os.path.join(REPO, d) for d in spec["repo_dirs"]])
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if want != have:
        for prof in ("debug", "release"):
            fp = os.path.join(tdir, prof, ".fingerprint")
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if any(re.match(re.escape(c) + r"-[0-9a-f]{16}$", n) for c in spec["repo_crates"]):
                        shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    env = dict(ENV, CARGO_TARGET_DIR=tdir)
    env.update(spec.get("env", {}))
    cmd = ["cargo", "build", "--offline", "--quiet"] + spec.get("cargo_args", [])
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, spec["dir"]), env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        print("\n".join(r.stdout.splitlines()[-60:]))
        die("harness build failed for %s" % ws)
    with open(stamp, "w") as f:
        f.write(want)
    return os.path.join(tdir, "debug", spec["bin"])


def native(binary, prop, tier, case, witness_path, timeout=240):
    env = dict(ENV, SYM_WITNESS=witness_path)
    try:
        r = subprocess.run([binary, "replay", prop, tier, case], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return 4, "replay timed out"
    lines = [l for l in r.stdout.splitlines() if l.startswith("REPLAY")]
    tail = lines[-1] if lines else " | ".join(r.stdout.splitlines()[-3:])
    return r.returncode, tail


def write_witness(path, prop, case, p, cmdline):
    w = p.get("witness") or {}
    vals = w
    with open(path, "w") as f:
        f.write("# property %s, case %s\n" % (prop, case))
        f.write("# replay: SYM_WITNESS=%s %s\n" % (path, cmdline))
        f.write("# assertion: %s\n" % p.get("label", ""))
        for h in p.get("hyps", []):
            f.write("# path: %s\n" % h)
        for c in p.get("chooses", []):
            f.write("choose %d\n" % c)
        for n, v in (vals or {}).items():
            f.write("value %s %s\n" % (v, n))


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) case=(\S+) label=(.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def run_engine(prop, tier, c, cfg):
    ws = cfg["workspaces"][c["ws"]]
    t0 = time.time()
    binary = build(c["ws"], ws)
    nat = binary
    if ws.get("native"):
        nat = build(ws["native"], cfg["workspaces"][ws["native"]])
    t_build = time.time() - t0
    os.makedirs(os.path.join(ROOT, "evidence", "replays"), exist_ok=True)
    outp = os.path.join(TARGET, "run-%s.jsonl" % prop)
    env = dict(ENV)
    for k, v in c.get("env", {}).get(tier, {}).items():
        env[k] = str(v)
    budget = c.get("budget_s", {}).get(tier, 600 if tier == "quick" else 7200)
    t1 = time.time()
    try:
        r = subprocess.run([binary, "run", prop, tier, outp], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=budget)
    except subprocess.TimeoutExpired:
        die("exploration exceeded its %d s budget" % budget)
    t_run = time.time() - t1
    paths, summary = [], None
    for l in open(outp):
        d = json.loads(l)
        if d.get("summary"):
            summary = d
        elif "path" in d:
            q = d["path"]
            q["case"] = d["case"]
            paths.append(q)
    if summary is None:
        print(r.stdout[-2000:])
        die("harness ended without a summary (status %s)" % r.returncode)

    by = collections.Counter(p["status"] for p in paths)
    stats = collections.Counter()
    maxq = 0.0
    reached = collections.Counter()
    for p in paths:
        for k, v in p["stats"].items():
            if k == "max_query_s":
                maxq = max(maxq, v)
            else:
                stats[k] += v
        for x in p["reached"]:
            reached[x] += 1
    bad = [p for p in paths if p["status"] in ("violation", "crash")]
    inconc = [p for p in paths if p["status"] == "inconclusive"]
    known = known_findings(prop)
    listed = lambda p: [k for k in known if re.fullmatch(k[0], p["case"]) and k[1] in p["label"]]
    bad.sort(key=lambda p: bool(listed(p)))
    shown, real, unrepro = set(), [], []
    # one of every kind of counterexample first; replay until a few reproduce
    turn, order = collections.Counter(), []
    for p in bad:
        k = (bool(listed(p)), re.sub(r"\d+", "#", p["case"] + p["label"][:80]))
        turn[k] += 1
        order.append((k[0], turn[k], len(order), p))
    bad = [x[3] for x in sorted(order, key=lambda x: x[:3])]
    t_rep = time.time()
    for i, p in enumerate(bad):
        if len(real) >= 5 or (i >= 8 and (real or shown or time.time() - t_rep > 200)):
            break
        wf = os.path.join(ROOT, "evidence", "replays", "%s-%d.txt" % (prop, i))
        cmd = "%s replay %s %s '%s'" % (nat, prop, tier, p["case"])
        write_witness(wf, prop, p["case"], p, cmd)
        rc, tail = native(nat, prop, tier, p["case"], wf)
        ok = rc == 1 or (rc < 0) or rc in (101, 134, 139)
        if not ok:
            unrepro.append((p, tail))
            continue
        k = listed(p)
        if k:
            shown.add(k[0])
        else:
            real.append((p, wf, tail))
    # encoding validation: passing paths, on values satisfying them, on the native build
    validated, samples, vfail = 0, [], []
    if not real and not unrepro:
        seen = collections.Counter()
        oks = []
        for p in paths:
            if p["status"] != "ok" or not (p.get("witness") or {}):
                continue
            key = re.sub(r"\d+", "#", p["case"])
            if seen[key] >= 1:
                continue
            seen[key] += 1
            oks.append(p)
        lim = c.get("validate", {}).get(tier, 12 if tier == "quick" else 60)
        step = max(1, len(oks) // lim) if lim else 1
        for p in (oks[::step][:lim] if lim else []):
            wf = os.path.join(TARGET, "val-%s.txt" % prop)
            write_witness(wf, prop, p["case"], p, "")
            rc, tail = native(nat, prop, tier, p["case"], wf)
            if rc == 0:
                validated += 1
            elif "skip" in tail or rc == 3:
                pass
            else:
                keep = os.path.join(ROOT, "evidence", "replays", "%s-v%d.txt" % (prop, len(vfail)))
                write_witness(keep, prop, p["case"], p,
                              "%s replay %s %s '%s'" % (nat, prop, tier, p["case"]))
                vfail.append((p, keep, rc, tail))
    for p in paths:
        if len(samples) < 4 and (p["samples"] or p["hyps"]):
            samples.append({"case": p["case"], "status": p["status"], "path_condition": p["hyps"][:8],
                            "notes": p["samples"][:4]})
    for p in paths:
        if len(samples) >= 2:
            break
        samples.append({"case": p["case"], "status": p["status"], "branches": p["taken"][:20]})
    missing = [x for x in c.get("reach", []) if not reached.get(x)]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": len(paths),
            "transitions": sum(len(p["taken"]) for p in paths),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "cases": summary["cases"],
            "paths_by_status": dict(by),
            "pruned_paths": dict(collections.Counter(p["label"] for p in paths if p["status"] == "pruned")),
            "truncated_cases": summary.get("truncated", {}),
            "reachability_witnesses": dict(reached),
            "functions_encoded": c["functions"],
            "bounds": c["bounds"][tier] if isinstance(c["bounds"], dict) else c["bounds"],
            "outside_the_claim": c.get("outside", ""),
            "assertions": stats["asserts"],
            "discharged_by_normal_form": stats["syntactic"],
            "solver_queries": stats["queries"],
            "solver_unsat": stats["unsat"], "solver_sat": stats["sat"],
            "solver_seconds": round(stats["solver_s"], 3), "max_query_seconds": round(maxq, 3),
            "equalities_negligible": stats["negligible"],
            "equalities_skipped_nonlinear": stats["nonlinear"],
            "symbols": stats["symbols"], "dag_nodes": stats["nodes"],
            "solver": "z3-new (QF_NRA over the rationals of the field identities)",
            "build_s": round(t_build, 1), "exploration_s": round(t_run, 1),
        },
        "assumptions": c.get("assumptions", []) + cfg["workspaces"][c["ws"]].get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(real),
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(shown):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k[0], k[1]))
    print("%s %s: %d cases, %d paths %s, %d assertions, %d queries (%.1f s solver), build %.0f s, run %.0f s, %d native replays"
          % (prop, tier, summary["cases"], len(paths), dict(by), stats["asserts"], stats["queries"],
             stats["solver_s"], t_build, t_run, validated))
    if real:
        p, wf, tail = real[0]
        for q, w, t in real[:5]:
            print("  violated: %s [%s] native: %s" % (q["label"], q["case"], t))
        print("VIOLATION property=%s replay=%s" % (prop, wf))
        return 1
    if vfail:
        hard = [v for v in vfail if v[2] == 1 or v[2] < 0 or v[2] in (101, 134, 139)]
        for v in vfail:
            print("  native run disagrees: %s [%s] rc=%s" % (v[3], v[0]["case"], v[2]))
        if hard:
            print("VIOLATION property=%s replay=%s" % (prop, hard[0][1]))
            return 1
        return die("native replay of a passing path did not finish")
    if unrepro:
        for p, t in unrepro:
            print("  not reproduced natively: %s [%s]: %s" % (p["label"], p["case"], t))
        die("a counterexample did not reproduce on the native build")
    if inconc:
        for p in inconc[:5]:
            print("  inconclusive: %s [%s]" % (p["label"], p["case"]))
        die("%d inconclusive paths" % len(inconc))
    if missing:
        die("vacuous: never reached " + ", ".join(missing))
    if summary.get("truncated"):
        die("path limit hit: %s" % summary["truncated"])
    return 0


def main():
    a = sys.argv[1:]
    cfg = load()
    if a and a[0] == "--build":
        for ws in a[1:] or list(cfg["workspaces"]):
            t = time.time()
            w = cfg["workspaces"][ws]
            if w.get("kind") == "kani":
                import kani
                kani.prebuild(ws, w)
            else:
                build(ws, w)
            print("built %s in %.0f s" % (ws, time.time() - t), flush=True)
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if prop not in cfg["checks"]:
        die("unknown property " + prop)
    c = cfg["checks"][prop]
    if c.get("kind") == "kani":
        import kani
        return kani.run(prop, tier, c, cfg)
    return run_engine(prop, tier, c, cfg)


if __name__ == "__main__":
    sys.exit(main())
