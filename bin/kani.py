"""The checks decided by Kani: every case of harness/enc is a proof harness over the real module
(compiled from /repo's source by #[path]); CBMC and its SAT solver decide each for all bytes.
A counterexample's bytes are replayed on the real ciphers (harness/enc_native)."""
import collections, hashlib, json, os, re, shutil, signal, subprocess, sys, time

import check

ROOT, TARGET = check.ROOT, check.TARGET
ARGS = ["--no-default-checks", "--solver", "minisat", "-Z", "unstable-options", "--no-assertion-reach-checks"]


def env():
    e = dict(check.ENV)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("RUSTFLAGS", None)
    return e


def kani(w, args, timeout):
    """cargo kani in the harness crate; the output and whether it ended in time"""
    tdir = os.path.join(TARGET, w["target"])
    os.makedirs(tdir, exist_ok=True)
    stamp = os.path.join(tdir, ".stamp-kani")
    want = check.tree_hash([os.path.join(check.REPO, d) for d in w["repo_dirs"]] + [os.path.join(ROOT, w["dir"])])
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if want != have:
        for base, ds, _ in os.walk(tdir):
            if os.path.basename(base) == ".fingerprint":
                for n in list(ds):
                    if n.startswith("h_enc-") or n.startswith("h_enc_"):
                        shutil.rmtree(os.path.join(base, n), ignore_errors=True)
                ds[:] = []
    p = subprocess.Popen(["cargo", "kani", "--target-dir", tdir] + ARGS + args, cwd=os.path.join(ROOT, w["dir"]), env=env(),
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        ok = True
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        ok = False
    if ok and "error: could not compile" not in out:
        open(stamp, "w").write(want)
    return out, ok


def prebuild(ws, w):
    out, ok = kani(w, ["--only-codegen", "--harness", "q_"], 1200)
    if not ok or "error" in [l.split(":")[0] for l in out.splitlines()]:
        print(out[-3000:])
        check.die("the harness does not build: " + ws)


def parse(out):
    """per harness: (verdict, failed checks, covers met, seconds)"""
    on, res, cur = {}, {}, None
    for l in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", l)
        if m:
            on[m.group(1)] = m.group(2).split("::")[-1]
            if m.group(1) is None:
                cur = on[None]
                res[cur] = {"verdict": None, "failed": [], "cover": None, "s": None}
            continue
        m = re.match(r"Thread (\d+):\s*$", l)
        if m:
            cur = on.get(m.group(1))
            res[cur] = {"verdict": None, "failed": [], "cover": None, "s": None}
            continue
        if cur is None:
            continue
        r = res[cur]
        if l.startswith("Failed Checks: "):
            r["failed"].append(l[15:].strip())
        elif "cover properties satisfied" in l:
            m = re.search(r"(\d+) of (\d+)", l)
            r["cover"] = m.group(1) == m.group(2)
        elif l.startswith("VERIFICATION:-"):
            r["verdict"] = "ok" if "SUCCESSFUL" in l else "failed"
        elif l.startswith("Verification Time:"):
            r["s"] = float(l.split(":")[1].strip().rstrip("s"))
    return res


LIMITS = ("unwinding assertion", "is not currently supported", "unsupported")


def native(binary, case, path, timeout=60):
    try:
        r = subprocess.run([binary, case, path], env=check.ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return 4, "replay timed out"
    t = [l for l in r.stdout.splitlines() if l.startswith("REPLAY")]
    return r.returncode, (t[-1] if t else r.stdout[-200:])


def write(path, prop, case, binary, label, data):
    with open(path, "w") as f:
        f.write("# property %s, case %s\n# replay: %s %s %s\n# assertion: %s\nbytes %s\n" % (prop, case, binary, case, path, label, bytes(data).hex()))


def run(prop, tier, c, cfg):
    t0 = time.time()
    w = cfg["workspaces"][c["ws"]]
    binary = check.build(w["native"], cfg["workspaces"][w["native"]])
    t_build = time.time() - t0
    table = open(os.path.join(ROOT, w["dir"], "src", "table.rs")).read()
    names = re.findall(r"^\s*(\w+) =>", table, re.M)
    want = [n for n in names if tier == "thorough" or n.startswith("q_")]
    evd = os.path.join(ROOT, "evidence")
    wdir = os.path.join(evd, prop + "-cases")
    shutil.rmtree(wdir, ignore_errors=True)
    os.makedirs(wdir, exist_ok=True)
    limit = 600 if tier == "quick" else 3 * 3600
    sel = [] if tier == "thorough" else ["--harness", "q_"]
    t1 = time.time()
    out, ended = kani(w, ["--output-format", "terse", "-j", str(min(8, os.cpu_count() or 1))] + sel, limit)
    t_run = time.time() - t1
    res = parse(out)
    if not res:
        print(out[-3000:])
        check.die("Kani did not run")
    bad = collections.OrderedDict((n, res[n]) for n in want if n in res and res[n]["verdict"] == "failed")
    missing = [n for n in want if n not in res or res[n]["verdict"] is None]
    limits = [(n, f) for n, r in bad.items() for f in r["failed"] if any(x in f for x in LIMITS)]
    vacuous = [n for n in want if n in res and res[n]["verdict"] == "ok" and res[n]["cover"] is False]

    known = check.known_findings(prop)
    real, shown, unrepro, reps = [], [], [], []
    pending = [n for n in bad if not any(x[0] == n for x in limits)]
    for n in pending:
        if len(real) >= 1:
            break
        o, _ = kani(w, ["--exact", "--harness", "proofs::" + n, "-Z", "concrete-playback", "--concrete-playback=print"], 100)
        data = []
        for body in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", o, re.S)[:1]:
            data = [int(x) for x in re.findall(r"vec!\[(\d+)\]", body)]
        label = "; ".join(bad[n]["failed"]) or "?"
        p = os.path.join(wdir, n + ".txt")
        write(p, prop, n, binary, label, data)
        rc, tail = native(binary, n, p)
        reps.append({"case": n, "bytes": bytes(data).hex(), "verdict": "violated: " + label, "native": tail})
        if rc == 0 or rc in (3, 4):
            unrepro.append((n, label, tail))
        elif any(re.fullmatch(k[0], n) and k[1] in tail for k in known):
            shown.append((n, label))
        else:
            real.append((n, label, tail, p))
    # the cases Kani passed, on bytes fixed by their names, with the real ciphers
    validated, vfail = 0, []
    for n in want:
        if n not in res or res[n]["verdict"] != "ok":
            continue
        data, i = b"", 0
        while len(data) < 600:
            data += hashlib.sha256(("%s %d" % (n, i)).encode()).digest()
            i += 1
        p = os.path.join(wdir, n + ".txt")
        write(p, prop, n, binary, "", data)
        rc, tail = native(binary, n, p)
        if rc in (0, 3):
            validated += 1
        else:
            vfail.append((n, tail, p))
    oks = [n for n in want if n in res and res[n]["verdict"] == "ok"]
    solver = sum(res[n]["s"] or 0 for n in want if n in res)
    samples = reps[:10] + [{"case": n, "verdict": "holds for all bytes (unsat)", "seconds": res[n]["s"]} for n in oks[:25]]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": len(res), "transitions": len(oks) + len(bad),
            "traces_validated_against_impl": validated + len(reps),
            "samples": samples,
            "cases": len(want),
            "cases_holding": len(oks), "cases_violated": len(bad), "cases_without_an_answer": missing,
            "functions_encoded": c["functions"],
            "bounds": c["bounds"][tier], "outside_the_claim": c.get("outside", ""),
            "solver_queries": len(oks) + len(bad), "solver_unsat": len(oks), "solver_sat": len(bad),
            "solver_seconds": round(solver, 1),
            "max_query_seconds": max([res[n]["s"] or 0 for n in want if n in res] or [0]),
            "solver": "Kani (CBMC with MiniSat), every loop unrolled 200 times with unwinding assertions",
            "build_s": round(t_build, 1), "exploration_s": round(t_run, 1),
        },
        "assumptions": c.get("assumptions", []) + w.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(real) + len(vfail),
    }
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n, l in shown:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, n, l))
    print("%s %s: %d cases, %d hold, %d do not, %d native replays, %.0f s solver, build %.0f s, run %.0f s"
          % (prop, tier, len(want), len(oks), len(bad), validated + len(reps), solver, t_build, t_run))
    if real:
        for n, l, tail, p in real:
            print("  violated: %s [%s] native: %s" % (l, n, tail))
        print("VIOLATION property=%s replay=%s" % (prop, real[0][3]))
        return 1
    if vfail:
        for n, tail, p in vfail:
            print("  native run disagrees: %s: %s" % (n, tail))
        print("VIOLATION property=%s replay=%s" % (prop, vfail[0][2]))
        return 1
    if limits:
        for n, f in limits[:5]:
            print("  outside the bounds: %s [%s]" % (f, n))
        check.die("a loop bound was exceeded or a construct is not supported")
    if unrepro:
        for u in unrepro[:5]:
            print("  not reproduced natively: %s [%s]: %s" % (u[1], u[0], u[2]))
        check.die("a counterexample did not reproduce on the real ciphers")
    if missing:
        check.die("no answer for %d cases (%s)%s" % (len(missing), ", ".join(missing[:5]), "" if ended else ": out of time"))
    if vacuous:
        check.die("vacuous: " + ", ".join(vacuous))
    return 0
