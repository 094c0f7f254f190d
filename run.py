#!/usr/bin/env python3
"""Driver of the checks: builds the engine and a harness from /repo's working tree, explores the
harness symbolically, replays what the solver reports on the compiled library, writes evidence.

  run.py setup              build engine and native driver
  run.py check ID [tier]    exit 0 held, 1 VIOLATION, 2 inconclusive / error
"""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
REPO = "/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", SYMEX_SMT=os.environ.get("SYMEX_SMT", "1"),
           PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), HOME="/root")
for k in list(ENV):
    if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        del ENV[k]
OWN = ("rbe", "rudof_rdf", "rudof_iri", "prefixmap", "shex_ast", "shex_validation", "shacl", "dctap", "pgschema",
       "rudof_generate", "shapes_converter", "shapes_comparator", "mie", "rdf_config", "sparql_service", "rudof_mcp", "rudof_lib")


class Broken(Exception):
    pass


def sh(cmd, what, timeout=1200, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)
    if p.returncode != 0:
        raise Broken(f"{what} failed ({p.returncode}):\n{p.stdout[-6000:]}")
    return p.stdout


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "--target-dir", f"{B}/symex"], "engine build", cwd=f"{V}/symex", env=ENV)
    sh(["gcc", "-O1", "-rdynamic", "-o", f"{B}/replay", f"{V}/replay/replay.c", "-ldl"], "driver build")


def build_harness(name):
    d = f"{V}/harness/{name}"
    shutil.copy(f"{REPO}/Cargo.lock", f"{d}/Cargo.lock")
    t = f"{B}/h_{name}"
    env = dict(ENV, RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp -Cembed-bitcode=yes --cap-lints=allow")
    sh(["cargo", "rustc", "--release", "--offline", "--target-dir", t, "--", "--emit=llvm-ir",
        "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all"], f"harness build ({name})", cwd=d, env=env)
    ll, so = f"{t}/release/deps/h_{name}.ll", f"{t}/release/libh_{name}.so"
    if not (os.path.exists(ll) and os.path.exists(so)):
        raise Broken(f"harness {name}: no IR or library produced")
    return ll, so


def engine(ll, entry, out, e, timeout, kfs):
    cmd = [f"{B}/symex/release/symex", ll, "--entry", entry, "--out", out, "--workers", str(e.get("workers", 8)),
           "--timeout", str(int(timeout)), "--rlimit", str(e.get("rlimit", 100_000_000)),
           "--max-steps", str(e.get("max_steps", 400_000_000))]
    for k in kfs:
        cmd += ["--kf", k]
    env = dict(ENV)
    env.update(e.get("env", {}))
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout + 60, env=env, start_new_session=True)
        rc, log = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        rc, log = 99, "engine did not stop at its deadline"
        subprocess.run(["pkill", "-9", "-f", "--", f"--out {out} "])
    r = dict(entry=entry, wall=time.time() - t0, rc=rc, log=log[-2000:], fails=[], completed=[], obligations={}, cover={}, functions=set())
    cnt = ["paths", "pruned", "panics", "steps", "asserts", "asserts_concrete", "asserts_solver", "forks", "queries", "solver_ms", "cache_hits", "model_hits", "sat", "unsat"]
    for c in cnt:
        r[c] = 0
    if os.path.isdir(out):
        for f in sorted(os.listdir(out)):
            if not f.endswith(".json"):
                continue
            j = json.load(open(f"{out}/{f}"))
            for c in cnt:
                r[c] += j[c]
            r["fails"] += j["fails"]
            r["completed"] += j["completed"]
            for k, v in j["obligations"].items():
                o = r["obligations"].setdefault(k, [0, 0])
                o[0] += v[0]
                o[1] += v[1]
            for k, v in j["cover"].items():
                r["cover"][k] = r["cover"].get(k, 0) + v
            r["functions"] |= set(j["functions"])
    r["workers"] = len(os.listdir(out)) if os.path.isdir(out) else 0
    return r


def write_model(path, inputs):
    with open(path, "w") as f:
        for n, w, v in inputs:
            f.write(f"{n} {v}\n")


def replay(so, entry, files):
    """{file: result dict} of the compiled library on the given models"""
    res = {}
    for i in range(0, len(files), 200):
        out = sh([f"{B}/replay", so, entry] + files[i:i + 200], "native replay")
        cur = None
        for line in out.splitlines():
            if line.startswith("MODEL "):
                cur = line[6:]
            elif line.startswith("RESULT ") and cur:
                d = dict(x.split("=", 1) for x in line[7:].split(" ") if "=" in x)
                res[cur] = d
    return res


def demangle(names):
    p = subprocess.run(["/usr/bin/llvm-cxxfilt-18"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return p.stdout.splitlines() if p.returncode == 0 else list(names)


def short(inputs, n=24):
    return {a: int(v) for a, _, v in inputs[:n]}


def known_findings():
    """id -> text; lines `known: property=<id> id=<kf> <text>`"""
    r = {}
    p = f"{V}/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
            if m:
                r.setdefault(m[1], {})[m[2]] = m[3].strip()
    return r


def check(pid, tier):
    import checks
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = checks.CHECKS[pid]
    entries = [dict(x) for x in spec["entries"] if tier in x.get("tiers", ("quick", "thorough"))]
    limit = 780 if tier == "quick" else 6 * 3600
    known = known_findings().get(pid, {})
    errors, violations, kfound = [], [], {}
    results = []
    crates = sorted({x.get("crate", spec.get("crate")) for x in entries})
    ed = f"{V}/evidence"
    os.makedirs(f"{ed}/replays", exist_ok=True)
    work = f"{B}/run_{pid}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    build_engine()
    built = {c: build_harness(c) for c in crates}
    tb = time.time() - t0
    jobs = int(spec.get("jobs", 3))

    def one(x):
        left = limit - (time.time() - t0)
        tmo = min(x.get("timeout", 600 if tier == "quick" else 4 * 3600), left)
        if tmo < 5:
            return x, None
        ll, _ = built[x.get("crate", spec.get("crate"))]
        return x, engine(ll, x["entry"], f"{work}/{x['entry']}", x, tmo, list(known))

    with cf.ThreadPoolExecutor(jobs) as ex:
        for x, r in ex.map(one, entries):
            if r is None:
                errors.append(f"{x['entry']}: no time left")
                continue
            results.append((x, r))
    validated = mism = 0
    samples = []
    rng = random.Random(seed)
    for x, r in results:
        en = x["entry"]
        so = built[x.get("crate", spec.get("crate"))][1]
        if r["rc"] != 0:
            errors.append(f"{en}: engine exit {r['rc']}: {r['log'][-600:]}")
        for f in r["fails"]:
            if f["kind"] == "error":
                errors.append(f"{en}: {f['id'][:300]} in {' < '.join(f['stack'][:6])}")
        # violations: each counterexample is run on the compiled library
        bad = [f for f in r["fails"] if f["kind"] in ("assert", "panic", "known")]
        files = []
        for k, f in enumerate(bad):
            p = f"{work}/{en}.bad{k}"
            write_model(p, f["inputs"])
            files.append(p)
        res = replay(so, en, files) if files else {}
        for p, f in zip(files, bad):
            d = res.get(p, {})
            failed = d.get("failed", "-").split(",")
            ok = (f["kind"] == "panic" and d.get("how") == "crash") or (f["kind"] != "panic" and (re.sub("[ ,=]", "_", f["id"]) in failed or d.get("how") == "crash"))
            if not ok:
                errors.append(f"{en}: counterexample for {f['kind']} {f['id']} does not reproduce natively: {d} {short(f['inputs'])}")
            elif f["kind"] == "known":
                kfound[f["kf"]] = (en, f)
            else:
                violations.append((en, f, d))
        # completed paths: a sample is compared with the compiled library
        cs = r["completed"]
        if len(cs) > 60:
            cs = cs[:20] + rng.sample(cs[20:], 40)
        files = []
        for k, c in enumerate(cs):
            p = f"{work}/{en}.ok{k}"
            write_model(p, c["inputs"])
            files.append(p)
        res = replay(so, en, files) if files else {}
        for p, c in zip(files, cs):
            d = res.get(p, {})
            obs = [] if d.get("observed", "-") == "-" else d["observed"].split(",")
            want = [str(int(v) & (2**64 - 1)) for v in c["observed"]]
            if d.get("how") == "prune":
                errors.append(f"{en}: native run prunes a feasible path {short(c['inputs'])}")
                mism += 1
            elif d.get("how") == "crash" and not x.get("may_panic"):
                # the executed code disagrees with the model of it, or the path panics natively only
                errors.append(f"{en}: native run crashes on {short(c['inputs'])}")
                mism += 1
            elif d.get("how") == "end" and (obs != want or d.get("failed", "-") != "-") and not (d.get("failed", "-") != "-" and set(d.get("kf", "-").split(",")) & set(known)):
                errors.append(f"{en}: native run disagrees: observed {obs[:10]} expected {want[:10]} failed={d.get('failed')} {short(c['inputs'])}")
                mism += 1
            else:
                validated += 1
        for c in cs[:3]:
            samples.append(dict(entry=en, inputs=short(c["inputs"]), observed=c["observed"][:16]))
        # vacuity: the harness must get somewhere
        if not r["fails"] and r["rc"] == 0:
            if r["paths"] < x.get("min_paths", 1):
                errors.append(f"{en}: only {r['paths']} paths completed")
            if r["asserts"] == 0:
                errors.append(f"{en}: no assertion reached")
            for c in x.get("cover", []):
                if not r["cover"].get(c):
                    errors.append(f"{en}: cover point {c} not reached")
    fn = set()
    for _, r in results:
        fn |= r["functions"]
    dm = sorted(set(demangle(sorted(fn))))
    own = [f for f in dm if any(re.search(r"(^|[<& ])" + c + r"(\[[0-9a-f]+\])?::", f) for c in OWN)]
    tot = lambda k: sum(r[k] for _, r in results)
    obl = {}
    for x, r in results:
        for k, v in r["obligations"].items():
            obl[f"{x['entry']}.{k}"] = dict(checked=v[0], needed_solver=v[1])
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot("paths") + tot("pruned"), transitions=tot("steps"), traces_validated_against_impl=validated, samples=samples,
            what="states = symbolic execution paths (each stands for all inputs satisfying its path condition); transitions = LLVM instructions executed symbolically; traces = path models re-run on the compiled library with equal observations",
            paths_completed=tot("paths"), paths_infeasible_or_assumed_away=tot("pruned"), branch_forks=tot("forks"),
            assertions_discharged=tot("asserts"), assertions_by_simplification=tot("asserts_concrete"), assertions_by_solver=tot("asserts_solver"),
            solver_queries=tot("queries"), solver_s=round(tot("solver_ms") / 1000, 2), solver_sat=tot("sat"), solver_unsat=tot("unsat"),
            answers_from_cache=tot("cache_hits"), answers_from_models=tot("model_hits"),
            obligations=obl, cover={f"{x['entry']}.{k}": n for x, r in results for k, n in r["cover"].items()},
            functions_encoded=len(fn), functions_of_rudof=len(own), functions_of_rudof_list=own[:400],
            bounds={x["entry"]: x.get("bounds", "") for x in entries},
            entries={x["entry"]: dict(paths=r["paths"], wall_s=round(r["wall"], 2), workers=r["workers"]) for x, r in results},
            native_mismatches=mism, build_s=round(tb, 1), errors=errors[:40],
        ),
        assumptions=spec.get("assumptions", []) + checks.COMMON_ASSUMPTIONS,
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(f"{ed}/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for k, (en, f) in sorted(kfound.items()):
        print(f"KNOWN-FINDING: property={pid} {k}: {known[k]} (e.g. {en} {short(f['inputs'], 12)})")
    print(f"{pid} {tier}: {tot('paths')} paths, {tot('asserts')} assertions ({tot('asserts_solver')} by solver), {tot('queries')} queries, "
          f"{tot('solver_ms')/1000:.1f} s solver, {validated} models replayed, build {tb:.0f} s, wall {time.time()-t0:.0f} s")
    for e in errors[:20]:
        print("ERROR:", e)
    if violations:
        for k, (en, f, d) in enumerate(violations[:10]):
            rp = f"{ed}/replays/{pid}_{k}.json"
            with open(rp, "w") as o:
                json.dump(dict(property=pid, entry=en, kind=f["kind"], assertion=f["id"], inputs=f["inputs"], native=d, stack=f["stack"],
                               how=f"build/replay build/h_<crate>/release/libh_<crate>.so {en} MODEL, MODEL holding one 'name value' line per input"), o, indent=1)
            print(f"violated: {en} {f['kind']} {f['id']} inputs {short(f['inputs'], 40)} native {d}")
            print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 2 if errors else 0


def main():
    a = sys.argv[1:]
    sys.path.insert(0, V)
    os.makedirs(B, exist_ok=True)
    try:
        if a[0] == "setup":
            build_engine()
            return 0
        if a[0] == "check":
            tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
            return check(a[1], tier)
        if a[0] == "dev":  # dev CRATE [-n] [-t SECONDS] ENTRY...: one look at some entries
            crate, rest = a[1], a[2:]
            tmo = 120
            if "-t" in rest:
                i = rest.index("-t")
                tmo = int(rest[i + 1])
                del rest[i:i + 2]
            if rest[:1] == ["-n"]:
                rest = rest[1:]
                so = f"{B}/h_{crate}/release/libh_{crate}.so"
                ll = f"{B}/h_{crate}/release/deps/h_{crate}.ll"
            else:
                build_engine()
                ll, so = build_harness(crate)
            for en in rest:
                r = engine(ll, en, f"{B}/dev_{en}", {}, tmo, [])
                print(f"{en}: rc {r['rc']} {r['wall']:.1f}s paths {r['paths']} pruned {r['pruned']} steps {r['steps']/1e6:.1f}M forks {r['forks']} "
                      f"asserts {r['asserts']} (solver {r['asserts_solver']}) queries {r['queries']} solver {r['solver_ms']/1000:.1f}s cache {r['cache_hits']} model {r['model_hits']} cover {r['cover']} {r['log'][-1500:]}")
                for f in r["fails"][:6]:
                    print("  ", f["kind"], f["id"][:300], short(f["inputs"], 60), [demangle([s])[0] for s in f["stack"][:7]])
                    p = f"{B}/dev_{en}.m"
                    write_model(p, f["inputs"])
                    print("     native:", replay(so, en, [p]).get(p))
            return 0
        print(__doc__)
        return 2
    except Broken as e:
        print("ERROR:", e)
        return 2


sys.exit(main())
