#!/usr/bin/env python3
"""check.py <property> [--thorough]: run every engine registered for the property.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken (replayed natively);
exit 2: the check itself could not decide.
"""
import fnmatch, glob, hashlib, json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import PROPS

TARGET = os.path.join(HERE, "target")

def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             RUSTFLAGS="-C target-cpu=x86-64", CARGO_TARGET_DIR=TARGET)
    e.pop("CARGO_BUILD_TARGET", None)
    return e

def known(prop):
    """entries of known_findings.txt: 'KNOWN-FINDING: property=<id> case=<glob> label=<glob> <text>'"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(p):
        return out
    for l in open(p):
        l = l.strip()
        if not l.startswith("KNOWN-FINDING:"):
            continue
        f = l[len("KNOWN-FINDING:"):].strip()
        head, _, text = f.partition(" :: ")
        d = {}
        for part in head.split("; "):
            k, _, v = part.partition("=")
            d[k.strip()] = v.strip()
        if d.get("property") == prop:
            d["text"] = text
            out.append(d)
    return out

def fresh():
    """forget compiled copies of the crate when its sources changed, whatever their timestamps say"""
    h = hashlib.sha256()
    for d, ds, fs in os.walk("/repo"):
        ds[:] = sorted(x for x in ds if x not in (".git", "target"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml")):
                h.update(os.path.join(d, f).encode())
                h.update(open(os.path.join(d, f), "rb").read())
    stamp = os.path.join(TARGET, "repo.sha256")
    try:
        same = open(stamp).read() == h.hexdigest()
    except OSError:
        same = False
    if not same:
        for pat in ("debug", "ir/release"):
            for f in glob.glob(os.path.join(TARGET, pat, ".fingerprint", "sci-rs-*")):
                shutil.rmtree(f, ignore_errors=True)
        os.makedirs(TARGET, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(h.hexdigest())

def build(bins):
    t = time.time()
    fresh()
    cmd = ["cargo", "build", "--quiet", "--manifest-path", os.path.join(HERE, "sym", "Cargo.toml")]
    for b in bins:
        cmd += ["--bin", b]
    r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout, time.time() - t

def died(b, names, e):
    f = os.path.join(TARGET, "died_%s_%d.json" % (b, os.getpid()))
    try:
        for n in names:
            for seed in (1, 2, 3):
                json.dump({"case": n, "seed": seed, "input": {}}, open(f, "w"))
                how = None
                try:
                    r = subprocess.run([os.path.join(TARGET, "debug", b), "--replay", f], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30)
                    if r.returncode < 0:
                        how = "ends the process (signal %d)" % -r.returncode
                except subprocess.TimeoutExpired:
                    how = "does not return within 30 s"
                if how:
                    return {"case": n, "status": "violation", "label": "termination", "note": "a concrete run " + how, "input": {"#seed": seed}, "engine": "sym:" + b}
    finally:
        if os.path.exists(f):
            os.unlink(f)
    return None

def run_bin(b, tier, secs, finds=()):
    args = [os.path.join(TARGET, "debug", b), "--secs", str(secs)]
    for k in finds:
        args += ["--known", k.get("case", "*")]
    if tier == "thorough":
        args.append("--thorough")
    e = env()
    e["VERIF_TIER"] = tier
    e["SYM_REPO"] = "/repo"
    prog = os.path.join(TARGET, "progress_%s_%d" % (b, os.getpid()))
    if os.path.exists(prog):
        os.unlink(prog)
    e["SYM_PROGRESS"] = prog
    try:
        r = subprocess.run(args, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 60)
    except subprocess.TimeoutExpired:
        return None, "%s did not end within %ds" % (b, secs + 60)
    finally:
        open_cases = []
        if os.path.exists(prog):
            for l in open(prog, errors="replace").read().splitlines():
                if l.startswith("-"):
                    if l[1:] in open_cases:
                        open_cases.remove(l[1:])
                else:
                    open_cases.append(l)
            os.unlink(prog)
    sys.stderr.write(r.stderr[-6000:])
    if r.returncode < 0:
        # the code under test ended the engine's process (stack or memory exhausted): the cases that
        # were running are run on concrete inputs, each in a process of its own
        c = died(b, open_cases, e)
        if c:
            return {"cases": [c], "expected_cases": 1, "wall_s": 0.0}, ""
    if r.returncode != 0 or not r.stdout.strip():
        return None, "%s ended with status %d: %s" % (b, r.returncode, r.stderr[-800:])
    return json.loads(r.stdout.strip().splitlines()[-1]), ""

def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = PROPS[prop]
    t0 = time.time()
    total = 780 if tier == "quick" else 6 * 3600
    finds = known(prop)
    cases, errors = [], []
    engines = []
    if conf.get("bins"):
        rc, out, bt = build(conf["bins"])
        if rc != 0:
            print(out[-5000:])
            print("ERROR: the harness does not build against /repo")
            evidence(prop, tier, seed, conf, [], 0, ["build failed"], time.time() - t0, {})
            sys.exit(2)
        for b in conf["bins"]:
            left = max(30, total - (time.time() - t0) - 60)
            d, err = run_bin(b, tier, min(left, conf.get("secs", 600) if tier == "quick" else left), finds)
            if d is None:
                errors.append(err)
                continue
            if len(d["cases"]) != d["expected_cases"]:
                errors.append("%s: %d of %d cases reported" % (b, len(d["cases"]), d["expected_cases"]))
            for c in d["cases"]:
                c["engine"] = "sym:" + b
            cases += d["cases"]
            engines.append({"bin": b, "wall_s": d["wall_s"]})
    if conf.get("kani"):
        import kanirun
        kc, ke = kanirun.run(conf["kani"], tier, max(60, total - (time.time() - t0) - 30))
        cases += kc
        errors += ke
    viol, und, inc, knownhit = [], [], [], {}
    byname = {c["case"]: c for c in cases}
    for c in cases:
        if c["status"] == "violation" and c["case"].startswith("asis ") and byname.get(c["case"][5:], {}).get("status") == "pass":
            # the case pins down how a listed finding fails; it says nothing once the property holds there
            c["status"] = "pass"
    for c in cases:
        if c["status"] == "violation":
            hit = None
            for k in finds:
                if fnmatch.fnmatchcase(c["case"], k.get("case", "*")) and fnmatch.fnmatchcase(c.get("label", ""), k.get("label", "*")):
                    hit = k
                    break
            if hit:
                knownhit.setdefault(hit["text"], []).append(c["case"])
                c["status"] = "known-finding"
            else:
                viol.append(c)
        elif c["status"] == "inconclusive":
            inc.append(c)
        elif c["status"] == "undecided":
            und.append(c)
    # a case whose query stayed undecided, and whose native search found no failure, is not part of
    # what was explored: it is reported as such. Too many of them and the check gives no answer.
    vac = [c for c in inc if "vacuous" in c.get("note", "") or "unsupported" in c.get("note", "")]
    if len(inc) * 4 > len(cases) or len(vac) * 10 > len(cases):
        errors += ["%s: %s" % (c["case"], c.get("note", "")) for c in inc]
    for c in inc:
        print("undecided case (not part of the bound of this run): %s: %s" % (c["case"], c.get("note", "")[:300]))
    und += inc
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for i, c in enumerate(viol[:20]):
        p = os.path.join(rdir, "%s_%d.json" % (prop, i))
        json.dump({"property": prop, "case": c["case"], "label": c.get("label"), "note": c.get("note"), "input": c.get("input", {}),
                   "engine": c.get("engine"), "replay_cmd": "%s/target/debug/%s --replay %s" % (HERE, c.get("engine", "sym:?").split(":")[1], p)}, open(p, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
        print("  case %s: %s %s" % (c["case"], c.get("label"), c.get("note", "")[:400]))
    for text, cs in knownhit.items():
        print("KNOWN-FINDING: property=%s %s (cases: %s)" % (prop, text, "; ".join(sorted(cs)[:6])))
    evidence(prop, tier, seed, conf, cases, len(viol), errors, time.time() - t0,
             {"engines": engines, "known_findings": [{"what": k, "cases": v} for k, v in knownhit.items()], "undecided_deeper_cases": [c["case"] for c in und]})
    for e in errors[:10]:
        print("inconclusive: " + e[:600])
    if und:
        print("note: %d deeper-bound cases undecided, bound reduced accordingly: %s" % (len(und), ", ".join(c["case"] for c in und[:8])))
    if viol:
        print("\n".join(lines[:1] if False else lines))
        sys.exit(1)
    if errors:
        sys.exit(2)
    print("%s: held on %d cases (%s), %.1fs" % (prop, len(cases), tier, time.time() - t0))
    sys.exit(0)

def evidence(prop, tier, seed, conf, cases, nviol, errors, wall, extra):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    s = lambda k: sum(c.get(k, 0) or 0 for c in cases)
    slow = sorted(cases, key=lambda c: -c.get("secs", 0))[:5]
    cov = {
        "states": int(s("paths")),
        "transitions": int(s("decisions")),
        "traces_validated_against_impl": int(s("native_checks")),
        "samples": [{k: c.get(k) for k in ("case", "status", "paths", "asserts", "symbols", "queries", "engine")} for c in (cases[:3] + slow)],
        "explanation": "states = symbolic execution paths ended, transitions = symbolic branch decisions; every path stands for all real inputs of its box that follow it",
        "functions_encoded": conf.get("functions", []),
        "bounds": conf.get("bounds", {}).get(tier, ""),
        "outside_bounds": conf.get("outside", ""),
        "cases": len(cases),
        "assertions_checked": int(s("asserts")),
        "discharged_by_normal_form": int(s("exact")),
        "discharged_concretely": int(s("concrete")),
        "discharged_by_linear_query": int(s("weighted")),
        "discharged_by_nonlinear_query": int(s("nra")),
        "normal_forms_confirmed_by_solver": int(s("nf_ok")),
        "identities_cross_checked_by_solver": int(s("raw_ok")),
        "solver_queries": int(s("queries")),
        "solver_sat": int(s("sat")),
        "solver_unsat": int(s("unsat")),
        "solver_unknown": int(s("unknown")),
        "solver_seconds": round(s("solver_s"), 3),
        "reachability_witnesses": int(s("witness")),
        "errors": errors[:20],
    }
    cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": conf.get("assumptions", []), "wall_s": round(wall, 3), "violations": nviol}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

if __name__ == "__main__":
    main()
