#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property of /repo's current tree.

1. the functions the property depends on are extracted from /repo/src, their contracts (specs/) attached, and
   Verus must discharge every obligation (function by function, unbounded);
2. the bounded contract checks of the same property run on the real crate (harness/), as a stand-in for the
   functions no contract reaches and as the search for a failing input.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.
"""
import sys, os, json, subprocess, time, re, glob, shutil
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS, MODULE_DEPS
import canon
REPO = os.environ.get("PANACEA_REPO", "/repo")
B = os.environ.get("PANACEA_BUILD", os.path.join(V, "build"))   # the two variables serve experiments on copies of /repo
O = V if REPO == "/repo" else B
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
T0 = time.time()
SRC, RENAMED = os.path.join(REPO, "src"), []

def sh(cmd, timeout, cwd=None, env=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env or ENV, errors="replace")
        return p.returncode, p.stdout, p.stderr, time.time() - t
    except subprocess.TimeoutExpired as e:
        d = lambda x: x.decode(errors="replace") if isinstance(x, bytes) else (x or "")
        return -999, d(e.stdout), d(e.stderr), time.time() - t

def die(msg):
    print("ERROR:", msg)
    sys.exit(2)

# ---------------------------------------------------------------- building
def build_extractor():
    rc, o, e, _ = sh(["cargo", "build", "--offline", "--quiet"], 600, cwd=os.path.join(V, "extract"), env=dict(ENV, CARGO_TARGET_DIR=os.path.join(V, "extract/target")))
    if rc != 0: die("extractor does not build:\n" + e[-2000:])
    return os.path.join(V, "extract/target/debug/extract")

def build_harness():
    env = dict(ENV, RUSTFLAGS="-C target-cpu=x86-64-v3 --cfg panacea_verif", CARGO_TARGET_DIR=os.path.join(B, "target"))
    hd = os.path.join(V, "harness")
    if REPO != "/repo": hd = harness_copy(REPO)
    rc, o, e, _ = sh(["cargo", "build", "--offline", "--quiet"], 800, cwd=hd, env=env)
    if rc == 0: return os.path.join(B, "target/debug/harness"), ""
    # the hooks read private state by name: after a renaming they are adapted, or emptied, in a copy of the tree
    rc, e2 = adapted(env)
    if rc == 0: return os.path.join(B, "target/debug/harness"), ""
    return None, e[-3000:]

def harness_copy(repo):
    hd = os.path.join(B, "harness")
    shutil.copytree(os.path.join(V, "harness"), hd, dirs_exist_ok=True)
    p = os.path.join(hd, "Cargo.toml")
    t = open(p).read().replace('path = "/repo"', 'path = "%s"' % repo)
    open(p, "w").write(t)
    return hd

# the private fields the hooks of /repo/src/verif read, in the order of their declaration
FIELDS = {"NaiveHash": ["tables", "h_count", "input_domain"], "ClientQuery": ["a", "op", "data"], "Server": ["data", "neg_s", "ctx"], "LWEtoRLWEKeyswitchKey": ["inner"]}

def adapted(env):
    rh = os.path.join(B, "repo_h")
    shutil.rmtree(rh, ignore_errors=True)
    shutil.copytree(REPO, rh, ignore=shutil.ignore_patterns("target", ".git"))
    if RENAMED: shutil.copytree(SRC, os.path.join(rh, "src"), dirs_exist_ok=True)
    src = {p: open(p, errors="replace").read() for p in glob.glob(os.path.join(rh, "src", "**", "*.rs"), recursive=True)}
    ren = {}
    for n, fs in FIELDS.items():
        for t in src.values():
            m = re.search(r"struct %s\s*\{(.*?)\n\}" % n, t, re.S)
            if m:
                now = re.findall(r"^\s*(?:pub(?:\([a-z]+\))?\s+)?(\w+)\s*:", m.group(1), re.M)
                if len(now) == len(fs): ren[n] = [(a, b) for a, b in zip(fs, now) if a != b]
    hooks = [p for p in src if os.sep + "verif" + os.sep in p]
    def fns(t):
        return [(m.start(), m.end()) for m in re.finditer(r"^pub fn .*?^\}\n", t, re.S | re.M)]
    for p in hooks:
        t = src[p]
        for a, b in reversed(fns(t)):
            f = t[a:b]
            for n, rs in ren.items():
                if re.search(r"\b%s\b" % n, f):
                    for o, w in rs:
                        f = re.sub(r"\.%s\b(?!\()" % o, "." + w, f)
                        f = re.sub(r"^(\s+)%s,$" % o, r"\1%s: %s," % (w, o), f, flags=re.M)
            t = t[:a] + f + t[b:]
        open(p, "w").write(t)
    hd = harness_copy(rh)
    e = ""
    for _ in range(12):
        rc, o, e, _ = sh(["cargo", "build", "--offline", "--quiet", "--message-format=json"], 800, cwd=hd, env=env)
        if rc == 0: return 0, ""
        hit = False
        for l in o.splitlines():
            try: d = json.loads(l)
            except ValueError: continue
            d = d.get("message") if isinstance(d.get("message"), dict) else None
            if not d or d.get("level") != "error": continue
            for sp in d.get("spans", []):
                if not sp["is_primary"]: continue
                p = os.path.join(rh, sp["file_name"]) if not os.path.isabs(sp["file_name"]) else sp["file_name"]
                if p not in hooks: continue
                t = open(p).read()
                at = sum(len(x) for x in t.splitlines(True)[:sp["line_start"] - 1])
                for a, b in fns(t):
                    if a <= at < b and "hook unavailable" not in t[a:b]:
                        k = t.index("{\n", a)
                        t = t[:k] + '{\n    panic!("hook unavailable")\n}\n' + t[b:]
                        open(p, "w").write(t); hit = True; break
        if not hit: break
    return 1, e[-3000:]

# ---------------------------------------------------------------- Verus
def verus(out, extra=(), timeout=420):
    cmd = ["verus", "--crate-type=lib", "--triggers-mode", "silent", "--num-threads", "8", "--rlimit", "40", os.path.basename(out), "--output-json", "--time-expanded", "--error-format=json"] + list(extra)
    rc, o, e, dt = sh(cmd, timeout, cwd=os.path.dirname(out))
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get("level") == "error" and not d["message"].startswith("aborting"): diags.append(d)
    try: res = json.loads(o[o.index("{"):])
    except ValueError: res = {}
    return rc, res, diags, dt, e

def spans(d):
    l = [(s["line_start"], s["is_primary"], (s.get("label") or "")) for s in d.get("spans", [])]
    for c in d.get("children", []):
        l += [(s["line_start"], False, (s.get("label") or c.get("message", ""))) for s in c.get("spans", [])]
    return sorted(l, key=lambda x: not x[1])

def rendered(d): return (d.get("rendered") or d["message"])[:3000]

LOOPS = json.load(open(os.path.join(V, "specs", "loops.json")))
VERIF_MSGS = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic", "possible division", "loop invariant", "unable to prove", "decreases not satisfied", "failed", "overflow", "not satisfied", "constructed value may fail", "cannot prove")

def prove(ex, P, work):
    mods = PROPS[P]["modules"]
    if not mods: return dict(ran=False, failed=[], verified=[], lost=[])
    need = []
    def dep(m):
        for x in MODULE_DEPS.get(m, []): dep(x)
        if m not in need: need.append(m)
    for m in mods: dep(m)
    os.makedirs(work, exist_ok=True)
    lost, notes = {}, []
    fails = {}
    for attempt in range(14):
        out, mp = os.path.join(work, "o.rs"), os.path.join(work, "map.json")
        cmd = [ex, "--src", SRC, "--specs", os.path.join(V, "specs"), "--out", out, "--map", mp, "--modules", ",".join(need)]
        if lost: cmd += ["--lost", ",".join(lost)]
        rc, o, e, _ = sh(cmd, 120)
        if rc != 0: return dict(ran=False, failed=[], verified=[], lost=[], why="extraction failed: " + e[-1500:])
        m = json.load(open(mp))
        fns = m["fns"]
        rc, res, diags, dt, err = verus(out)
        vr = res.get("verification-results", {})
        real = [f for f in fns if f["mode"] in ("verified", "ghost")]
        def at(line):
            for f in fns:
                if f["lo"] <= line < f["hi"]: return f
        if rc == -999:
            return dict(ran=False, failed=[], verified=[], lost=[], why="verifier timed out")
        encountered_vir = vr.get("encountered-vir-error", False) or ("verified" not in vr) or any(d.get("code") for d in diags)
        progress = False
        fails = {}
        if encountered_vir:
            bad = []
            for d in diags:
                for (ln, _p, _l) in spans(d):
                    f = at(ln)
                    if f and f["mode"] == "verified" and f["key"] not in lost:
                        bad.append(f["key"]); notes.append("%s: %s" % (f["key"], d["message"][:200])); break
            if not bad:
                return dict(ran=False, failed=[], verified=[], lost=[], why="verifier rejects the extracted program: " + " | ".join(d["message"][:200] for d in diags[:3]))
            for k in bad: lost[k] = "outside the verifier's reach"
            continue
        for d in diags:
            cands = [f for (ln, _p, _l) in spans(d) for f in [at(ln)] if f and f["mode"] in ("verified", "ghost")]
            # the caller is the function whose body contains the failing point; contracts of callees show up as secondary spans
            key = None
            bd = failing_names(res)
            for f in cands:
                if short(f["key"]) in bd: key = f; break
            key = key or (cands[0] if cands else None)
            if key is None: notes.append("unmapped: " + d["message"][:200]); fails.setdefault("<program>", []).append(rendered(d)); continue
            if "rlimit" in d["message"].lower() or "resource limit" in d["message"].lower():
                if key["mode"] == "verified" and key["key"] not in lost: lost[key["key"]] = "resource limit"; progress = True
                continue
            if key.get("calls_new") and key["key"] not in lost and key["mode"] == "verified":
                lost[key["key"]] = "calls a function without a contract: " + ",".join(key["calls_new"]); progress = True
                continue
            fails.setdefault(key["key"], []).append(rendered(d))
        # invariants belong to the loops they were written for: a function whose loops are others is not within reach
        for f in fns:
            k = f["key"]
            if k in fails and f["mode"] == "verified" and k not in lost and k in LOOPS and f["loops"] != LOOPS[k]:
                lost[k] = "%d loops, and the contract has invariants for %d" % (f["loops"], LOOPS[k]); progress = True
        if progress: continue
        break
    # only failures in what the property rests on count for it: its functions and everything they mention
    cl = closure(fns, open(out).read().splitlines(), PROPS[P]["functions"])
    other = sorted(k for k in fails if k not in cl)
    for k in other: fails.pop(k)
    lostk = dict(lost)
    for f in fns:
        if f["mode"] == "lost" and f["key"] not in lostk: lostk[f["key"]] = f.get("why") or "lost"
    nq, ok, ms = 0, 0, 0
    try:
        for mod in res["times-ms"]["smt"]["smt-run-module-times"]:
            for fb in mod["function-breakdown"]:
                nq += 1; ok += bool(fb["success"]); ms += fb["time-micros"] / 1000.0
    except (KeyError, TypeError): pass
    txt = open(out).read()
    return dict(ran=True, failed=sorted(fails), fails=fails, verified=[f["key"] for f in fns if f["mode"] == "verified" and f["key"] not in fails], lost=sorted(lostk.items()), assumed=[f["key"] for f in fns if f["mode"] == "assumed"], new=m["new"], missing=m["missing"], errors=m["errors"],
                obligations=nq, discharged=ok, verus_functions=vr.get("verified", 0), verus_errors=vr.get("errors", 0), solver_ms=round(ms, 1), verus_s=round(dt, 1), notes=notes, other=other, out=out, need=need,
                scan=dict(external_body=txt.count("external_body"), assume_specification=txt.count("assume_specification"), axiom=len(re.findall(r"\baxiom fn\b", txt)), assume=len(re.findall(r"\bassume\(", txt)), admit=len(re.findall(r"\badmit\(", txt)), uninterp=len(re.findall(r"\buninterp\b", txt))))

def closure(fns, lines, roots):
    body = {f["key"]: "\n".join(lines[f["lo"] - 1:f["hi"] - 1]) for f in fns}
    last = lambda k: re.split(r"::|>", k)[-1]
    words = {k: set(re.findall(r"\w+", b)) for k, b in body.items()}
    todo, cl = [k for k in roots], set(["<program>"])
    while todo:
        k = todo.pop()
        if k in cl: continue
        cl.add(k)
        for j in body:
            if j not in cl and last(j) in words.get(k, ()): todo.append(j)
    for k in body:
        if "<ghost>" in k: cl.add(k)
    return cl

def short(key):
    return re.sub(r"\.[A-Za-z]+::", "::", key)
def failing_names(res):
    s = set()
    try:
        for mod in res["times-ms"]["smt"]["smt-run-module-times"]:
            for fb in mod["function-breakdown"]:
                if not fb["success"]: s.add(fb["function"].split("::", 1)[1])
    except (KeyError, TypeError): pass
    return s

def probe(ex, P, pr, work):
    """Vacuity: with `assert(false)` at the start of every contracted function, each of them must fail."""
    keys = [k for k in pr["verified"] if "<ghost>" not in k]
    out, mp = os.path.join(work, "p.rs"), os.path.join(work, "pmap.json")
    cmd = [ex, "--src", SRC, "--specs", os.path.join(V, "specs"), "--out", out, "--map", mp, "--modules", ",".join(pr["need"]), "--probe", ",".join(keys)]
    if pr["lost"]: cmd += ["--lost", ",".join(k for k, _ in pr["lost"])]
    rc, o, e, _ = sh(cmd, 120)
    if rc != 0: return [], keys
    rc, res, diags, dt, err = verus(out)
    vr = res.get("verification-results", {})
    if rc == -999 or "verified" not in vr or vr.get("encountered-vir-error"):
        pr["notes"].append("vacuity probe gave no answer")
        return [], []
    fns = json.load(open(mp))["fns"]
    hit = set()
    for d in diags:
        for (ln, _p, _l) in spans(d):
            for f in fns:
                if f["lo"] <= ln < f["hi"] and f["key"] in keys: hit.add(f["key"])
    return sorted(hit), sorted(set(keys) - hit)

# ---------------------------------------------------------------- bounded stand-in and replay
def harness(hb, P, seed, thorough, timeout):
    cmd = [hb, P, "--seed", str(seed)] + (["--thorough"] if thorough else [])
    rc, o, e, dt = sh(cmd, timeout, env=dict(ENV, HARNESS_TRACE="1"))
    last = [l for l in e.splitlines() if l.startswith("start ")]
    last = last[-1][6:] if last else "?"
    if rc == -999: return dict(fails=[dict(sub=last, message="no answer within %d s (the whole property takes seconds on the pinned tree)" % timeout)], evaluations=0, distinct=0, samples=[], subs=[], cmd=cmd)
    try: j = json.loads(o.strip().splitlines()[-1])
    except (ValueError, IndexError): return dict(fails=[dict(sub=last, message="the program ended abnormally (exit %s): %s" % (rc, e[-500:]))], evaluations=0, distinct=0, samples=[], subs=[], cmd=cmd)
    j["cmd"] = cmd
    return j

def known():
    l = []
    p = os.path.join(V, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for x in open(p):
            m = re.match(r"finding: property=(\S+) sub=(\S+) match=(.*)$", x.strip())
            if m: l.append(m.groups())
    return l

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS: die("usage: check.py <property> [--thorough]")
    P = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(B, exist_ok=True); os.makedirs(os.path.join(O, "evidence"), exist_ok=True)
    work = os.path.join(B, "verus", P)
    spec = PROPS[P]
    global SRC, RENAMED
    SRC, RENAMED = canon.tree(os.path.join(REPO, "src"), os.path.join(V, "specs", "names.json"), os.path.join(B, "canon", P, "src"))
    ex = build_extractor()
    pr = prove(ex, P, work)
    hit, vac = probe(ex, P, pr, work) if pr["ran"] else ([], [])
    hb, herr = build_harness()
    runs = []
    if hb:
        for k in range(spec.get("thorough_seeds", 6) if thorough else 1):
            runs.append(harness(hb, P, seed + k, thorough, 300 if not thorough else 1500))
            if runs[-1]["fails"]: break
        # an obligation failed, or a function is out of reach: look harder for a failing input
        k = 1
        while not thorough and (pr.get("failed") or pr.get("lost")) and not any(r["fails"] for r in runs) and k <= 6 and time.time() - T0 < 420:
            runs.append(harness(hb, P, seed + 100 * k, False, 200)); k += 1
    hfails = [(r, f) for r in runs for f in r["fails"]]
    kn = known(); shown = []
    rest = []
    for r, f in hfails:
        m = [x for x in kn if x[0] == P and x[1] == f["sub"] and x[2] in f["message"]]
        if m: shown.append("KNOWN-FINDING: property=%s %s: %s" % (P, f["sub"], m[0][2]))
        else: rest.append((r, f))
    hfails = rest
    for s in sorted(set(shown)): print(s)
    want = [k for k in spec.get("functions", [])]
    proved = [k for k in want if k in pr["verified"] and k not in vac]
    pfail = [k for k in pr["failed"]]
    evals = sum(r["evaluations"] for r in runs)
    level = "proof" if spec["level"] == "proof" and pr.get("obligations", 0) > 0 else "exploration"
    samples = [s for r in runs[:1] for s in r["samples"]][:12] or ["(none)"]
    rule = "each case is a generated input to the real crate, compared with an independent reference; distinct_nontrivial counts cases whose description (sub-check, parameters, inputs) was not seen before in the run"
    bounded = dict(label="BOUNDED, not proved: generated inputs on the real crate", evaluations=evals, distinct_nontrivial=sum(r["distinct"] for r in runs), rule=rule, samples=samples, subchecks={s["name"]: s["checks"] for r in runs[:1] for s in r["subs"]}, seeds=[r.get("seed", seed) for r in runs], reason=spec.get("bounded_why", ""))
    if level == "proof":
        cov = dict(obligations=pr["obligations"], discharged=pr["discharged"], backend="Verus 0.2026.09.13 (Z3)", checker_cmd="python3 /verif/check.py %s (verus --crate-type=lib %s)" % (P, pr["out"]),
                   trusted_base=spec["trusted"] + ["mechanical scan of the verified program: " + ", ".join("%s=%d" % kv for kv in pr["scan"].items())] + (["contracts assumed for: " + ", ".join(pr["assumed"])] if pr["assumed"] else []),
                   functions_under_contract=pr["verified"], functions_of_this_property=proved, names_put_back=RENAMED, functions_not_proved_this_run=[k for k in want if k not in proved], outside_reach_this_run=["%s (%s)" % (k, w) for k, w in pr["lost"]],
                   without_contract=pr["new"], solver_ms=pr["solver_ms"], verus_wall_s=pr["verus_s"], vacuity=dict(probed=len(hit) + len(vac), reachable=len(hit), unreachable=vac), failed_obligations=pfail, bounded_stand_in=bounded,
                   evaluations=evals, distinct_nontrivial=bounded["distinct_nontrivial"], rule=rule, samples=samples)
    else:
        cov = dict(evaluations=evals, distinct_nontrivial=bounded["distinct_nontrivial"], rule=rule, samples=samples, bounded_stand_in=bounded, verus=pr.get("why", ""))
    viol = len(hfails) + len(pfail)
    json.dump(dict(property=P, tier="thorough" if thorough else "quick", seed=seed, level=level, coverage=cov, assumptions=spec["trusted"], wall_s=round(time.time() - T0, 1), violations=viol), open(os.path.join(O, "evidence", P + ".json"), "w"), indent=1)
    if hb is None:
        if not pfail and not (pr["ran"] and pr.get("obligations", 0) > 0): die("neither the proof nor the harness could run on this tree:\n" + herr)
        print("the harness does not build against this tree; the proof alone decides:\n" + herr[-600:])
    os.makedirs(os.path.join(O, "replays"), exist_ok=True)
    rp = os.path.join(O, "replays", P + ".json")
    if hfails:
        r, f = hfails[0]
        json.dump(dict(property=P, kind="failing input on the real code", sub=f["sub"], failure=f["message"], replay_cmd="%s --only '%s'" % (" ".join(r["cmd"]), f["sub"]), all_failures=[x[1] for x in hfails], failed_obligations=pr.get("fails", {})), open(rp, "w"), indent=1)
        print("%s: %s" % (f["sub"], f["message"][:600]))
        for k in pfail: print("failed obligation in", k)
        print("VIOLATION property=%s replay=%s" % (P, rp)); sys.exit(1)
    if pfail or (pr["ran"] and vac):
        json.dump(dict(property=P, kind="failed proof obligation", failed_obligations=pr.get("fails", {}), vacuous=vac, note="the bounded search on the real code found no failing input"), open(rp, "w"), indent=1)
        for k in pfail: print("failed obligation in %s: %s" % (k, pr["fails"][k][0][:800]))
        if vac: print("contracts that became vacuous:", vac)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (P, rp)); sys.exit(1)
    print("%s held: %s; %d bounded evaluations" % (P, ("%d/%d obligations discharged, %d functions under contract" % (pr["discharged"], pr["obligations"], len(pr["verified"]))) if pr["ran"] else "no proof run (%s)" % pr.get("why", "no contract"), evals))
    if pr.get("lost"): print("outside the verifier's reach in this run (bounded stand-in decides):", pr["lost"])
    sys.exit(0)
main()
