#!/usr/bin/env python3
"""Decides one property: python3 run.py C01  (VERIF_SEED, VERIF_TIER=quick|thorough).

1. builds the harness against /repo's working tree,
2. model checks the specification for the property (TLC),
3. lets the harness explore the real code and record traces (some driven by behaviours TLC generated),
4. lets TLC decide whether the recorded traces are behaviours of the specification,
5. writes evidence/<id>.json; exit 0 held, 1 VIOLATION, 2 no answer.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SPEC = os.path.join(HERE, "spec")
BUILD = os.path.join(HERE, ".build")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
DEEP = TIER == "thorough"


class NoAnswer(Exception):
    pass


T0 = time.time()


def log(*a):
    print("[%5.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
def tree_hash():
    h = hashlib.sha256()
    for base in (REPO, os.path.join(HERE, "harness")):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def build(scratch):
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("CARGO_BUILD_TARGET", None)
    target = os.path.join(BUILD, "target")
    env["CARGO_TARGET_DIR"] = target
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(BUILD, "stamp")
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    exe = os.path.join(target, "release", "sv2drive")
    mine = os.path.join(scratch, "sv2drive")
    hooked = True
    if now != old.split(" ")[0] or not os.path.exists(exe):
        # never trust file times: the tree may have been swapped for an older-looking one
        if os.path.exists(stamp):
            os.remove(stamp)
        for crate in ("stratumv2", "noiseexplorer_nx", "sv2drive"):
            subprocess.run(["cargo", "clean", "--offline", "--release", "-p", crate], cwd=os.path.join(HERE, "harness"),
                           env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cmd = ["cargo", "build", "--release", "--offline", "--locked"]
        env["RUSTFLAGS"] = "--cfg sv2_verif"
        r = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            log("build with hooks failed, trying without:\n" + r.stdout[-3000:])
            hooked = False
            env["RUSTFLAGS"] = ""
            r = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                log(r.stdout[-6000:])
                raise NoAnswer("the harness does not build against /repo")
        with open(stamp, "w") as f:
            f.write(now + " " + ("hooked" if hooked else "plain"))
    else:
        hooked = old.endswith("hooked")
    shutil.copy2(exe, mine)
    return mine, hooked


# ----------------------------------------------------------------------- TLC
class Tlc:
    """One TLC run: parsed output."""

    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m is None:
            m = re.search(r"The number of states generated: (\d+)", out)
            self.generated = int(m.group(1)) if m else 0
            self.distinct = 0
        else:
            self.generated, self.distinct = int(m.group(1)), int(m.group(2))
        self.ok = rc == 0 and "Error:" not in out
        self.inv = (re.findall(r"Error: Invariant (\S+) is violated", out)
                    + re.findall(r"Error: Action property (\S+) is violated", out)
                    + (["temporal property"] if "Temporal properties were violated" in out else []))


def tlc(scratch, tag, module, cfg, env=None, workers=1, heap="2g", extra=(), timeout=800, emit=None):
    meta = os.path.join(scratch, "md_" + tag)
    cmd = ["java", f"-Xmx{heap}", "-Xss256m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(workers, 4)),
           "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-nowarning", "-workers", str(workers), "-metadir", meta,
           "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        raise NoAnswer(f"TLC timed out on {module} ({tag})") from x
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    beh = None
    if emit:
        beh = sorted(set(re.findall(r'^"BEH (.*)"$', out, re.M)))
        out = re.sub(r'(?m)^"BEH .*"\n', "", out)
        with open(emit, "w") as f:
            f.write("".join(x + "\n" for x in beh))
    with open(os.path.join(scratch, f"tlc_{tag}.log"), "w") as f:
        f.write(out)
    t = Tlc(out, rc)
    t.behaviours = len(beh) if beh is not None else 0
    return t


def model_check(scratch, i, mc):
    """mc: module, spec constants, invariants, properties.  The specification must satisfy the property."""
    consts = dict(mc.get("constants", {}))
    if DEEP:
        consts.update(mc.get("deep", {}))
    cfg = os.path.join(scratch, f"mc{i}.cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION %s\n" % mc.get("spec", "Spec"))
        for k, v in consts.items():
            f.write(f"CONSTANT {k} {v}\n" if str(v).startswith("<-") else f"CONSTANT {k} = {v}\n")
        for x in mc.get("constraints", []):
            f.write(f"CONSTRAINT {x}\n")
        if mc.get("symmetry"):
            f.write(f"SYMMETRY {mc['symmetry']}\n")
        if mc.get("view"):
            f.write(f"VIEW {mc['view']}\n")
        for x in mc.get("invariants", []):
            f.write(f"INVARIANT {x}\n")
        for x in mc.get("properties", []):
            f.write(f"PROPERTY {x}\n")
        f.write("CHECK_DEADLOCK FALSE\n")
    emit = os.path.join(scratch, f"beh{i}.ndjson") if mc.get("emit") else None
    t = tlc(scratch, f"mc{i}", mc["module"] + ".tla", cfg, emit=emit, workers=mc.get("workers", 6), heap=mc.get("heap", "8g"))
    if not t.ok:
        log(t.out[-4000:])
        raise NoAnswer(f"the specification {mc['module']} does not satisfy {t.inv or mc.get('invariants')} (tool or model error)")
    return t


def prove(scratch, module):
    """TLAPS on a copy of the specification (it leaves a cache behind): (obligations, proved)."""
    d = os.path.join(scratch, "proof_" + module)
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy2(os.path.join(SPEC, f), d)
    try:
        r = subprocess.run(["tlapm", "--cleanfp", "--stretch", "3", module + ".tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=900)
    except (OSError, subprocess.TimeoutExpired) as x:
        return {"module": module, "result": f"not run: {x}"[:200]}
    m = re.search(r"All (\d+) obligations? proved", r.stdout)
    if m is None:
        log(r.stdout[-1500:])
    return {"module": module, "result": f"all {m.group(1)} obligations proved" if m else "not proved"}


TRACE_END = re.compile(r'<<\s*"TRACE-END",\s*(\d+),\s*(<<.*?>>)\s*>>', re.S)  # TLC wraps long values


def judge(scratch, prop, spec, path, k):
    """TLC's verdict on one recorded trace: (lines, rejected line numbers, Tlc)."""
    n = sum(1 for _ in open(path))
    if n == 0:
        return 0, [], None
    t = tlc(scratch, f"trace{k}", spec + ".tla", spec + ".cfg", env={"TRACE": path, "PROP": prop}, workers=1, heap="3g")
    m = TRACE_END.search(t.out)
    if m and t.ok:
        if int(m.group(1)) != n:
            raise NoAnswer("TLC read %s of %d trace lines" % (m.group(1), n))
        return n, [int(x) for x in re.findall(r"\d+", m.group(2))], t
    # an event outside what the specification can even evaluate
    ls = re.findall(r"^/\\ l = (\d+)", t.out, re.M)
    at = int(ls[-1]) if ls else None
    log(re.sub(r"(?s)Error: The behavior up to this point is:.*", "", t.out)[-3000:])
    return n, ("error", at), t


# ---------------------------------------------------------------------- main
def drive(scratch, exe, prop, check, tables, hooked, behaviours):
    out = os.path.join(scratch, "out")
    env = dict(os.environ)
    env["VERIF_SEED"] = str(SEED)
    env["SV2_SCALE"] = str(check.get("scale_deep", 12) if DEEP else check.get("scale", 1))
    env["SV2_PER_CLASS"] = str(check.get("per_class_deep", 24) if DEEP else check.get("per_class", 6))
    env["SV2_SHARDS"] = str(check.get("shards_deep", 8) if DEEP else check.get("shards", 4))
    env["SV2_HOOKED"] = "1" if hooked else "0"
    env.update(behaviours)
    limit = 3000 if DEEP else 400
    try:
        r = subprocess.run([exe, prop, tables, out], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=limit, errors="replace")
    except subprocess.TimeoutExpired:
        return out, f"the code did not come back within {limit} s"
    if r.returncode < 0:
        return out, f"the code ended the process with signal {signal.Signals(-r.returncode).name}: {r.stderr[-800:]}"
    if r.returncode != 0:
        log(r.stderr[-3000:])
        raise NoAnswer(f"harness exit {r.returncode}")
    return out, None


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)).get("findings", []) if x.get("property") == prop]


def violation(prop, what, lines):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{int(time.time())}-{os.getpid()}.json")
    with open(p, "w") as f:
        json.dump({"property": prop, "seed": SEED, "tier": TIER, "what": what, "rejected": lines}, f, indent=1)
    log(what)
    for x in lines[:5]:
        log("  rejected: " + str(x)[:1500])
    print(f"VIOLATION property={prop} replay={p}", flush=True)


def main():
    prop = sys.argv[1]
    check = CHECKS[prop]
    t0 = time.time()
    scratch = os.path.join(BUILD, f"run-{prop}-{os.getpid()}")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        return decide(prop, check, scratch, t0)
    except NoAnswer as x:
        log("no answer:", x)
        return 2
    finally:
        if not os.environ.get("SV2_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, check, scratch, t0):
    pool = cf.ThreadPoolExecutor(max_workers=10)
    # the model checking runs beside the build and the exploration, except where the
    # exploration replays behaviours it generates
    mcs = [m for m in check.get("mc", []) if DEEP or not m.get("deep_only")]
    futs = []
    for i, m in enumerate(mcs):
        futs.append((m, pool.submit(model_check, scratch, i, m)))
    proofs = [pool.submit(prove, scratch, m) for m in check.get("proofs", [])] if DEEP else []
    exe, hooked = build(scratch)
    tables = os.path.join(scratch, "tables.json")
    ex = tlc(scratch, "export", "Export.tla", "Export.cfg", env={"OUT": tables})
    if not ex.ok or not os.path.exists(tables):
        log(ex.out[-2000:])
        raise NoAnswer("export of the specification's tables failed")
    behaviours = {}
    for i, (m, f) in enumerate(futs):
        if m.get("emit"):
            f.result()
            name = "SV2_BEHAVIOURS" if m["emit"] is True else "SV2_BEHAVIOURS_" + m["emit"]
            behaviours[name] = os.path.join(scratch, f"beh{i}.ndjson")
    log("exploring")
    out, died = drive(scratch, exe, prop, check, tables, hooked, behaviours)
    log("explored; waiting for the model checker")
    models = [(m, f.result()) for m, f in futs]

    if died:
        violation(prop, died, [])
        return 1
    stats = json.load(open(os.path.join(out, "stats.json")))
    log("judging")
    shards = sorted(f for f in os.listdir(out) if f.startswith("trace"))
    res = list(pool.map(lambda kf: judge(scratch, prop, check["trace"], os.path.join(out, kf[1]), kf[0]), enumerate(shards)))
    lines, rejected, traced_states, undecided = 0, [], 0, None
    for f, (n, bad, t) in zip(shards, res):
        lines += n
        traced_states += t.distinct if t else 0
        if bad and bad[0] == "error":
            all_lines = open(os.path.join(out, f)).read().splitlines()
            ev = all_lines[bad[1] - 1] if bad[1] and bad[1] <= len(all_lines) else None
            if stats["disagreements"] > 0 and ev:
                rejected.append(ev)
            else:
                undecided = f"TLC could not evaluate {f} line {bad[1]}: {str(ev)[:600]}"
        elif bad:
            all_lines = open(os.path.join(out, f)).read().splitlines()
            rejected += [all_lines[b - 1] for b in bad]
    if undecided and not rejected:
        raise NoAnswer(undecided)

    known = known_findings(prop)
    fresh = []
    hit = set()
    for ev in rejected:
        for k in known:
            if k["match"] in ev:
                hit.add(k["what"])
                break
        else:
            fresh.append(ev)

    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": check.get("level", "model_checking"),
        "coverage": {
            "states": sum(t.distinct for _, t in models) + traced_states,
            "transitions": sum(t.generated for _, t in models) + traced_states,
            "model_states": {m["module"] + ":" + ",".join(m.get("invariants", []) + m.get("properties", [])): t.distinct for m, t in models},
            "traces_validated_against_impl": stats.get("behaviours") or lines,
            "trace_events": lines,
            "evaluations": stats["evaluations"],
            "distinct_nontrivial": stats["distinct"],
            "rule": check["rule"],
            "native_disagreements": stats["disagreements"],
            "proofs": [f.result() for f in proofs],
            "notes": stats["notes"],
            "samples": stats["samples"],
            "hooks": hooked,
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w in sorted(hit):
        print(f"KNOWN-FINDING: property={prop} {w}", flush=True)
    log(f"{prop}: {stats['evaluations']} executions, {lines} trace events judged by TLC, "
        f"{sum(t.distinct for _, t in models)} model states, {ev['wall_s']} s")
    if fresh:
        violation(prop, f"{len(fresh)} recorded events are not behaviours of the specification", fresh)
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
