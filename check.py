#!/usr/bin/env python3
"""Decides one property:  check.py C07   (VERIF_SEED, VERIF_TIER=quick|thorough)
   Prepares everything:   check.py --setup
   Runs saved sessions:   check.py C07 --replay FILE

Scripts of API calls are made (by the generators of gen/ and from behaviours TLC generates from
the specification), run against the code of /repo by the harness, and the recorded trace is
validated against the TLA+ specification by TLC, which is what decides.  Exit 0: held on
everything explored; 1: violated; 2: the check itself could not work."""
import fcntl
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.path.join(HERE, "work")
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(HERE, "gen"))
sys.dont_write_bytecode = True
T0 = time.time()


class Broken(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def run(cmd, timeout=900, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", timeout=timeout, **kw)


# ------------------------------------------------------------------------------- building
def digest(paths):
    h = hashlib.sha256()
    for root in paths:
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fd:
                h.update(fd.read())
    return h.hexdigest()


def build_harness():
    """The harness with the code of /repo's working tree."""
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               CARGO_TARGET_DIR=os.path.join(WORK, "target"), CARGO_TERM_COLOR="never",
               RUSTC_WRAPPER="", RUSTFLAGS="", CARGO_INCREMENTAL="0",
               PATH="/usr/local/bin:/root/.cargo/bin:" + os.environ.get("PATH", ""))
    hdir = os.path.join(HERE, "harness")
    stamp = os.path.join(WORK, "built")
    binary = os.path.join(WORK, "target", "debug", "stun_harness")
    want = digest([REPO + "/src", REPO + "/Cargo.toml", hdir + "/src", hdir + "/Cargo.toml"])
    if os.path.exists(binary) and os.path.exists(stamp) and open(stamp).read() == want:
        return binary
    if os.path.exists(stamp):
        os.remove(stamp)
    # Contents decide, not modification times.
    run(["cargo", "clean", "--offline", "-p", "stun_codec", "-p", "stun_harness"], env=env, cwd=hdir)
    r = run(["cargo", "build", "--offline", "--locked"], env=env, cwd=hdir)
    if r.returncode != 0:
        raise Broken("the harness does not build:\n" + r.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(want)
    log("built the harness with the code of", REPO)
    return binary


def build_java():
    src, out = os.path.join(HERE, "spec", "java"), os.path.join(WORK, "classes")
    want = digest([src])
    stamp = os.path.join(WORK, "classes.built")
    if not (os.path.exists(stamp) and open(stamp).read() == want):
        os.makedirs(out, exist_ok=True)
        files = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".java")]
        r = run(["javac", "-cp", JARS, "-d", out] + files)
        if r.returncode != 0:
            raise Broken("the operator overrides do not compile:\n" + r.stdout)
        with open(stamp, "w") as f:
            f.write(want)
    return out


# ------------------------------------------------------------------------------- running
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def record(binary, sessions, d):
    """Runs the sessions against the real code; a crash or hang becomes an event of its session,
    and the third ends the run: any is a violation of any property."""
    scripts, trace = os.path.join(d, "scripts.ndjson"), os.path.join(d, "trace.ndjson")
    with open(scripts, "w") as f:
        for s in sessions:
            f.write(json.dumps(s, separators=(",", ":")) + "\n")
    done = crashes = 0
    with open(trace, "w") as out:
        while done < len(sessions):
            part = os.path.join(d, "part.ndjson")
            r = subprocess.run([binary, scripts, part, str(done)], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace",
                               preexec_fn=limits, timeout=3600)
            n = 0
            with open(part) as f:
                for line in f:
                    if not line.endswith("\n"):
                        break
                    out.write(line)
                    n += 1
            done += n
            if r.returncode == 0:
                break
            if r.returncode == 3 or done >= len(sessions):
                raise Broken("the harness failed: " + r.stdout[-2000:])
            s = sessions[done]
            how = "hang" if r.returncode == 97 else "crash (status %d)" % r.returncode
            log("session", s["id"], "ended in a", how)
            out.write(json.dumps({"id": s["id"], "set": s["set"], "only": s["only"],
                                  "ev": [{"op": "crash", "how": how, "r": {"t": "panic"}}]}) + "\n")
            done += 1
            crashes += 1
            if crashes == 3:
                log("the remaining sessions are not run")
                return trace
    if done != len(sessions):
        raise Broken("the harness recorded %d of %d sessions" % (done, len(sessions)))
    return trace


LINE = re.compile(r'<<\s*"(VIOL|KNOWN)",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)",\s*\{([^}]*)\}\s*>>')


def tlc(module, cfg, d, args=(), heap="12g", timeout=1800, classes=None):
    """TLC on /verif/spec/<module>.tla with configuration text cfg."""
    c = os.path.join(d, module + ".cfg")
    with open(c, "w") as f:
        f.write(cfg)
    meta = os.path.join(d, "states-" + module)
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-Xmx" + heap, "-Xss512m", "-XX:+UseParallelGC",
           "-cp", (classes or build_java()) + ":" + JARS, "tlc2.TLC", "-metadir", meta, "-config", c,
           "-workers", "8", "-noGenerateSpecTE"] + list(args) + [module + ".tla"]
    try:
        r = run(cmd, cwd=os.path.join(HERE, "spec"), timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(d, module + ".out"), "w") as f:
        f.write(r.stdout)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    return r.returncode, r.stdout, (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def validate(prop, trace, known, d):
    cfg = """SPECIFICATION Spec
CONSTANTS
  Prop = "%s"
  File = "%s"
  KnownIds = {%s}
INVARIANT Holds
VIEW Position
ALIAS Where
CHECK_DEADLOCK FALSE
""" % (prop, trace, ", ".join('"%s"' % k for k in sorted(known)))
    module = "TraceLanes" if prop == "C24" else "TraceStun"
    code, out, counts = tlc(module, cfg, d)
    found = [(a, b, int(c), e, sorted(re.findall(r'"([^"]*)"', f))) for a, b, c, e, f in LINE.findall(out)]
    viol = [x[1:] for x in found if x[0] == "VIOL"]
    kn = [x[1:] for x in found if x[0] == "KNOWN"]
    finished = "Model checking completed" in out or "states left on queue" in out
    if not finished or (code not in (0, 12)) or (code == 12) != bool(viol) or "Error: Evaluating" in out:
        raise Broken("TLC could not judge the trace (status %d), see %s/%s.out\n%s"
                     % (code, d, module, "\n".join(out.splitlines()[-30:])))
    return viol, kn, counts


def explore(prop, seed, tier, d, classes):
    """Checks the property on the models, and makes sessions of their transitions."""
    import models
    out, explored = [], []
    for i, ((module, consts), budget) in enumerate(models.of(prop, tier)):
        code, text, counts = tlc(module, models.cfg(module, consts, budget > 0), d, classes=classes)
        if code != 0 or "Model checking completed. No error has been found." not in text:
            raise Broken("the model %s fails, see %s/%s.out" % (module, d, module))
        e = {"module": module, "constants": {k: str(v) for k, v in consts.items()},
             "invariants": models.INV[module].split(), "states": counts[1], "transitions": counts[0]}
        if budget:
            s, e["printed"], e["replayed"] = models.sessions(
                prop, "m%d" % i, module, consts, text, seed, budget, tier)
            out += s
        explored.append(e)
        log("model", module, ":", counts[1], "states,", e.get("printed", 0), "transitions,",
            e.get("replayed", 0), "of them replayed")
    return out, explored


# ------------------------------------------------------------------------------- findings
def known_findings(prop):
    """[{property, id, session, event, objections, what}] - never written at run time."""
    out = []
    with open(os.path.join(HERE, "known-findings.jsonl")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k["property"] == prop:
                    out.append(k)
    return out


def save_replay(prop, sessions, ids):
    d = os.path.join(WORK, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".ndjson")
    bad = [i for i, s in enumerate(sessions) if s["id"] in ids]
    with open(path, "w") as f:
        for i, s in enumerate(sessions):
            # What C24 is about may be what an earlier session left behind.
            if s["id"] in ids or (prop == "C24" and i < bad[0]):
                f.write(json.dumps(s, separators=(",", ":")) + "\n")
    return path


def nontrivial(ev):
    """Sessions that got somewhere: at least one call had a result other than an error or nothing."""
    return any(e["r"]["t"] in ("msg", "broken") or (e["r"]["t"] == "ok" and len(e["r"]) > 1) for e in ev)


def main():
    args = sys.argv[1:]
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if args[0] == "--setup":
        build_java()
        build_harness()
        return 0
    prop = args[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    d = os.path.join(WORK, prop)
    os.makedirs(d, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev_path = os.path.join(HERE, "evidence", prop + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    classes = build_java()
    binary = build_harness()
    known = known_findings(prop)

    import scripts
    explored = []
    if "--replay" in args:
        with open(args[args.index("--replay") + 1]) as f:
            sessions = [json.loads(x) for x in f]
    else:
        sessions = scripts.gen(prop, seed, tier)
        more, explored = explore(prop, seed, tier, d, classes)
        sessions += more
        sessions += [k["session"] for k in known]
    log(prop, tier, "seed", seed, ":", len(sessions), "sessions,", sum(len(s["ops"]) + len(s.get("sched", ())) for s in sessions), "calls")
    trace = record(binary, sessions, d)
    log("recorded")
    viol, kn, counts = validate(prop, trace, {k["session"]["id"] for k in known}, d)
    log("validated:", counts[1], "states")
    for k in known:
        hits = [x for x in kn if x[0] == k["session"]["id"]]
        for x in hits:
            if x[1] == k["event"] and x[3] == sorted(k["objections"]):
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            else:
                viol.append(x)
    viol = sorted(set((a, b, c, tuple(o)) for a, b, c, o in viol))
    calls = nontriv = 0
    kinds = {}
    sample = None
    distinct = set()
    with open(trace) as f:
        for line in f:
            s = json.loads(line)
            calls += len(s["ev"])
            key = hashlib.sha1(json.dumps([s["set"], s["only"], s["ev"]]).encode()).digest()
            if nontrivial(s["ev"]) and key not in distinct:
                nontriv += 1
                if (sample is None or len(line) < len(sample)) and len(line) > 400:
                    sample = line
            distinct.add(key)
            for e in s["ev"]:
                k = e["op"] + "/" + e["r"]["t"]
                kinds[k] = kinds.get(k, 0) + 1
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": counts[1],
            "transitions": max(counts[0] - len(sessions), 0),
            "traces_validated_against_impl": len(sessions),
            "calls_validated": calls,
            "distinct_sessions_with_results": nontriv,
            "rule": "a session is a sequence of API calls on one decoder, encoder, message and value "
                    "codec; each call recorded from the real code is one transition of the "
                    "specification, judged for this property",
            "calls_by_outcome": kinds,
            "models": explored,
            "model_states": sum(e["states"] for e in explored),
            "model_transitions_replayed": sum(e.get("replayed", 0) for e in explored),
            "samples": [json.loads(sample)] if sample else [],
        },
        "assumptions": [
            "the harness reports what the public API returned",
            "TLC, its Json module and the Java overrides of CRC-32, MD5, HMAC-SHA1 and UTF-8 counting "
            "(compared with their TLA+ definitions and test vectors by DigestCheck)",
        ],
        "wall_s": round(time.time() - T0, 2),
        "violations": len(viol),
    }
    with open(ev_path, "w") as f:
        json.dump(evidence, f, indent=1)
    if viol:
        path = save_replay(prop, sessions, {x[0] for x in viol[:20]})
        for x in viol[:10]:
            log("session %s, call %d (%s): %s" % (x[0], x[1], x[2], "; ".join(x[3])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    log("held")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        log("BROKEN:", e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        log("BROKEN: timeout", e.cmd[0])
        sys.exit(2)
