#!/usr/bin/env python3
"""Runs checks against changed copies of /repo, each in a mount namespace of its own.

   rig.py [-R] [-p C01,C02] [-j N] PATCH...      -R: reverse the patches
   rig.py ... --all-seeded                       every /verif/seeded/*/patch.diff
   rig.py ... --own                              only the property a seeded bug's meta.json names

Prints, per patch, which properties' checks report a violation.  /repo and /verif themselves are
left alone: the copies under /tmp/rig are mounted over them where the checks run."""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import time

ALL = ["C%02d" % i for i in range(1, 25)]


def one(patch, props, reverse, slot, suite, own):
    base = "/tmp/rig/%s" % slot
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(["cp", "-a", "/repo", base + "/repo"], check=True)
    shutil.rmtree(base + "/repo/target", ignore_errors=True)
    os.makedirs(base + "/verif")
    for x in os.listdir("/verif"):
        if x not in (".git", "evidence", "work", "seeded"):
            subprocess.run(["cp", "-a", "/verif/" + x, base + "/verif/"], check=True)
    os.makedirs(base + "/verif/work")
    os.makedirs(base + "/verif/evidence")
    for x in ("target", "classes", "classes.built", "built"):
        subprocess.run(["cp", "-a", "/verif/work/" + x, base + "/verif/work/"])
    r = subprocess.run(["git", "-C", base + "/repo", "apply", "--whitespace=nowarn"]
                       + (["-R"] if reverse else []) + [os.path.abspath(patch)],
                       capture_output=True, text=True)
    if r.returncode:
        return "does not apply: " + r.stderr[:300]
    out = {}
    script = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && %s"
    if suite:
        r = subprocess.run(["unshare", "-m", "bash", "-c", script % (base, base,
                            "cd /repo && CARGO_TARGET_DIR=%s/t cargo test --offline 2>&1 | tail -60" % base)],
                           capture_output=True, text=True)
        bad = [l for l in r.stdout.splitlines() if "FAILED" in l or "error" in l]
        out["suite"] = bad or "passes"
    if own:
        with open(os.path.join(os.path.dirname(patch), "meta.json")) as f:
            props = [json.load(f)["property"]]
    for p in props:
        t = time.time()
        r = subprocess.run(["unshare", "-m", "bash", "-c",
                            script % (base, base, "python3 check.py " + p)],
                           capture_output=True, text=True, timeout=3000)
        v = "VIOLATION property=%s " % p in r.stdout
        why = [l.split("] ", 1)[1] for l in r.stdout.splitlines() if "] session" in l]
        if r.returncode == 1 and v:
            out[p] = "CAUGHT " + (why[0][:110] if why else "")
        elif r.returncode != 0:
            out[p] = "ERROR %d %s" % (r.returncode, r.stdout[-600:] + r.stderr[-600:])
        if time.time() - t > 120:
            out[p] = out.get(p, "") + " (%.0f s)" % (time.time() - t)
    shutil.rmtree(base, ignore_errors=True)
    return out


def main():
    a = sys.argv[1:]
    reverse = "-R" in a
    suite = "--suite" in a
    props, jobs, patches = ALL, 2, []
    i = 0
    while i < len(a):
        if a[i] == "-p":
            props = a[i + 1].split(","); i += 1
        elif a[i] == "-j":
            jobs = int(a[i + 1]); i += 1
        elif a[i] == "--all-seeded":
            patches += sorted(glob.glob("/verif/seeded/*/patch.diff"))
        elif not a[i].startswith("-"):
            patches.append(a[i])
        i += 1
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        fs = {ex.submit(one, p, props, reverse, "%d-%d" % (os.getpid(), k), suite, "--own" in a): p for k, p in enumerate(patches)}
        for f in concurrent.futures.as_completed(fs):
            r = f.result()
            print("==", fs[f])
            if isinstance(r, str):
                print("  ", r)
            else:
                for p in sorted(r):
                    print("  ", p, r[p])
                if not r:
                    print("   nothing")
            sys.stdout.flush()


main()
