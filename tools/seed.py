#!/usr/bin/env python3
"""seed.py ID PROPERTY PATCH DEMO.rs NEEDS BREAKS: confirm a planted bug in a scratch copy and keep it in seeded/ID.

seed.py --verify [ID...]: confirm the ones that are kept again."""
from collections import Counter
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, t=900):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, capture_output=True, text=True, timeout=t)


def tests(repo):
    """names of the tests that pass"""
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=repo + "/target", RUSTFLAGS="-A semicolon_in_expressions_from_macros", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_INCREMENTAL="1")
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", repo, env)
    return Counter(re.sub(r" \(line \d+\)", "", l[5:].split(" ... ")[0].split(" - should")[0]).strip() for l in r.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("... ok")), r.stdout[-3000:] + r.stderr[-1500:]


def foreign(patch):
    """changed lines that are not from the original repository"""
    base = sh("git rev-list --max-parents=0 HEAD", "/repo").stdout.split()[-1]
    bad, f, n, removed = [], None, 0, 0
    for l in open(patch):
        if l.startswith("--- "):
            f = l[6:].strip()
            owner = ["base" if x.startswith("^" + base[:7]) or x.startswith(base[:8]) else "mine" for x in sh("git blame -s " + f, "/repo").stdout.splitlines()]
        elif l.startswith("+++"):
            pass
        elif l.startswith("@@"):
            n = int(l.split()[1].split(",")[0][1:]) - 1
        elif l.startswith("-"):
            removed += 1
            if owner[n] != "base":
                bad.append(l)
            n += 1
        elif l.startswith(" "):
            n += 1
    return bad, removed


def confirm(d):
    """problems with the planted bug in directory d"""
    bad, removed = foreign(d + "/patch.diff")
    if bad or not removed:
        return "changed lines are not original: %s" % (bad or "none is changed")
    t = tempfile.mkdtemp(prefix="rflseed.")
    try:
        repo = t + "/repo"
        os.makedirs(repo)
        sh("git -C /repo archive HEAD | tar x -C %s && cp /repo/Cargo.lock %s/; cp -a /repo/target %s/target" % (repo, repo, repo), "/")
        demo = t + "/demo"
        shutil.copytree(d, demo)
        for f in glob.glob(demo + "/*.diff") + [demo + "/meta.json"]:
            if os.path.exists(f):
                os.unlink(f)
        good, _ = tests(repo)
        r = sh("bash %s/demo.sh" % demo, repo)
        if r.returncode != 0:
            return "the demonstration fails without the patch: %s" % (r.stdout + r.stderr)[-1500:]
        r = sh("git init -q . 2>/dev/null; git apply --check %s && patch -p1 -s -i %s" % (d + "/patch.diff", d + "/patch.diff"), repo)
        if r.returncode != 0:
            return "the patch does not apply: " + r.stdout + r.stderr
        bad, out = tests(repo)
        if good - bad:
            return "tests fail with the patch: %s\n%s" % (sorted(good - bad)[:8], out if not bad else "")
        r = sh("bash %s/demo.sh" % demo, repo)
        if r.returncode == 0:
            return "the demonstration passes with the patch"
        if r.returncode == 3:
            return "the demonstration does not build with the patch: " + r.stdout[-1500:]
        return None if r.returncode == 1 else "odd exit %d with the patch: %s" % (r.returncode, (r.stdout + r.stderr)[-600:])
    finally:
        shutil.rmtree(t, ignore_errors=True)


def main():
    if sys.argv[1] == "--verify":
        from concurrent.futures import ThreadPoolExecutor
        ids = sys.argv[2:] or sorted(os.listdir(VERIF + "/seeded"))
        with ThreadPoolExecutor(4) as ex:
            for i, r in zip(ids, ex.map(lambda i: confirm(VERIF + "/seeded/" + i), ids)):
                print(i, r or "confirmed", flush=True)
        return
    sid, prop, patch, demo, needs, breaks = sys.argv[1:]
    d = os.path.join(VERIF, "seeded", sid)
    tmp = tempfile.mkdtemp(prefix="rflkeep.")
    lib = os.path.join(VERIF, "tools", "seedlib")
    for f in ("demo.sh", "util.rs"):
        shutil.copy(os.path.join(lib, f), tmp)
    shutil.copy(patch, tmp + "/patch.diff")
    shutil.copy(demo, tmp + "/demo.rs")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(tmp + "/meta.json", "w"), indent=1)
    p = confirm(tmp)
    if p:
        print(sid, "REJECTED:", p)
        shutil.rmtree(tmp)
        sys.exit(1)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    shutil.rmtree(tmp)
    print(sid, "kept")


main()
