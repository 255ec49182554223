#!/usr/bin/env python3
"""mut.py [-j N] [-p C01,C02] PATCH...: run the checks against scratch copies of /repo with patches applied.

A development tool: prints, per patch, which checks report which violations. Nothing registered in MANIFEST.json uses it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(patch, props):
    d = tempfile.mkdtemp(prefix="rflmut.")
    try:
        repo = os.path.join(d, "repo")
        os.makedirs(repo)
        subprocess.run("git -C /repo archive HEAD | tar x -C %s && cp /repo/Cargo.lock %s/ 2>/dev/null; true" % (repo, repo), shell=True, check=True)
        if patch != "-":
            r = subprocess.run(["patch", "-p1", "-s", "-i", os.path.abspath(patch)], cwd=repo, capture_output=True, text=True)
            if r.returncode:
                return "%s: does not apply: %s" % (patch, r.stdout + r.stderr)
        cache = os.path.join(d, "cache")
        os.makedirs(cache)
        shutil.copytree(os.path.join(VERIF, ".cache", "driver"), os.path.join(cache, "driver"))
        env = dict(os.environ, RFL_REPO=repo, RFL_CACHE=cache, RFL_EVIDENCE=os.path.join(d, "evidence"))
        out = []
        for p in props:
            r = subprocess.run([sys.executable, os.path.join(VERIF, "sa", "check.py"), p], env=env, capture_output=True, text=True)
            ls = [l.strip() for l in r.stdout.splitlines() if l.startswith("  ") or r.returncode not in (0, 1)]
            if r.returncode != 0:
                out.append("   %s rc=%d\n" % (p, r.returncode) + "".join("      %s\n" % l[:260] for l in ls[:6]) + r.stderr[-600:])
        return "%s: %s\n%s" % (patch, "CAUGHT by " + " ".join(o.split()[0] for o in out) if out else "-- quiet", "".join(out))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    j, props = 4, None
    while a and a[0] in ("-j", "-p"):
        if a[0] == "-j":
            j = int(a[1])
        else:
            props = a[1].split(",")
        a = a[2:]
    if props is None:
        props = [x["property"] for x in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda p: one(p, props), a):
            print(r, flush=True)


main()
