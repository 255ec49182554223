#!/usr/bin/env python3
"""check.py Cxx: decide one property for the current tree of /repo."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("RFL_REPO", "/repo")
CACHE = os.environ.get("RFL_CACHE", os.path.join(VERIF, ".cache"))
EVIDENCE = os.environ.get("RFL_EVIDENCE", os.path.join(VERIF, "evidence"))
sys.path.insert(0, HERE)


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def build_driver():
    d = os.path.join(VERIF, "driver")
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--quiet", "--target-dir", os.path.join(CACHE, "driver")], cwd=d, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr)
        raise SystemExit(3)
    return os.path.join(CACHE, "driver", "debug", "rfl-driver")


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for pat in ("src/**/*", "build/**/*", "Cargo.toml", "Cargo.lock", "examples/**/*.rs"):
        fs += glob.glob(os.path.join(REPO, pat), recursive=True)
    fs += glob.glob(os.path.join(VERIF, "driver", "src", "*"))
    for f in sorted(set(fs)):
        if os.path.isfile(f):
            h.update(f.encode())
            h.update(hashlib.sha256(open(f, "rb").read()).digest())
    return h.hexdigest()[:24]


def dump(extra=(), tag="", flags=()):
    """the resolved program of the current tree, as JSON; rebuilt whenever a source file changed"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver()
        h = tree_hash()
        out = os.path.join(CACHE, "%sdump-%s.json" % (tag, h))
        if os.path.exists(out):
            return out, h
        tmp = out + ".tmp"
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["RFL_OUT"] = tmp
        env.pop("RUSTFLAGS", None)
        old = glob.glob(os.path.join(CACHE, "target", "debug", "build", "rustful", "*"))
        if len(old) > 12:
            for d in old:
                shutil.rmtree(d, ignore_errors=True)
        # a fresh cfg makes cargo run the driver again
        r = subprocess.run(["cargo", "+nightly", "rustc", "--offline", "--lib", "--profile", "check", "--target-dir", os.path.join(CACHE, "target")] + list(extra) + [
                            "--", "-A", "warnings", "--cfg", "n" + tag.replace("-", "") + h] + list(flags), cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(tmp):
            # may have been cached for the same cfg: force once more
            r = subprocess.run(["cargo", "+nightly", "rustc", "--offline", "--lib", "--profile", "check", "--target-dir", os.path.join(CACHE, "target")] + list(extra) + [
                                "--", "-A", "warnings", "--cfg", "n%sx%d" % (h, int(time.time()))] + list(flags), cwd=REPO, env=env, capture_output=True, text=True)
        if not os.path.exists(tmp):
            sys.stderr.write(r.stdout + r.stderr)
            raise SystemExit(3)
        os.rename(tmp, out)
        for old in glob.glob(os.path.join(CACHE, tag + "dump-*.json")):
            if old != out:
                os.unlink(old)
        return out, h


def known():
    r = {}
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            if line.startswith("finding:"):
                d = line[len("finding:"):].strip()
                parts = d.split(None, 2)
                prop = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                r[(prop, key)] = parts[2] if len(parts) > 2 else ""
    return r


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    path, h = dump()
    from prog import Program
    import ctx as ctxm
    import rules
    p = Program(path)
    c = ctxm.Ctx(p, prop, tier)
    c.repo = REPO
    c.verif = VERIF
    c.cache = CACHE
    c.dump = dump
    level = rules.load()[prop](c)
    if tier == "thorough" and prop not in ("C32", "C37"):
        # the same rule on the program without the default features
        second, _ = dump(("--no-default-features",), "plain-")
        c2 = ctxm.Ctx(Program(second), prop, tier)
        c2.repo, c2.verif, c2.cache, c2.dump = c.repo, c.verif, c.cache, c.dump
        rules.RULES[prop](c2)
        seen = set(v[0] for v in c.violations)
        c.violations += [v for v in c2.violations if v[0] not in seen]
        c.failed = list(c.failed) + list(c2.failed)
        c.states += c2.states
        c.exits += c2.exits
        c.units = c.units | c2.units
        for k, v in c2.counts.items():
            c.counts[k] = c.counts.get(k, 0) + v
        c.notes = list(c.notes) + ["the program without default features was analysed as well"]
    kf = known()
    new = []
    lines = []
    for key, where, msg, det in c.violations:
        k = key.replace(" ", "_")
        if (prop, k) in kf:
            lines.append("KNOWN-FINDING: property=%s %s %s" % (prop, k, kf[(prop, k)]))
        else:
            new.append((k, where, msg, det))
    rd = os.path.join(EVIDENCE, "replay")
    os.makedirs(rd, exist_ok=True)
    for old in glob.glob(os.path.join(rd, prop + "-*.txt")):
        os.unlink(old)
    for i, (k, where, msg, det) in enumerate(new):
        fn = os.path.join(rd, "%s-%d.txt" % (prop, i))
        with open(fn, "w") as f:
            f.write("property: %s\nkey: %s\nwhere: %s\n%s\n" % (prop, k, where, msg))
            for d in det:
                f.write("  %s\n" % d)
        lines.append("VIOLATION property=%s replay=%s" % (prop, fn))
        lines.append("  %s: %s [%s]" % (where, msg, k))
    obligations = c.counts.get("obligations", 0)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level or "other",
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "coverage": {
            "tree": h,
            "rules": c.rules,
            "functions_analysed": sorted(c.units),
            "functions": len(c.units),
            "abstract_states": c.states,
            "paths_out": c.exits,
            "obligations": obligations,
            "counts": c.counts,
            "notes": c.notes,
            "discharged": obligations - len(c.failed),
            "explanation": c.explanation or "fixpoint dataflow over the MIR of the current tree: every path through the listed functions was covered by the abstract states, and every obligation of the listed rules was decided on them",
            "samples": c.samples[:12],
        },
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for l in lines:
        print(l)
    print("%s: %d functions, %d abstract states, %d paths out, %d obligations, %d violations, %.1f s" % (
        prop, len(c.units), c.states, c.exits, obligations, len(new), time.time() - t0))
    sys.exit(1 if new else 0)


if __name__ == "__main__":
    main()
