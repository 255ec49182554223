"""The content_type! macro (C43): what it expands to, for each form it accepts."""
import fcntl
import hashlib
import os
import shutil
import subprocess
from terms import *
from prog import Program
from ctx import short, facts_text
from rules import prop
from rules.common import *

# (main, sub, [(name, value)]) as written; a leading quote marks a string
FORMS = [
    ("Text", "Html", []),
    ("Star", "Star", []),
    ("Application", '"octet-stream"', []),
    ('"text"', "Plain", []),
    ('"x-main"', '"x.sub+xml"', []),
    ('"text"', '"html"', []),
    ("Text", "Html", [("Charset", "Utf8")]),
    ("Image", "Png", [('"q"', '"0.5"')]),
    ("Application", '"octet-stream"', [('"type"', '"image/gif"'), ('"padding"', '"4"')]),
    ("Multipart", "FormData", [("Boundary", '"a b"')]),
    ('"x"', "Json", [('"a"', "Utf8"), ("Charset", '"b"'), ('"a"', '"C"')]),
    ("Text", '"Plain"', [("Q", '"1"'), ("Charset", "Utf8"), ('"x"', '"y"'), ('"x"', '"y"')]),
]
ENUMS = ("TopLevel", "SubLevel", "Attr", "Value")


def form(f):
    return "%s / %s" % (f[0], f[1]) + ("; " + "; ".join("%s = %s" % x for x in f[2]) if f[2] else "")


def program(c):
    """the resolved program of a copy of the current tree with the forms added to it, or the compiler's complaints"""
    text = "\n#[allow(missing_docs)]\npub mod rfl_forms {\n" + "".join("    pub fn form_%d() -> ::mime::Mime { content_type!(%s) }\n" % (i, form(f)) for i, f in enumerate(FORMS)) + "}\n"
    d = os.path.join(c.cache, "forms")
    with open(os.path.join(c.cache, "forms-lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = hashlib.sha256((text + os.path.basename(c.dump()[0])).encode()).hexdigest()[:24]
        out = os.path.join(c.cache, "forms-%s.json" % h)
        if os.path.exists(out):
            return out, ""
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for n in ("src", "build", "examples"):
            if os.path.isdir(os.path.join(c.repo, n)):
                shutil.copytree(os.path.join(c.repo, n), os.path.join(d, n))
        for n in sorted(os.listdir(c.repo)):
            if os.path.isfile(os.path.join(c.repo, n)):
                shutil.copy(os.path.join(c.repo, n), os.path.join(d, n))
        if not os.path.exists(os.path.join(d, "Cargo.lock")):
            shutil.copy(os.path.join(c.verif, "sa", "witness.lock"), os.path.join(d, "Cargo.lock"))
        with open(os.path.join(d, "src", "lib.rs"), "a") as f:
            f.write(text)
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip() + "/lib"
        env["RUSTC_WORKSPACE_WRAPPER"] = os.path.join(c.cache, "driver", "debug", "rfl-driver")
        env["RFL_OUT"] = out + ".tmp"
        env.pop("RUSTFLAGS", None)
        r = subprocess.run(["cargo", "+nightly", "rustc", "--offline", "--lib", "--profile", "check", "--target-dir", os.path.join(c.cache, "target"),
                            "--", "-A", "warnings", "--cfg", "forms" + h], cwd=d, env=env, capture_output=True, text=True)
        shutil.rmtree(d, ignore_errors=True)
        if not os.path.exists(out + ".tmp"):
            return None, r.stderr
        os.rename(out + ".tmp", out)
        for n in os.listdir(c.cache):
            if n.startswith("forms-") and n.endswith(".json") and n != os.path.basename(out):
                os.unlink(os.path.join(c.cache, n))
        return out, ""


@prop("C43")
def c43(c):
    c.rule("each form of the macro expands to a media type of exactly the written main type, sub type and parameters, in the written order")
    c.rule("a name is the known type of this name; a string is what the media type library makes of exactly this string")
    out, errors = program(c)
    if out is None:
        first = next((l for l in errors.splitlines() if l.startswith("error")), "no output")
        c.violation("expands", "src/macros.rs", "the forms of the macro do not compile: " + first[:200], errors.splitlines()[:40])
        return
    old = c.p
    c.swap(Program(out))
    p = c.p
    fs = {f["name"]: f for f in p.fns if f["name"].startswith("form_") and f["body"] is not None and "rfl_forms" in f["path"]}
    for i, want in enumerate(FORMS):
        c.count("forms")
        f = fs.get("form_%d" % i)
        text = "content_type!(%s)" % form(want)
        if not c.require(f is not None, "form:%d" % i, "src/macros.rs", "%s is not found in the program" % text):
            continue

        def rel(eng, st, call, res):
            if res is not None and call.name.split("::")[-1] in ("from_str", "parse"):
                return ("parsed", res, eng.deepval(st, call.args[0]))
            return None
        eng = c.engine(rel=rel, opaque=lambda cc: cc["short"].split("::")[-1] in ("from_str", "parse") and not cc["short"].endswith("MimeHelper::from_str"))
        where = "src/macros.rs " + text
        good = False
        for e in c.run(eng, f) or ():
            if e.kind != "return":
                continue
            good = True
            det = trace_text(e.trace) + facts_text(e.facts)
            ret = eng.deepval(e.st, e.ret)

            def same(v, word, enum, what):
                c.count("parts")
                if word.startswith('"'):
                    base = v
                    while base.op == "fld":
                        base = base.args[0]
                    ok_ = v is not base and (base.op == "app" and base.args[0].split("::")[-1] in ("parse", "from_str") and [string_of(x) for x in base.args[1]] == [word[1:-1]]
                                             or [string_of(x[2]) for x in e.trace if x[0] == "parsed" and x[1] is base] == [word[1:-1]])
                else:
                    ok_ = v.op == "agg" and enum in v.args[0] and variant_name(p, v) == word
                c.require(ok_, "part:%d:%s" % (i, what), where, "the %s is not %s but %s" % (what, word, short(v)), det)
            same(eng.sel(ret, ("f", 0, 0)), want[0], "TopLevel", "main type")
            same(eng.sel(ret, ("f", 0, 1)), want[1], "SubLevel", "sub type")
            xs = elements(eng.sel(ret, ("f", 0, 2)))
            if not c.require(xs is not None and len(xs) == len(want[2]), "number:%d" % i, where, "there are %s parameters" % ("unknown" if xs is None else len(xs)), det):
                continue
            for k, (x, (n, v)) in enumerate(zip(xs, want[2])):
                same(eng.sel(x, ("f", 0, 0)), n, "Attr", "name of parameter %d" % k)
                same(eng.sel(x, ("f", 0, 1)), v, "Value", "value of parameter %d" % k)
        c.require(good, "returns:%d" % i, where, "%s does not give a media type" % text)
    c.swap(old)
    c.floor("forms", len(FORMS))
    c.floor("parts", 48)


def string_of(v):
    while v.op in ("&", "vref", "deref"):
        v = v.args[0]
    return v.args[0] if v.op == "str" else None


def variant_name(p, v):
    for t in p.types:
        if t and t["k"] == "adt" and strip(t["path"]) == strip(v.args[0]) and t.get("vs"):
            return t["vs"][v.args[1]]["n"]
    return None


def strip(s):
    return s.split("<")[0]


def elements(v):
    xs = []
    while v.op == "vpush":
        xs.append(v.args[1])
        v = v.args[0]
    if v.op == "vnew":
        return xs[::-1]
    return None
