"""Client programs that have to be rejected by the compiler, each with a twin that differs in the forbidden step and compiles.

All of them are checked (type and borrow checking only; nothing is run) against the current library in one go."""
import json
import os
import shutil
import subprocess

PRE = """#![allow(unused, bare_trait_objects, deprecated)]
extern crate rustful;
use rustful::*;
use rustful::server::*;
use rustful::filter::*;
use rustful::response::{Chunked, Raw, Data, FileError};
use rustful::header::Headers;
use rustful::context::Parameters;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicUsize, Ordering};
fn main() {}
"""

# name -> (property, what it shows, expected error codes, program with @@ for the differing part, forbidden part, twin's part)
W = {}


def w(name, prop, what, codes, text, bad, good):
    W[name] = (prop, what, codes, text, bad, good)


w("raw_in_safe_code", "C11", "a raw response is made in safe code", {"E0133"},
  "fn f(r: Response) { @@; }", "let x = r.into_raw(3)", "let x = unsafe { r.into_raw(3) }")
w("raw_from_parts", "C11", "a raw response is put together from its parts", {"E0451", "E0423", "E0603", "E0063", "E0560", "private"},
  "fn f(r: Raw) -> std::io::Result<()> { @@ }", "let x: Raw = Raw { writer: None, }; x.end()", "let x: Raw = r; x.end()")
w("raw_default", "C11", "a raw response is made by default", {"E0277", "E0599"},
  "fn d<T: Default>() -> T { T::default() } fn f() { @@; }", "let x: Raw<'static> = d()", "let x: u8 = d()")
w("raw_clone", "C11", "a raw response is cloned", {"E0277", "E0599"},
  "fn d<T: Clone>(x: &T) -> T { x.clone() } fn f(r: Raw) { @@; }", "let x = d::<Raw>(&r)", "let x = d::<&Raw>(&&r)")
w("raw_from_response", "C11", "a response is converted to a raw one", {"E0277"},
  "fn f<'a, 'b>(r: Response<'a, 'b>) { @@; }", "let x: Raw<'a> = r.into()", "let x: Response<'a, 'b> = r.into()")

H = "impl Handler for H { fn handle(&self, c: Context, r: Response) { } }"
w("handler_cell", "C34", "a handler with an unsynchronised cell", {"E0277"}, "struct H(@@);" + H, "Cell<u8>", "AtomicUsize")
w("handler_rc", "C34", "a handler with a reference counter that is not thread safe", {"E0277"}, "struct H(@@<u8>);" + H, "Rc", "Arc")
w("handler_borrowed", "C34", "a handler that borrows from its surroundings", {"E0310", "E0477", "E0478", "E0491", "E0597", "E0521", "E0726", "E0106"},
  "struct K<'a>(&'a u8); impl<'a: @@> Handler for K<'a> { fn handle(&self, c: Context, r: Response) { } }", "'a", "'static")
w("handler_closure_mut", "C34", "a handler that changes what it captured", {"E0525", "E0277", "E0594", "E0596"},
  "fn f() { let mut n = 0usize; let m = AtomicUsize::new(0); fn h<T: Handler>(t: T) {} h(move |c: Context, r: Response| { @@ }); }", "n += 1;", "m.fetch_add(1, Ordering::SeqCst);")
w("handler_closure_cell", "C34", "a handler that shares a cell", {"E0277"},
  "fn f() { let n = @@(0usize); fn h<T: Handler>(t: T) {} h(move |c: Context, r: Response| { &n; }); }", "Cell::new", "Mutex::new")
w("handler_boxed", "C34", "a boxed handler that is not thread safe", {"E0277"},
  "fn f() { let n = @@::new(1u8); let b: Box<Handler> = Box::new(move |c: Context, r: Response| { &n; }); }", "Rc", "Arc")
w("handler_self_mut", "C34", "a handler that changes itself", {"E0594", "E0596"},
  "struct Z { n: usize, m: AtomicUsize } impl Handler for Z { fn handle(&self, c: Context, r: Response) { @@; } }", "self.n += 1", "self.m.fetch_add(1, Ordering::SeqCst)")
w("router_cell", "C34", "a router that is not thread safe", {"E0277"},
  "use rustful::handler::{HandleRequest, Environment}; struct R(@@<u8>); impl HandleRequest for R { fn handle_request<'a, 'b, 'l, 'g>(&self, e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> { Err(e) } fn hyperlinks<'a>(&'a self, b: rustful::context::hypermedia::Link<'a>) -> Vec<rustful::context::hypermedia::Link<'a>> { vec![] } }", "Cell", "Mutex")
w("content_cell", "C34", "a content factory that is not thread safe", {"E0277"},
  "struct F(@@<u8>); impl CreateContent for F { type Output = String; fn create_content(&self, c: Context) -> String { String::new() } }", "Cell", "Mutex")
CF = "impl ContextFilter for F { fn modify(&self, c: FilterContext, r: &mut Context) -> ContextAction { ContextAction::next() } }"
RF = "impl ResponseFilter for F { fn begin(&self, c: FilterContext, s: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction) { loop {} } fn write<'a>(&'a self, c: FilterContext, d: Option<Data<'a>>) -> ResponseAction { loop {} } fn end(&self, c: FilterContext) -> ResponseAction { loop {} } }"
for n, t in (("context", CF), ("response", RF)):
    w(n + "_filter_cell", "C34", "a %s filter with an unsynchronised cell" % n, {"E0277"}, "struct F(@@<u8>);" + t, "RefCell", "Mutex")
    w(n + "_filter_rc", "C34", "a %s filter that is not thread safe" % n, {"E0277"}, "struct F(@@<u8>);" + t, "Rc", "Arc")
w("global_rc", "C34", "global data that is not thread safe", {"E0277"}, "fn f() { let g: Global = Box::new(@@::new(1u8)).into(); }", "Rc", "Arc")
w("global_cell", "C34", "global data in a cell", {"E0277"}, "fn f() { let g: Global = (@@::new(1u8),).into(); }", "Cell", "Mutex")
w("global_tuple", "C34", "one of several global values is not thread safe", {"E0277"}, "fn f() { let g: Global = (1u8, @@::new(1u16)).into(); }", "Cell", "Mutex")
w("global_insert", "C34", "global data that is inserted later is not thread safe", {"E0277"}, "fn f(mut g: Global) { g.insert(@@::new(1u8)); }", "Rc", "Arc")
w("global_borrowed", "C34", "global data that borrows", {"E0597", "E0521", "E0310", "E0477", "E0716"}, "fn f(mut g: Global) { let x = 5u8; g.insert::<&'static u8>(&@@); }", "x", "5")
w("global_change", "C34", "global data is changed during a request", {"E0594", "E0596"},
  "fn h(c: Context, r: Response) { @@; }", "*c.global.get::<u8>().unwrap() = 3", "let x = *c.global.get::<u8>().unwrap() + 3")
w("global_insert_request", "C34", "global data is added during a request", {"E0596"},
  "fn h(c: Context, r: Response) { @@; }", "c.global.insert(3u8)", "c.global.get::<u8>()")
w("global_filter", "C34", "global data is changed by a filter", {"E0596", "E0594"},
  "fn h(c: FilterContext) { @@; }", "c.global.insert(3u8)", "c.storage.insert(3u8)")
w("send_twice", "C34", "a response is sent twice", {"E0382"},
  "fn h(c: Context, r: Response) { r.send(\"a\"); @@; }", "r.send(\"b\")", "let x = c.http_version")
w("change_after_send", "C34", "a response is changed after it was sent", {"E0382"},
  "fn h(c: Context, mut r: Response) { @@ }", "r.send(\"a\"); r.set_status(StatusCode::Ok);", "r.set_status(StatusCode::Ok); r.send(\"a\");")
w("chunked_and_plain", "C34", "a response is used after it became a chunked one", {"E0382"},
  "fn h(c: Context, r: Response) { let mut x = r.into_chunked(); @@; }", "r.send(\"b\")", "x.send(\"b\")")
w("chunked_after_end", "C34", "a chunked response is used after its end", {"E0382"},
  "fn h(c: Context, r: Response) { let mut x = r.into_chunked(); @@ }", "x.end(); x.send(\"b\");", "x.send(\"b\"); x.end();")
w("raw_after_end", "C34", "a raw response is used after its end", {"E0382"},
  "fn h(c: Context, r: Response) { let mut x = unsafe { r.into_raw(1) }; @@ }", "x.end(); x.send(&b\"b\"[..]);", "x.send(&b\"b\"[..]); x.end();")
w("response_clone", "C34", "a response is duplicated", {"E0277", "E0599"},
  "fn d<T: Clone>(x: &T) -> T { x.clone() } fn f(r: Response) { @@; }", "let x = d::<Response>(&r)", "let x = d::<StatusCode>(&r.status())")
w("keep_response", "C34", "a response is kept beyond its handler", {"lifetime", "E0521", "E0277", "E0597", "E0310", "E0373"},
  "fn h(c: Context, r: Response) { @@ }", "std::thread::spawn(move || { r.send(\"a\"); });", "let s = r.status(); std::thread::spawn(move || { s }); ")
w("keep_body", "C34", "a request body is kept beyond its handler", {"lifetime", "E0521", "E0277", "E0597", "E0310", "E0373"},
  "fn h(c: Context, r: Response) { @@ }", "let b = c.body; let x: Box<std::any::Any> = Box::new(b);", "let b = c.method; let x: Box<std::any::Any> = Box::new(b);")
w("keep_context", "C34", "a request is kept in the handler", {"E0521", "E0277", "E0597", "E0310", "E0759", "E0308", "E0621", "lifetime"},
  "struct Q(Mutex<Vec<@@>>); impl Handler for Q { fn handle(&self, c: Context, r: Response) { self.0.lock().unwrap().push(#); } }", ("Box<Fn() -> usize + Send>", "Box::new(move || c.variables.get(\"x\").unwrap().len() + c.hyperlinks.len())"), ("Parameters", "c.variables"))
w("keep_storage", "C34", "filter storage is kept beyond the call of the filter", {"E0521", "E0310", "E0597", "E0759", "lifetime"},
  "struct F(Mutex<Option<@@>>); impl ContextFilter for F { fn modify(&self, c: FilterContext, r: &mut Context) -> ContextAction { *self.0.lock().unwrap() = Some(#); ContextAction::next() } }", ("&'static Global", "c.global"), ("usize", "c.storage.len()"))
w("two_storages", "C34", "filter storage is used by two at a time", {"E0499", "E0382"},
  "fn f(c: FilterContext) { @@ }", "let a = c.storage; let b = c.storage; a.insert(1u8); b.insert(2u8);", "let a = c.storage; a.insert(1u8); a.insert(2u8);")


def part(text, x):
    if isinstance(x, tuple):
        a, b = text.split("@@")
        c, d = b.split("#")
        return a + x[0] + c + x[1] + d
    assert "@@" in text
    return text.replace("@@", x)


def witnesses(c, prop):
    names = [n for n in W if W[n][0] == prop]
    d = os.path.join(c.cache, "witness-" + prop)
    ex = os.path.join(d, "examples")
    shutil.rmtree(ex, ignore_errors=True)
    os.makedirs(ex)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    open(os.path.join(d, "src", "lib.rs"), "w").close()
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2018"\n\n[workspace]\n\n[dependencies]\nrustful = { path = "%s" }\n' % c.repo)
    lock = os.path.join(c.repo, "Cargo.lock")
    if not os.path.exists(lock):
        lock = os.path.join(c.verif, "sa", "witness.lock")
    shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    for n in names:
        _, _, _, text, bad, good = W[n]
        for kind, x in (("bad", bad), ("good", good)):
            with open(os.path.join(ex, "%s_%s.rs" % (kind, n)), "w") as f:
                f.write(PRE + part(text, x) + "\n")
    env = dict(os.environ)
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--examples", "--keep-going", "--message-format=json", "--target-dir", os.path.join(c.cache, "wtarget")],
                       cwd=d, env=env, capture_output=True, text=True)
    errs, done = {}, set()
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            done.add(m["target"]["name"])
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            code = m["message"].get("code")
            t = m["message"]["message"]
            if t.startswith("aborting due to"):
                continue
            errs.setdefault(m["target"]["name"], []).append((code["code"] if code else "lifetime" if "lifetime" in t or "borrowed data escapes" in t else "private" if "private" in t else "other", m["message"].get("rendered") or t))
    if "rustful" not in done:
        c.violation("library", "-", "the library does not compile for its clients", [r.stderr[-2000:]])
        return
    for n in names:
        _, what, codes, text, bad, good = W[n]
        b, g = errs.get("bad_" + n, []), errs.get("good_" + n, [])
        c.count("compile-fail witnesses")
        c.require("bad_" + n not in done and b, "compiles:" + n, "client program", "this program compiles although it must not: %s" % what, [part(text, bad)])
        c.require(all(x in codes for x, t in b), "reason:" + n, "client program", "this program is rejected for another reason than the one it stands for (%s): %s" % (what, sorted({x for x, t in b} - codes)), [part(text, bad)] + [t for x, t in b])
        c.require("good_" + n in done and not g, "twin:" + n, "client program", "the permitted twin of this program no longer compiles (%s)" % what, [part(text, good)] + [t for x, t in g])
