"""Structural rules over the resolved program: what engine/extract/items.rs dumps about the crate, and programs
which the compiler has to reject."""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys

import driver
from driver import HERE, WORK, HARNESS, BuildFailed, sysroot

WITNESS = os.path.join(HERE, "witness")
VALUES = {"value::Value", "value::array::Array", "value::dict::Dict"}
_cache = {}


def build_items():
    os.makedirs(WORK, exist_ok=True)
    src = os.path.join(HERE, "engine", "extract", "items.rs")
    out = os.path.join(WORK, "items-" + hashlib.sha256(open(src, "rb").read()).hexdigest()[:16])
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp],
                           capture_output=True, text=True, cwd=WORK)
        if r.returncode:
            sys.stderr.write(r.stderr)
            raise SystemExit("the extractor of items does not build")
        os.rename(tmp, out)
    return out


def broken(report, e):
    report["violations"].append({
        "key": "build", "kind": "build", "function": "crate", "msg": "the crate does not build",
        "stack": str(e).splitlines()[-60:], "state": []})


def items(pid):
    """The dump of the crate as it is now, and the folder of the compiled crates"""
    if pid in _cache:
        return _cache[pid]
    ex = build_items()
    out = os.path.join(WORK, "items-%s.json" % pid)
    tgt = os.path.join(WORK, "target-items-" + pid)
    shutil.rmtree(tgt, ignore_errors=True)
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ)
    env.update({
        "RUSTC_WRAPPER": ex, "VP_OUT": out, "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"),
        "RUSTFLAGS": "-Zmir-opt-level=0 --cap-lints=allow", "CARGO_TARGET_DIR": tgt, "CARGO_INCREMENTAL": "0"})
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--locked", "--lib"], cwd=HARNESS, env=env,
                       capture_output=True, text=True)
    if not os.path.exists(out):
        shutil.rmtree(tgt, ignore_errors=True)
        raise BuildFailed(r.stdout + r.stderr)
    d = json.load(open(out))
    os.unlink(out)
    _cache[pid] = (d, tgt)
    return _cache[pid]


def drop(pid):
    if pid in _cache:
        shutil.rmtree(_cache.pop(pid)[1], ignore_errors=True)


def rule(report, name, what, obligations, bad, floor):
    """Notes what a rule examined. `bad`: (key, function, message) of each instance which breaks it"""
    if obligations < floor:
        bad = bad + [("nothing to examine", "crate", "only %d instances of what the rule is about were found, and "
                                                     "there were at least %d: the code which it is about is not there "
                                                     "any more" % (obligations, floor))]
    report["rules"].append({"rule": name, "what": what, "obligations": obligations,
                            "discharged": obligations - len({k for k, _, _ in bad})})
    for k, f, m in bad:
        report["violations"].append({"key": name + "|" + k, "kind": name, "function": f, "msg": m, "stack": [],
                                     "state": []})


def structural(*checks):
    def run(pid, tier, report):
        try:
            d, tgt = items(pid)
        except BuildFailed as e:
            broken(report, e)
            return
        try:
            for c in checks:
                c(d, tgt, report)
        except BuildFailed as e:
            broken(report, e)
        finally:
            drop(pid)
    return run


# ---- C21
SHARED = ["value::Value", "value::array::Array", "value::dict::Dict", "alloced::Alloced", "scope::Scope",
          "shared_keys::SharedKeys", "value::array::Iter", "mutable::array::MutableArray", "mutable::dict::MutableDict",
          "encoder::Encoder", "value::sized::SizedValue"]


def asserted(d, tgt, report):
    bad = []
    n = 0
    for m in d["manual"]:
        for p in m["lacking"]:
            n += 1
            if not (p["pointer"] and p["shareable"]):
                bad.append(("%s for %s because of %s" % (m["trait"], m["type"], p["part"]), m["type"],
                            "%s is asserted to be %s although it contains a %s, which is not, and is not a pointer to "
                            "data that nobody changes either" % (m["type"], m["trait"], p["part"])))
    rule(report, "asserted to be shareable",
         "every part of a type with an `unsafe impl Send` or `Sync` has the trait itself or is a pointer to something "
         "immutable and Sync", n + len(d["manual"]), bad, 1)


def statics(d, tgt, report):
    bad = []
    for s in d["statics"]:
        if s["mut"]:
            bad.append((s["path"], s["path"], "a static that can be changed without synchronisation"))
        elif not s["sync"]:
            bad.append((s["path"], s["path"], "a static of a type that cannot be shared"))
    rule(report, "statics are synchronised", "no static is `mut`, and the type of each is Sync", len(d["statics"]), bad, 1)


def shareable(d, tgt, report):
    by = {a["path"]: a for a in d["adts"]}
    bad = []
    for x in SHARED:
        a = by.get(x)
        if a is None:
            continue
        for t in ("send", "sync"):
            if not a[t]:
                bad.append((x + "|" + t, x, "%s is not %s any more" % (x, t.capitalize())))
    rule(report, "documents can be shared", "the types of documents, owners and shared keys are Send and Sync",
         2 * sum(x in by for x in SHARED), bad, 14)


# ---- C19
LOSES = {"unwrap", "expect", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "is_ok", "is_err", "is_some", "is_none",
         "err", "map_or", "map_or_else", "drop", "unwrap_unchecked", "or", "or_else", "forget", "unwrap_err",
         "expect_err", "is_some_and", "is_ok_and", "is_none_or", "iter", "into_iter"}
# Why it is right that the failure goes no further, by the owner of the function and what failed
KNOWN_GOOD = [
    ("encoder::Encoder", "encoder::Encoder::end_array", "finishing closes what is open: it cannot fail, C05 and C06"),
    ("encoder::Encoder", "encoder::Encoder::end_dict", "finishing closes what is open; a key without value has none to lose"),
    ("encoder::Encoder", "encoder::value_stack::Dict::push_value", "tested before that there is a key, C06"),
    ("encoder::Encoder", "value::Value::clone_from_bytes", "what the encoder wrote is valid, C05 and C06"),
    ("encoder::Encodable", "core::convert::TryFrom::try_from", "the slice has the length of the array"),
    ("mutable::ValueSlot", "encoder::Encodable::write_fleece_to", "a Vec takes every write"),
    ("scope::Scope", "crossbeam_utils::sync::ShardedLock::<T>::read", "a lock is poisoned only if a holder panicked"),
    ("scope::Scope", "crossbeam_utils::sync::ShardedLock::<T>::write", "a lock is poisoned only if a holder panicked"),
    ("shared_keys::SharedKeys", "shared_keys::SharedKeys::write_state", "writing the state to memory cannot fail, C15"),
    ("value::Value", "core::str::from_utf8", "text which is not UTF-8 reads as empty, as documented"),
]
OWN = ("encoder::", "value::", "shared_keys::", "scope::", "mutable::", "ser::", "de::", "alloced::", "error::")
# What a function gives to tell only whether it worked
TELLS = re.compile(r"core::option::Option<(\(\)|core::num::NonZero<usize>)>$")


def loses(r, outputs):
    """Is the failure which this call reports not passed on?"""
    if r["returned"] or r["kept"] or r["payload"] or r["reported"]:
        return False
    sinks = {s.split("#")[0].rsplit("::", 1)[-1] for s in r["sinks"]}
    if sinks - LOSES:
        return False
    if r["error"] == "None":
        if not r["from"].startswith(OWN):
            return False
        if TELLS.match(outputs.get(r["from"], "")):
            return True
        return not sinks and not r["discriminant"]
    return True


def swallowed(d, tgt, report):
    outputs = {f["path"]: f["output"] for f in d["fns"]}
    bad = []
    n = 0
    for r in d["results"]:
        n += 1
        if not loses(r, outputs):
            continue
        module = re.match(r"[<&'a-z ]*?((?:%s))" % "|".join(x[:-2] + "::" for x in OWN), r["fn"])
        module = module.group(1) if module else r["fn"]
        if any(owner.split("::")[0] + "::" == module and r["from"] == what for owner, what, _ in KNOWN_GOOD):
            continue
        how = ", ".join(sorted({s.split("#")[0].rsplit("::", 1)[-1] for s in r["sinks"]})) or (
            "tested, and the failure is ignored" if r["discriminant"] else "not used at all")
        bad.append(("%s|%s" % (module.rstrip(":"), r["from"]), r["fn"],
                    "the failure of %s (%s) goes no further than %s, at %s: %s" % (
                        r["from"], r["error"], r["fn"], re.sub(r" \(#\d+\)$", "", r["span"]), how)))
    rule(report, "no failure is swallowed",
         "the Result of every call, and every Option which tells only whether a call worked, is returned, kept, or makes "
         "the function fail", n, bad, 300)


# ---- C18
BYTES = {"[u8]", "*u8", "*[u8]", "bytes::Bytes", "alloc::vec::Vec", "alloc::boxed::Box", "alloc::sync::Arc"}
# Decided by the abstract interpreter: they accept exactly what Value::from_bytes accepts
COVERED = {"value::Value::from_bytes", "value::array::Array::from_bytes", "value::dict::Dict::from_bytes",
           "value::Value::clone_from_bytes", "value::array::Array::clone_from_bytes",
           "value::dict::Dict::clone_from_bytes", "scope::Scope::new", "scope::Scope::containing",
           "scope::Scope::find_shared_keys", "de::from_bytes", "shared_keys::SharedKeys::from_state_bytes"}


def contains(d):
    """The types which are, own or borrow values"""
    V = set(VALUES) | {"alloced::Alloced", "scope::Scope", "value::pointer::Pointer"}
    while True:
        more = {a["path"] for a in d["adts"] if a["path"] not in V and any(set(f["mentions"]) & V for f in a["fields"])}
        if not more:
            return V
        V |= more


def reads_bytes(f):
    m = set(f["in"]) | set(f["bounds"])
    return any(x in ("[u8]", "str") or x.startswith("*") for x in m) and ("[u8]" in m or any(x.startswith("*") for x in m))


def valueish(t, V):
    return any(re.search(r"(?<![\w:])%s(?![\w:])" % re.escape(v), t) for v in V)


def sources(d, tgt, report):
    V = contains(d)
    fns = {f["path"]: f for f in d["fns"]}
    bodies = {}
    for b in d["bodies"]:
        o = bodies.setdefault(b["fn"], {"calls": set(), "makes": set()})
        o["calls"] |= {(c[0], c[1]) for c in b["calls"]}
        o["makes"] |= {tuple(m) for m in b["makes"]}
    # A call through a trait may be of any of the crate's implementations
    impls = {}
    for f in d["fns"]:
        if f["trait"]:
            impls.setdefault(f["trait"] + "::" + f["path"].rsplit("::", 1)[-1], set()).add(f["path"])
    bad = []
    n = 0
    for f in d["fns"]:
        if not f["pub"] or f["unsafe"] or f["path"] in COVERED or f["trait"].startswith(("serde::", "core::fmt::")):
            continue
        if not (set(f["out"]) & V) or not reads_bytes(f):
            continue
        n += 1
        seen = set()
        work = [(f["path"], ())]
        while work:
            x, how = work.pop()
            if x in seen or (x in COVERED):
                continue
            seen.add(x)
            b = bodies.get(x)
            if b is None:
                continue
            for frm, to in sorted(b["makes"]):
                if valueish(to, VALUES) and not valueish(frm, VALUES):
                    bad.append((f["path"] + "|" + x, f["path"],
                                "%s, which is safe to call, makes a value of bytes that were not validated: %s is made "
                                "of %s in %s%s" % (f["path"], to, frm, x, ", called by " + ", ".join(how) if how else "")))
            for c, unsafe in sorted(b["calls"]):
                for y in impls.get(c, ()) if c not in bodies else (c,):
                    work.append((y, (x,) + how))
    rule(report, "values come from validated bytes",
         "no function that safe code can call makes a value of bytes or a pointer which it was given, except those of "
         "which the abstract interpreter decides that they validate them", n + len(COVERED & set(fns)), bad, 9)


def representation(d, tgt, report):
    bad = []
    n = 0
    for a in d["adts"]:
        if a["path"] in VALUES:
            n += 1
            if a["sized"]:
                bad.append((a["path"] + "|sized", a["path"], "%s has a size, so it can be moved away from its bytes" % a["path"]))
        if a["path"] in VALUES | {"alloced::Alloced", "scope::Scope", "value::sized::SizedValue", "value::array::Iter",
                                  "value::dict::Iter", "shared_keys::SharedKeys", "encoder::Encoder"}:
            for f in a["fields"]:
                n += 1
                if f["pub"] and a["pub"]:
                    bad.append((a["path"] + "." + f["name"], a["path"],
                                "%s.%s is public: safe code can set it" % (a["path"], f["name"])))
    for f in d["fns"]:
        if f["pub"] and not f["unsafe"]:
            n += 1
            for x in f["out"]:
                if x in {"&mut " + v for v in VALUES} or (x == "&mut [u8]" and set(f["in"]) & contains(d)):
                    bad.append((f["path"] + "|" + x, f["path"], "%s gives %s, through which a value can be changed" % (f["path"], x)))
    rule(report, "values cannot be made or changed",
         "values have no size, the fields of values and owners are private, and nothing gives a mutable reference to a "
         "value or to its bytes", n, bad, 100)


def closed(d, tgt, report):
    T = {t["path"]: t for t in d["traits"]}
    bad = []
    n = 0

    def opened(t, seen=()):
        # A trait of another crate can be implemented by everybody
        if t not in T or t in seen:
            return True
        t = T[t]
        return t["named"] and not t["unsafe"] and all(opened(x, seen + (t["path"],)) for x in t["supers"])
    for f in d["fns"]:
        if f["pub"] and not f["unsafe"] and not f["trait"] and f["path"] not in T:
            for t in f["through"]:
                if f["path"].startswith(t + "::"):
                    continue
                n += 1
                if opened(t):
                    bad.append((f["path"] + "|" + t, f["path"],
                                "%s takes everything that implements %s, and safe code outside of the crate can "
                                "implement it and all of its supertraits: any bytes become a value" % (f["path"], t)))
    rule(report, "only types of the format are stored",
         "every trait of the crate that a public function requires of what it stores is unsafe to implement, cannot be "
         "named outside of the crate, or requires a trait of which this is so", n, bad, 3)


# ---- C12
def lifetimes(d, tgt, report):
    V = contains(d)
    bad = []
    n = 0
    for f in d["fns"]:
        if not f["pub"] or f["unsafe"] or f["trait"] or not f["regions_out"]:
            continue
        n += 1
        for r in f["regions_out"]:
            if r in f["regions_in"] and r != "'static":
                continue
            if r == "'static" and not (set(f["in"]) & V or "[u8]" in f["in"] or "str" in f["in"]):
                continue
            bad.append((f["path"], f["path"],
                        "what %s gives (%s) is not bound to the lifetime of anything that it is given" % (f["path"], f["output"])))
    rule(report, "references are bound to what they borrow from",
         "every lifetime in what a public function returns is one of those in its arguments; 'static only where there "
         "are none", n, bad, 20)


# ---- Programs that must not compile
def compile_witness(path, bad, tgt, out):
    """Compiles the program with or without the lines which make it wrong; the codes of the errors"""
    src = []
    for line in open(path):
        m = re.search(r"//~ (bad|good)\s*$", line)
        if m and (m.group(1) == "bad") != bad:
            continue
        src.append(line)
    name = os.path.basename(path)[:-3] + ("_bad" if bad else "_good")
    f = os.path.join(out, name + ".rs")
    open(f, "w").write("#![allow(unused, dead_code)]\n" + "".join(src))
    lib = sorted(glob.glob(os.path.join(tgt, "**", "libfleece-*.rmeta"), recursive=True))
    serde = sorted(glob.glob(os.path.join(tgt, "**", "libserde-*.rmeta"), recursive=True))
    if not lib:
        raise BuildFailed("the crate was not compiled")
    cmd = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--error-format=json",
           "--crate-name", "witness", "--out-dir", os.path.join(out, name), "--extern", "fleece=" + lib[0]]
    for x in sorted({os.path.dirname(x) for e in ("rmeta", "so")
                     for x in glob.glob(os.path.join(tgt, "**", "*." + e), recursive=True)}):
        cmd += ["-L", "dependency=" + x]
    if serde:
        cmd += ["--extern", "serde=" + serde[0]]
    os.makedirs(os.path.join(out, name), exist_ok=True)
    r = subprocess.run(cmd + [f], capture_output=True, text=True)
    errs = []
    for line in r.stderr.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level") == "error" and m.get("message", "").startswith("aborting") is False:
            code = (m.get("code") or {}).get("code", "")
            if not code and "lifetime may not live long enough" in m["message"]:
                code = "lifetime"
            if not code and "due to private fields" in m["message"]:
                code = "E0451"
            errs.append((code, m["message"]))
    return r.returncode, errs, r.stderr


def witnesses(folder, floor):
    def run(d, tgt, report):
        files = sorted(glob.glob(os.path.join(WITNESS, folder, "*.rs")))
        out = os.path.join(tgt, "witness")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        bad = []

        def one(p):
            want = set(re.search(r"//~ error:? (.*)", open(p).read()).group(1).split())
            return p, want, compile_witness(p, False, tgt, out), compile_witness(p, True, tgt, out)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for p, want, good, wrong in ex.map(one, files):
                n = os.path.basename(p)[:-3]
                what = open(p).readline().strip("/ \n")
                if good[0]:
                    bad.append((n + "|twin", "witness " + n, "the correct twin of the program '%s' does not compile: %s" % (
                        what, "; ".join(m for _, m in good[1][:2]))))
                elif not wrong[0]:
                    bad.append((n, "witness " + n, "the compiler accepts a program which it has to reject: " + what))
                elif not {c for c, _ in wrong[1]} & want:
                    bad.append((n + "|code", "witness " + n, "the program '%s' is rejected for another reason (%s)" % (
                        what, "; ".join("%s %s" % e for e in wrong[1][:2]))))
        rule(report, "programs that must not compile",
             "each program that breaks the property is rejected with the expected error, and its twin without the wrong "
             "lines compiles", 2 * len(files), bad, 2 * floor)
    return run
