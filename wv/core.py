"""Shared machinery of the checks: build the MIR driver, analyse witness crates against /repo's
current tree, report violations / known findings, and write evidence."""
import fcntl
import hashlib
import itertools
import json
import os
import re
import shlex
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("WV_EVIDENCE", os.path.join(VERIF, "evidence"))
REPO = os.environ.get("WV_REPO", "/repo")
CACHE = os.environ.get("WV_CACHE", os.path.join(VERIF, ".cache"))
DRIVER_SRC = os.path.join(VERIF, "driver")
TOOLCHAIN = "nightly"


class CheckError(Exception):
    """The machinery itself failed."""


def env_base():
    e = dict(os.environ)
    for p in ("/usr/local/cargo/bin", "/root/.cargo/bin"):
        if p not in e.get("PATH", ""):
            e["PATH"] = p + ":" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        r = run(["rustc", "--print", "sysroot"], env=env_base())
        if r.returncode:
            raise CheckError("rustc +nightly --print sysroot failed: " + r.stderr)
        _sysroot = r.stdout.strip()
    return _sysroot


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.path = os.path.join(CACHE, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def tree_hash(root, exts=None):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
        for f in sorted(fs):
            if exts and not f.endswith(exts):
                continue
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            try:
                with open(p, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
            h.update(b"\0")
    return h.hexdigest()


def build_driver():
    """Build the rustc_private driver once per driver source."""
    with Lock("driver"):
        h = tree_hash(DRIVER_SRC, (".rs", ".toml"))
        out = os.path.join(CACHE, "driver")
        binp = os.path.join(out, "release", "wflow")
        stamp = os.path.join(out, "stamp")
        if os.path.exists(binp) and os.path.exists(stamp) and open(stamp).read() == h:
            return binp
        e = env_base()
        e["CARGO_TARGET_DIR"] = out
        r = run(["cargo", "build", "--release", "--offline"], cwd=DRIVER_SRC, env=e)
        if r.returncode:
            raise CheckError("driver build failed:\n" + r.stderr[-4000:])
        with open(stamp, "w") as f:
            f.write(h)
        return binp


class Analysis:
    def __init__(self):
        self.records = []
        self.errors = []  # [{code, message, line, file, rendered}]
        self.flows = {}
        self.consts = {}
        self.types = {}
        self.summary = {}
        self.wall = 0.0

    def by_kind(self, k):
        return [r for r in self.records if r["kind"] == k]


def _clean_repo_packages(tdir, e):
    """cargo decides freshness by mtime; decide it by content instead."""
    h = tree_hash(REPO)
    stamp = os.path.join(tdir, "repo.stamp")
    if os.path.exists(stamp) and open(stamp).read() == h:
        return None
    if os.path.isdir(tdir):
        for root, ds, fs in os.walk(tdir):
            for d in list(ds):
                if d.startswith(("whippyunits", "wit_", "libwhippyunits")):
                    run(["rm", "-rf", os.path.join(root, d)])
                    ds.remove(d)
            for f in fs:
                if "whippyunits" in f or f.startswith(("wit_", "libwit_", "prep-")):
                    os.unlink(os.path.join(root, f))
    return (stamp, h)


CGE_ATTR = "#![feature(generic_const_exprs)]\n#![allow(incomplete_features)]\n"
PREP = "wit_prep"
_serial = itertools.count()
_prepared = {}


def driver_env(drv):
    e = env_base()
    e.update(RUSTC_WRAPPER=drv, WFLOW_CRATE=PREP, WFLOW_OUT="/dev/null", WFLOW_OPAQUE="", LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"),
             RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints allow")
    return e


def diagnostic(a, msg, pkg, name):
    """Record an error, at the witness's own line when it comes from a macro expansion."""
    if msg.get("level") not in ("error", "error: internal compiler error"):
        return
    spans = msg.get("spans") or []
    line_no, fname = None, None
    for s in [s for s in spans if s.get("is_primary")] or spans:
        cur = s
        while cur is not None:
            if cur["file_name"].endswith("src/lib.rs") and pkg == name:
                line_no, fname = cur["line_start"], cur["file_name"]
            exp = cur.get("expansion")
            cur = exp["span"] if exp else None
        if line_no:
            break
    if not spans and msg["message"].startswith("aborting due to"):
        return
    a.errors.append({"crate": pkg, "code": (msg.get("code") or {}).get("code"), "message": msg["message"], "line": line_no,
                     "rendered": re.sub("\x1b\\[[0-9;]*m", "", msg.get("rendered") or "")})


def prepare(a, drv, cfgname, deps):
    """Compile REPO and the other dependencies with the driver; return the command that compiles a witness
    against them, or None with the errors recorded in `a`."""
    key = cfgname + "-" + hashlib.sha256(deps.encode()).hexdigest()[:8]
    with Lock("target-" + cfgname):
        tdir = os.path.join(CACHE, "target-" + cfgname)
        if key not in _prepared:
            want = tree_hash(REPO) + tree_hash(DRIVER_SRC, (".rs", ".toml")) + deps
            cmdfile = os.path.join(tdir, "prep-%s.json" % key)
            if os.path.exists(cmdfile):
                with open(cmdfile) as f:
                    j = json.load(f)
                stamp = os.path.join(tdir, "repo.stamp")
                built = os.path.exists(stamp) and open(stamp).read() == tree_hash(REPO)
                if j["for"] == want and built and all(os.path.exists(x.split("=", 1)[1]) for i, x in enumerate(j["cmd"]) if "=" in x and i and j["cmd"][i - 1] == "--extern"):
                    _prepared[key] = j["cmd"]
        if key in _prepared:
            return _prepared[key]
        e = driver_env(drv)
        e["CARGO_TARGET_DIR"] = tdir
        wdir = os.path.join(CACHE, "wit", PREP + "-" + key)
        os.makedirs(os.path.join(wdir, "src"), exist_ok=True)
        with open(os.path.join(wdir, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n%s\n' % (PREP, deps))
        with open(os.path.join(REPO, "Cargo.lock")) as f:
            lock = f.read()
        with open(os.path.join(wdir, "Cargo.lock"), "w") as f:
            f.write(lock)
        with open(os.path.join(wdir, "src", "lib.rs"), "w") as f:
            f.write(CGE_ATTR if cfgname.startswith("cge") else "")
        pend = _clean_repo_packages(tdir, e)
        os.utime(os.path.join(wdir, "src", "lib.rs"))
        r = run(["cargo", "check", "-v", "--offline", "--message-format=json"], cwd=wdir, env=e)
        for line in r.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message":
                diagnostic(a, m["message"], m.get("target", {}).get("name", ""), PREP)
        if r.returncode:
            if not a.errors:
                if not re.search(r"could not compile|error(\[E\d+\])?:", r.stderr):
                    raise CheckError("cargo check failed without diagnostics:\n" + r.stderr[-3000:])
                a.errors.append({"crate": "?", "code": None, "message": r.stderr[-3000:], "line": None, "rendered": r.stderr[-3000:]})
            return None
        a.errors.clear()
        if pend:
            with open(pend[0], "w") as f:
                f.write(pend[1])
        m = re.search(r"Running `([^`]*--crate-name %s [^`]*)`" % PREP, r.stderr)
        if not m:
            raise CheckError("cargo did not show how it compiles a witness:\n" + r.stderr[-3000:])
        cmd = shlex.split(m.group(1))
        drop = set()
        for i, x in enumerate(cmd):
            if cmd[i - 1] == "-C" and x.startswith(("incremental=", "extra-filename=", "metadata=")):
                drop |= {i - 1, i}
        cmd = [x for i, x in enumerate(cmd) if i not in drop]
        while "=" in cmd[0] and not cmd[0].startswith("/"):
            cmd.pop(0)
        with open(cmdfile, "w") as f:
            json.dump({"for": want, "cmd": cmd}, f)
        _prepared[key] = cmd
        return cmd


# what core's array constructors do, as plain loops the driver can follow (it enters these instead)
SHIM = """
#[allow(dead_code, unused, clippy::all)]
mod wv_shim {
    pub fn uninit<T>() -> T { loop {} }
    pub fn array_from_fn<T, const N: usize, F: ::core::ops::FnMut(usize) -> T>(mut f: F) -> [T; N] {
        let mut r = uninit::<[T; N]>();
        let mut i = 0;
        while i < N {
            r[i] = f(i);
            i += 1;
        }
        r
    }
    pub fn str_any<F: ::core::ops::FnMut(char) -> bool>(s: &str, f: F) -> bool { s.chars().any(f) }
    pub fn string_from_chars<I: ::core::iter::IntoIterator<Item = char>>(it: I) -> ::std::string::String {
        let mut s = ::std::string::String::new();
        for c in it { s.push(c); }
        s
    }
    pub fn string_from_strings<I: ::core::iter::IntoIterator<Item = ::std::string::String>>(it: I) -> ::std::string::String {
        let mut s = ::std::string::String::new();
        for c in it { s.push_str(&c); }
        s
    }
    pub fn string_from_strs<'a, I: ::core::iter::IntoIterator<Item = &'a str>>(it: I) -> ::std::string::String {
        let mut s = ::std::string::String::new();
        for c in it { s.push_str(c); }
        s
    }
    pub fn vec_from_iter<T, I: ::core::iter::IntoIterator<Item = T>>(it: I) -> ::std::vec::Vec<T> {
        let mut v = ::std::vec::Vec::new();
        for x in it {
            v.push(x);
        }
        v
    }
    pub fn array_map<T, const N: usize, F: ::core::ops::FnMut(T) -> U, U>(a: [T; N], mut f: F) -> [U; N] {
        let mut r = uninit::<[U; N]>();
        let mut i = 0;
        for x in a {
            r[i] = f(x);
            i += 1;
        }
        r
    }
}
"""


def shim_core():
    """The stand-ins that need no allocator, for witnesses without std."""
    head, *fns = re.split(r"(?m)^(?=    pub fn )", SHIM)
    tail = "}\n" if fns and "::std::" in fns[-1] else ""
    return head + "".join(f for f in fns if "::std::" not in f) + tail


def analyse(name, lib_rs, features=None, default_features=True, cge=False, opaque="", extra_deps="", rust_edition="2021", deps_serde=False, env_extra=None, crate_attrs=""):
    """Type-check the witness crate `name` (source `lib_rs`) against /repo with the driver in place of
    rustc, and return what the driver extracted plus any compile errors."""
    t0 = time.time()
    drv = build_driver()
    cfgname = "cge" if cge else "std"
    if not default_features or features:
        cfgname += "-" + ("d" if default_features else "nd") + "-" + "_".join(features or [])
    feats = list(features or []) + (["cge"] if cge else [])
    deps = 'whippyunits = { path = "%s", default-features = %s, features = [%s] }\n' % (
        REPO, "true" if default_features else "false", ", ".join('"%s"' % f for f in feats))
    deps += 'whippyunits-core = { path = "%s/whippyunits-core"%s }\n' % (REPO, ', features = ["cge"]' if cge else "")
    deps += ('serde = { version = "1.0" }\nserde_json = "1.0"\n' if deps_serde else "") + extra_deps
    a = Analysis()
    cmd = prepare(a, drv, cfgname, deps)
    full = (CGE_ATTR if cge else "") + crate_attrs + lib_rs + (shim_core() if "#![no_std]" in lib_rs else SHIM)
    a.lines = full.splitlines()
    if cmd is None:
        a.wall = time.time() - t0
        return a
    wname = "%s-%s-%d-%d" % (name, cfgname, os.getpid(), next(_serial))
    wdir = os.path.join(CACHE, "wit", wname)
    os.makedirs(os.path.join(wdir, "src"), exist_ok=True)
    try:
        with open(os.path.join(wdir, "src", "lib.rs"), "w") as f:
            f.write(full)
        out = os.path.join(wdir, "out.json")
        e = driver_env(drv)
        e.update(WFLOW_CRATE=name, WFLOW_OUT=out, WFLOW_OPAQUE=opaque, CARGO_MANIFEST_DIR=wdir, CARGO_PKG_NAME=name, CARGO_CRATE_NAME=name, CARGO_PRIMARY_PACKAGE="1")
        e.update(env_extra or {})
        e.pop("RUSTFLAGS", None)
        cmd = [x.replace(PREP, name) for x in cmd]
        cmd = ["--edition=" + rust_edition if x.startswith("--edition=") else x for x in cmd]
        cmd[cmd.index("--out-dir") + 1] = wdir
        r = run(cmd, cwd=wdir, env=e)
        for line in r.stderr.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if isinstance(m, dict):
                diagnostic(a, m, name, name)
        if r.returncode and not a.errors:
            raise CheckError("the analysis of %s failed without diagnostics:\n%s" % (name, r.stderr[-3000:]))
        if not a.errors:
            if not os.path.exists(out):
                raise CheckError("driver wrote no analysis for " + name + "\n" + r.stderr[-2000:])
            with open(out) as f:
                for line in f:
                    rec = json.loads(line)
                    a.records.append(rec)
                    if rec["kind"] == "flow":
                        a.flows[rec["fn"]] = rec
                    elif rec["kind"] == "const":
                        a.consts[rec["name"]] = rec["v"]
                    elif rec["kind"] == "type":
                        a.types[rec["name"]] = rec["ty"]
                    elif rec["kind"] == "summary":
                        a.summary = rec
    finally:
        shutil.rmtree(wdir, ignore_errors=True)
    a.wall = time.time() - t0
    return a


# ---------------------------------------------------------------------------- reporting


class Check:
    """Collects obligations of one property; `finish` prints the verdict and writes evidence."""

    def __init__(self, prop, level="other", technique=""):
        self.prop = prop
        self.level = level
        self.technique = technique
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.viol = {}
        self.samples = []
        self.cov = {}
        self.rules = []
        self.assumptions = []
        self.floors = []

    def ob(self, ok, key, detail=""):
        """One proof obligation; `key` names the construct without line numbers."""
        self.obligations += 1
        if ok:
            self.discharged += 1
        else:
            self.viol.setdefault(key, detail)
        return ok

    def fail(self, key, detail=""):
        self.ob(False, key, detail)

    def sample(self, x):
        if len(self.samples) < 12:
            self.samples.append(x)

    def floor(self, what, n, minimum):
        """A rule that matches (almost) nothing is not a verdict."""
        self.cov["count " + what] = n
        if n < minimum:
            self.fail("floor:" + what, "only %d instances of '%s' analysed, at least %d were confirmed by hand" % (n, what, minimum))

    def compile_errors(self, a, ctx, lines=None):
        """Compile errors of a witness crate are violations: the witness states what must type-check."""
        for e in a.errors:
            where = ""
            lines = lines or getattr(a, "lines", None)
            if lines and e["line"] and 0 <= e["line"] - 1 < len(lines):
                src = lines[e["line"] - 1].strip()
                m = re.search(r"\b(w_\w+|Ty_\w+|C_\w+)\b", src)
                where = m.group(1) if m else src[:80]
            key = "compile:%s:%s:%s" % (ctx, where or e["crate"], e["code"] or "-")
            self.fail(key, e["rendered"][:1500])
        return not a.errors

    def finish(self):
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        known = load_known()
        mine = {k["key"]: k for k in known if k["property"] == self.prop and k.get("status") == "known"}
        new, old = {}, {}
        for k, d in self.viol.items():
            (old if k in mine else new)[k] = d
        os.makedirs(os.path.join(EVIDENCE, "replays"), exist_ok=True)
        replay = os.path.join(EVIDENCE, "replays", self.prop + ".json")
        with open(replay, "w") as f:
            json.dump({"property": self.prop, "violations": [{"key": k, "detail": d} for k, d in new.items()],
                       "known": [{"key": k, "detail": d} for k, d in old.items()]}, f, indent=1, ensure_ascii=False)
        cov = dict(self.cov)
        cov.update({
            "obligations": self.obligations,
            "discharged": self.discharged,
            "explanation": "; ".join(self.rules) or self.technique,
            "samples": self.samples[:12],
        })
        if self.level == "proof":
            cov.setdefault("checker_cmd", "bin/check " + self.prop)
            cov.setdefault("trusted_base", ["rustc nightly front end and MIR", "the wflow driver", "the rule in wv/" + self.prop])
        ev = {
            "property": self.prop,
            "tier": tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or "1"),
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for k in old:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, mine[k].get("what", "")))
        print("%s: %d obligations, %d discharged, %d known findings, %d violations, %.1f s" % (
            self.prop, self.obligations, self.discharged, len(old), len(new), time.time() - self.t0))
        if new:
            for k, d in list(new.items())[:10]:
                print("  [%s] %s" % (k, " ".join(str(d).split())[:240]))
            if len(new) > 10:
                print("  ... and %d more (see replay)" % (len(new) - 10))
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(replay, VERIF)))
            sys.exit(1)
        sys.exit(0)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def both_configs(fn):
    """Run fn(cge) for the stable and the generic-const-exprs configuration concurrently."""
    import concurrent.futures as cf
    build_driver()
    with cf.ThreadPoolExecutor(2) as ex:
        fs = [ex.submit(fn, c) for c in (False, True)]
        return [f.result() for f in fs]


def pmap(fn, items, n=8):
    """Run fn over items concurrently, results in order."""
    import concurrent.futures as cf
    build_driver()
    items = list(items)
    with cf.ThreadPoolExecutor(min(n, max(1, len(items)))) as ex:
        return list(ex.map(fn, items))
