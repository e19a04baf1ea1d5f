"""The repository's compiled core (Rust), symbolically and natively.

The sources under ``rust/src`` are copied to a scratch directory, the binding
library (pyo3, numpy) is replaced by a stand-in, and two things are built from
the same files with rustc:

* LLVM IR, interpreted symbolically by ``vf.llvm``;
* a shared object, called through ctypes when a counterexample is replayed.

The adaptive integrator and the special functions are boundaries: harnesses
say what they return.
"""

from __future__ import annotations

import atexit
import ctypes
import math
import os
import re
import shutil
import subprocess
import tempfile

from . import llvm
from . import sym as S

HERE = os.path.dirname(os.path.abspath(__file__))
RS = os.path.join(HERE, "rust_src")
BIND = ("photon", "positron", "neutrino", "scalar_mediator", "vector_mediator")
_SIG = re.compile(r"^(?:pub(?:\([a-z]+\))? )?fn (\w+)\s*\(([^)]*)\)\s*->\s*PyResult<(Py<PyAny>|f64)>", re.M)

EXTRA = """
#[unsafe(no_mangle)] pub extern "C" fn vf_boost_gamma(e: f64, m: f64) -> f64 { boost::boost_gamma(e, m) }
#[unsafe(no_mangle)] pub extern "C" fn vf_boost_beta(e: f64, m: f64) -> f64 { boost::boost_beta(e, m) }
#[unsafe(no_mangle)] pub extern "C" fn vf_boost_delta(e0: f64, e: f64, m: f64, b: f64) -> f64 { boost::boost_delta_function(e0, e, m, b) }
#[unsafe(no_mangle)] pub extern "C" fn vf_boost_table(e: f64, b: f64, x: *const f64, y: *const f64, n: usize) -> f64 {
    unsafe { boost::boost_integrate_linear_interp(e, b, std::slice::from_raw_parts(x, n), std::slice::from_raw_parts(y, n)).unwrap_or(f64::NAN) } }
#[unsafe(no_mangle)] pub extern "C" fn vf_interp(v: f64, x: *const f64, y: *const f64, n: usize) -> f64 {
    unsafe { interp::interp(v, std::slice::from_raw_parts(x, n), std::slice::from_raw_parts(y, n)) } }
"""
# kernels that are looked at directly when they are there
OPTIONAL = (("photon_pion", "dnde_pi_to_lnug"),)
RAW = """
extern "C" fn tramp(_p: *mut u8, x: f64) -> f64 { x }
#[unsafe(no_mangle)] pub extern "C" fn vf_raw_spence(x: f64) -> f64 { special::spence(x) }
#[unsafe(no_mangle)] pub extern "C" fn vf_raw_kn(n: i32, x: f64) -> f64 { special::bessel_kn(n, x) }
#[unsafe(no_mangle)] pub extern "C" fn vf_raw_k1(x: f64) -> f64 { special::bessel_k1(x) }
#[unsafe(no_mangle)] pub extern "C" fn vf_raw_qk(which: i32, a: f64, b: f64, out: *mut f64) {
    let mut f = |x: f64| vf::spence(x);
    let r = if which == 15 { quad::qk15(&mut f, a, b) } else { quad::qk21(&mut f, a, b) };
    unsafe { *out = r.result; *out.add(1) = r.abserr; }
}
#[unsafe(no_mangle)] pub extern "C" fn vf_raw_quad(a: f64, b: f64, out: *mut f64) -> i32 {
    let mut f = |x: f64| vf::spence(x);
    match quad::quad(&mut f, a, b, &quad::QuadOpts::default()) {
        Ok(o) => { unsafe { *out = o.value; } 0 }
        Err(_) => 1,
    }
}
"""


LAZY = """
mod vf_lazy {
    // evaluated at each use, so that the contents are visible where they are used
    pub struct LazyLock<T: 'static>(fn() -> T);
    impl<T> LazyLock<T> { pub const fn new(f: fn() -> T) -> Self { Self(f) } }
    impl<T> std::ops::Deref for LazyLock<T> { type Target = T; fn deref(&self) -> &T { Box::leak(Box::new((self.0)())) } }
}
"""
TABLE = """fn parse(csv: &str) -> Self {
        // three arbitrary rows; the length of the file tells which table it is
        let w = csv.len() as i32;
        Self { energies: vec![crate::vf::table(w, 0), crate::vf::table(w, 1), crate::vf::table(w, 2)],
               dnde: vec![crate::vf::table(w, 3), crate::vf::table(w, 4), crate::vf::table(w, 5)] }
    }
    fn vf_parse(csv: &str) -> Self {"""


class Build:
    def __init__(self, repo, raw=False):
        self.tables = not raw
        try:
            self._build(repo, raw)
        except RuntimeError:
            if not self.tables:
                raise
            shutil.rmtree(self.dir, ignore_errors=True)
            self.tables = False     # the tabulated spectra as they are
            self._build(repo, raw)

    def _build(self, repo, raw):
        self.repo, self.raw = repo, raw
        self.dir = tempfile.mkdtemp(prefix="vf_rust_")
        self.pid = os.getpid()
        atexit.register(self._clean)
        src = os.path.join(repo, "rust", "src")
        d = os.path.join(self.dir, "rust", "src")
        os.makedirs(os.path.join(d, "kernels"))
        os.symlink(os.path.join(repo, "hazma"), os.path.join(self.dir, "hazma"))
        for f in ("boost.rs", "constants.rs", "interp.rs", "kernels.rs", "quad.rs", "special.rs", "dispatch.rs"):
            p = os.path.join(RS, f)
            if raw or not os.path.exists(p):
                p = os.path.join(src, f)
            if f != "dispatch.rs" or not raw:
                self._copy(p, os.path.join(d, f))
        self.sigs = {}
        mods = ["boost", "constants", "interp", "quad", "special"]
        code = []
        if raw:
            code.append(RAW)
        else:
            mods += ["kernels", "dispatch"]
            for f in os.listdir(os.path.join(src, "kernels")):
                self._copy(os.path.join(src, "kernels", f), os.path.join(d, "kernels", f))
            for b in BIND:
                t = open(os.path.join(src, b + ".rs")).read()
                t = re.sub(r"^#\[py(?:function|module|o3\((?:[^()]|\([^()]*\))*\))\]\n", "", t, flags=re.M)
                t = t.split("#[cfg(test)]")[0]
                clean = re.sub(r"//[^\n]*", "", t)
                for m in _SIG.finditer(clean):
                    ps = llvm._split(m.group(2))
                    names = [p.split(":")[0].strip() for p in ps]
                    types = [p.split(":", 1)[1].strip() for p in ps]
                    if any(x != "f64" and "PyAny" not in x for x in types):
                        continue
                    self.sigs[(b, m.group(1))] = names
                    t = re.sub(r"^(pub(?:\([a-z]+\))? )?fn " + m.group(1) + r"\b", "pub fn " + m.group(1), t, flags=re.M)
                    args = ", ".join(f"a{i}: f64" for i in range(len(ps)))
                    call = ", ".join(f"&Bound::new(a{i})" if "PyAny" in x else f"a{i}" for i, x in enumerate(types))
                    code.append(
                        f'#[unsafe(no_mangle)] #[allow(non_snake_case)] pub extern "C" fn vf_{b}_{m.group(1)}({args}, out: *mut f64) -> i32 {{\n'
                        f"    match {b}::{m.group(1)}({call}) {{ Ok(r) => {{ let v = r.answer(); unsafe {{ *out = v[0]; "
                        f"*out.add(1) = v[1]; *out.add(2) = v[2]; }} 0 }} Err(e) => e.0 }}\n}}")
                with open(os.path.join(d, b + ".rs"), "w") as fo:
                    fo.write(t)
                mods.append(b)
            code.append(EXTRA)
            self.extra = set()
            for f, fn in OPTIONAL:
                q = os.path.join(d, "kernels", f + ".rs")
                m = os.path.exists(q) and re.search(r"^pub fn " + fn + r"\(([^()]*)\) -> f64", open(q).read(), re.M)
                if m:
                    n = len(llvm._split(m.group(1)))
                    code.append(f'#[unsafe(no_mangle)] pub extern "C" fn vf_{fn}(' + ", ".join(f"a{i}: f64" for i in range(n))
                                + f") -> f64 {{ kernels::{f}::{fn}(" + ", ".join(f"a{i}" for i in range(n)) + ") }")
                    self.extra.add("vf_" + fn)
        shutil.copy(os.path.join(RS, "vf_ir.rs"), os.path.join(d, "vf_ir.rs"))
        shutil.copy(os.path.join(RS, "vf_native.rs"), os.path.join(d, "vf_native.rs"))
        lib = ["#![allow(dead_code, unused_imports, unused_attributes, non_snake_case, static_mut_refs)]",
               '#[cfg(native)] #[path = "vf_native.rs"] mod vf;', '#[cfg(not(native))] #[path = "vf_ir.rs"] mod vf;']
        lib += [f"pub mod {m};" for m in mods]
        if not raw:
            lib.append("use pyo3::prelude::*;")
            lib.append(LAZY)
        lib += code
        with open(os.path.join(d, "lib.rs"), "w") as fo:
            fo.write("\n".join(lib) + "\n")
        self.src = d
        if raw:
            with open(os.path.join(self.dir, "spec_math.rs"), "w") as fo:
                fo.write("pub trait Bessel { fn bessel_k0(&self) -> f64; fn bessel_k1(&self) -> f64; fn bessel_kn(&self, n: isize) -> f64; }\n"
                         "unsafe extern \"Rust\" { fn vf_sm_k0(x: f64) -> f64; fn vf_sm_k1(x: f64) -> f64; }\n"
                         "impl Bessel for f64 { fn bessel_k0(&self) -> f64 { unsafe { vf_sm_k0(*self) } } "
                         "fn bessel_k1(&self) -> f64 { unsafe { vf_sm_k1(*self) } } fn bessel_kn(&self, _n: isize) -> f64 { f64::NAN } }\n")
            self._rustc(["--crate-type=rlib", "--crate-name=spec_math", os.path.join(self.dir, "spec_math.rs"),
                         "-o", os.path.join(self.dir, "libspec_math.rlib")], opt=1)
            with open(os.path.join(d, "lib.rs"), "a") as fo:
                fo.write('#[unsafe(no_mangle)] fn vf_sm_k0(x: f64) -> f64 { vf::k0(x) }\n'
                         '#[unsafe(no_mangle)] fn vf_sm_k1(x: f64) -> f64 { vf::k1(x) }\n')
            self.ext = ["--extern", "spec_math=" + os.path.join(self.dir, "libspec_math.rlib")]
        else:
            self._rustc(["--crate-type=rlib", "--crate-name=pyo3", os.path.join(RS, "pyo3.rs"),
                         "-o", os.path.join(self.dir, "libpyo3.rlib")], opt=1)
            self.ext = ["--extern", "pyo3=" + os.path.join(self.dir, "libpyo3.rlib")]
        ll = os.path.join(self.dir, "k.ll")
        self._rustc(["--crate-type=cdylib", "--emit=llvm-ir", "--crate-name=vfcore", os.path.join(d, "lib.rs"),
                     "-o", ll] + self.ext, opt=1)
        self.text = open(ll).read()
        self.mod = llvm.Module(self.text)
        self.so = None

    def _copy(self, a, b):
        t = open(a).read()
        # kept out of line, so that the boundary is visible in the IR
        names = r"ilogb_finite|scalbn|parse"
        if os.path.basename(a).startswith(("photon_", "positron_", "neutrino_")):
            names += r"|dnde_\w+"
        if os.path.basename(a) == "photon_tables.rs" and self.tables:
            t, n = re.subn(r"fn parse\(csv: &str\) -> Self \{", lambda m: TABLE, t)
            t, k = re.subn(r"use std::sync::LazyLock;", "use crate::vf_lazy::LazyLock;", t)
            self.tables = n == 1 and k == 1
        t = re.sub(r"^((?:pub(?:\([a-z]+\))? )?(?:const )?fn (?:" + names + r")\b)", r"#[inline(never)]\n\1", t, flags=re.M)
        with open(b, "w") as fo:
            fo.write(t)

    def _rustc(self, args, opt, native=False):
        cmd = ["rustc", "--edition=2024", "--cap-lints=allow", "-Cpanic=abort", "-Cdebuginfo=0", "-Ccodegen-units=1",
               f"-Copt-level={opt}", "-Cno-vectorize-loops", "-Cno-vectorize-slp", "-Coverflow-checks=off",
               "-Cdebug-assertions=off"] + (["--cfg", "native"] if native else []) + args
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=self.dir, timeout=300)
        if r.returncode:
            raise RuntimeError("rustc: " + r.stderr[:1500])

    def native(self):
        if self.so is None:
            p = os.path.join(self.dir, "libvfcore.so")
            self._rustc(["--crate-type=cdylib", "--crate-name=vfcore", os.path.join(self.src, "lib.rs"), "-o", p]
                        + self.ext, opt=1, native=True)
            self.so = ctypes.CDLL(p)
        return self.so

    def _clean(self):
        if os.getpid() == self.pid:
            shutil.rmtree(self.dir, ignore_errors=True)


_BUILDS = {}


def build(raw=False):
    repo = os.environ.get("VF_REPO", "/repo")
    if (repo, raw) not in _BUILDS:
        b = _BUILDS[(repo, raw)] = Build(repo, raw)
        b.native()          # before any worker is forked
    return _BUILDS[(repo, raw)]


class CoreError(Exception):
    """The compiled function reports an error (a Python exception)."""


class Core:
    """The compiled functions under one environment.

    quad(f, a, b), spence(x), k0(x), k1(x), kn(n, x), table(which, i): what the
    boundaries return.  consts: [(float, expression)] names the constants the
    compiler folded.  opaque: {kernel: number of results} kernels taken as
    arbitrary functions of their arguments (a replay runs them).
    """

    def __init__(self, env, consts=(), raw=False, opaque=None, **hooks):
        self.env, self.hooks = env, hooks
        self.b = build(raw)
        self.consts = [(float(v), e) for v, e in consts]
        self.memo = {}
        self.opaque = opaque or {}
        if env.sym:
            self.interp()
        else:
            self._native()

    # -- symbolic
    def interp(self):
        h = self.hooks
        ext = {
            "vf_quad": lambda it, f, ctx, a, b: S.lift(h["quad"](lambda x: it.invoke(f[1], [ctx, S.lift(x)]), a, b)),
            "vf_failed": lambda it: int(h.get("failed", lambda: 0)()),
            "vf_table": lambda it, w, i: S.lift(h["table"](w, i)),
            "vf_kn": lambda it, n, x: S.lift(h["kn"](n, x)),
        }
        for n in ("spence", "k0", "k1"):
            ext["vf_" + n] = lambda it, x, n=n: S.lift(h[n](x))
        self.it = llvm.Interp(self.b.mod, ext, self._const, {"ilogb_finite": self._ilogb, "scalbn": self._scalbn,
                                                           **self._opaque()})

    def _const(self, f):
        if not math.isfinite(f):
            return f
        r = self.memo.get(f)
        if r is None:
            r = self.memo[f] = self._named(f)
        return r

    def _named(self, f):
        if f and (S.snap(f).denominator > 2 or abs(f) > 1e6):
            for v, e in self.consts:
                q = S.Fraction(f / v).limit_denominator(64)
                if q and abs(q.numerator) <= 4096 and abs(float(q) * v - f) <= 1e-15 * abs(f):
                    return S.const(q) * e
        return S.lift(f)

    def _opaque(self):
        r = {}
        for n, k in self.opaque.items():
            fs = [self.env.uf(f"{n}.{i}", None, None, 1.0) for i in range(k)]

            def call(it, *a, fs=fs, k=k):
                if k == 1:
                    return fs[0](*a)
                out, a = a[0], a[1:]
                for i, f in enumerate(fs):
                    out.mem.store(out.off + 8 * i, 8, f(*a))
            for m in re.findall(r"@\"?([\w.$]*7kernels[\w.$]*?" + f"{len(n)}{n}" + r"(?:17h[\w.$]*)?)\"?\(", self.b.text):
                r[m] = call
        return r

    # the binary exponent e of c and x*2^e: only 2^(-e) matters, any positive number will do
    def _ilogb(self, it, x):
        return S.atom("F_ilogb", (S.lift(x),))

    def _scalbn(self, it, x, n):
        n = S.lift(llvm._signed(n, 32) if isinstance(n, int) else n)
        p = S.atom("F_pow2", (n,))
        p.a.lo, p.a.lo_s = S.Fraction(0), True
        return x * p

    # -- concrete
    def _native(self):
        so = self.b.native()
        h = self.hooks
        D, P, I = ctypes.c_double, ctypes.c_void_p, ctypes.c_int
        FT = ctypes.CFUNCTYPE(D, P, D)
        self.keep = []
        self.exc = None

        def guard(fn, dflt):
            def g(*a):
                try:
                    return fn(*a)
                except BaseException as e:  # noqa: BLE001
                    self.exc = self.exc or e
                    return dflt
            return g

        def put(k, ty, fn, dflt=math.nan):
            cb = ty(guard(fn, dflt))
            self.keep.append(cb)
            so.vf_set(I(k), ctypes.c_size_t(ctypes.cast(cb, P).value))

        def quad(f, ctx, a, b):
            fn = ctypes.cast(f, FT)
            return float(h["quad"](lambda x: fn(ctx, float(x)), a, b))

        put(0, ctypes.CFUNCTYPE(D, P, P, D, D), quad)
        put(1, ctypes.CFUNCTYPE(I), lambda: int(h.get("failed", lambda: 0)()), 0)
        for k, n in ((2, "spence"), (3, "k0"), (4, "k1")):
            put(k, ctypes.CFUNCTYPE(D, D), lambda x, n=n: float(h[n](x)))
        put(5, ctypes.CFUNCTYPE(D, I, D), lambda n, x: float(h["kn"](n, x)))
        put(6, ctypes.CFUNCTYPE(D, I, I), lambda w, i: float(h["table"](w, i)))
        self.so = so

    # -- calls
    def _args(self, mod, fn, args, kw):
        names = self.b.sigs.get((mod, fn))
        if names is None:
            raise AttributeError(f"hazma._core.{mod}.{fn}")
        vals = dict(zip(names, args))
        for k, v in kw.items():
            if k not in names or k in vals:
                raise TypeError(f"{fn}: {k}")
            vals[k] = v
        if len(vals) != len(names) or len(args) > len(names):
            raise TypeError(f"{fn} takes {names}")
        return [vals[n] for n in names]

    def call(self, mod, fn, *args, n=1, **kw):
        """hazma._core.<mod>.<fn>; n results."""
        a = self._args(mod, fn, args, kw)
        name = f"vf_{mod}_{fn}"
        if self.env.sym:
            out = llvm.Ptr(llvm.Mem("out", 24))
            rc = llvm._conc(self.it.call(name, [S.lift(x) for x in a] + [out]))
            if rc:
                raise CoreError(str(rc))
            r = [out.mem.load(8 * k, 8, "double") for k in range(n)]
        else:
            buf = (ctypes.c_double * 3)()
            f = getattr(self.so, name)
            f.restype = ctypes.c_int
            rc = f(*[ctypes.c_double(float(x)) for x in a], buf)
            self._check()
            if rc:
                raise CoreError(str(rc))
            r = [buf[k] for k in range(n)]
        return r[0] if n == 1 else r

    def raw(self, name, *args):
        """An exported harness function; lists become arrays (in) or, when None-filled, results."""
        if self.env.sym:
            a = []
            for x in args:
                if isinstance(x, Out):
                    a.append(llvm.Ptr(llvm.Mem("out", 8 * x.n)))
                elif isinstance(x, Int):
                    a.append(int(x))
                elif isinstance(x, (list, tuple)):
                    a.append(self.it.array([S.lift(v) for v in x]))
                else:
                    a.append(S.lift(x))
            r = self.it.call(name, a)
            for x, p in zip(args, a):
                if isinstance(x, Out):
                    x.v = [p.mem.load(8 * k, 8, "double") for k in range(x.n)]
            return r
        a = []
        for x in args:
            if isinstance(x, Out):
                a.append((ctypes.c_double * x.n)())
            elif isinstance(x, Int):
                a.append(ctypes.c_ssize_t(int(x)))
            elif isinstance(x, (list, tuple)):
                a.append((ctypes.c_double * len(x))(*[float(v) for v in x]))
            else:
                a.append(ctypes.c_double(float(x)))
        f = getattr(self.so, name)
        f.restype = ctypes.c_double
        r = f(*a)
        self._check()
        for x, p in zip(args, a):
            if isinstance(x, Out):
                x.v = list(p)
        return r

    def _check(self):
        if self.exc is not None:
            e, self.exc = self.exc, None
            raise e


class Int(int):
    pass


class Out:
    def __init__(self, n):
        self.n, self.v = n, None
