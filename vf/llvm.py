"""A reader and an interpreter of the LLVM IR that rustc writes (text form).

Numbers that flow through the interpreter are either Python numbers or the
engine's symbolic reals; a branch on a symbolic condition forks the path.
"""

from __future__ import annotations

import math
import re
import struct
from fractions import Fraction

from . import sym as S
from .sym import Inconclusive, SymBool, bnot, bor


class Unsupported(Inconclusive):
    pass


class Panic(Exception):
    """The compiled code reaches a panic (aborts the process)."""


class Ptr:
    __slots__ = ("mem", "off")

    def __init__(self, mem, off=0):
        self.mem, self.off = mem, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.mem is self.mem and o.off == self.off

    def __hash__(self):
        return hash((id(self.mem), self.off))


class Mem:
    """A block of memory: byte offset -> (size, value)."""

    def __init__(self, name, size=None, data=None):
        self.name, self.size = name, size
        self.cells = {}
        self.data = data          # constant bytes

    def load(self, off, size, ty):
        c = self.cells.get(off)
        if c is not None:
            if c[0] == size:
                return c[1]
            if isinstance(c[1], int) and c[0] > size:
                return c[1] & ((1 << (8 * size)) - 1)
        elif self.data is not None and off + size <= len(self.data):
            b = self.data[off:off + size]
            return struct.unpack("<d", b)[0] if ty == "double" else int.from_bytes(b, "little")
        raise Unsupported(f"load of {ty} at {self.name}+{off}")

    def store(self, off, size, v):
        for o in list(self.cells):
            s = self.cells[o][0]
            if o < off + size and off < o + s:
                if o != off or s != size:
                    del self.cells[o]
        self.cells[off] = (size, v)


class Func:
    def __init__(self, name, params):
        self.name, self.params = name, params
        self.blocks = {}
        self.first = None
        self.parsed = None


def _split(s):
    """Split at top-level commas."""
    out, d, cur, q = [], 0, [], False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                d += 1
            elif ch in ")]}>":
                d -= 1
            elif ch == "," and d == 0:
                out.append("".join(cur).strip())
                cur = []
                continue
        cur.append(ch)
    t = "".join(cur).strip()
    if t:
        out.append(t)
    return out


_TY = re.compile(r"(\[\d+ x [^\]]*\]|<\{.*?\}>|\{[^{}]*\}|<\d+ x \w+>|ptr|double|float|void|i\d+|metadata|half|fp128)")
_ATTR = re.compile(
    r"^(noundef|nonnull|noalias|nofree|nocapture|readonly|readnone|writeonly|zeroext|signext|inreg|returned|"
    r"nest|immarg|dead_on_return|writable|allocptr|allocalign|"
    r"align \d+|align\(\d+\)|(?:captures|range|dereferenceable|dereferenceable_or_null|sret|byval|initializes|nofpclass|"
    r"dead_on_unwind|elementtype|memory)(?:\((?:[^()]|\([^()]*\))*\))?|dead_on_unwind)\s*")


def _strip_attrs(s):
    s = s.strip()
    while True:
        m = _ATTR.match(s)
        if not m or not m.group(0):
            return s
        s = s[m.end():].strip()


def _take_type(s):
    s = s.strip()
    if s[0] in "[{<":
        d = 0
        for i, ch in enumerate(s):
            if ch in "[{<":
                d += 1
            elif ch in "]}>":
                d -= 1
                if d == 0:
                    return s[:i + 1], s[i + 1:].strip()
    m = re.match(r"[\w.%]+", s)
    return m.group(0), s[m.end():].strip()


def type_size(t):
    if t == "ptr" or t == "double":
        return 8
    if t == "float":
        return 4
    if t[0] == "i":
        return (int(t[1:]) + 7) // 8
    if t.startswith("["):
        m = re.match(r"\[(\d+) x (.*)\]$", t)
        return int(m.group(1)) * type_size(m.group(2))
    if t.startswith("<{"):
        return sum(type_size(x) for x in _split(t[2:-2]))
    if t.startswith("{"):
        off = 0
        al = 1
        for x in _split(t[1:-1]):
            a = min(8, type_align(x))
            off = (off + a - 1) // a * a + type_size(x)
            al = max(al, a)
        return (off + al - 1) // al * al
    raise Unsupported("size of " + t)


def type_align(t):
    if t.startswith("["):
        return type_align(re.match(r"\[(\d+) x (.*)\]$", t).group(2))
    if t.startswith("{"):
        return max([type_align(x) for x in _split(t[1:-1])] or [1])
    return type_size(t)


def field_offset(t, k):
    if t.startswith("["):
        return k * type_size(re.match(r"\[(\d+) x (.*)\]$", t).group(2))
    if t.startswith("<{"):
        return sum(type_size(x) for x in _split(t[2:-2])[:k])
    off = 0
    fs = _split(t[1:-1])
    for i, x in enumerate(fs):
        a = type_align(x)
        off = (off + a - 1) // a * a
        if i == k:
            return off
        off += type_size(x)
    raise Unsupported("field")


def elem_type(t, k):
    if t.startswith("["):
        return re.match(r"\[(\d+) x (.*)\]$", t).group(2)
    if t.startswith("<{"):
        return _split(t[2:-2])[k]
    return _split(t[1:-1])[k]


def parse_bytes(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16)) if s[i + 1] != "\\" else out.append(92)
            i += 3 if s[i + 1] != "\\" else 2
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Module:
    def __init__(self, text):
        self.funcs, self.decls, self.gtext, self.globals = {}, set(), {}, {}
        self.alias = {}
        cur = None
        blk = None
        for line in text.splitlines():
            if cur is None:
                if line.startswith("define "):
                    m = re.search(r'@("(?:[^"]*)"|[\w.$]+)\(', line)
                    name = m.group(1).strip('"')
                    i = m.end()
                    d, j = 1, i
                    while d:
                        d += {"(": 1, ")": -1}.get(line[j], 0)
                        j += 1
                    params = []
                    for p in _split(line[i:j - 1]):
                        t, r = _take_type(p)
                        params.append((t, _strip_attrs(r)))
                    cur = Func(name, params)
                    blk = None
                elif line.startswith("declare "):
                    m = re.search(r'@("(?:[^"]*)"|[\w.$]+)\(', line)
                    self.decls.add(m.group(1).strip('"'))
                elif line.startswith("@"):
                    m = re.match(r'@("(?:[^"]*)"|[\w.$]+) = (.*)$', line)
                    self.gtext[m.group(1).strip('"')] = m.group(2)
                continue
            if line == "}":
                self.funcs[cur.name] = cur
                cur = None
                continue
            if not line or line.lstrip().startswith(";") or line.lstrip().startswith("#dbg"):
                continue
            m = re.match(r'("(?:[^"]*)"|[\w.$-]+):', line)
            if m and not line.startswith(" "):
                blk = m.group(1).strip('"')
                cur.blocks[blk] = []
                if cur.first is None:
                    cur.first = blk
                continue
            if blk is None:
                blk = "%entry"
                cur.blocks[blk] = []
                cur.first = blk
            t = line.strip()
            if cur.blocks[blk] and (t.startswith("i") and re.match(r"i\d+ \S+, label", t) or t == "]"):
                cur.blocks[blk][-1] += " " + t       # continuation of a switch
            else:
                cur.blocks[blk].append(t)
        for k, v in list(self.gtext.items()):
            m = re.search(r"\balias\b.*@([\w.$]+)", v)
            if m:
                self.alias[k] = m.group(1)

    def find(self, name):
        if name in self.funcs:
            return self.funcs[name]
        if name in self.alias:
            return self.find(self.alias[name])
        return None

    def glob(self, name):
        g = self.globals.get(name)
        if g is None:
            t = self.gtext.get(name)
            if t is None:
                raise Unsupported("global " + name)
            m = re.search(r"\b(?:constant|global) (.*)$", t)
            if not m:
                raise Unsupported("global " + t[:80])
            ty, rest = _take_type(m.group(1))
            g = self.globals[name] = Mem("@" + name, type_size(ty))
            self._init(g, 0, ty, rest)
        return g

    def _init(self, mem, off, ty, rest):
        """Fill memory from an initialiser; returns nothing."""
        rest = rest.strip()
        if rest.startswith('c"'):
            j = rest.index('"', 2)
            for k, b in enumerate(parse_bytes(rest[2:j])):
                pass
            data = parse_bytes(rest[2:j])
            self._bytes(mem, off, data)
            return
        if rest.startswith("zeroinitializer"):
            self._bytes(mem, off, bytes(type_size(ty)))
            return
        if rest[0] in "[{<":
            body, _ = _take_type(rest)
            body = body[2:-2] if body.startswith("<{") else body[1:-1]
            for k, part in enumerate(_split(body)):
                t, r = _take_type(part)
                self._init(mem, off + field_offset(ty, k), t, r)
            return
        tok = _split(rest)[0]
        if ty == "double":
            mem.store(off, 8, parse_float(tok))
        elif ty == "ptr":
            if tok.startswith("@"):
                n = tok[1:].split(" ")[0].strip('"')
                mem.store(off, 8, ("fn", n) if (n in self.funcs or n in self.decls) else Ptr(self.glob(n)))
            else:
                mem.store(off, 8, 0)
        elif tok in ("undef", "poison"):
            pass
        else:
            mem.store(off, type_size(ty), int(tok) if tok not in ("true", "false") else int(tok == "true"))

    def _bytes(self, mem, off, data):
        if mem.data is None:
            mem.data = bytes(off)
        mem.data = mem.data[:off].ljust(off, b"\0") + data + mem.data[off + len(data):]


def parse_float(tok):
    if tok.startswith("f0x"):
        return struct.unpack(">d", bytes.fromhex(tok[3:].rjust(16, "0")))[0]
    if tok.startswith("0x"):
        return struct.unpack(">d", bytes.fromhex(tok[2:].rjust(16, "0")))[0]
    if "qnan" in tok or tok.endswith("nan"):
        return math.nan
    if tok in ("+inf", "inf"):
        return math.inf
    if tok == "-inf":
        return -math.inf
    return float(tok)


PANIC = re.compile(r"panic|unwrap_failed|expect_failed|slice_index_fail|handle_error|index_fail|assert_failed|"
                   r"capacity_overflow|handle_alloc_error")
_DIM = {"olt": "<", "ole": "<=", "ogt": ">", "oge": ">=", "oeq": "==", "one": "!=",
        "ult": "<", "ule": "<=", "ugt": ">", "uge": ">=", "ueq": "==", "une": "!="}


class Interp:
    """One interpretation; `ext` maps external function names to Python."""

    MAX = 200000

    def __init__(self, module, ext=None, const=None, intercept=None):
        self.m = module
        self.ext = ext or {}
        self.const = const or (lambda f: f)
        self.intercept = intercept or {}
        self.steps = 0
        self.used = set()

    # -- API
    def call(self, name, args):
        f = self.m.find(name)
        if f is None:
            raise Unsupported("no function " + name)
        return self._run(f, list(args))

    def array(self, xs, name="arr"):
        mem = Mem(name, 8 * len(xs))
        for i, x in enumerate(xs):
            mem.store(8 * i, 8, x)
        return Ptr(mem)

    # -- operands
    def _val(self, ty, tok, env):
        tok = tok.strip()
        c = tok[0]
        if c == "%":
            return env[tok]
        if c == "@":
            n = tok[1:].strip('"')
            if n in self.m.funcs or n in self.m.decls or n in self.m.alias:
                return ("fn", n)
            return Ptr(self.m.glob(n))
        if ty in ("double", "float"):
            if tok in ("undef", "poison"):
                return 0.0
            return self.const(parse_float(tok))
        if tok in ("true", "false"):
            return int(tok == "true")
        if tok in ("undef", "poison", "null", "zeroinitializer"):
            if ty[0] in "{[":
                return {}
            return 0
        if c in "{[<" and ty[0] in "{[<":
            out = {}
            for k, part in enumerate(_split(tok[1:-1])):
                t, r = _take_type(part)
                out[k] = self._val(t, r, env)
            return out
        if tok.startswith("getelementptr"):
            m = re.match(r"getelementptr (?:inbounds |nuw |nusw )*\((.*)\)$", tok)
            return self._gep(_split(m.group(1)), env)
        if tok.startswith("inttoptr"):
            m = re.match(r"inttoptr \(\w+ (-?\d+) to ptr\)", tok)
            return int(m.group(1))
        try:
            return int(tok)
        except ValueError:
            raise Unsupported("operand " + tok) from None

    def _gep(self, parts, env):
        ty = parts[0]
        t, r = _take_type(parts[1])
        base = self._val(t, r, env)
        idx = []
        for p in parts[2:]:
            t, r = _take_type(p)
            idx.append(self._val(t, r, env))
        if any(not isinstance(i, int) for i in idx):
            raise Unsupported("symbolic index")
        off = _signed(idx[0], 64) * type_size(ty)
        cur = ty
        for i in idx[1:]:
            off += field_offset(cur, i)
            cur = elem_type(cur, i)
        if isinstance(base, int):
            return base + off
        return Ptr(base.mem, base.off + off)

    # -- execution
    def _run(self, f, args):
        self.used.add(f.name)
        env = {p[1]: a for p, a in zip(f.params, args)}
        blk, prev = f.first, None
        while True:
            ins = f.blocks[blk]
            phis = {}
            k = 0
            while k < len(ins) and " = phi " in ins[k]:
                m = re.match(r"(%\S+) = phi (?:\w+ )*?(\[.*?\] (?=\[)|\{.*?\} (?=\[)|\S+ )(\[.*)$", ins[k])
                ty = m.group(2).strip()
                done = False
                for part in _split(m.group(3).split(", !")[0]):
                    v, b = part[1:-1].rsplit(",", 1)
                    if b.strip()[1:].strip('"') == prev:
                        phis[m.group(1)] = self._val(ty, v.strip(), env)
                        done = True
                        break
                if not done:
                    raise Unsupported("phi " + ins[k][:100])
                k += 1
            env.update(phis)
            nxt = None
            for line in ins[k:]:
                self.steps += 1
                if self.steps > self.MAX:
                    raise Unsupported("too many steps")
                r = self._ins(line, env)
                if r is not None:
                    if r[0] == "ret":
                        return r[1]
                    nxt = r[1]
                    break
            if nxt is None:
                raise Unsupported("block without terminator")
            prev, blk = blk, nxt

    def _ins(self, line, env):
        m = re.match(r"(%(?:\"[^\"]*\"|\S+)) = (.*)$", line)
        dst, body = (m.group(1), m.group(2)) if m else (None, line)
        body = re.split(r", ![\w.]", body)[0]
        op = body.split(" ", 1)[0]
        rest = body[len(op):].strip()
        if op == "br":
            if rest.startswith("label"):
                return ("br", rest.split("%", 1)[1].strip().strip('"'))
            ps = _split(rest)
            c = self._val("i1", _take_type(ps[0])[1], env)
            t = _truth(c)
            return ("br", ps[1 if t else 2].split("%", 1)[1].strip('"'))
        if op == "ret":
            if rest == "void":
                return ("ret", None)
            t, r = _take_type(rest)
            return ("ret", self._val(t, r, env))
        if op == "unreachable":
            raise Panic("unreachable code reached")
        if op == "switch":
            m = re.match(r"(i\d+) (\S+), label %(\S+) \[(.*)\]", rest)
            w = int(m.group(1)[1:])
            v = self._val(m.group(1), m.group(2), env)
            v = _conc(v)
            for mm in re.finditer(r"i\d+ (-?\w+), label %(\S+)", m.group(4)):
                c = mm.group(1)
                c = int(c == "true") if c in ("true", "false") else int(c)
                if c % (1 << w) == v % (1 << w):
                    return ("br", mm.group(2).strip('"'))
            return ("br", m.group(3).strip('"'))
        if op in ("tail", "musttail", "notail"):
            op = "call"
            rest = rest[5:]
        if op == "call":
            v = self._call(rest, env)
            if dst:
                env[dst] = v
            return None
        if op == "store":
            ps = _split(rest)
            t, r = _take_type(ps[0])
            v = self._val(t, r, env)
            p = self._val("ptr", _take_type(ps[1])[1], env)
            self._store(p, t, v)
            return None
        env[dst] = self._op(op, rest, env)
        return None

    def _store(self, p, t, v):
        if not isinstance(p, Ptr):
            raise Unsupported("store through " + repr(p))
        if t[0] in "{[" and isinstance(v, dict):
            for k, x in v.items():
                self._store(Ptr(p.mem, p.off + field_offset(t, k)), elem_type(t, k), x)
            return
        p.mem.store(p.off, type_size(t), v)

    def _load(self, p, t):
        if not isinstance(p, Ptr):
            raise Unsupported("load through " + repr(p))
        if t[0] in "{[":
            n = len(_split(t[1:-1])) if t[0] == "{" else int(t[1:].split(" ")[0])
            return {k: self._load(Ptr(p.mem, p.off + field_offset(t, k)), elem_type(t, k)) for k in range(n)}
        v = p.mem.load(p.off, type_size(t), t)
        if t == "double" and isinstance(v, float) and p.mem.name.startswith("@"):
            return self.const(v)
        if t == "double" and isinstance(v, int):
            return self.const(struct.unpack("<d", (v % (1 << 64)).to_bytes(8, "little"))[0])
        return v

    def _op(self, op, rest, env):
        rest = re.sub(r"^((?:nuw|nsw|exact|nneg|disjoint|inbounds|nusw|samesign|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|volatile)\s+)+", "", rest)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            t, r = _take_type(rest)
            a, b = _split(r)
            return fop(op, self._val(t, a, env), self._val(t, b, env))
        if op == "fneg":
            t, r = _take_type(rest)
            return -self._val(t, r, env)
        if op == "fcmp":
            pred, r = rest.split(" ", 1)
            t, r = _take_type(r)
            a, b = _split(r)
            return fcmp(pred, self._val(t, a, env), self._val(t, b, env))
        if op == "icmp":
            pred, r = rest.split(" ", 1)
            t, r = _take_type(r)
            a, b = _split(r)
            return icmp(pred, self._val(t, a, env), self._val(t, b, env), t)
        if op == "select":
            ps = _split(rest)
            c = _truth(self._val("i1", _take_type(ps[0])[1], env))
            t, r = _take_type(ps[1 if c else 2])
            return self._val(t, r, env)
        if op == "alloca":
            t = _split(rest)[0]
            return Ptr(Mem("alloca", type_size(t)))
        if op == "load":
            ps = _split(rest)
            p = self._val("ptr", _take_type(ps[1])[1], env)
            return self._load(p, ps[0])
        if op == "getelementptr":
            return self._gep(_split(rest), env)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            t, r = _take_type(rest)
            a, b = _split(r)
            return iop(op, self._val(t, a, env), self._val(t, b, env), t)
        if op in ("zext", "sext", "trunc", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fptrunc", "fpext",
                  "ptrtoint", "inttoptr"):
            src, to = rest.rsplit(" to ", 1)
            t, r = _take_type(src)
            return cast(op, self._val(t, r, env), t, to)
        if op == "freeze":
            t, r = _take_type(rest)
            return self._val(t, r, env)
        if op == "extractvalue":
            ps = _split(rest)
            t, r = _take_type(ps[0])
            v = self._val(t, r, env)
            for k in ps[1:]:
                v = v[int(k)]
            return v
        if op == "insertvalue":
            ps = _split(rest)
            t, r = _take_type(ps[0])
            v = dict(self._val(t, r, env))
            t2, r2 = _take_type(ps[1])
            if len(ps) != 3:
                raise Unsupported("nested insertvalue")
            v[int(ps[2])] = self._val(t2, r2, env)
            return v
        raise Unsupported("instruction " + op + " " + rest[:80])

    def _call(self, rest, env):
        m = re.search(r"(@(?:\"[^\"]*\"|[\w.$]+)|%[\w.$\"-]+)\(", rest)
        callee = m.group(1)
        i = m.end()
        d, j = 1, i
        while d:
            d += {"(": 1, ")": -1}.get(rest[j], 0)
            j += 1
        args = []
        for p in _split(rest[i:j - 1]):
            if p.startswith("metadata"):
                args.append(None)
                continue
            t, r = _take_type(p)
            args.append(self._val(t, _strip_attrs(r), env))
        if callee[0] == "%":
            v = env[callee]
            if not isinstance(v, tuple):
                raise Unsupported("indirect call")
            name = v[1]
        else:
            name = callee[1:].strip('"')
        return self.invoke(name, args)

    def invoke(self, name, args):
        for k, fn in self.intercept.items():
            if name.endswith(k) or k in name:
                return fn(self, *args)
        if name in self.ext:
            self.used.add(name)
            return self.ext[name](self, *args)
        if name.startswith("llvm."):
            return self._intrinsic(name, args)
        f = self.m.find(name)
        if f is not None:
            return self._run(f, args)
        if name in ("log", "exp", "sqrt", "atan", "sin", "cos", "tan", "pow", "fabs", "sinh", "cosh", "tanh"):
            return lib(name, args)
        if "no_alloc_shim" in name:
            return None
        if "rust_alloc" in name and "error" not in name:
            if "no_alloc_shim" in name:
                return None
            mem = Mem("heap", args[0])
            if "zeroed" in name:
                mem.data = bytes(args[0])
            return Ptr(mem)
        if "RawVecInner" in name and "try_allocate_in" in name:
            out, cap, _zeroed, _align, size = (args + [8, 8])[:5]
            out.mem.store(out.off, 8, 0)
            out.mem.store(out.off + 8, 8, _conc(cap))
            out.mem.store(out.off + 16, 8, Ptr(Mem("heap", _conc(cap) * _conc(size))))
            return None
        if "rust_dealloc" in name or ("RawVecInner" in name and "deallocate" in name):
            return None
        if PANIC.search(name):
            raise Panic(name)
        raise Unsupported("call of " + name)

    def _intrinsic(self, name, a):
        n = name[5:]
        base = n.split(".")[0]
        if base in ("sqrt", "log", "exp", "sin", "cos", "pow", "powi", "fabs", "tan", "atan", "log10", "log2"):
            return lib(base, a)
        if n.startswith("fma.") or n.startswith("fmuladd"):
            return fop("fadd", fop("fmul", a[0], a[1]), a[2])
        if base in ("maxnum", "maximumnum", "maximum", "minnum", "minimumnum", "minimum"):
            x, y = a
            if _nan(x):
                return y
            if _nan(y):
                return x
            big = _truth(fcmp("oge", x, y))
            return (x if big else y) if base.startswith("max") else (y if big else x)
        if base == "copysign":
            v = lib("fabs", [a[0]])
            return -v if _truth(fcmp("olt", a[1], 0.0)) else v
        if base in ("umin", "umax", "smin", "smax"):
            f = min if base.endswith("min") else max
            return f(_conc(a[0]), _conc(a[1]))
        if base in ("lifetime", "assume", "experimental", "dbg", "donothing", "invariant"):
            return None
        if base == "expect":
            return a[0]
        if n.startswith("memcpy") or n.startswith("memmove"):
            d, s, k = a[0], a[1], a[2]
            items = [(o, c) for o, c in s.mem.cells.items() if s.off <= o < s.off + k]
            if s.mem.data is not None:
                have = {o for o, _ in items}
                for o in range(s.off, s.off + k, 8):
                    if o not in have and o + 8 <= len(s.mem.data):
                        d.mem.store(d.off + o - s.off, 8, int.from_bytes(s.mem.data[o:o + 8], "little"))
            for o, (sz, v) in items:
                d.mem.store(d.off + o - s.off, sz, v)
            return None
        if n.startswith("memset"):
            d, v, k = a[0], a[1], a[2]
            for o in range(0, k, 8):
                d.mem.store(d.off + o, min(8, k - o), 0 if v == 0 else int.from_bytes(bytes([v]) * 8, "little"))
            return None
        if n.startswith("fptosi.sat") or n.startswith("fptoui.sat"):
            return cast("fptosi", a[0], "double", "i64")
        if base in ("uadd", "usub", "umul", "sadd", "ssub", "smul") and "overflow" in n:
            w = int(re.search(r"i(\d+)$", n).group(1))
            x, y = _conc(a[0]), _conc(a[1])
            sg = base[0] == "s"
            if sg:
                x, y = _signed(x, w), _signed(y, w)
            r = {"add": x + y, "sub": x - y, "mul": x * y}[base[1:]]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
            return {0: r % (1 << w), 1: int(not lo <= r <= hi)}
        if n.startswith("is.fpclass"):
            x, mask = a
            if isinstance(x, float):
                if math.isnan(x):
                    return int(bool(mask & 3))
                if math.isinf(x):
                    return int(bool(mask & (512 if x > 0 else 4)))
            fin = mask & (8 | 16 | 32 | 64 | 128 | 256)
            if fin == 0:
                return 0
            if fin == (8 | 16 | 32 | 64 | 128 | 256):
                return 1
            raise Unsupported("is.fpclass")
        if n.startswith("ctlz"):
            w = int(re.search(r"i(\d+)$", n).group(1))
            return w - _conc(a[0]).bit_length()
        if base in ("abs",):
            return abs(_conc(a[0]))
        if base in ("trap", "ubsantrap"):
            raise Panic("trap")
        raise Unsupported("intrinsic " + name)


def _truth(c):
    if isinstance(c, (SymBool,)):
        return bool(c)
    return bool(c)


def _conc(v):
    if isinstance(v, SymBool):
        return int(bool(v))
    if isinstance(v, int):
        return int(v)
    raise Unsupported("symbolic integer")


def _signed(v, w):
    v %= 1 << w
    return v - (1 << w) if v >> (w - 1) else v


def _nan(x):
    return isinstance(x, float) and math.isnan(x)


def fop(op, a, b):
    if not S.is_sym(a) and not S.is_sym(b):
        if isinstance(a, float) and isinstance(b, float):
            try:
                if op == "fdiv":
                    if b == 0:
                        return math.nan if a == 0 or math.isnan(a) else math.copysign(math.inf, a) * math.copysign(1, b)
                    if _exactable(a) and _exactable(b):
                        return S.const(Fraction(S.snap(a)) / Fraction(S.snap(b)))
                    return a / b
                if op == "frem":
                    return math.fmod(a, b)
                r = {"fadd": a + b, "fsub": a - b, "fmul": a * b}[op]
                if math.isfinite(r) and math.isfinite(a) and math.isfinite(b) and (a != int(a) or b != int(b)):
                    fa, fb = S.snap(a), S.snap(b)
                    return S.const({"fadd": fa + fb, "fsub": fa - fb, "fmul": fa * fb}[op])
                return r
            except OverflowError:
                return math.inf
    if op == "fadd":
        return a + b
    if op == "fsub":
        return a - b
    if op == "fmul":
        return a * b
    if op == "fdiv":
        return S.lift(a) / b if not S.is_sym(a) else a / b
    raise Unsupported(op)


def _exactable(a):
    return math.isfinite(a)


def fcmp(pred, a, b):
    if pred == "true" or pred == "false":
        return int(pred == "true")
    nan = _nan(a) or _nan(b)
    if pred == "ord":
        return int(not nan)
    if pred == "uno":
        return int(nan)
    if nan:
        return int(pred[0] == "u")
    o = _DIM[pred]
    r = {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
         "==": lambda: a == b, "!=": lambda: a != b}[o]()
    return r if isinstance(r, SymBool) else int(bool(r))


def icmp(pred, a, b, t):
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        if t == "i1" and pred in ("eq", "ne") and not (isinstance(a, SymBool) and isinstance(b, SymBool)):
            x, c = (a, b) if isinstance(a, SymBool) else (b, a)
            return x if (pred == "eq") == bool(c) else bnot(x)
        a, b = _conc(a), _conc(b)
    if isinstance(a, (Ptr, tuple)) or isinstance(b, (Ptr, tuple)):
        if pred == "eq":
            return int(a == b)
        if pred == "ne":
            return int(a != b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.mem is b.mem:
            a, b = a.off, b.off
        else:
            raise Unsupported("pointer comparison")
    if S.is_sym(a) or S.is_sym(b):
        return {"eq": lambda: a == b, "ne": lambda: a != b, "slt": lambda: a < b, "sgt": lambda: a > b,
                "sle": lambda: a <= b, "sge": lambda: a >= b}[pred]()
    w = 64 if t == "ptr" else int(t[1:])
    if pred[0] == "s":
        a, b = _signed(a, w), _signed(b, w)
    else:
        a, b = a % (1 << w), b % (1 << w)
    p = pred if pred in ("eq", "ne") else pred[1:]
    return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p])


class Bits:
    """The bit pattern of a symbolic number (whole), or some of its bits: neither may decide anything."""

    def __init__(self, v=None):
        self.v = v


def iop(op, a, b, t):
    if isinstance(a, Bits) or isinstance(b, Bits):
        return Bits()
    if t == "i1" and (isinstance(a, SymBool) or isinstance(b, SymBool)):
        x, y = (a, b) if isinstance(a, SymBool) else (b, a)
        if op == "and":
            return (x & y) if isinstance(y, SymBool) else (x if y else 0)
        if op == "or":
            return bor(x, y) if isinstance(y, SymBool) else (1 if y else x)
        if op == "xor":
            if isinstance(y, SymBool):
                return int(bool(x) != bool(y))
            return bnot(x) if y else x
    if S.is_sym(a) or S.is_sym(b):
        if op == "sub":
            return a - b
        if op == "add":
            return a + b
        raise Unsupported("integer " + op)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.mem is b.mem:
            return a.off - b.off
        raise Unsupported("pointer arithmetic")
    a, b = _conc(a), _conc(b)
    w = int(t[1:])
    M = 1 << w
    ua, ub, sa, sb = a % M, b % M, _signed(a, w), _signed(b, w)
    r = {"add": lambda: ua + ub, "sub": lambda: ua - ub, "mul": lambda: ua * ub,
         "udiv": lambda: ua // ub, "urem": lambda: ua % ub,
         "sdiv": lambda: int(abs(sa) // abs(sb)) * (1 if (sa < 0) == (sb < 0) else -1),
         "srem": lambda: int(math.fmod(sa, sb)), "shl": lambda: ua << ub, "lshr": lambda: ua >> ub,
         "ashr": lambda: sa >> ub, "and": lambda: ua & ub, "or": lambda: ua | ub, "xor": lambda: ua ^ ub}[op]()
    return r % M


def cast(op, v, t, to):
    if op in ("fptrunc", "fpext"):
        return v
    if op in ("ptrtoint", "inttoptr"):
        return v
    if op in ("sitofp", "uitofp"):
        if S.is_sym(v):
            return v
        v = _conc(v)
        return float(_signed(v, int(t[1:]))) if op == "sitofp" else float(v)
    if op in ("fptosi", "fptoui"):
        if isinstance(v, float):
            if not math.isfinite(v):
                return 0
            return int(v) % (1 << int(to[1:]))
        if S.is_sym(v):
            return v
    if op == "bitcast":
        if t == "double" and to[0] == "i" and isinstance(v, float):
            return int.from_bytes(struct.pack("<d", v), "little")
        if to == "double" and isinstance(v, int):
            return struct.unpack("<d", v.to_bytes(8, "little"))[0]
        if t == to:
            return v
        if t == "double" and S.is_sym(v):
            return Bits(v)
        if isinstance(v, Bits):
            return v.v if to == "double" and v.v is not None else Bits()
        raise Unsupported("bitcast")
    if op in ("zext", "sext", "trunc"):
        if isinstance(v, Bits):
            return Bits()
        if isinstance(v, SymBool):
            v = int(bool(v))
        if isinstance(v, (Ptr,)) or S.is_sym(v):
            return v
        if op == "trunc":
            return v % (1 << int(to[1:]))
        if op == "sext":
            return _signed(v, int(t[1:])) % (1 << int(to[1:]))
        return v
    raise Unsupported(op)


def lib(name, a):
    x = a[0]
    if name in ("pow", "powi"):
        e = a[1]
        if not S.is_sym(x) and not S.is_sym(e):
            try:
                if float(e) == int(e) and abs(e) < 64 and math.isfinite(x):
                    return S.const(S.snap(float(x)) ** int(e))
                return float(x) ** float(e)
            except (OverflowError, ZeroDivisionError):
                raise Unsupported("pow") from None
        if isinstance(e, float) and e == int(e):
            e = int(e)
        return S.lift(x) ** e
    if name == "fabs":
        return abs(x)
    if _nan(x):
        return math.nan
    fn = {"log": S.log, "exp": S.exp, "sqrt": S.sqrt, "sin": S.sin, "cos": S.cos}.get(name)
    if fn is not None:
        return fn(S.lift(x))
    v = S.lift(x)
    if not S.is_sym(v):
        return getattr(math, name)(v)
    return {"atan": v.arctan, "tan": v.tan, "sinh": v.sinh, "cosh": v.cosh, "tanh": v.tanh,
            "log10": v.log10, "log2": v.log2}[name]()
