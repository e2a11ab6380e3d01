"""Symbolic execution of the compiled kernels: the C++ sources are compiled to LLVM IR by clang on every run, and the IR of
the functions that the extension module exports is interpreted with symbolic doubles (integers, pointers and control flow
over them stay concrete; a branch on a symbolic double is explored)."""

import math
import os
import re
import struct
import subprocess

import numpy as _np

from . import sym
from .sym import Sym, SymBool, Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))


class OutOfBounds(Exception):
    pass


class Ptr:
    __slots__ = ("mem", "off")

    def __init__(self, mem, off=0):
        self.mem, self.off = mem, off

    def __add__(self, n):
        return Ptr(self.mem, self.off + n)

    def __sub__(self, o):
        if isinstance(o, Ptr):
            if o.mem is not self.mem:
                raise Unsupported("difference of pointers to different objects")
            return self.off - o.off
        return Ptr(self.mem, self.off - o)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.mem is self.mem and o.off == self.off

    def __hash__(self):
        return hash((id(self.mem), self.off))


class Mem:
    """an allocation: values by byte offset"""

    def __init__(self, size, name=""):
        self.size, self.name, self.cells = size, name, {}

    def store(self, off, n, v):
        if off < 0 or off + n > self.size:
            raise OutOfBounds(f"store of {n} bytes at offset {off} of {self.name} ({self.size} bytes)")
        self.cells[off] = (n, v)

    def load(self, off, n, ty):
        if off < 0 or off + n > self.size:
            raise OutOfBounds(f"load of {n} bytes at offset {off} of {self.name} ({self.size} bytes)")
        c = self.cells.get(off)
        if c is None:
            raise Unsupported(f"load of an uninitialised or partly written value in {self.name}")
        if c[0] != n:
            if c[1] == 0 and c[0] > n:
                return 0.0 if ty == "double" else 0
            raise Unsupported("load of a different size")
        return c[1]


class ArrayMem(Mem):
    """the memory of a numpy array of (symbolic) doubles"""

    def __init__(self, flat, name):
        self.flat, self.size, self.name = flat, 8 * len(flat), name

    def store(self, off, n, v):
        if off < 0 or off + n > self.size:
            raise OutOfBounds(f"store outside {self.name}: element {off // 8} of {self.size // 8}")
        if off % 8 or n != 8:
            raise Unsupported("partial store to an array")
        self.flat[off // 8] = v

    def load(self, off, n, ty):
        if off < 0 or off + n > self.size:
            raise OutOfBounds(f"load outside {self.name}: element {off // 8} of {self.size // 8}")
        if off % 8 or n != 8:
            raise Unsupported("partial load from an array")
        return self.flat[off // 8]


def array_ptr(a, name):
    """pointer to the first element of a, in the memory of the array that owns it (strides are not seen by the callee)"""
    base = a
    while isinstance(base.base, _np.ndarray):
        base = base.base
    flat = _np.asarray(base).view(_np.ndarray)
    if not flat.flags.c_contiguous and not flat.flags.f_contiguous:
        raise Unsupported("array memory with holes")
    flat = flat.reshape(-1, order="C" if flat.flags.c_contiguous else "F")
    off = a.__array_interface__["data"][0] - base.__array_interface__["data"][0]
    return Ptr(ArrayMem(flat, name), off)


# --- parsing


def _split(s):
    """split at top-level commas"""
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{<":
                depth += 1
            elif ch in ")]}>":
                depth -= 1
            elif ch == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


_NAME = r'%(?:"[^"]*"|[-a-zA-Z$._0-9]+)'
_ATTRS = re.compile(
    r"\b(noundef|nonnull|nocapture|readonly|writeonly|readnone|zeroext|signext|noalias|returned|nofree|immarg|inreg|nest|"
    r"align \d+|dereferenceable(?:_or_null)?\(\d+\)|dead_on_unwind|writable|local_unnamed_addr|unnamed_addr|inbounds|nuw|nsw|nneg|disjoint|"
    r"exact|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|tail|musttail|notail|fastcc|ccc|range\([^)]*\)|captures\([^)]*\)|sret\([^)]*\))\b ?"
)


class Types:
    def __init__(self):
        self.named = {}

    def take(self, s):
        """(type, rest) from the front of s"""
        s = s.lstrip()
        if s[0] in "[{<":
            depth = 0
            q = False
            for i, ch in enumerate(s):
                if ch == '"':
                    q = not q
                if q:
                    continue
                if ch in "[{<":
                    depth += 1
                elif ch in "]}>":
                    depth -= 1
                    if depth == 0:
                        return s[: i + 1], s[i + 1:].lstrip()
        m = re.match(rf"({_NAME}|[a-z]+\d*)(\s|$|,)", s) or re.match(rf"({_NAME}|[a-z]+\d*)", s)
        return m.group(1), s[m.end(1):].lstrip()

    def fields(self, t):
        t = self.named.get(t, t)
        if t.startswith("["):
            n, el = re.match(r"\[(\d+) x (.*)\]$", t).groups()
            return [el] * int(n)
        if t.startswith("{"):
            return _split(t[1:-1])
        return None

    def size(self, t):
        return self._sa(t)[0]

    def _sa(self, t):
        t = self.named.get(t, t)
        base = {"i1": (1, 1), "i8": (1, 1), "i16": (2, 2), "i32": (4, 4), "i64": (8, 8), "double": (8, 8), "float": (4, 4), "ptr": (8, 8)}
        if t in base:
            return base[t]
        f = self.fields(t)
        if f is None:
            raise Unsupported(f"type {t}")
        if t.startswith("["):
            s, a = self._sa(f[0]) if f else (0, 1)
            return s * len(f), a
        off, al = 0, 1
        for x in f:
            s, a = self._sa(x)
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al, al

    def offset(self, t, k):
        t = self.named.get(t, t)
        if t.startswith("["):
            return k * self.size(self.fields(t)[0]), self.fields(t)[0]
        off = 0
        for j, x in enumerate(self.fields(t)):
            s, a = self._sa(x)
            off = (off + a - 1) // a * a
            if j == k:
                return off, x
            off += s
        raise Unsupported("field out of range")


class Module:
    def __init__(self, text):
        self.t = Types()
        self.strings, self.functions = {}, {}
        cur = None
        for line in text.splitlines():
            line = re.sub(r", ![a-z.]+ !\d+", "", line)
            line = re.sub(r"\s*;[^\"]*$", "", line) if not line.startswith("@") else line
            if cur is None:
                m = re.match(rf"({_NAME}) = type (.*)$", line)
                if m:
                    self.t.named[m.group(1)] = m.group(2)
                    continue
                m = re.match(r'(@[-\w$."]+) = .*? c"(.*)"', line)
                if m:
                    self.strings[m.group(1)] = re.sub(r"\\([0-9A-F]{2})", lambda k: chr(int(k.group(1), 16)), m.group(2)).split("\0")[0]
                    continue
                m = re.match(r"(@[-\w$.\"]+) = .*?(?:constant|global) (double|i32|i64|i8|i1) ([-\w.]+)", line)
                if m:
                    self.strings[m.group(1)] = (m.group(2), m.group(3))
                    continue
                m = re.match(r"define .*?(@[-\w$.\"]+)\((.*)\)[^()]*\{$", line)
                if m:
                    params = []
                    for p in _split(m.group(2)):
                        byval = re.search(rf"byval\(({_NAME}|[^)]*)\)", p)
                        params.append((re.search(rf"({_NAME})$", p).group(1) if re.search(rf"({_NAME})$", p) else None, byval.group(1) if byval else None))
                    cur = self.functions[m.group(1)] = dict(params=params, blocks={}, order=[])
                    label, block = None, []
                continue
            if line == "}":
                cur["blocks"][label] = block
                cur["order"].append(label)
                cur = None
                continue
            m = re.match(r'("[^"]*"|[-\w$.]+):', line)
            if m:
                if block or label is not None:
                    cur["blocks"][label] = block
                    cur["order"].append(label)
                label, block = m.group(1), []
                continue
            if line.strip():
                if block and block[-1].startswith("switch") and not block[-1].endswith("]"):
                    block[-1] += " " + line.strip()
                else:
                    block.append(line.strip())
        for f in self.functions.values():
            for k, (n, b) in enumerate(f["params"]):
                if n is None:
                    f["params"][k] = (f"%{k}", b)


class Machine:
    STEPS = 3_000_000

    def __init__(self, module, complex_step=None):
        self.m, self.t = module, module.t
        self.steps = 0
        self.exports = []
        self.strings = {}
        self.decoded = {}

    # --- values
    def const(self, ty, s):
        if s.startswith("@"):
            return s
        if ty == "ptr":
            return 0 if s in ("null", "undef", "poison") else self._unsupported(s)
        if ty == "double":
            if s in ("undef", "poison"):
                return 0.0
            if s.startswith("0x"):
                return struct.unpack(">d", bytes.fromhex(s[2:].rjust(16, "0")))[0]
            return float(s)
        if ty == "i1":
            return {"true": 1, "false": 0, "undef": 0, "poison": 0}.get(s, None) if not s.lstrip("-").isdigit() else int(s) & 1
        if ty.startswith("i"):
            return 0 if s in ("undef", "poison") else int(s)
        if s in ("zeroinitializer", "undef", "poison"):
            return [self.const(f, "zeroinitializer" if self.t.fields(f) else ("null" if f == "ptr" else "0.0" if f == "double" else "0")) for f in self.t.fields(ty)]
        f = self.t.fields(ty)
        if f is not None and s[0] in "[{":
            out = []
            for part in _split(s[1:-1]):
                pt, r = self.t.take(part)
                out.append(self.const(pt, r))
            return out
        return self._unsupported(f"{ty} {s}")

    def _unsupported(self, s):
        raise Unsupported(f"LLVM: {s}")

    def val(self, ty, s, env):
        return env[s] if s[0] == "%" else self.const(ty, s)

    @staticmethod
    def wrap(ty, v):
        if isinstance(v, Ptr):
            return v
        n = int(ty[1:])
        v &= (1 << n) - 1
        return v - (1 << n) if n > 1 and v >> (n - 1) else v

    @staticmethod
    def truth(v):
        """Python bool of an i1, exploring both outcomes when symbolic"""
        return bool(v)

    # --- memory
    def load(self, ty, p):
        if not isinstance(p, Ptr):
            if isinstance(p, str) and p in self.m.strings and isinstance(self.m.strings[p], tuple):
                return self.const(*self.m.strings[p])
            raise OutOfBounds("load through a null pointer")
        f = self.t.fields(ty)
        if f is not None:
            return [self.load(x, p + self.t.offset(ty, k)[0]) for k, x in enumerate(f)]
        return p.mem.load(p.off, self.t.size(ty), ty)

    def store(self, ty, v, p):
        if not isinstance(p, Ptr):
            raise OutOfBounds("store through a null pointer")
        f = self.t.fields(ty)
        if f is not None:
            for k, x in enumerate(f):
                self.store(x, v[k], p + self.t.offset(ty, k)[0])
            return
        p.mem.store(p.off, self.t.size(ty), v)

    # --- execution
    def call(self, name, args):
        f = self.m.functions.get(name)
        if f is None:
            return self.external(name, args)
        env = {}
        for (pn, byval), a in zip(f["params"], args):
            if byval:
                c = Ptr(Mem(self.t.size(byval), "by-value argument"))
                self.copy(c, a, self.t.size(byval))
                a = c
            env[pn] = a
        label, prev = f["order"][0], None
        entry = str(len(f["params"]))
        while True:
            code = self.decode(name, label, f)
            # phi nodes are parallel
            new = {}
            i = 0
            while i < len(code) and code[i][0] == "phi":
                _, dst, ty, inc = code[i]
                key = prev if prev in inc else (entry if prev is None or prev == f["order"][0] else prev)
                new[dst] = self.val(ty, inc[key], env)
                i += 1
            env.update(new)
            nxt = None
            for ins in code[i:]:
                self.steps += 1
                if self.steps > self.STEPS:
                    raise Unsupported("too many steps")
                r = self.step(ins, env)
                if r is not None:
                    nxt = r
                    break
            if nxt[0] == "ret":
                return nxt[1]
            prev, label = (label if label is not None else entry), nxt[1]

    def copy(self, dst, src, n):
        if isinstance(src.mem, ArrayMem) or isinstance(dst.mem, ArrayMem):
            for o in range(0, n, 8):
                dst.mem.store(dst.off + o, 8, src.mem.load(src.off + o, 8, "double"))
            return
        for o, (sz, v) in list(src.mem.cells.items()):
            if src.off <= o and o + sz <= src.off + n:
                dst.mem.store(dst.off + o - src.off, sz, v)

    def decode(self, name, label, f):
        k = (name, label)
        c = self.decoded.get(k)
        if c is None:
            c = self.decoded[k] = [self.parse(x) for x in f["blocks"][label]]
        return c

    def parse(self, s):
        s = re.sub(r", !.*$", "", s)
        s = re.sub(r" #\d+$", "", s)
        m = re.match(rf"({_NAME}) = (.*)$", s)
        dst, s = (m.group(1), m.group(2)) if m else (None, s)
        op, _, rest = s.partition(" ")
        if op in ("tail", "musttail", "notail"):
            op, _, rest = rest.partition(" ")
        t = self.t
        if op == "call":
            body = rest
            m = re.search(r"(@[-\w$.\"]+|" + _NAME + r")\((.*)\)$", body)
            if m is None:
                self._unsupported(s)
            args = []
            for a in _split(m.group(2)):
                if a.startswith("metadata"):
                    continue
                ty, r = t.take(a)
                r = re.sub(r"byval\([^)]*\)|sret\([^)]*\)", "", r)
                r = _ATTRS.sub("", r).strip()
                args.append((ty, r))
            return ("call", dst, m.group(1), args)
        if op in ("add", "sub", "mul", "shl", "ashr", "lshr", "and", "or", "xor", "sdiv", "udiv", "srem", "urem",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            rest = _ATTRS.sub("", rest)
            ty, r = t.take(rest)
            a, b = _split(r)
            return ("bin", dst, op, ty, a, b)
        if op == "fneg":
            ty, r = t.take(_ATTRS.sub("", rest))
            return ("fneg", dst, ty, r)
        if op in ("icmp", "fcmp"):
            rest = _ATTRS.sub("", rest)
            pred, _, r = rest.partition(" ")
            ty, r = t.take(r)
            a, b = _split(r)
            return (op, dst, pred, ty, a, b)
        if op == "br":
            parts = _split(rest)
            if len(parts) == 1:
                return ("jump", parts[0].split()[1][1:])
            return ("br", parts[0].split()[1], parts[1].split()[1][1:], parts[2].split()[1][1:])
        if op == "switch":
            m = re.match(r"(\w+) (\S+), label %(\S+) \[(.*)\]", rest)
            cases = re.findall(r"\w+ (-?\d+), label %(\S+)", m.group(4))
            return ("switch", m.group(1), m.group(2), m.group(3), {int(a): b for a, b in cases})
        if op == "ret":
            if rest.strip() == "void":
                return ("ret", None, None)
            ty, r = t.take(rest)
            return ("ret", ty, r)
        if op == "phi":
            ty, r = t.take(_ATTRS.sub("", rest))
            inc = {}
            for p in _split(r):
                v, l = _split(p.strip()[1:-1])
                inc[l.strip()[1:]] = v.strip()
            return ("phi", dst, ty, inc)
        if op == "select":
            parts = _split(_ATTRS.sub("", rest))
            c = parts[0].split()[-1]
            ty, a = t.take(parts[1])
            _, b = t.take(parts[2])
            return ("select", dst, c, ty, a, b)
        if op == "load":
            parts = _split(rest)
            ty = parts[0]
            return ("load", dst, ty, parts[1].split()[-1])
        if op == "store":
            parts = _split(rest)
            ty, v = t.take(parts[0])
            return ("store", ty, v, parts[1].split()[-1])
        if op == "alloca":
            return ("alloca", dst, _split(rest)[0])
        if op == "getelementptr":
            parts = _split(_ATTRS.sub("", rest))
            idx = [t.take(p) for p in parts[2:]]
            return ("gep", dst, parts[0], parts[1].split()[-1], idx)
        if op in ("sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast", "sitofp", "uitofp", "fptosi", "freeze", "fpext", "fptrunc"):
            rest = _ATTRS.sub("", rest)
            ty, r = t.take(rest)
            v, _, to = r.partition(" to ")
            return ("cast", dst, op, ty, v.strip(), to.strip())
        if op == "extractvalue":
            parts = _split(rest)
            ty, v = t.take(parts[0])
            return ("extract", dst, ty, v, [int(x) for x in parts[1:]])
        if op == "insertvalue":
            parts = _split(rest)
            ty, v = t.take(parts[0])
            ety, ev = t.take(parts[1])
            return ("insert", dst, ty, v, ety, ev, [int(x) for x in parts[2:]])
        if op == "unreachable":
            return ("unreachable",)
        self._unsupported(s)

    def step(self, ins, env):
        k = ins[0]
        if k == "bin":
            _, d, op, ty, a, b = ins
            a, b = self.val(ty, a, env), self.val(ty, b, env)
            env[d] = self.arith(op, ty, a, b)
        elif k == "load":
            env[ins[1]] = self.load(ins[2], self.val("ptr", ins[3], env))
        elif k == "store":
            self.store(ins[1], self.val(ins[1], ins[2], env), self.val("ptr", ins[3], env))
        elif k == "gep":
            _, d, ty, p, idx = ins
            p = self.val("ptr", p, env)
            off = self.val(*idx[0], env) * self.t.size(ty)
            for it, iv in idx[1:]:
                o, ty = self.t.offset(ty, self.val(it, iv, env))
                off += o
            if not isinstance(p, Ptr):
                if p == 0:
                    p = Ptr(NULL, 0)
                else:
                    self._unsupported("address of a global")
            env[d] = p + off
        elif k == "icmp":
            _, d, pred, ty, a, b = ins
            a, b = self.val(ty, a, env), self.val(ty, b, env)
            env[d] = self.icmp(pred, ty, a, b)
        elif k == "fcmp":
            _, d, pred, ty, a, b = ins
            env[d] = self.fcmp(pred, self.val(ty, a, env), self.val(ty, b, env))
        elif k == "jump":
            return ("br", ins[1])
        elif k == "br":
            return ("br", ins[2] if self.truth(self.val("i1", ins[1], env)) else ins[3])
        elif k == "switch":
            return ("br", ins[4].get(self.val(ins[1], ins[2], env), ins[3]))
        elif k == "ret":
            return ("ret", None if ins[1] is None else self.val(ins[1], ins[2], env))
        elif k == "call":
            _, d, name, args = ins
            if name.startswith("%"):
                name = env[name]
            r = self.call(name, [self.val(t, v, env) for t, v in args])
            if d:
                env[d] = r
        elif k == "select":
            _, d, c, ty, a, b = ins
            c = self.val("i1", c, env)
            a, b = self.val(ty, a, env), self.val(ty, b, env)
            if isinstance(c, SymBool) and ty == "double":
                env[d] = sym.ite(c, sym.lift(a), sym.lift(b))
            else:
                env[d] = a if self.truth(c) else b
        elif k == "cast":
            _, d, op, ty, v, to = ins
            v = self.val(ty, v, env)
            if op in ("ptrtoint", "inttoptr", "freeze", "sext"):
                env[d] = v if not (op == "sext" and ty == "i1") else (-1 if self.truth(v) else 0)
            elif op == "zext":
                if isinstance(v, SymBool):
                    v = 1 if bool(v) else 0
                env[d] = v & ((1 << int(ty[1:])) - 1)
            elif op == "trunc":
                env[d] = self.wrap(to, v)
            elif op == "sitofp":
                env[d] = float(v)
            elif op == "uitofp":
                env[d] = float(v & ((1 << int(ty[1:])) - 1))
            elif op == "bitcast" and ty == to:
                env[d] = v
            else:
                self._unsupported(op)
        elif k == "fneg":
            env[ins[1]] = -self.val(ins[2], ins[3], env)
        elif k == "alloca":
            env[ins[1]] = Ptr(Mem(self.t.size(ins[2]), "a local variable"))
        elif k == "extract":
            v = self.val(ins[2], ins[3], env)
            for i in ins[4]:
                v = v[i]
            env[ins[1]] = v
        elif k == "insert":
            _, d, ty, v, ety, ev, idx = ins
            import copy

            v = copy.copy(self.val(ty, v, env))
            w = v
            for i in idx[:-1]:
                w[i] = copy.copy(w[i])
                w = w[i]
            w[idx[-1]] = self.val(ety, ev, env)
            env[d] = v
        elif k == "unreachable":
            raise OutOfBounds("unreachable code reached")
        else:
            self._unsupported(k)
        return None

    def arith(self, op, ty, a, b):
        if op == "fadd":
            return a + b
        if op == "fsub":
            return a - b
        if op == "fmul":
            return a * b
        if op == "fdiv":
            if not isinstance(b, Sym) and not isinstance(a, Sym) and b == 0:
                return math.nan if a == 0 else math.copysign(math.inf, a)
            return a / b
        if op in ("fadd", "frem"):
            self._unsupported(op)
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            a2, b2 = sym.liftb(bool(a) if isinstance(a, int) else a), sym.liftb(bool(b) if isinstance(b, int) else b)
            if op == "and":
                return sym.sand(a2, b2)
            if op == "or":
                return sym.sor(a2, b2)
            if op == "xor":
                return sym.sor(sym.sand(a2, sym.snot(b2)), sym.sand(sym.snot(a2), b2))
            self._unsupported(op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "add":
                return a + b if isinstance(a, Ptr) else b + a
            if op == "sub":
                return a - b
            self._unsupported(f"{op} of a pointer")
        n = int(ty[1:])
        u = lambda x: x & ((1 << n) - 1)
        if op in ("sdiv", "srem", "udiv", "urem"):
            if b == 0:
                raise OutOfBounds("integer division by zero")
            if op[0] == "u":
                a, b = u(a), u(b)
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            r = q if op[1:] == "div" else a - q * b
        else:
            r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "shl": lambda: a << b, "ashr": lambda: a >> b,
                 "lshr": lambda: u(a) >> b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b}[op]()
        return self.wrap(ty, r)

    def icmp(self, pred, ty, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if pred in ("eq", "ne"):
                return int((a == b) == (pred == "eq"))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.mem is b.mem:
                a, b = a.off, b.off
            else:
                self._unsupported("ordering of pointers")
        if pred[0] == "u" and ty != "ptr":
            n = int(ty[1:])
            a, b = a & ((1 << n) - 1), b & ((1 << n) - 1)
            pred = "s" + pred[1:]
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            a, b = int(bool(a)), int(bool(b))
        return int({"eq": a == b, "ne": a != b, "sgt": a > b, "sge": a >= b, "slt": a < b, "sle": a <= b}[pred])

    def fcmp(self, pred, a, b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            un = a != a or b != b
            if pred in ("ord", "uno"):
                return int(un == (pred == "uno"))
            if un:
                return int(pred[0] == "u" or pred == "true")
        else:
            if pred == "ord":
                return 1
            if pred == "uno":
                return 0
            a, b = sym.lift(a), sym.lift(b)
        p = pred[1:]
        r = {"eq": lambda: a == b, "ne": lambda: a != b, "gt": lambda: a > b, "ge": lambda: a >= b, "lt": lambda: a < b, "le": lambda: a <= b}[p]()
        return r if isinstance(r, SymBool) else int(r)

    # --- functions outside the module
    def external(self, name, a):
        n = name[1:].strip('"')
        if n == "wxv_def":
            s = [self.m.strings[x] if isinstance(x, str) else None for x in (a[0], a[2])]
            self.exports.append((s[0], a[1], s[1]))
            return None
        if n.startswith(("llvm.lifetime", "llvm.assume", "llvm.dbg", "llvm.experimental.noalias", "llvm.donothing", "llvm.invariant")):
            return None
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
            self.copy(a[0], a[1], a[2])
            return None
        if n.startswith("llvm.memset"):
            if a[1] != 0:
                self._unsupported("memset to a value")
            p = a[0]
            if isinstance(p.mem, ArrayMem):
                for o in range(0, a[2], 8):
                    p.mem.store(p.off + o, 8, 0.0)
            else:
                for o in range(0, a[2], 8):
                    p.mem.store(p.off + o, min(8, a[2] - o), 0)
            return None
        base = n.replace("llvm.", "").replace(".f64", "")
        f1 = {"sqrt": math.sqrt, "exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tan": math.tan, "fabs": math.fabs}
        s1 = {"sqrt": sym.sqrt, "fabs": sym.sabs}
        if base in f1:
            x = a[0]
            if not isinstance(x, Sym):
                return f1[base](x)
            return s1[base](x) if base in s1 else sym.fun(base, x)
        if base in ("pow",):
            if any(isinstance(x, Sym) for x in a):
                return sym.power(sym.lift(a[0]), sym.lift(a[1]))
            return math.pow(*a)
        if base in ("maxnum", "fmax", "maximum", "minnum", "fmin", "minimum"):
            if any(isinstance(x, Sym) for x in a):
                return (sym.smax if "max" in base else sym.smin)(sym.lift(a[0]), sym.lift(a[1]))
            return (max if "max" in base else min)(*a)
        if base in ("fmuladd", "fma"):
            return a[0] * a[1] + a[2]
        m = re.match(r"llvm\.([su])(max|min)\.i\d+", n)
        if m:
            return (max if m.group(2) == "max" else min)(a[0], a[1])
        if n in ("fprintf", "printf", "puts", "putchar", "fflush", "fwrite"):
            return 0
        self._unsupported(f"call of {n}")


NULL = Mem(0, "a null pointer")


def compile_ir(source, include=(), std="c++11"):
    cmd = ["clang++", f"-std={std}", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-fno-exceptions",
           "-fcx-limited-range", "-w", "-S", "-emit-llvm", "-I", os.path.join(HERE, "pystub"), *[x for i in include for x in ("-I", i)], source, "-o", "-"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Unsupported("clang: " + r.stderr[:400])
    return Module(r.stdout)


class Extension:
    """Stands for the compiled extension module: attribute access gives the exported functions, executed symbolically"""

    def __init__(self, source):
        self.machine = Machine(compile_ir(source))
        self.machine.call("@wxv_init", [])
        self.names = {n for n, _, _ in self.machine.exports}
        self.called = set()

    def __getattr__(self, name):
        if name.startswith("_") or name not in self.__dict__["names"]:
            raise AttributeError(name)
        cands = [(f, s) for n, f, s in self.machine.exports if n == name and "complex" not in s]
        if not cands:
            raise AttributeError(name)
        f = cands[0][0]

        def run(*args):
            self.called.add(name)
            self.machine.steps = 0
            out = []
            for k, a in enumerate(args):
                if isinstance(a, _np.ndarray):
                    h = Mem(8, "an array object")
                    h.store(0, 8, array_ptr(a, f"argument {k} of {name}"))
                    out.append(Ptr(h))
                else:
                    out.append(int(a))
            return self.machine.call(f, out)

        return run
