"""LLVM IR (text) -> Python: the executor for lambdapic's C sources.

clang lowers the current /repo sources (with the environment-model headers in
stubs/), this module parses the IR and emits one Python function per IR
function.  Integers and addresses are concrete; doubles are whatever the memory
holds: exact rationals or symbolic reals (sreal.R).  Every load and store is
checked (bounds, lifetime, initialisation, type).
"""
import os
import re
import subprocess
import tempfile
from fractions import Fraction
import math
import struct

from .sreal import R, B, fr

HERE = os.path.dirname(os.path.abspath(__file__))


class IRError(Exception):
    """the lowered code is outside the executor's reach"""


# --------------------------------------------------------------------------- compile
def lower(path, openmp=False, defines=()):
    with tempfile.TemporaryDirectory(prefix="symir") as d:
        a = os.path.join(d, "a.ll"); b = os.path.join(d, "b.ll")
        cmd = ["clang-18", "-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-fno-math-errno",
               "-fno-trapping-math", "-I" + os.path.join(HERE, "stubs"), "-S", "-emit-llvm", "-w", path, "-o", a]
        if openmp:
            cmd.insert(1, "-fopenmp")
        cmd[1:1] = list(defines)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise IRError("clang: " + r.stderr[-2000:])
        r = subprocess.run(["opt-18", "-S", "-passes=sroa,simplifycfg", a, "-o", b], capture_output=True, text=True)
        if r.returncode:
            raise IRError("opt: " + r.stderr[-2000:])
        with open(b) as f:
            return f.read()


# --------------------------------------------------------------------------- tokens
_tok = re.compile(r'''\s*(?:(;.*)|(%"[^"]*"|@"[^"]*"|%[\w.$-]+|@[\w.$-]+|c"[^"]*"|"[^"]*"|0x[KMLH]?[0-9A-Fa-f]+|-?\d+\.\d*(?:[eE][+-]?\d+)?|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[(){}\[\]<>,=*|:]|\#\d+|![\w.]*|\$))''')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = _tok.match(s, i)
        if not m:
            if not s[i:].strip():
                break
            raise IRError("token: " + s[i:i + 40])
        i = m.end()
        if m.group(2) is not None:
            out.append(m.group(2))
    return out


ATTRS = {"noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "readonly", "writeonly",
         "readnone", "returned", "immarg", "noinline", "nounwind", "internal", "private", "unnamed_addr",
         "local_unnamed_addr", "dso_local", "constant", "global", "external", "inbounds", "nuw", "nsw", "exact",
         "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "tail", "musttail", "notail",
         "volatile", "disjoint", "nneg", "willreturn", "allocptr", "noreturn", "cold", "common", "weak", "hidden",
         "linkonce_odr", "fastcc", "ccc", "samesign", "noext", "atomic", "monotonic", "seq_cst", "acquire",
         "release", "unordered", "syncscope"}


class Parser:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise IRError("expected %s at %s" % (x, self.t[self.i:self.i + 6]))

    def attrs(self):
        while True:
            p = self.peek()
            if p in ATTRS:
                self.i += 1
            elif p in ("align",):
                self.i += 2
            elif p in ("dereferenceable", "dereferenceable_or_null", "memory", "range", "captures", "initializes", "nofpclass", "byval", "sret", "syncscope", "elementtype"):
                if p == "byval":
                    self.byval = True
                self.i += 1
                if self.accept("("):
                    d = 1
                    while d:
                        x = self.next()
                        d += (x == "(") - (x == ")")
            else:
                return

    def type(self):
        x = self.next()
        if x == "[":
            n = int(self.next()); self.expect("x")
            t = self.type(); self.expect("]")
            r = ("a", n, t)
        elif x == "<":
            if self.peek() == "{":
                self.next()
                ts = self.typelist("}")
                self.expect(">")
                r = ("s", tuple(ts), True)
            else:
                raise IRError("vector type")
        elif x == "{":
            r = ("s", tuple(self.typelist("}")), False)
        elif x == "ptr":
            r = ("p",)
        elif x == "double":
            r = ("d",)
        elif x == "float":
            r = ("f",)
        elif x == "void":
            r = ("v",)
        elif x in ("metadata", "label", "token"):
            r = (x,)
        elif x == "opaque":
            r = ("opaque",)
        elif re.fullmatch(r"i\d+", x):
            r = ("i", int(x[1:]))
        elif x[0] == "%":
            r = ("n", x)
        else:
            raise IRError("type " + x)
        # function type suffix "(...)" only in calls
        if self.peek() == "(" and r[0] in ("v", "i", "p", "d") and self.fn_ok:
            self.next()
            d = 1
            while d:
                y = self.next()
                d += (y == "(") - (y == ")")
        return r
    fn_ok = False

    def typelist(self, end):
        ts = []
        if self.accept(end):
            return ts
        while True:
            ts.append(self.type())
            if self.accept(end):
                return ts
            self.expect(",")

    def value(self, ty):
        """-> ('c', python const) | ('v', ssa) | ('g', name) | ('gep', base, off) | ('undef',) | ('zero',) | ('agg', [...]) | ('str', bytes)"""
        x = self.next()
        if x[0] == "%":
            return ("v", x)
        if x[0] == "@":
            return ("g", x[1:].strip('"'))
        if x == "null":
            return ("null",)
        if x in ("undef", "poison"):
            return ("undef",)
        if x == "zeroinitializer":
            return ("zero",)
        if x == "true":
            return ("c", 1)
        if x == "false":
            return ("c", 0)
        if x[:2] == 'c"':
            s = x[2:-1]
            return ("str", re.sub(rb"\\([0-9A-Fa-f]{2})", lambda m: bytes([int(m.group(1), 16)]), s.encode("latin1")))
        if x == "getelementptr":
            self.attrs()
            self.expect("(")
            t = self.type(); self.expect(",")
            self.type(); base = self.value(("p",))
            idx = []
            while self.accept(","):
                self.attrs()
                it = self.type(); v = self.value(it)
                idx.append(v)
            self.expect(")")
            off = 0
            first = True
            for v in idx:
                if v[0] != "c":
                    raise IRError("constant gep index")
                k = v[1]
                if first:
                    off += k * self.m.sizeof(t); first = False
                else:
                    t, o = self.m.elem(t, k)
                    off += o
            return ("gep", base, off)
        if x in ("inttoptr", "ptrtoint", "bitcast", "addrspacecast"):
            raise IRError("constant expression " + x)
        if x in ("[", "{", "<"):
            end = {"[": "]", "{": "}", "<": ">"}[x]
            packed = False
            if x == "<" and self.peek() == "{":
                self.next(); end = "}"; packed = True
            out = []
            if not self.accept(end):
                while True:
                    t = self.type()
                    out.append((t, self.value(t)))
                    if self.accept(end):
                        break
                    self.expect(",")
            if packed:
                self.expect(">")
            return ("agg", out)
        if ty[0] in ("d", "f"):
            if x.startswith("0x"):
                v = struct.unpack(">d", bytes.fromhex(x[2:].rjust(16, "0")))[0]
            else:
                v = float(x)
            return ("c", v)
        return ("c", int(x))


def const_num(v):
    """float literal -> exact number"""
    if v != v or v in (math.inf, -math.inf):
        return v
    q = fr(v)
    return int(q) if q.denominator == 1 else q


class Fn:
    pass


class Module:
    def __init__(self, text, name):
        self.name = name
        self.types = {}
        self.globals = {}
        self.fns = {}
        self.decls = set()
        self.consts = {}
        self._size = {}
        self.parse(text)

    # ------------------------------------------------------------ layout
    def resolve(self, t):
        while t[0] == "n":
            t = self.types[t[1]]
        return t

    def alignof(self, t):
        t = self.resolve(t)
        if t[0] == "i":
            return max(1, min(16, (t[1] + 7) // 8))
        if t[0] in ("d", "p"):
            return 8
        if t[0] == "f":
            return 4
        if t[0] == "a":
            return self.alignof(t[2])
        if t[0] == "s":
            return 1 if t[2] else max([self.alignof(x) for x in t[1]] or [1])
        raise IRError("align %r" % (t,))

    def sizeof(self, t):
        t = self.resolve(t)
        r = self._size.get(t)
        if r is None:
            if t[0] == "i":
                r = max(1, (t[1] + 7) // 8)
            elif t[0] in ("d", "p"):
                r = 8
            elif t[0] == "f":
                r = 4
            elif t[0] == "a":
                r = t[1] * self.sizeof(t[2])
            elif t[0] == "s":
                off = 0
                for x in t[1]:
                    if not t[2]:
                        a = self.alignof(x); off = (off + a - 1) // a * a
                    off += self.sizeof(x)
                a = self.alignof(t); r = (off + a - 1) // a * a
            elif t[0] == "opaque":
                r = 0
            else:
                raise IRError("sizeof %r" % (t,))
            self._size[t] = r
        return r

    def elem(self, t, k):
        t = self.resolve(t)
        if t[0] == "a":
            return t[2], k * self.sizeof(t[2])
        if t[0] == "s":
            off = 0
            for n, x in enumerate(t[1]):
                if not t[2]:
                    a = self.alignof(x); off = (off + a - 1) // a * a
                if n == k:
                    return x, off
                off += self.sizeof(x)
        raise IRError("elem %r" % (t,))

    # ------------------------------------------------------------ parse
    def parse(self, text):
        lines = text.split("\n")
        i = 0
        # pass 1: types
        for ln in lines:
            if ln.startswith("%") and " = type " in ln:
                nm, rest = ln.split(" = type ", 1)
                p = Parser(tokenize(rest), self)
                self.types[nm.strip()] = p.type()
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("@"):
                self.parse_global(ln)
            elif ln.startswith("declare"):
                m = re.search(r"@([\w.$-]+)\(", ln)
                self.decls.add(m.group(1))
            elif ln.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.parse_fn(lines[i], lines[i + 1:j])
                i = j
            i += 1

    def parse_global(self, ln):
        nm, rest = ln.split(" = ", 1)
        nm = nm[1:].strip('"')
        ext = " external " in " " + rest
        rest = re.sub(r", (align|section|comdat|!dbg).*$", "", rest)
        p = Parser(tokenize(rest), self)
        const = False
        while p.peek() in ATTRS or p.peek() in ("thread_local",):
            if p.peek() == "thread_local":
                p.next()
                if p.accept("("):
                    while p.next() != ")":
                        pass
                continue
            if p.next() == "constant":
                const = True
        t = p.type()
        init = None
        if not ext and p.peek() is not None:
            init = p.value(t)
        self.globals[nm] = (t, init, const)

    def parse_fn(self, head, body):
        m = re.search(r"@([\w.$-]+)\(", head)
        name = m.group(1)
        p = Parser(tokenize(head[m.end():]), self)
        args = []
        k = 0
        byval = []
        vararg = False
        if not p.accept(")"):
            while True:
                if p.accept("..."):
                    vararg = True
                    p.expect(")")
                    break
                t = p.type()
                p.byval = False
                p.attrs()
                byval.append(p.byval)
                if p.peek() and p.peek()[0] == "%":
                    args.append((t, p.next()))
                else:
                    args.append((t, "%" + str(k)))
                k += 1
                if p.accept(")"):
                    break
                p.expect(",")
        f = Fn()
        f.name = name; f.args = args; f.byval = byval
        f.blocks = []
        cur = None
        if not re.match(r'^[\w.$"-]+:', body[0]):
            cur = ["%" + str(k), []]
            f.blocks.append(cur)
        buf = None
        for ln in body:
            if buf is not None:
                buf += " " + ln.strip()
                if ln.strip().startswith("]"):
                    cur[1].append(buf); buf = None
                continue
            if not ln.strip():
                continue
            m = re.match(r'^([\w.$-]+|"[^"]*"):', ln)
            if m:
                cur = ["%" + m.group(1).strip('"') if m.group(1)[0] != '"' else '%' + m.group(1), []]
                f.blocks.append(cur)
                continue
            if ln.lstrip().startswith("switch ") and ln.rstrip().endswith("["):
                buf = ln.strip()
                continue
            cur[1].append(ln.strip())
        self.fns[name] = f

    # ------------------------------------------------------------ codegen
    def const(self, v):
        """python expression for a double constant"""
        q = const_num(v)
        if isinstance(q, int):
            return "(%d)" % q if q < 0 else str(q)
        for k, w in self.consts.items():
            if w is q or (type(w) is type(q) and w == q and not isinstance(q, float)):
                return k
        k = "K%d" % len(self.consts)
        self.consts[k] = q
        return k

    def build(self):
        src = []
        for f in self.fns.values():
            src.append(Gen(self, f).run())
        code = "\n".join(src)
        return code


def sane(s):
    return "v_" + re.sub(r"\W", lambda m: "_%x_" % ord(m.group(0)), s[1:])


CASTMASK = {}


class Gen:
    def __init__(self, mod, f):
        self.m = mod
        self.f = f

    def val(self, ty, v):
        k = v[0]
        if k == "v":
            return sane(v[1])
        if k == "c":
            if ty[0] in ("d", "f"):
                return self.m.const(v[1])
            n = v[1]
            return str(n) if n >= 0 else "(%d)" % n
        if k == "null":
            return "NULL"
        if k == "g":
            return "G[%r]" % v[1]
        if k == "gep":
            return "P_add(%s, %d)" % (self.val(("p",), v[1]), v[2])
        if k == "undef":
            return "UNDEF" if ty[0] not in ("i",) else "0"
        if k == "zero":
            return "0" if ty[0] in ("i", "d", "f") else ("NULL" if ty[0] == "p" else "zero_agg()")
        raise IRError("value %r" % (v,))

    def run(self):
        f = self.f
        out = []
        argn = [sane(a[1]) for a in f.args]
        fname = "f_" + re.sub(r"\W", "_", f.name)
        f.pyname = fname
        out.append("def %s(M%s):" % (fname, "".join(", " + a for a in argn)))
        out.append("    G = M.g")
        out.append("    M.count(%r)" % f.name)
        for a, bv in zip(argn, f.byval):
            if bv:
                out.append("    %s = byval_copy(%s)" % (a, a))
        idx = {b[0]: n for n, b in enumerate(f.blocks)}
        # phis
        phis = {}
        for b in f.blocks:
            ps = []
            for ln in b[1]:
                if " = phi " in ln:
                    ps.append(ln)
            phis[b[0]] = []
            for ln in ps:
                dst, rest = ln.split(" = phi ", 1)
                rest = re.sub(r", ![\w.]+ .*$", "", rest)
                p = Parser(tokenize(rest), self.m)
                p.attrs()
                t = p.type()
                inc = {}
                while True:
                    p.expect("[")
                    v = p.value(t)
                    p.expect(",")
                    lab = p.next()
                    p.expect("]")
                    inc[lab] = self.val(t, v)
                    if not p.accept(","):
                        break
                phis[b[0]].append((sane(dst.strip()), inc))

        def edge(src, dst, ind):
            ps = phis[dst]
            ls = []
            asg = [(d, inc[src]) for d, inc in ps if d != inc[src]]
            if asg:
                ls.append("%s = %s" % (", ".join(a[0] for a in asg), ", ".join(a[1] for a in asg)))
            ls.append("b = %d" % idx[dst])
            return [" " * ind + x for x in ls]

        blocks = []
        for b in f.blocks:
            blocks.append(self.block(b, edge))
        if len(blocks) == 1:
            for ln in blocks[0]:
                out.append("    " + ln)
            return "\n".join(out) + "\n"
        out.append("    b = 0")
        out.append("    while True:")

        def tree(lo, hi, ind):
            if hi - lo == 1:
                for ln in blocks[lo]:
                    out.append(" " * ind + ln)
                return
            mid = (lo + hi) // 2
            out.append(" " * ind + "if b < %d:" % mid)
            tree(lo, mid, ind + 1)
            out.append(" " * ind + "else:")
            tree(mid, hi, ind + 1)
        tree(0, len(blocks), 8)
        return "\n".join(out) + "\n"

    def block(self, b, edge):
        out = []
        for ln in b[1]:
            if " = phi " in ln:
                continue
            try:
                self.inst(ln, b[0], out, edge)
            except IRError as e:
                # outside the executor: only an error if this point is reached
                out.append("raise IRError(%r)" % ("%s: %s [%s]" % (self.f.name, e, ln[:120])))
        if not out:
            out.append("pass")
        return out

    def inst(self, ln, label, out, edge):
        m = re.match(r"^(%[\w.$-]+|%\"[^\"]*\") = (.*)$", ln)
        dst = None
        body = ln
        if m:
            dst = sane(m.group(1)); body = m.group(2)
        body = re.sub(r"(, )?![\w.]+( !\d+)?(, ![\w.]+ !\d+)*$", "", body)
        p = Parser(tokenize(body), self.m)
        p.attrs()
        op = p.next()
        W = lambda s: out.append(s)
        if op == "call":
            return self.call(p, dst, out)
        if op == "br":
            if p.accept("label"):
                for x in edge(label, p.next(), 0):
                    W(x)
                return
            t = p.type(); c = self.val(t, p.value(t))
            p.expect(","); p.expect("label"); a = p.next(); p.expect(","); p.expect("label"); bb = p.next()
            W("if %s:" % c)
            for x in edge(label, a, 1):
                W(x)
            W("else:")
            for x in edge(label, bb, 1):
                W(x)
            return
        if op == "ret":
            t = p.type()
            W("return %s" % ("None" if t[0] == "v" else self.val(t, p.value(t))))
            return
        if op == "unreachable":
            W("raise Violation('unreachable code reached in %s')" % self.f.name)
            return
        if op == "switch":
            t = p.type(); v = self.val(t, p.value(t))
            p.expect(","); p.expect("label"); d = p.next(); p.expect("[")
            W("sw_ = %s" % v)
            kw = "if"
            while not p.accept("]"):
                ct = p.type(); cv = p.value(ct); p.expect(","); p.expect("label"); lab = p.next()
                W("%s sw_ == %d:" % (kw, cv[1])); kw = "elif"
                for x in edge(label, lab, 1):
                    W(x)
            if kw == "if":
                for x in edge(label, d, 0):
                    W(x)
            else:
                W("else:")
                for x in edge(label, d, 1):
                    W(x)
            return
        if op == "alloca":
            t = p.type()
            n = "1"
            if p.accept(","):
                if p.peek() != "align":
                    it = p.type(); n = self.val(it, p.value(it))
            W("%s = Ptr(M.alloca(%d * %s, %r), 0)" % (dst, self.m.sizeof(t), n, self.f.name + ":" + dst))
            return
        if op == "load":
            p.attrs()
            t = self.m.resolve(p.type()); p.expect(",")
            pt = p.type(); a = self.val(pt, p.value(pt))
            W("%s = %s.o.load(%s.f, %r)" % (dst, a, a, self.acc(t)) if re.fullmatch(r"\w+", a) else "p_ = %s; %s = p_.o.load(p_.f, %r)" % (a, dst, self.acc(t)))
            return
        if op == "store":
            p.attrs()
            t = self.m.resolve(p.type()); v = self.val(t, p.value(t)); p.expect(",")
            pt = p.type(); a = self.val(pt, p.value(pt))
            if not re.fullmatch(r"\w+", a):
                W("p_ = %s" % a); a = "p_"
            W("%s.o.store(%s.f, %r, %s)" % (a, a, self.acc(t), v))
            return
        if op == "getelementptr":
            p.attrs()
            t = p.type(); p.expect(",")
            pt = p.type(); a = self.val(pt, p.value(pt))
            off = 0
            dyn = []
            first = True
            while p.accept(","):
                it = p.type(); v = p.value(it)
                if first:
                    sz = self.m.sizeof(t); first = False
                    if v[0] == "c":
                        off += v[1] * sz
                    else:
                        dyn.append("%s * %d" % (self.val(it, v), sz))
                else:
                    rt = self.m.resolve(t)
                    if rt[0] == "s":
                        t, o = self.m.elem(t, v[1]); off += o
                    else:
                        sz = self.m.sizeof(rt[2]); t = rt[2]
                        if v[0] == "c":
                            off += v[1] * sz
                        else:
                            dyn.append("%s * %d" % (self.val(it, v), sz))
            e = " + ".join(dyn + ([str(off)] if off or not dyn else []))
            W("%s = P_add(%s, %s)" % (dst, a, e))
            return
        if op in ("add", "sub", "mul", "shl", "and", "or", "xor", "sdiv", "srem", "udiv", "urem", "lshr", "ashr"):
            nsw = "nsw" in body.split(" ")[:4]
            p.attrs()
            t = p.type(); x = self.val(t, p.value(t)); p.expect(","); y = self.val(t, p.value(t))
            n = t[1]
            if n == 1:
                sym = {"and": "&", "or": "|", "xor": "^", "add": "^"}[op]
                if op == "xor" and y in ("1", "(-1)"):
                    W("%s = b_not(%s)" % (dst, x))
                else:
                    W("%s = b_%s(%s, %s)" % (dst, {"&": "and", "|": "or", "^": "xor"}[sym], x, y))
                return
            if op in ("add", "sub", "mul"):
                e = "%s %s %s" % (x, {"add": "+", "sub": "-", "mul": "*"}[op], y)
                if nsw:
                    # signed overflow is undefined: reported by the range check
                    W("%s = %s" % (dst, e))
                    W("if not %d <= %s <= %d: overflow(%r)" % (-(1 << (n - 1)), dst, (1 << (n - 1)) - 1, self.f.name))
                else:
                    W("%s = wrap%d(%s)" % (dst, n, e))
                return
            if op == "shl":
                W("%s = wrap%d(%s << %s)" % (dst, n, x, y)); return
            if op == "ashr":
                W("%s = %s >> %s" % (dst, x, y)); return
            if op == "lshr":
                W("%s = wrap%d((%s & %d) >> %s)" % (dst, n, x, (1 << n) - 1, y)); return
            if op in ("and", "or", "xor"):
                W("%s = %s %s %s" % (dst, x, {"and": "&", "or": "|", "xor": "^"}[op], y)); return
            if op == "sdiv":
                W("%s = sdiv(%s, %s)" % (dst, x, y)); return
            if op == "srem":
                W("%s = srem(%s, %s)" % (dst, x, y)); return
            mk = (1 << n) - 1
            W("%s = wrap%d(u%s(%s & %d, %s & %d))" % (dst, n, op[1:], x, mk, y, mk)); return
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            p.attrs()
            t = p.type(); x = self.val(t, p.value(t)); p.expect(","); y = self.val(t, p.value(t))
            if op == "fdiv":
                W("%s = fdiv(%s, %s)" % (dst, x, y))
            elif op == "frem":
                W("%s = frem(%s, %s)" % (dst, x, y))
            else:
                W("%s = %s %s %s" % (dst, x, {"fadd": "+", "fsub": "-", "fmul": "*"}[op], y))
            return
        if op == "fneg":
            p.attrs()
            t = p.type(); W("%s = -%s" % (dst, self.val(t, p.value(t)))); return
        if op == "icmp":
            p.attrs()
            pr = p.next(); t = p.type(); x = self.val(t, p.value(t)); p.expect(","); y = self.val(t, p.value(t))
            if t[0] == "p":
                if pr == "eq":
                    W("%s = p_eq(%s, %s)" % (dst, x, y))
                elif pr == "ne":
                    W("%s = not p_eq(%s, %s)" % (dst, x, y))
                else:
                    W("%s = p_cmp(%r, %s, %s)" % (dst, pr, x, y))
                return
            sg = {"eq": "==", "ne": "!=", "slt": "<", "sle": "<=", "sgt": ">", "sge": ">="}
            if pr in sg:
                if t[1] == 1:
                    x = "int(bool(%s))" % x; y = "int(bool(%s))" % y
                W("%s = %s %s %s" % (dst, x, sg[pr], y))
            else:
                mk = (1 << t[1]) - 1
                W("%s = (%s & %d) %s (%s & %d)" % (dst, x, mk, {"ult": "<", "ule": "<=", "ugt": ">", "uge": ">="}[pr], y, mk))
            return
        if op == "fcmp":
            p.attrs()
            pr = p.next(); t = p.type(); x = self.val(t, p.value(t)); p.expect(","); y = self.val(t, p.value(t))
            W("%s = fcmp(%r, %s, %s)" % (dst, pr, x, y))
            return
        if op == "select":
            p.attrs()
            ct = p.type(); c = self.val(ct, p.value(ct)); p.expect(",")
            t = p.type(); x = self.val(t, p.value(t)); p.expect(",")
            t2 = p.type(); y = self.val(t2, p.value(t2))
            if t[0] == "i" and t[1] == 1:
                W("%s = b_select(%s, %s, %s)" % (dst, c, x, y))
            else:
                W("%s = %s if %s else %s" % (dst, x, c, y))
            return
        if op in ("sext", "zext", "trunc", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            p.attrs()
            t = p.type(); x = self.val(t, p.value(t))
            if op == "freeze":
                W("%s = %s" % (dst, x)); return
            p.expect("to"); t2 = p.type()
            if op == "sext":
                W("%s = %s" % (dst, x if t[1] != 1 else "-int(bool(%s))" % x)); return
            if op == "zext":
                W("%s = %s" % (dst, "int(bool(%s))" % x if t[1] == 1 else "%s & %d" % (x, (1 << t[1]) - 1))); return
            if op == "trunc":
                W("%s = %s" % (dst, "bool(%s & 1)" % x if t2[1] == 1 else "wrap%d(%s)" % (t2[1], x))); return
            if op in ("fptosi", "fptoui"):
                W("%s = fptosi(%s, %d)" % (dst, x, t2[1])); return
            if op == "sitofp":
                W("%s = %s" % (dst, x if t[1] != 1 else "-int(bool(%s))" % x)); return
            if op == "uitofp":
                W("%s = %s" % (dst, "int(bool(%s))" % x if t[1] == 1 else "%s & %d" % (x, (1 << t[1]) - 1))); return
            if op in ("fpext", "fptrunc"):
                raise IRError("single precision")
            if op == "bitcast" and t == t2:
                W("%s = %s" % (dst, x)); return
            if op == "ptrtoint":
                W("%s = ptrtoint(%s)" % (dst, x)); return
            if op == "inttoptr":
                W("%s = inttoptr(%s)" % (dst, x)); return
            raise IRError(op)
        if op == "atomicrmw":
            p.attrs()
            o = p.next()
            t0 = p.type(); a = self.val(t0, p.value(t0)); p.expect(","); t = p.type(); v = self.val(t, p.value(t))
            fn = {"add": "+", "fadd": "+", "sub": "-", "fsub": "-", "or": "|", "and": "&"}.get(o)
            if fn is None:
                raise IRError("atomicrmw " + o)
            W("p_ = %s; M.atomic(1); %s = p_.o.load(p_.f, %r); p_.o.store(p_.f, %r, %s %s %s); M.atomic(0)" % (a, dst, self.acc(t), self.acc(t), dst, fn, v))
            return
        if op == "cmpxchg":
            raise IRError("cmpxchg")
        if op == "fence":
            return
        if op == "extractvalue":
            t = p.type(); v = self.val(t, p.value(t)); p.expect(","); k = p.next()
            W("%s = %s[%s]" % (dst, v, k)); return
        if op == "insertvalue":
            t = p.type(); v0 = p.value(t); p.expect(",")
            t1 = p.type(); v = self.val(t1, p.value(t1)); p.expect(","); k = p.next()
            n = len(self.m.resolve(t)[1]) if self.m.resolve(t)[0] == "s" else self.m.resolve(t)[1]
            a = "((UNDEF,) * %d)" % n if v0[0] == "undef" else self.val(t, v0)
            W("%s = agg_set(%s, %s, %s)" % (dst, a, k, v)); return
        raise IRError("instruction " + op)

    def acc(self, t):
        if t[0] == "d":
            return "d"
        if t[0] == "p":
            return "p"
        if t[0] == "f":
            raise IRError("single precision")
        if t[0] == "i":
            if t[1] in (1, 8):
                return "1"
            if t[1] == 16:
                return "2"
            if t[1] == 32:
                return "4"
            if t[1] == 64:
                return "8"
        raise IRError("access %r" % (t,))

    def call(self, p, dst, out):
        p.attrs()
        p.fn_ok = True
        t = p.type()
        p.fn_ok = False
        p.attrs()
        callee = p.next()
        if callee == "asm":
            raise IRError("inline asm")
        p.expect("(")
        args = []
        if not p.accept(")"):
            while True:
                at = p.type()
                if at[0] == "metadata":
                    p.next()
                    args.append("None")
                else:
                    p.attrs()
                    args.append(self.val(at, p.value(at)))
                if p.accept(")"):
                    break
                p.expect(",")
        a = "".join(", " + x for x in args)
        pre = "" if dst is None else dst + " = "
        if callee[0] == "%":
            out.append("%scall_ptr(M, %s%s)" % (pre, sane(callee), a))
            return
        nm = callee[1:]
        if nm.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.prefetch", "llvm.invariant")):
            return
        if nm in self.m.fns:
            out.append("%sf_%s(M%s)" % (pre, re.sub(r"\W", "_", nm), a))
        else:
            if nm.startswith("llvm."):
                nm2 = "x_" + nm.split(".")[0] + "_" + nm.split(".")[1]
                if nm.startswith("llvm.is.fpclass"):
                    nm2 = "x_llvm_is_fpclass"
            else:
                nm2 = "x_" + nm
            out.append("%sX[%r](M%s)" % (pre, nm2, a))
