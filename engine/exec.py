"""Translates LLVM functions (lazily) to Python code operating on symbolic
values, and runs them."""
import struct
import sys
import z3
import llvmir as LL
import rt
import rexpr as RX
from poly import Poly, Sym

sys.setrecursionlimit(20000)


class Program:
    """one or more bitcode modules linked by name"""

    def __init__(self, paths):
        self.mods = [LL.Module(p) for p in paths]
        self.defs = {}
        for m in self.mods:
            for n, f in m.fns.items():
                if not LL.isDecl(f):
                    self.defs.setdefault(n, (m, f))
        self.compiled = {}
        self.globals = {}
        self.gctx = None
        self.used = set()
        self.handlers = dict(HANDLERS)
        self.handlers["__kmpc_fork_call"] = make_fork(self)
        self.gdefs = {}
        for m in self.mods:
            g = LL.firstG(m.m)
            while g:
                nm = LL.name_of(g)
                if LL.getInit(g):
                    self.gdefs.setdefault(nm, (m, g))
                g = LL.nextG(g)

    def find(self, pat):
        return [n for n in self.defs if pat in n]

    def fn(self, name):
        f = self.compiled.get(name)
        if f is None:
            d = self.defs.get(name)
            if d is None:
                f = self.handler(name)
            else:
                f = FnCompiler(self, *d, name).compile()
            self.compiled[name] = f
        self.used.add(name)
        return f

    def warm(self, roots):
        """compile the named functions and all they refer to"""
        todo = list(roots)
        while todo:
            n = todo.pop()
            if n not in self.defs or n in self.compiled:
                continue
            c = FnCompiler(self, *self.defs[n], n)
            try:
                self.compiled[n] = c.compile()
            except rt.Unsupported:                       # reported when it is called
                continue
            todo += c.refs

    def handler(self, name):
        h = self.handlers.get(name)
        if h is not None:
            return h
        for pre, h in PREFIX.items():
            if name.startswith(pre):
                return h
        def missing(*a):
            raise rt.Unsupported(f"call to external function {name}")
        return missing

    def call(self, name, *args):
        self.used.add(name)
        return self.fn(name)(*args)

    # ---- globals
    def gobj(self, m, g):
        if self.gctx is not rt.X:
            self.globals = {}
            self.gctx = rt.X
        nm = LL.name_of(g) or f"g{g}"
        k = nm
        o = self.globals.get(k)
        if o is None:
            m2, g2 = self.gdefs.get(nm, (m, g))
            vt = LL.globVT(g2)
            o = rt.Obj(nm, "glob", m2.size(vt))
            self.globals[k] = o
            init = LL.getInit(g2)
            if init:
                self._init(m2, o, 0, init)
            isc = LL._f("LLVMIsGlobalConstant", LL.C.c_int, LL.P)
            o.ro = bool(isc(g2))
        return o

    def _init(self, m, o, off, v):
        ty = LL.typeOf(v)
        t = m.ty(ty)
        vk = LL.VK.get(LL.valueKind(v))
        if vk in ("undef", "poison"):
            return
        if LL.isNull(v) and t[0] in ("s", "a", "vec", "p"):
            n = m.size(ty)
            i = 0
            while i < n:
                e = 8 if n - i >= 8 and (off + i) % 8 == 0 else 4 if n - i >= 4 and (off + i) % 4 == 0 else 1
                o.cells[off + i] = (e, 0)
                i += e
            return
        if t[0] == "i":
            o.cells[off] = (max(1, t[1] // 8), LL.constInt(v))
        elif t[0] == "f":
            lost = LL.C.c_int()
            o.cells[off] = (t[1] // 8, RX.const(RX.rationalize(LL.constReal(v, LL.C.byref(lost)), 53 if t[1] == 64 else 24)))
        elif t[0] == "a" or t[0] == "vec":
            et = LL.elemTy(ty)
            es = m.size(et)
            n = LL.arrLen(ty) if t[0] == "a" else LL.vecLen(ty)
            for i in range(n):
                e = LL.cdsElem(v, i) if vk in ("cdarray", "cdvector") else LL.getOp(v, i)
                self._init(m, o, off + i * es, e)
        elif t[0] == "s":
            for i in range(LL.cntStruct(ty)):
                self._init(m, o, off + LL.offElem(m.dl, ty, i), LL.getOp(v, i))
        elif t[0] == "p":
            o.cells[off] = (8, self.constval(m, v))

    def constval(self, m, v):
        vk = LL.VK.get(LL.valueKind(v))
        t = m.ty(LL.typeOf(v))
        if vk == "cint":
            return (LL.constInt(v) & 1) if t[1] == 1 else LL.constInt(v)
        if vk == "cfp":
            lost = LL.C.c_int()
            return RX.const(RX.rationalize(LL.constReal(v, LL.C.byref(lost)), 53 if t[1] == 64 else 24))
        if vk == "cnull":
            return rt.NULL
        if vk in ("undef", "poison"):
            return self.zero(m, LL.typeOf(v), rt.UNDEF)
        if vk == "caggzero":
            return self.zero(m, LL.typeOf(v), None)
        if vk in ("cstruct", "carray", "cvector"):
            return tuple(self.constval(m, LL.getOp(v, i)) for i in range(LL.numOps(v)))
        if vk in ("cdarray", "cdvector"):
            ty = LL.typeOf(v)
            n = LL.vecLen(ty) if vk == "cdvector" else LL.arrLen(ty)
            return tuple(self.constval(m, LL.cdsElem(v, i)) for i in range(n))
        if vk == "gvar":
            return rt.Ptr(self.gobj(m, v), 0)
        if vk == "function":
            return FnPtr(LL.name_of(v))
        if vk == "cexpr":
            op = LL.OPN.get(LL.constOp(v))
            if op == "gep":
                base = self.constval(m, LL.getOp(v, 0))
                off = 0
                ty = LL.gepSrc(v)
                for i in range(1, LL.numOps(v)):
                    ix = LL.constInt(LL.getOp(v, i))
                    if i == 1:
                        off += ix * m.size(ty)
                        continue
                    k = m.ty(ty)[0]
                    if k == "s":
                        off += LL.offElem(m.dl, ty, ix)
                        ty = LL.structElt(ty, ix)
                    else:
                        ty = LL.elemTy(ty)
                        off += ix * m.size(ty)
                return rt.gep(base, off)
            if op in ("bitcast", "addrspacecast", "inttoptr"):
                return self.constval(m, LL.getOp(v, 0))
            if op == "ptrtoint":
                p = self.constval(m, LL.getOp(v, 0))
                return rt.PI(p.obj, p.off)
        raise rt.Unsupported(f"constant kind {vk}")

    def zero(self, m, ty, val):
        t = m.ty(ty)
        if t[0] == "s":
            return tuple(self.zero(m, LL.structElt(ty, i), val) for i in range(LL.cntStruct(ty)))
        if t[0] == "a":
            return tuple(self.zero(m, LL.elemTy(ty), val) for i in range(LL.arrLen(ty)))
        if t[0] == "vec":
            return tuple(self.zero(m, LL.elemTy(ty), val) for i in range(LL.vecLen(ty)))
        if val is rt.UNDEF:
            return val
        return RX.const(0) if t[0] == "f" else rt.NULL if t[0] == "p" else 0


class FnPtr:
    def __init__(self, name):
        self.name = name
        self.obj, self.off = self, 0


class FnCompiler:
    def __init__(self, prog, m, f, name):
        self.p, self.m, self.f, self.name = prog, m, f, name
        self.ids = {}
        self.consts = {}
        self.clist = []
        self.glob = []
        self.refs = set()

    def reg(self, v):
        r = self.ids.get(v)
        if r is None:
            r = self.ids[v] = f"v{len(self.ids)}"
        return r

    def cconst(self, val):
        self.clist.append(val)
        return f"K{len(self.clist) - 1}"

    def op(self, v):
        """python expression for operand v"""
        vk = LL.VK.get(LL.valueKind(v))
        if vk in ("instr", "arg"):
            return self.reg(v)
        r = self.consts.get(v)
        if r is not None:
            return r
        if vk == "function":
            self.refs.add(LL.name_of(v))
        if vk == "cint":
            t = self.m.ty(LL.typeOf(v))
            if t[1] <= 64:
                c = LL.constInt(v)
                r = str(c & 1 if t[1] == 1 else c)
                if c < 0:
                    r = f"({r})"
            else:
                raise rt.Unsupported("wide integer constant")
        elif vk == "gvar":
            # objects are per context
            mm, vv = self.m, v
            k = self.cconst((mm, vv))
            r = f"gvar({k})"
        elif vk == "cexpr":
            k = self.cconst((self.m, v))
            r = f"cexpr({k})"
        elif vk in ("cstruct", "carray", "cvector"):
            k = self.cconst((self.m, v))
            r = f"cexpr({k})"
        else:
            r = self.cconst(self.p.constval(self.m, v))
        self.consts[v] = r
        return r

    def ty(self, v):
        return self.m.ty(LL.typeOf(v))

    def compile(self):
        blocks = []
        bid = {}
        b = LL.firstBB(self.f)
        while b:
            bid[b] = len(blocks)
            blocks.append(b)
            b = LL.nextBB(b)
        self.bid = bid
        params = [self.reg(LL.getParam(self.f, i)) for i in range(LL.countParams(self.f))]
        bodies = []
        self.phis = {}
        for b in blocks:
            ph = []
            i = LL.firstI(b)
            while i and LL.opcode(i) == 44:
                inc = {LL.incBB(i, k): LL.incVal(i, k) for k in range(LL.countInc(i))}
                ph.append((i, inc))
                i = LL.nextI(i)
            self.phis[b] = ph
        for b in blocks:
            lines = []
            i = LL.firstI(b)
            while i:
                oc = LL.OPN.get(LL.opcode(i), "?%d" % LL.opcode(i))
                if oc != "phi":
                    self.emit(oc, i, lines, b)
                i = LL.nextI(i)
            bodies.append(lines)
        src = [f"def fn({', '.join(params)}):" if not self.vararg() else f"def fn({', '.join(params + ['*va'])}):"]
        src.append("  b = 0")
        src.append("  while True:")

        def tree(lo, hi, ind):
            pad = "  " * ind
            if hi - lo == 1:
                for l in bodies[lo]:
                    src.append(pad + l)
                return
            mid = (lo + hi) // 2
            src.append(f"{pad}if b < {mid}:")
            tree(lo, mid, ind + 1)
            src.append(f"{pad}else:")
            tree(mid, hi, ind + 1)
        tree(0, len(blocks), 2)
        g = dict(rt.__dict__)
        g["call"] = self.p.fn
        g["P"] = self.p
        g["gvar"] = lambda k: rt.Ptr(self.p.gobj(*k), 0)
        g["cexpr"] = lambda k: self.p.constval(*k)
        g["step"] = step
        g["rt"] = rt
        for i, c in enumerate(self.clist):
            g[f"K{i}"] = c
        code = compile("\n".join(src), f"<{self.name[:60]}>", "exec")
        exec(code, g)
        self.src = src
        return g["fn"]

    def vararg(self):
        return False

    def jump(self, frm, to):
        ph = self.phis[to]
        out = []
        if ph:
            dst, srcs = [], []
            for i, inc in ph:
                s = self.op(inc[frm])
                d = self.reg(i)
                if s != d:
                    dst.append(d)
                    srcs.append(s)
            if dst:
                out.append(f"{', '.join(dst)} = {', '.join(srcs)}")
        out.append(f"b = {self.bid[to]}")
        if self.bid[to] <= self.bid[frm]:
            out.append("step()")
        out.append("continue")
        return out

    def emit(self, oc, i, L, b):
        LLn = LL
        o = lambda k: self.op(LLn.getOp(i, k))
        d = self.reg(i)
        if oc in ("add", "sub", "mul", "sdiv", "srem", "udiv", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            t = self.ty(i)
            if t[0] == "vec":
                et = self.m.ty(LL.elemTy(t[1]))
                fn = {"and": "band", "or": "bor", "xor": "bxor"}.get(oc, oc)
                L.append(f"{d} = tuple({fn}(x_, y_, {et[1]}) for x_, y_ in zip({o(0)}, {o(1)}))")
                return
            w = t[1]
            fn = {"and": "band", "or": "bor", "xor": "bxor"}.get(oc, oc)
            if w == 1 and oc in ("and", "or", "xor"):
                L.append(f"{d} = {fn}({o(0)}, {o(1)}, 1)")
            else:
                L.append(f"{d} = {fn}({o(0)}, {o(1)}, {w})")
        elif oc in ("fadd", "fsub", "fmul", "fdiv"):
            L.append(f"{d} = {oc}({o(0)}, {o(1)})")
        elif oc == "fneg":
            L.append(f"{d} = fneg({o(0)})")
        elif oc == "icmp":
            t = self.ty(LL.getOp(i, 0))
            p = LL.ICMP[LL.icmpPred(i)]
            if t[0] == "p":
                L.append(f"{d} = pcmp('{p}', {o(0)}, {o(1)})")
            elif t[0] == "vec":
                L.append(f"raise Unsupported('vector icmp')")
            else:
                L.append(f"{d} = icmp('{p}', {o(0)}, {o(1)}, {t[1]})")
        elif oc == "fcmp":
            L.append(f"{d} = fcmp('{LL.FCMP[LL.fcmpPred(i)]}', {o(0)}, {o(1)})")
        elif oc == "select":
            L.append(f"{d} = {o(1)} if truth({o(0)}) else {o(2)}")
        elif oc == "trunc":
            L.append(f"{d} = trunc({o(0)}, {self.ty(LL.getOp(i, 0))[1]}, {self.ty(i)[1]})")
        elif oc in ("zext", "sext"):
            L.append(f"{d} = {oc}({o(0)}, {self.ty(LL.getOp(i, 0))[1]}, {self.ty(i)[1]})")
        elif oc in ("sitofp", "uitofp"):
            L.append(f"{d} = {oc}({o(0)}, {self.ty(LL.getOp(i, 0))[1]})")
        elif oc in ("fptosi", "fptoui"):
            L.append(f"{d} = fptosi({o(0)}, {self.ty(i)[1]})")
        elif oc == "fptrunc":
            L.append(f"{d} = fptrunc({o(0)})")
        elif oc == "fpext":
            L.append(f"{d} = {o(0)}")
        elif oc == "freeze" or oc == "addrspacecast":
            L.append(f"{d} = {o(0)}")
        elif oc == "bitcast":
            a, t = self.ty(LL.getOp(i, 0)), self.ty(i)
            if a[0] == "i" and t[0] == "f":
                L.append(f"{d} = fp({o(0)})")
            elif a[0] == "f" and t[0] == "i":
                L.append(f"{d} = {o(0)}")
            elif a[0] == t[0]:
                L.append(f"{d} = {o(0)}")
            else:
                L.append(f"{d} = bitcast_vec({o(0)}, {a[0]!r}, {t[0]!r})")
        elif oc == "ptrtoint":
            L.append(f"{d} = ptrtoint({o(0)})")
        elif oc == "inttoptr":
            L.append(f"{d} = inttoptr({o(0)})")
        elif oc == "alloca":
            sz = self.m.size(LL.allocTy(i))
            n = o(0)
            L.append(f"{d} = alloca({sz} if {n} == 1 else {sz} * concretize({n}), '{self.name[-20:]}.{d}')" if n != "1"
                     else f"{d} = alloca({sz}, 'local.{d}')")
        elif oc == "load":
            t = self.ty(i)
            L.append(f"{d} = {self.loadx(o(0), LL.typeOf(i), t)}")
        elif oc == "store":
            v = LL.getOp(i, 0)
            self.storex(o(1), self.op(v), LL.typeOf(v), L)
        elif oc == "gep":
            self.gep(i, L)
        elif oc == "extractvalue":
            e = o(0)
            n = LL.numIdx(i)
            ix = LL.getIdx(i)
            L.append(f"{d} = {e}" + "".join(f"[{ix[k]}]" for k in range(n)))
        elif oc == "insertvalue":
            n = LL.numIdx(i)
            ix = LL.getIdx(i)
            L.append(f"{d} = insertval({o(0)}, {o(1)}, {[ix[k] for k in range(n)]})")
        elif oc == "extractelement":
            L.append(f"{d} = {o(0)}[concretize({o(1)})]")
        elif oc == "insertelement":
            L.append(f"{d} = insertval({o(0)}, {o(1)}, [concretize({o(2)})])")
        elif oc == "shufflevector":
            n = LL.maskN(i)
            mk = [LL.maskV(i, k) for k in range(n)]
            L.append(f"{d} = shuffle({o(0)}, {o(1)}, {mk})")
        elif oc == "br":
            if LL.isCond(i):
                t, f = LL.getSucc(i, 0), LL.getSucc(i, 1)
                L.append(f"if truth({o(0)}):")
                L.extend("  " + l for l in self.jump(b, t))
                L.extend(self.jump(b, f))
            else:
                L.extend(self.jump(b, LL.getSucc(i, 0)))
        elif oc == "switch":
            w = self.ty(LL.getOp(i, 0))[1]
            c = o(0)
            n = LL.numOps(i) // 2
            for k in range(1, n):
                val = LL.constInt(LL.getOp(i, 2 * k))
                L.append(f"if icmp('eq', {c}, {val}, {w}):")
                L.extend("  " + l for l in self.jump(b, LL.valAsBB(LL.getOp(i, 2 * k + 1))))
            L.extend(self.jump(b, LL.valAsBB(LL.getOp(i, 1))))
        elif oc == "ret":
            L.append(f"return {o(0)}" if LL.numOps(i) else "return None")
        elif oc == "unreachable":
            L.append("raise Violation('unreachable code reached')")
        elif oc in ("call", "invoke"):
            self.callx(i, L, d)
            if oc == "invoke":
                L.extend(self.jump(b, LL.normalD(i)))
        elif oc == "fence":
            L.append("pass")
        elif oc == "atomicrmw":
            L.append("raise Unsupported('atomicrmw')")
        else:
            L.append(f"raise Unsupported('instruction {oc}')")

    def loadx(self, p, ty, t):
        k = t[0]
        if k == "i":
            if t[1] == 1:
                return f"(load({p}, 1, 'i') & 1)"
            return f"load({p}, {max(1, t[1] // 8)}, 'i')"
        if k == "f":
            return f"load({p}, {t[1] // 8}, 'f')"
        if k == "p":
            return f"load({p}, 8, 'p')"
        if k in ("vec", "a"):
            et = LL.elemTy(ty)
            n = LL.vecLen(ty) if k == "vec" else LL.arrLen(ty)
            es = self.m.size(et)
            tt = self.m.ty(et)
            return "(" + ", ".join(self.loadx(f"gep({p}, {j * es})", et, tt) for j in range(n)) + ",)"
        if k == "s":
            return "(" + ", ".join(self.loadx(f"gep({p}, {LL.offElem(self.m.dl, ty, j)})", LL.structElt(ty, j), self.m.ty(LL.structElt(ty, j)))
                                   for j in range(LL.cntStruct(ty))) + ",)"
        raise rt.Unsupported(f"load type {t}")

    def storex(self, p, v, ty, L):
        t = self.m.ty(ty)
        k = t[0]
        if k == "i":
            L.append(f"store({p}, {v}, {max(1, (t[1] + 7) // 8)})")
        elif k == "f":
            L.append(f"store({p}, {v}, {t[1] // 8})")
        elif k == "p":
            L.append(f"store({p}, {v}, 8)")
        elif k in ("vec", "a"):
            et = LL.elemTy(ty)
            es = self.m.size(et)
            n = LL.vecLen(ty) if k == "vec" else LL.arrLen(ty)
            for j in range(n):
                self.storex(f"gep({p}, {j * es})", f"{v}[{j}]", et, L)
        elif k == "s":
            for j in range(LL.cntStruct(ty)):
                self.storex(f"gep({p}, {LL.offElem(self.m.dl, ty, j)})", f"{v}[{j}]", LL.structElt(ty, j), L)
        else:
            raise rt.Unsupported(f"store type {t}")

    def gep(self, i, L):
        m = self.m
        base = self.op(LL.getOp(i, 0))
        ty = LL.gepSrc(i)
        off = 0
        dyn = []
        for k in range(1, LL.numOps(i)):
            v = LL.getOp(i, k)
            isc = LL.VK.get(LL.valueKind(v)) == "cint"
            if k > 1:
                kk = m.ty(ty)[0]
                if kk == "s":
                    ix = LL.constInt(v)
                    off += LL.offElem(m.dl, ty, ix)
                    ty = LL.structElt(ty, ix)
                    continue
                ty = LL.elemTy(ty)
            sz = m.size(ty)
            if isc:
                off += LL.constInt(v) * sz
            else:
                dyn.append(f"idx({self.op(v)}, {self.ty(v)[1]}, {sz})")
        e = " + ".join(dyn + ([str(off)] if off or not dyn else []))
        L.append(f"{self.reg(i)} = gep({base}, {e})")

    def callx(self, i, L, d):
        c = LL.called(i)
        n = LL.numArgOps(i)
        args = []
        vk = LL.VK.get(LL.valueKind(c))
        nm = LL.name_of(c) if vk == "function" else None
        if nm and (nm.startswith("llvm.lifetime") or nm.startswith("llvm.experimental.noalias") or nm.startswith("llvm.dbg")
                   or nm.startswith("llvm.assume") or nm.startswith("llvm.prefetch") or nm.startswith("llvm.invariant")
                   or nm in ("llvm.donothing",)):
            return
        for k in range(n):
            v = LL.getOp(i, k)
            if LL.VK.get(LL.valueKind(v)) == "metadata":
                args.append("None")
            else:
                args.append(self.op(v))
        if nm is None:
            if vk == "inlineasm":
                L.append("raise Unsupported('inline asm')")
                return
            L.append(f"{d} = call(fnname({self.op(c)}))({', '.join(args)})")
            return
        # byval arguments are copied by the callee side in C API terms: the
        # ABI passes a pointer to a copy made by the caller
        if nm not in self.p.defs and nm.startswith("llvm."):
            t = self.ty(i)
            w = t[1] if t[0] in ("i", "f") else 0
            h = nm.split(".")[1]
            if h in INTR:
                L.append(f"{d} = rt.INTR['{h}']({w!r}, {', '.join(args)})" if args else f"{d} = rt.INTR['{h}']({w!r})")
                return
            L.append(f"raise Unsupported('intrinsic {nm}')")
            return
        self.refs.add(nm)
        byv = self.byval(i, n)
        for k, sz in byv.items():
            args[k] = f"bycopy({args[k]}, {sz})"
        L.append(f"{d} = call({nm!r})({', '.join(args)})")

    def byval(self, i, n):
        out = {}
        for k in range(n):
            a = getAttr(i, k + 1, BYVAL)
            if a:
                t = attrType(a)
                out[k] = self.m.size(t)
        return out


getAttr = LL._f("LLVMGetCallSiteEnumAttribute", LL.P, LL.P, LL.C.c_uint, LL.C.c_uint)
attrKind = LL._f("LLVMGetEnumAttributeKindForName", LL.C.c_uint, LL.S, LL.C.c_size_t)
attrType = LL._f("LLVMGetTypeAttributeValue", LL.P, LL.P)
BYVAL = attrKind(b"byval", 5)


def step():
    s = rt.X.stats
    s["steps"] += 1
    if s["steps"] > rt.X.maxsteps:
        raise rt.Unsupported("step limit")


def truth(v):
    if v.__class__ is int:
        return v & 1
    if v is rt.UNDEF:
        raise rt.Unsupported("branch on undef")
    return not rt.eq0(rt.norm_s(v, 8))


def insertval(agg, v, ix):
    if agg is rt.UNDEF:
        raise rt.Unsupported("insert into undef")
    l = list(agg)
    if len(ix) == 1:
        l[ix[0]] = v
    else:
        l[ix[0]] = insertval(l[ix[0]], v, ix[1:])
    return tuple(l)


def shuffle(a, b, mask):
    v = list(a) + list(b if b is not rt.UNDEF else [rt.UNDEF] * len(a))
    return tuple(rt.UNDEF if m < 0 else v[m] for m in mask)


def ptrtoint(p):
    if p.__class__ is rt.Ptr:
        return p.off if p.obj is None else rt.PI(p.obj, p.off)
    return p


def inttoptr(v):
    if v.__class__ is rt.PI:
        return rt.Ptr(v.obj, v.off)
    return rt.Ptr(None, v)


def bitcast_vec(v, a, t):
    if a == "vec" and t in ("i", "f"):
        if len(v) == 2:
            return rt.Cat(v[0], v[1])
    if t == "vec" and v.__class__ is rt.Cat:
        return (v.lo, v.hi)
    raise rt.Unsupported("vector bitcast")


def fnname(p):
    if p.__class__ is FnPtr:
        return p.name
    if p.__class__ is rt.Ptr and p.obj.__class__ is FnPtr:
        return p.obj.name
    raise rt.Unsupported(f"indirect call through {p!r}")


def bycopy(p, sz):
    q = rt.alloca(sz, "byval")
    rt.memcpy(q, p, sz)
    return q


for _n in ("truth", "insertval", "shuffle", "ptrtoint", "inttoptr", "bitcast_vec", "fnname", "bycopy"):
    setattr(rt, _n, globals()[_n])

# ------------------------------------------------------------ intrinsics
INTR = {}
rt.INTR = INTR


def intr(*names):
    def d(f):
        for n in names:
            INTR[n] = f
        return f
    return d


@intr("memcpy", "memmove")
def _(w, d, s, n, v):
    rt.memcpy(d, s, n)


@intr("memset")
def _(w, d, b, n, v):
    rt.memset(d, b, n)


@intr("smin")
def _(w, a, b):
    return a if rt.icmp("sle", a, b, w) else b


@intr("smax")
def _(w, a, b):
    return a if rt.icmp("sge", a, b, w) else b


@intr("umin")
def _(w, a, b):
    return a if rt.icmp("ule", a, b, w) else b


@intr("umax")
def _(w, a, b):
    return a if rt.icmp("uge", a, b, w) else b


@intr("abs")
def _(w, a, p):
    return a if rt.icmp("sge", a, 0, w) else rt.sub(0, a, w)


@intr("fmuladd", "fma")
def _(w, a, b, c):
    return rt.fadd(rt.fmul(a, b), c)


@intr("fabs")
def _(w, a):
    return rt.fabs(a)


@intr("minnum", "minimum")
def _(w, a, b):
    return a if rt.fcmp("ole", a, b) else b


@intr("maxnum", "maximum")
def _(w, a, b):
    return a if rt.fcmp("oge", a, b) else b


@intr("sqrt")
def _(w, a):
    return RX.fun("sqrt", rt.fp(a))


@intr("floor")
def _(w, a):
    return rt.ffloor(a)


@intr("ceil")
def _(w, a):
    return rt.fceil(a)


@intr("trunc")
def _(w, a):
    return rt.ftrunc(a)


@intr("powi")
def _(w, a, n):
    n = rt.concretize(n)
    r = RX.const(1)
    for _i in range(abs(n)):
        r = rt.fmul(r, a)
    return r if n >= 0 else rt.fdiv(RX.const(1), r)


@intr("trap", "ubsantrap")
def _(w, *a):
    raise rt.Violation("trap reached")


@intr("stacksave")
def _(w):
    return rt.NULL


@intr("stackrestore", "va_start", "va_end")
def _(w, *a):
    return None


@intr("expect")
def _(w, a, b):
    return a


@intr("is")
def _(w, a):
    return 0


# ------------------------------------------------------------ externals
HANDLERS = {}
PREFIX = {}


def ext(*names):
    def d(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return d


@ext("_Znwm", "malloc", "_Znam")
def _(n):
    n = n if n.__class__ is int else n
    o = rt.Obj(f"heap{rt.X.nobj}", "heap", n)
    rt.X.nobj += 1
    o.birth = rt.X.iter
    return rt.Ptr(o, 0)


@ext("calloc")
def _(a, b):
    n = rt.mul(a, b, 64)
    n = n if n.__class__ is int else rt.concretize(n)
    p = HANDLERS["malloc"](n)
    rt.memset(p, 0, n)
    return p


@ext("aligned_alloc")
def _(al, n):
    return HANDLERS["malloc"](n)


@ext("_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t")
def _(n, a):
    return HANDLERS["malloc"](n)


@ext("posix_memalign")
def _(pp, al, n):
    rt.store(pp, HANDLERS["malloc"](n), 8)
    return 0


@ext("__cxa_guard_acquire")
def _(p):
    return 0 if (p.obj, p.off) in rt.X.guards else 1


@ext("__cxa_guard_release")
def _(p):
    rt.X.guards.add((p.obj, p.off))


@ext("__cxa_guard_abort", "__cxa_atexit", "__cxa_thread_atexit", "omp_init_lock", "omp_destroy_lock")
def _(*a):
    return 0


@ext("_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPv", "_ZdlPvm", "free", "_ZdaPv", "_ZdaPvm")
def _(p, *a):
    if p.__class__ is rt.Ptr and p.obj is not None:
        p.obj.dead = True


@ext("pow")
def _(a, b):
    b = rt.fp(b)
    if b.op == "c" and b.a.denominator == 1:
        return INTR["powi"](64, a, int(b.a))
    raise rt.Unsupported("pow")


@ext("fabs")
def _(a):
    return rt.fabs(a)


@ext("floor")
def _(a):
    return rt.ffloor(a)


@ext("ceil")
def _(a):
    return rt.fceil(a)


@ext("trunc")
def _(a):
    return rt.ftrunc(a)


@ext("sqrt")
def _(a):
    return RX.fun("sqrt", rt.fp(a))


@ext("printf", "puts", "putchar", "fflush", "__vp_print")
def _(*a):
    rt.X.events.append(("print",))
    return 0


@ext("abort", "_ZSt9terminatev", "__assert_fail", "exit", "_ZSt20__throw_length_errorPKc",
     "__clang_call_terminate", "_ZSt17__throw_bad_allocv")
def _(*a):
    raise rt.Violation("program terminates abnormally")


# ---- OpenMP ------------------------------------------------------------
# A parallel region is executed one logical iteration at a time ("each"), in
# decreasing order, every iteration being given its own chunk; or as a single
# chunk in program order ("serial").

@ext("__kmpc_global_thread_num", "omp_get_thread_num", "omp_in_parallel")
def _(*a):
    return 0


@ext("omp_get_num_threads", "omp_get_max_threads", "omp_get_num_procs")
def _(*a):
    return 1 if rt.X.region is None else rt.X.team


@ext("__kmpc_push_num_threads", "__kmpc_barrier", "omp_set_num_threads", "__kmpc_for_static_fini",
     "__kmpc_serialized_parallel", "__kmpc_end_serialized_parallel")
def _(*a):
    return None


def make_fork(prog):
    def fork_call(loc, argc, fn, *args):
        X = rt.X
        name = fnname(fn)
        f = prog.fn(name)
        if X.region is not None:
            raise rt.Unsupported("nested parallel region")
        region = {"name": name, "n": None, "iters": [], "inits": 0}
        X.regions.append(region)
        X.region = region
        it0 = X.iter
        base = X.itcount
        try:
            X.next_iter = None
            k = 0
            while True:
                X.iter = X.itcount = X.itcount + 1
                X.iterlog = []
                region["inits"] = 0
                g = rt.alloca(4, "gtid")
                bt = rt.alloca(4, "btid")
                rt.store(g, 0, 4)
                rt.store(bt, 0, 4)
                f(g, bt, *args)
                region["iters"].append((X.next_iter, X.iterlog))
                if X.omp_mode == "serial" or X.next_iter is None or X.next_iter == 0:
                    break
                X.next_iter -= 1
        finally:
            X.region = None
            X.iter = it0
            X.iterlog = None
    return fork_call


def _static_init(size):
    def h(loc, gtid, sched, plast, plower, pupper, pstride, incr, chunk):
        X = rt.X
        reg = X.region
        if reg is None:
            return
        w = size * 8
        reg["inits"] += 1
        lo = rt.load(plower, size, "i")
        hi = rt.load(pupper, size, "i")
        if X.omp_mode == "serial":
            rt.store(plast, 1, 4)
            reg["n"] = rt.sub(hi, lo, w)
            return
        if reg["inits"] > 1:
            raise rt.Unsupported("several worksharing loops in one region")
        if X.omp_mode == "sym":
            t = X.sym_iter(lo, hi)
            rt.store(plower, t, size)
            rt.store(pupper, t, size)
            rt.store(plast, 0, 4)
            return
        if incr != 1:
            raise rt.Unsupported("worksharing increment")
        if X.next_iter is None:
            n = rt.sub(hi, lo, w)
            n = n if n.__class__ is int else rt.concretize(n)
            reg["n"] = n
            if n < 0:
                X.next_iter = None
                return
            X.next_iter = n
        t = lo + X.next_iter
        rt.store(plower, t, size)
        rt.store(pupper, t, size)
        rt.store(plast, 0, 4)
    return h


for _n, _s in (("__kmpc_for_static_init_8", 8), ("__kmpc_for_static_init_8u", 8),
               ("__kmpc_for_static_init_4", 4), ("__kmpc_for_static_init_4u", 4)):
    HANDLERS[_n] = _static_init(_s)


def explore(run, max_paths=2000, deadline=None, **kw):
    """depth first exploration over path decisions; run(ctx) -> result"""
    import time
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        ctx = rt.Ctx(prefix, **kw)
        ctx.team = 1
        ctx.itcount = 0
        ctx.maxsteps = 400000
        rt.set_ctx(ctx)
        n += 1
        if n > max_paths:
            raise rt.Unsupported("too many paths")
        if deadline and time.time() > deadline:
            raise rt.Unsupported("time budget")
        try:
            r = run(ctx)
        except rt.Infeasible:
            r = None
        for i in range(len(ctx.trace) - 1, len(prefix) - 1, -1):
            pl, tk, other = ctx.trace[i]
            if other:
                stack.append(tuple([(p, t) for p, t, _ in ctx.trace[:i]] + [(pl, not tk)]))
        yield ctx, r
