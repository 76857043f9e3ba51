"""Compiles MIR to abstract transfer functions, and runs the worklist of abstract states."""
import sys
import time
from dom import (Cons, Var, Lin, Atom, NeedSplit, Infeasible, Unsupported, add, sub, scale, neg, mk, runs)
from eva import (of_text, UNINIT, Ptr, FnV, Cond, Agg, Opaque, Alloc, Frame, Violation, PathEnd, State, Seg, Token)
from mir import Program

STATIC = 1000000


class Done(Exception):
    """This abstract state has reached the end of the entry point"""


class Diverge(Exception):
    """The call does not return and that is no violation"""


class Engine:
    def __init__(self, prog, models, limits=None):
        self.prog = prog
        self.models = models
        self.consts = {}
        self.byte_hook = None
        self.opts = {}
        self.profile = None
        self.deadline = None
        self.max_states = 3000000
        self.max_steps = 400000000
        self.reset()

    def reset(self):
        self.violations = {}
        self.undecided = {}
        self.reached = set()
        self.checked = {}
        self.entered = set()
        self.blocks = set()
        self.states = 0
        self.ends = 0
        self.pruned = 0
        self.steps = 0
        self.splits = 0

    # ---- constants
    def const_alloc(self, aid):
        a = self.consts.get(aid)
        if a is not None:
            return a
        if aid <= -STATIC:
            i = -aid - STATIC
            s = self.prog.m["statics"][i]
            if s["init"] is None:
                raise Unsupported("static without initialiser %s" % s["name"])
            a = self._mem(aid, s["init"], "static " + s["name"])
            a.ro = False
            ty = self.prog.types[s["ty"]]
            cells = {}
            self._typed(ty, 0, a, cells)
            a.cells = cells
        else:
            j = self.prog.m["allocs"][-aid - 1]
            if j[0] != "mem":
                raise Unsupported("memory of %r" % (j[0],))
            a = self._mem(aid, j[1], "constant")
            a.ro = not j[1]["mut"]
        self.consts[aid] = a
        return a

    def _mem(self, aid, j, name):
        h = j["bytes"]
        n = len(h) // 2
        a = Alloc(aid, n, j["align"], "const", None, name)
        a.ro = True
        if n > 256 and not j["prov"] and h == h[:2] * n and h[:2] != "__":
            a.log = [(0, n, Seg(int(h[:2], 16), 0))]
            return a
        prov = {o: k for o, k in j["prov"]}
        i = 0
        cells = {}
        while i < n:
            if i in prov:
                off = int.from_bytes(bytes.fromhex(h[2 * i:2 * i + 16]), "little")
                cells[i] = (8, self.pointer(prov[i], off))
                i += 8
            else:
                b = h[2 * i:2 * i + 2]
                if b != "__":
                    cells[i] = (1, int(b, 16))
                i += 1
        a.cells = cells
        a.ro = True
        return a

    def _typed(self, ty, off, a, out):
        """Groups the bytes of a constant by the scalars of its type"""
        if ty.size == 0:
            return
        c = a.cells.get(off)
        if c is not None and c[0] == 8:
            if ty.size == 8:
                out[off] = c
                return
        if ty.scalar or (ty.k == "int" or ty.k == "uint"):
            v = 0
            for i in range(ty.size):
                c = a.cells.get(off + i)
                if c is None:
                    self._raw(ty, off, a, out)
                    return
                if c[0] != 1:
                    self._raw(ty, off, a, out)
                    return
                v |= c[1] << (8 * i)
            out[off] = (ty.size, v)
            return
        if ty.fat:
            self._raw8(off, a, out)
            self._raw8(off + 8, a, out)
            return
        if ty.k == "array":
            if ty.elem.size:
                for i in range(ty.len):
                    self._typed(ty.elem, off + i * ty.elem.size, a, out)
            return
        if ty.k in ("struct", "tuple", "closure") and ty.vtys and ty.offs is not None:
            for i, f in enumerate(ty.vtys[0]):
                self._typed(f, off + ty.offs[i], a, out)
            return
        self._raw(ty, off, a, out)

    def _raw8(self, off, a, out):
        c = a.cells.get(off)
        if c is not None and c[0] == 8:
            out[off] = c
            return
        v = 0
        for i in range(8):
            c = a.cells.get(off + i)
            if c is None:
                return
            v |= c[1] << (8 * i)
        out[off] = (8, v)

    def _raw(self, ty, off, a, out):
        for q, c in a.cells.items():
            if off <= q < off + ty.size:
                out[q] = c

    def pointer(self, alloc, off):
        j = self.prog.m["allocs"][alloc]
        while j[0] == "alias":
            alloc = j[1]
            j = self.prog.m["allocs"][alloc]
        if j[0] == "fn":
            return FnV(j[1])
        if j[0] == "static":
            return Ptr(-(STATIC + j[1]), off)
        if j[0] == "typeid":
            # a piece of a type id: any distinct number
            return (0x5EED0000 + j[1]) * 16 + 7
        return Ptr(-(alloc + 1), off)

    def const_value(self, ty, j):
        a = self._mem(0, j, "k")
        if ty.scalar:
            out = {}
            self._typed(ty, 0, a, out)
            c = out.get(0)
            if c is None:
                return UNINIT
            if c[0] == ty.size:
                return c[1]
            v = 0
            for i in range(ty.size):
                if i not in out:
                    return UNINIT
                v |= out[i][1] << (8 * i)
            return v
        if ty.size == 0:
            return Agg(0, [])
        out = {}
        self._typed(ty, 0, a, out)
        return Agg(ty.size, [(q, c[0], c[1]) for q, c in sorted(out.items())])

    # ---- compilation
    def compile(self, fn):
        if fn.compiled is None:
            FnCompiler(self, fn).run()
        return fn.compiled

    # ---- running
    def start(self, fn, args=()):
        st = State(self)
        self.push(st, fn, list(args), None, None, "entry")
        return st

    def push(self, st, fn, args, dest, target, site):
        if len(st.frames) > 220:
            if self.endless(st):
                raise Violation("endless", "the same call is made again and again within itself")
            raise Unsupported("call depth")
        code = fn.compiled
        if code is None:
            self.compile(fn)
        self.entered.add(fn.id)
        fr = Frame()
        fr.fn = fn
        fr.bb = 0
        fr.si = 0
        fr.dest = dest
        fr.target = target
        fr.callsite = site
        fr.tag = None
        fr.loops = None
        locs = fr.locals = [None] * len(fn.locals)
        inmem = fn.heads
        for i, v in enumerate(args):
            l = i + 1
            if inmem[l]:
                ty = fn.locals[l]
                a = st.new(ty.size, ty.align, "local", fn.names.get(l, ""))
                locs[l] = a.id
                if ty.size:
                    if isinstance(v, Agg):
                        st.put_agg(a, 0, v)
                    else:
                        a.cells[0] = (ty.size, v)
            else:
                locs[l] = v
        st.frames.append(fr)
        return fr

    def pop(self, st):
        fr = st.frames.pop()
        fn = fr.fn
        inmem = fn.heads
        if inmem[0]:
            aid = fr.locals[0]
            if aid is None:
                v = UNINIT if fn.locals[0].scalar else Agg(fn.locals[0].size, [])
            else:
                v = st.load_ty(Ptr(aid, 0), fn.locals[0])
        else:
            v = fr.locals[0]
            if v is None:
                v = UNINIT if fn.locals[0].scalar else Agg(fn.locals[0].size, [])
        held = []
        for l in fn.memlocals:
            aid = fr.locals[l]
            if aid is not None:
                al = st.mem.pop(aid, None)
                if al is not None:
                    held.append((aid, al))
        if not st.frames:
            raise Done()
        up = st.frames[-1]
        try:
            if fr.tag is not None:
                # a model goes on from here
                fr.tag(st, up, v)
                return
            if fr.target is None:
                raise Unsupported("return from a diverging call")
            if fr.dest is not None:
                fr.dest(st, up, v)
            up.bb = fr.target
            up.si = 0
        except NeedSplit:
            st.frames.append(fr)
            for aid, al in held:
                st.mem[aid] = al
            raise

    def execute(self, st):
        """Runs one abstract state until it ends or has to be partitioned"""
        frames = st.frames
        n = 0
        watch = None
        wait = 4
        rounds = 0
        while True:
            fr = frames[-1]
            bb = fr.bb
            code = fr.fn.compiled
            if fr.si == 0:
                self.blocks.add((fr.fn.id, bb))
                if (watch is not None and bb == watch[0] and len(frames) == watch[1] and st.steps > watch[6]
                        and self.same(st, watch)):
                    raise Violation("endless", "the same state is met again: this does not end")
            ops = code[bb]
            i = fr.si
            while True:
                r = ops[i](st, fr)
                n += 1
                if r:
                    break
                i += 1
                fr.si = i
            st.steps += 1
            if n > 2000:
                self.steps += n
                n = 0
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("time")
                if st.steps > self.max_steps:
                    raise Unsupported("steps")
                rounds += 1
                if rounds == wait:
                    # (the snapshot's memory is copied where it is written from now on)
                    wait *= 2
                    st.token = Token()
                    watch = (frames[-1].bb, len(frames), [f.copy() for f in frames], dict(st.mem),
                             (st.cons.ver, len(st.cons.facts)), dict(st.ghost), st.steps)

    def same(self, st, watch):
        """Is the state the one of the snapshot? Pointers to what is gone do not count"""
        _, _, frames, mem, ver, ghost, _ = watch
        if (st.cons.ver, len(st.cons.facts)) != ver or st.frames[-1].fn is not frames[-1].fn:
            return False
        gone = [a for a in mem if a not in st.mem]
        if len(st.mem) != len(mem) or gone and len(gone) > 4:
            return False

        def eq(x, y):
            if x is y or x == y:
                return True
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                return x.a not in st.mem and y.a not in mem
            if isinstance(x, Agg) and isinstance(y, Agg):
                return x.cells == y.cells
            return False
        for f, g in zip(reversed(st.frames), reversed(frames)):
            if f.fn is not g.fn or f.bb != g.bb and f is not st.frames[-1] or f.si != g.si:
                return False
            if not all(map(eq, f.locals, g.locals)):
                return False
        if gone or ghost != st.ghost:
            return False
        for i, a in st.mem.items():
            b = mem[i]
            if a is not b and (a.cells != b.cells or a.log != b.log or a.size != b.size):
                return False
        return True

    def endless(self, st):
        """Calls that are made again and again within themselves, with the same arguments"""
        seen = {}
        for f in st.frames:
            k = [f.fn.id]
            for l in range(1, f.fn.argc + 1):
                if f.fn.heads[l]:
                    a = st.mem.get(f.locals[l])
                    if a is None or a.log is not None:
                        break
                    k.append(tuple(sorted((o, repr(c)) for o, c in a.cells.items() if type(o) is int)))
                else:
                    v = f.locals[l]
                    k.append(repr(st.cons.norm(v)) if isinstance(v, Lin) else repr(v.cells) if isinstance(v, Agg)
                             else repr(v))
            else:
                k = tuple(k)
                seen[k] = seen.get(k, 0) + 1
        return max(seen.values(), default=0) >= 20

    def run(self, fn, args=(), pre=None):
        st = self.start(fn, args)
        if pre:
            pre(st)
        work = [st]
        while work:
            st = work.pop()
            self.states += 1
            if self.states > self.max_states:
                self.note_undecided(st, "too many states")
                break
            try:
                self.execute(st)
            except NeedSplit as e:
                self.splits += 1
                if self.profile is not None:
                    inner, _ = self.site(st)
                    k = (e.why, st.frames[-1].fn.path, inner.path if inner else "")
                    self.profile[k] = self.profile.get(k, 0) + 1
                alts = e.alts
                kids = []
                # neither spurious states nor repeated ones are pursued
                at = (st.steps, len(st.frames))
                st.last = (at, st.last[1] + 1 if st.last[0] == at else 1, st.last[2] + 1)
                if st.last[1] % 8 == 0 or st.last[2] % 32 == 0:
                    try:
                        if st.cons.integer_point(60, True) is False:
                            self.pruned += 1
                            continue
                    except Infeasible:
                        self.pruned += 1
                        continue
                    except Unsupported:
                        pass
                if st.last[1] > 1000:
                    self.note_undecided(st, "no progress")
                    continue
                for k, alt in enumerate(alts):
                    s2 = st.fork() if k + 1 < len(alts) else st
                    try:
                        s2.assume(alt)
                    except Infeasible:
                        self.pruned += 1
                        continue
                    except Unsupported as u:
                        self.note_undecided(s2, str(u))
                        continue
                    kids.append(s2)
                kids.reverse()
                work.extend(kids)
            except Infeasible:
                self.pruned += 1
            except Done:
                self.ends += 1
            except Diverge:
                self.ends += 1
            except Violation as v:
                try:
                    ok = st.cons.integer_point(400)
                    if ok:
                        import models
                        models.facts_hold(st)
                        models.alias(st)
                except NeedSplit as e:
                    # whether two places are one decides whether this is possible at all
                    self.splits += 1
                    for alt in e.alts:
                        s2 = st.fork()
                        try:
                            s2.assume(alt)
                        except Infeasible:
                            self.pruned += 1
                            continue
                        except Unsupported as u:
                            self.note_undecided(s2, str(u))
                            continue
                        work.append(s2)
                    continue
                except Infeasible:
                    ok = False
                except Unsupported:
                    ok = None
                if ok:
                    self.note_violation(st, v)
                elif ok is None:
                    self.note_undecided(st, "no witness for %s %s" % (v.kind, v.msg))
                else:
                    self.pruned += 1
            except Unsupported as u:
                self.note_undecided(st, str(u))
            if self.deadline and time.time() > self.deadline:
                for s in work[:1]:
                    self.note_undecided(s, "time")
                break

    # ---- reporting
    def where(self, st):
        out = []
        for fr in st.frames:
            out.append((fr.fn, fr.bb))
        return out

    def site(self, st):
        """The innermost function of the repository, and the stack"""
        stack = []
        inner = None
        for fr in st.frames:
            fn = fr.fn
            sp = fn.term_span(fr.bb) if hasattr(fn, "term_span") else ""
            stack.append("%s @ %s" % (fn.name, self.span(fn, fr.bb)))
            if fn.crate == "fleece":
                inner = fn
        return inner, stack

    def span(self, fn, bb):
        t = fn.raw["blocks"][bb][1]
        for x in t:
            if isinstance(x, str) and ":" in x and ".rs" in x:
                return x
        return fn.span

    def note_violation(self, st, v):
        inner, stack = self.site(st)
        # vp::check failures belong to the harness
        key = "%s|%s|%s" % (v.kind, inner.path if inner else st.frames[-1].fn.path, v.msg if v.kind == "check" else v.key if hasattr(v, "key") else v.kind)
        if key not in self.violations:
            self.violations[key] = {
                "key": key, "kind": v.kind, "msg": v.msg, "function": inner.name if inner else st.frames[-1].fn.name,
                "stack": list(reversed(stack)), "state": describe(st)}

    def note_undecided(self, st, why):
        inner, stack = self.site(st)
        key = why[:160] + " in " + (st.frames[-1].fn.name if st.frames else "")
        u = self.undecided.setdefault(key, [0, list(reversed(stack))[:8]])
        u[0] += 1


def describe(st):
    out = []
    c = st.cons
    for a, e in list(c.sub.items())[:400]:
        if a.var.tag == "any":
            out.append("%r = %r" % (a, c.norm(e)))
    for a in set(c.lo) | set(c.hi):
        if a.var.tag == "any":
            out.append("%r in [%d, %d]" % (a, c.alo(a), c.ahi(a)))
    for g in c.ges[:20]:
        out.append("%r >= 0" % (c.norm(g),))
    return out[:60]


class Place:
    __slots__ = ("ty", "reg", "path", "fn", "variant")


class FnCompiler:
    def __init__(self, eng, fn):
        self.eng = eng
        self.prog = eng.prog
        self.fn = fn

    def run(self):
        fn = self.fn
        T = self.prog.types
        self.find_mem()
        blocks = []
        fn.compiled = blocks
        for b in fn.raw["blocks"]:
            ops = []
            for s in b[0]:
                o = self.stmt(s)
                if o is not None:
                    ops.append(o)
            ops.append(self.term(b[1]))
            blocks.append(ops)
        fn.memlocals = [i for i, x in enumerate(fn.heads) if x]

    def find_mem(self):
        fn = self.fn
        mem = [False] * len(fn.locals)

        def isdirect(pl):
            return not any(isinstance(p, list) and p[0] == "d" for p in pl[1:])

        def firstderef(pl):
            for p in pl[1:]:
                if p[0] == "d":
                    return True
                return False
            return False

        def read(pl):
            # a read with an index needs memory
            for p in pl[1:]:
                if p[0] == "d":
                    break
                if p[0] in ("i", "s"):
                    mem[pl[0]] = True

        def write(pl):
            if len(pl) > 1 and pl[1][0] != "d":
                mem[pl[0]] = True

        def operand(o):
            if o[0] in ("c", "m"):
                read(o[1])

        for b in fn.raw["blocks"]:
            for s in b[0]:
                if s[0] == "=":
                    write(s[1])
                    rv = s[2]
                    k = rv[0]
                    if k in ("addr", "ref"):
                        pl = rv[1]
                        read(pl)
                        if len(pl) == 1 or all(p[0] != "d" for p in pl[1:]):
                            mem[pl[0]] = True
                    elif k == "use" or k == "repeat":
                        operand(rv[1])
                    elif k in ("bin", "cbin"):
                        operand(rv[2])
                        operand(rv[3])
                    elif k == "cast":
                        operand(rv[2])
                    elif k in ("discr", "len"):
                        read(rv[1])
                    elif k == "un":
                        operand(rv[2])
                    elif k == "agg":
                        for o in rv[2]:
                            operand(o)
                elif s[0] == "sd":
                    if all(p[0] != "d" for p in s[1][1:]):
                        mem[s[1][0]] = True
                elif s[0] == "assume":
                    operand(s[1])
                elif s[0] == "cno":
                    for o in s[1:4]:
                        operand(o)
            t = b[1]
            if t[0] == "drop":
                if all(p[0] != "d" for p in t[1][1:]):
                    mem[t[1][0]] = True
            elif t[0] == "call":
                write(t[3])
                for o in t[2]:
                    operand(o)
                if t[1][0] == "ptr":
                    operand(t[1][1])
            elif t[0] in ("switch", "assert"):
                operand(t[1])
        fn.heads = mem
        fn.memlocals = [i for i, x in enumerate(mem) if x]

    # ---- places
    def place_ty(self, pl):
        T = self.prog.types
        ty = self.fn.locals[pl[0]]
        for p in pl[1:]:
            k = p[0]
            if k == "d":
                ty = self.deref_ty(ty)
            elif k == "f":
                ty = T[p[2]]
            elif k in ("i", "c"):
                ty = ty.elem
            elif k == "s":
                if ty.k == "array":
                    raise Unsupported("subslice of array type")
            elif k == "o":
                ty = T[p[1]]
        return ty

    def deref_ty(self, ty):
        if ty.to is not None:
            return ty.to
        if ty.box:
            return self.prog.types[ty.args[0]]
        raise Unsupported("deref of " + ty.name)

    def plan(self, pl):
        """Splits a projection into segments, one for each pointer followed: [(steps, type)], steps being constant
        offsets or dynamic"""
        T = self.prog.types
        fn = self.fn
        ty = fn.locals[pl[0]]
        segs = []
        steps = []
        variant = None
        cty = ty
        for p in pl[1:]:
            k = p[0]
            if k == "d":
                segs.append((steps, cty))
                steps = []
                cty = self.deref_ty(cty)
                variant = None
            elif k == "v":
                variant = p[1]
            elif k == "f":
                base = cty
                if base.k in ("struct", "tuple") and not base.sized:
                    i = p[1]
                    off, fty = base.offs[i], T[p[2]]
                    if i == len(base.vtys[0]) - 1 and self.prog.tail(base).k == "dyn":
                        steps.append(("dynfield", off))
                    else:
                        steps.append(off)
                    cty = fty
                else:
                    off, _ = self.prog.field(base, variant, p[1])
                    steps.append(off)
                    cty = T[p[2]]
                variant = None
            elif k == "i":
                steps.append(("idx", p[1], cty.elem.size))
                cty = cty.elem
            elif k == "c":
                off, mn, fe = p[1], p[2], p[3]
                if cty.k == "array":
                    o = (cty.len - off if fe else off) * cty.elem.size
                    steps.append(o)
                elif fe:
                    steps.append(("fromend", off, cty.elem.size))
                else:
                    steps.append(off * cty.elem.size)
                cty = cty.elem
            elif k == "s":
                if cty.k == "array":
                    steps.append(p[1] * cty.elem.size)
                    # the type is an array of another length, which only matters when it is copied
                    raise Unsupported("subslice of an array")
                steps.append(("sub", p[1], p[2], p[3], cty.elem.size))
            elif k == "o":
                cty = T[p[1]]
        segs.append((steps, cty))
        # merge constants
        out = []
        for steps, t in segs:
            m = []
            for s in steps:
                if isinstance(s, int) and m and isinstance(m[-1], int):
                    m[-1] += s
                else:
                    m.append(s)
            out.append((m, t))
        return out

    def addr(self, pl):
        """Compiles to a function giving (pointer, metadata)"""
        segs = self.plan(pl)
        l = pl[0]
        inmem = self.fn.heads[l]
        lty = self.fn.locals[l]
        size, align = lty.size, lty.align
        name = self.fn.names.get(l, "")
        eng = self.eng

        if inmem:
            def base(st, fr):
                aid = fr.locals[l]
                if aid is None:
                    a = st.new(size, align, "local", name)
                    aid = fr.locals[l] = a.id
                return Ptr(aid, 0), None
        else:
            base = None

        def dyn_steps(steps):
            fs = []
            for s in steps:
                if isinstance(s, int):
                    if s:
                        fs.append(("k", s))
                else:
                    fs.append(s)
            return fs

        def apply(st, fr, p, meta, fs):
            for s in fs:
                k = s[0]
                if k == "k":
                    p = padd(p, s[1])
                elif k == "idx":
                    v = self_local(st, fr, s[1])
                    p = padd(p, scale(st.num(v), s[2]))
                elif k == "sub":
                    fr0, to, fe, sz = s[1], s[2], s[3], s[4]
                    p = padd(p, fr0 * sz)
                    if fe:
                        meta = st.cons.norm(add(st.num(meta), -(fr0 + to)))
                    else:
                        meta = to - fr0
                elif k == "fromend":
                    p = padd(p, scale(add(st.num(meta), -s[1]), s[2]))
                elif k == "dynfield":
                    al = vtable_word(st, meta, 2)
                    off = (s[1] + al - 1) // al * al
                    p = padd(p, off)
            return p, meta

        heads = self.fn.heads

        def self_local(st, fr, i):
            if heads[i]:
                return st.load(Ptr(fr.locals[i], 0), 8)
            return fr.locals[i]

        if len(segs) == 1:
            fs = dyn_steps(segs[0][0])
            if base is None:
                raise Unsupported("address of a register")
            if not fs:
                return base
            if len(fs) == 1 and fs[0][0] == "k":
                off = fs[0][1]

                def f1(st, fr):
                    aid = fr.locals[l]
                    if aid is None:
                        a = st.new(size, align, "local", name)
                        aid = fr.locals[l] = a.id
                    return Ptr(aid, off), None
                return f1

            def f2(st, fr):
                p, m = base(st, fr)
                return apply(st, fr, p, m, fs)
            return f2

        # with dereferences: first get the pointer
        loads = []
        for i in range(len(segs) - 1):
            steps, t = segs[i]
            loads.append((dyn_steps(steps), t.fat, t))
        lastfs = dyn_steps(segs[-1][0])
        first = loads[0]
        if base is None:
            path = [s[1] for s in first[0]]
            off = sum(path) if path else 0
            if any(s[0] != "k" for s in first[0]):
                raise Unsupported("index into a register")
            fat0 = first[1]

            def head(st, fr):
                v = fr.locals[l]
                if fat0:
                    if v is None or v is UNINIT:
                        raise Violation("uninit", "use of an uninitialised pointer")
                    return agg_part(st, v, off, 8), agg_part(st, v, off + 8, 8)
                if off or isinstance(v, Agg):
                    return agg_part(st, v, off, 8), None
                return v, None
        else:
            fs0 = first[0]
            fat0 = first[1]

            def head(st, fr):
                p, m = base(st, fr)
                if fs0:
                    p, m = apply(st, fr, p, m, fs0)
                if fat0:
                    return st.load(p, 8), st.load(padd(p, 8), 8)
                return st.load(p, 8), None
        rest = loads[1:]
        if not rest and not lastfs:
            return head
        if not rest and len(lastfs) == 1 and lastfs[0][0] == "k":
            koff = lastfs[0][1]

            def f3(st, fr):
                p, m = head(st, fr)
                return padd(p, koff), m
            return f3

        def f4(st, fr):
            p, m = head(st, fr)
            for fs, fat, t in rest:
                p, m = apply(st, fr, p, m, fs)
                if fat:
                    p, m = st.load(p, 8), st.load(padd(p, 8), 8)
                else:
                    p, m = st.load(p, 8), None
            return apply(st, fr, p, m, lastfs)
        return f4

    def read(self, pl):
        """Compiles to a function giving the value of a place"""
        l = pl[0]
        ty = self.place_ty(pl)
        if ty.size == 0 and ty.sized:
            z = Agg(0, [])
            return lambda st, fr: z
        if len(pl) == 1 and not self.fn.heads[l]:
            sc = ty.scalar
            size = ty.size

            def r0(st, fr):
                v = fr.locals[l]
                if v is None:
                    return UNINIT if sc else Agg(size, [])
                return v
            return r0
        if not self.fn.heads[l] and all(p[0] != "d" for p in pl[1:]):
            segs = self.plan(pl)
            steps = segs[0][0]
            off = 0
            for s in steps:
                if not isinstance(s, int):
                    raise Unsupported("dynamic projection of a register")
                off += s
            size = ty.size
            if ty.scalar:
                return lambda st, fr: agg_part(st, fr.locals[l], off, size)
            return lambda st, fr: agg_sub(st, fr.locals[l], off, size)
        ad = self.addr(pl)
        size = ty.size
        if ty.scalar:
            def r1(st, fr):
                return st.load(ad(st, fr)[0], size)
            return r1

        def r2(st, fr):
            return st.load_agg(ad(st, fr)[0], size)
        return r2

    def write(self, pl):
        l = pl[0]
        ty = self.place_ty(pl)
        if ty.size == 0 and ty.sized:
            return lambda st, fr, v: None
        if len(pl) == 1 and not self.fn.heads[l]:
            def w0(st, fr, v):
                fr.locals[l] = v
            return w0
        ad = self.addr(pl)
        size = ty.size

        def w1(st, fr, v):
            if isinstance(v, Agg):
                st.store_agg(ad(st, fr)[0], v)
            else:
                st.store(ad(st, fr)[0], size, v)
        return w1

    # ---- operands
    def op_ty(self, o):
        if o[0] in ("c", "m"):
            return self.place_ty(o[1])
        if o[0] in ("k", "z"):
            return self.prog.types[o[1]]
        return None

    def operand(self, o):
        k = o[0]
        if k in ("c", "m"):
            return self.read(o[1])
        if k == "k":
            ty = self.prog.types[o[1]]
            v = self.eng.const_value(ty, o[2])
            return lambda st, fr: v
        if k == "z":
            v = Agg(0, [])
            return lambda st, fr: v
        if k == "rc":
            v = 1 if o[1] == "OverflowChecks" else 0
            return lambda st, fr: v
        msg = "operand %r" % (o,)

        def bad(st, fr):
            raise Unsupported(msg)
        return bad

    # ---- statements
    def stmt(self, s):
        k = s[0]
        try:
            if k == "=":
                return self.assign(s)
            if k == "sd":
                ty = self.place_ty(s[1])
                return self.set_discr(s[1], ty, s[2])
            if k == "sl":
                l = s[1]
                if self.fn.heads[l]:
                    def sl(st, fr):
                        aid = fr.locals[l]
                        if aid is not None:
                            st.mem.pop(aid, None)
                            fr.locals[l] = None
                    return sl
                return None
            if k == "sx":
                l = s[1]
                if self.fn.heads[l]:
                    def sx(st, fr):
                        aid = fr.locals[l]
                        if aid is not None:
                            st.mem.pop(aid, None)
                            fr.locals[l] = None
                    return sx
                return None
            if k == "assume":
                o = self.operand(s[1])

                def asm(st, fr):
                    if not st.decide(o(st, fr), "assume"):
                        if of_text(fr):
                            raise PathEnd()
                        raise Violation("ub", "assumption which does not hold")
                return asm
            if k == "cno":
                a, b, c = (self.operand(x) for x in s[1:4])
                sz = self.op_ty(s[1]).to.size

                def cno(st, fr):
                    st.copy_range(a(st, fr), b(st, fr), scale(st.num(c(st, fr)), sz))
                return cno
        except Unsupported as e:
            msg = str(e)

            def bad(st, fr):
                raise Unsupported(msg)
            return bad
        return None

    def assign(self, s):
        pl, rv = s[1], s[2]
        ty = self.place_ty(pl)
        val = self.rvalue(rv, ty)
        l = pl[0]
        if len(pl) == 1 and not self.fn.heads[l]:
            def as0(st, fr):
                fr.locals[l] = val(st, fr)
            return as0
        w = self.write(pl)

        def as1(st, fr):
            w(st, fr, val(st, fr))
        return as1

    def set_discr(self, pl, ty, variant):
        if ty.k != "enum" or ty.tag is None:
            return None
        tag = ty.tag
        ad = self.addr(pl)
        v = tag_value(ty, variant)
        if v is None:
            return None
        off, sz = tag["tag_off"], tag["tag_size"]

        def sd(st, fr):
            st.store(padd(ad(st, fr)[0], off), sz, v)
        return sd

    def rvalue(self, rv, dty):
        k = rv[0]
        prog = self.prog
        if k == "use":
            return self.operand(rv[1])
        if k in ("ref", "addr"):
            pl = rv[1]
            pty = self.place_ty(pl)
            ad = self.addr(pl)
            if dty.fat:
                if pl[-1:] and isinstance(pl[-1], list) and pl[-1][0] == "d" and False:
                    pass

                def mkfat(st, fr):
                    p, m = ad(st, fr)
                    return Agg(16, [(0, 8, p), (8, 8, m)])
                return mkfat
            return lambda st, fr: ad(st, fr)[0]
        if k == "bin":
            return self.binop(rv[1], rv[2], rv[3], dty)
        if k == "cbin":
            return self.cbinop(rv[1], rv[2], rv[3], dty)
        if k == "cast":
            return self.cast(rv, dty)
        if k == "discr":
            pl = rv[1]
            ty = self.place_ty(pl)
            r = self.discr_reader(pl, ty)
            return r
        if k == "len":
            pl = rv[1]
            ty = self.place_ty(pl)
            if ty.k == "array":
                n = ty.len
                return lambda st, fr: n
            ad = self.addr(pl)
            return lambda st, fr: ad(st, fr)[1]
        if k == "repeat":
            o = self.operand(rv[1])
            n = rv[2]
            esz = dty.elem.size
            size = dty.size
            if size == 0:
                return lambda st, fr: Agg(0, [])

            def rep(st, fr):
                v = o(st, fr)
                cells = []
                if isinstance(v, Agg):
                    for i in range(n):
                        for q, s2, x in v.cells:
                            cells.append((i * esz + q, s2, x))
                else:
                    if esz == 1 and n > 64 and type(v) is int:
                        return Agg(size, [(0, n, Seg(v, 0))])
                    for i in range(n):
                        cells.append((i * esz, esz, v))
                if dty.scalar:
                    return agg_part(st, Agg(size, cells), 0, size)
                return Agg(size, cells)
            return rep
        if k == "un":
            return self.unop(rv[1], rv[2], dty)
        if k == "agg":
            return self.aggregate(rv, dty)
        msg = "rvalue " + k

        def bad(st, fr):
            raise Unsupported(msg)
        return bad

    def discr_reader(self, pl, ty):
        if ty.k != "enum":
            return lambda st, fr: 0
        if ty.tag is None:
            v = ty.discr[ty.single] if ty.single is not None and ty.discr else 0
            return lambda st, fr: v
        tag = ty.tag
        off, sz = tag["tag_off"], tag["tag_size"]
        l = pl[0]
        if not self.fn.heads[l] and all(p[0] != "d" for p in pl[1:]):
            segs = self.plan(pl)
            base = sum(segs[0][0]) if segs[0][0] else 0

            def rd(st, fr):
                return agg_part(st, fr.locals[l], base + off, sz)
        else:
            ad = self.addr(pl)

            def rd(st, fr):
                return st.load(padd(ad(st, fr)[0], off), sz)
        dec = discr_decoder(ty)
        return lambda st, fr: dec(st, rd(st, fr))

    def aggregate(self, rv, dty):
        kind = rv[1][0]
        ops = [self.operand(o) for o in rv[2]]
        prog = self.prog
        size = dty.size
        if kind == "rawptr":
            def rp(st, fr):
                p = ops[0](st, fr)
                m = ops[1](st, fr)
                if dty.fat:
                    return Agg(16, [(0, 8, p), (8, 8, m)])
                return p
            return rp
        variant = None
        extra = None
        if kind == "adt":
            variant = rv[1][1]
            if rv[1][2] is not None:
                offs = [(prog.field(dty, None, rv[1][2]))]
                offs = [(0, offs[0][1])]
            else:
                offs = [prog.field(dty, variant if dty.k == "enum" else None, i) for i in range(len(ops))]
            if dty.k == "enum" and dty.tag is not None:
                v = tag_value(dty, variant)
                if v is not None:
                    extra = (dty.tag["tag_off"], dty.tag["tag_size"], v)
        elif kind == "array":
            offs = [(i * dty.elem.size, dty.elem) for i in range(len(ops))]
        elif kind in ("tuple", "closure"):
            offs = [prog.field(dty, None, i) for i in range(len(ops))]
        else:
            msg = "aggregate " + kind

            def bad(st, fr):
                raise Unsupported(msg)
            return bad
        items = [(off, t.size, o) for (off, t), o in zip(offs, ops) if t.size]
        if size == 0:
            return lambda st, fr: Agg(0, [])
        if dty.scalar:
            if len(items) == 1 and items[0][1] == size and extra is None:
                return items[0][2]
            if not items and extra is not None and extra[1] == size:
                c = extra[2]
                return lambda st, fr: c

        def ag(st, fr):
            cells = []
            for off, sz, o in items:
                v = o(st, fr)
                if isinstance(v, Agg):
                    for q, s2, x in v.cells:
                        cells.append((off + q, s2, x))
                else:
                    cells.append((off, sz, v))
            if extra is not None:
                cells.append(extra)
            r = Agg(size, cells)
            if dty.scalar:
                return agg_part(st, r, 0, size)
            return r
        return ag

    # ---- arithmetic
    def unop(self, op, o, dty):
        v = self.operand(o)
        ty = self.op_ty(o)
        if op == "PtrMetadata":
            def pm(st, fr):
                x = v(st, fr)
                if isinstance(x, Agg):
                    return agg_part(st, x, 8, 8) if x.size == 16 else Agg(0, [])
                return Agg(0, [])
            return pm
        if op == "Not":
            if ty.k == "bool":
                def nb(st, fr):
                    x = v(st, fr)
                    if isinstance(x, Cond):
                        return x.neg()
                    x = st.num(x)
                    return sub(1, x)
                return nb
            M = (1 << ty.bits) - 1
            return lambda st, fr: st.cons.norm(sub(M, st.num(v(st, fr))))
        if op == "Neg":
            w = ty.bits
            if ty.k == "float":
                return lambda st, fr: flt(st, "neg", w, v(st, fr))

            def ng(st, fr):
                x = st.num(v(st, fr))
                if type(x) is int:
                    return -x & ((1 << w) - 1)
                if st.decide_eq(x, "neg"):
                    return 0
                return st.cons.norm(sub(1 << w, x))
            return ng
        msg = "unary " + op

        def bad(st, fr):
            raise Unsupported(msg)
        return bad

    def binop(self, op, a, b, dty):
        ta = self.op_ty(a)
        tb = self.op_ty(b)
        x, y = self.operand(a), self.operand(b)
        f = bin_fn(op, ta, tb, dty)
        return lambda st, fr: f(st, x(st, fr), y(st, fr))

    def cbinop(self, op, a, b, dty):
        ta = self.op_ty(a)
        x, y = self.operand(a), self.operand(b)
        f = overflow_fn(op, ta.bits, ta.k == "int")
        o0, _ = self.prog.field(dty, None, 0)
        o1, _ = self.prog.field(dty, None, 1)
        sz = ta.size
        size = dty.size

        def cb(st, fr):
            v, o = f(st, x(st, fr), y(st, fr))
            return Agg(size, [(o0, sz, v), (o1, 1, o)])
        return cb

    def cast(self, rv, dty):
        kind, o, from_, to = rv[1], rv[2], self.prog.types[rv[3]], self.prog.types[rv[4]]
        v = self.operand(o)
        if kind == "reify":
            f = FnV(rv[5])
            return lambda st, fr: f
        if kind == "ptr":
            if from_.fat and not to.fat:
                def thin(st, fr):
                    x = v(st, fr)
                    return agg_part(st, x, 0, 8)
                return thin
            return v
        if kind == "unsize":
            ex = rv[5]
            if ex == "same":
                return v
            if isinstance(ex, str):
                raise Unsupported("unsize of " + from_.name)
            if "upcast" in ex:
                raise Unsupported("upcast")
            m = ex["len"] if "len" in ex else self.eng.pointer(ex["vtable"], 0)

            def uns(st, fr):
                x = v(st, fr)
                if isinstance(x, Agg):
                    x = agg_part(st, x, 0, 8)
                return Agg(16, [(0, 8, x), (8, 8, m)])
            if to.size == 16:
                return uns
            raise Unsupported("unsize to " + to.name)
        if kind == "p2i":
            return v
        if kind == "i2p":
            return lambda st, fr: int_to_ptr(st, v(st, fr))
        if kind == "transmute":
            return transmute_fn(v, from_, to)
        if kind == "i2i":
            w1 = from_.bits or 8 * from_.size
            w2 = to.bits or 8 * to.size
            signed = from_.k == "int"
            if from_.k == "enum":
                ds = from_.discr
                ity = None
                dec = discr_decoder(from_) if from_.tag is not None else None
                w1 = 8 * from_.size if from_.size else w2
                M = (1 << w2) - 1
                if dec is None:
                    k = (ds[from_.single or 0] if ds else 0) & M
                    return lambda st, fr: k
                neg_ = any(d >> 64 for d in ds)

                def en(st, fr):
                    x = dec(st, v(st, fr))
                    return st.wrap(st.num(x), w2) if not neg_ else st.const(x) & M
                return en

            def ii(st, fr):
                x = v(st, fr)
                if isinstance(x, Ptr) and w2 == 64:
                    return x
                x = st.num(x)
                if type(x) is int:
                    if signed and w2 > w1 and x >> (w1 - 1):
                        x -= 1 << w1
                    return x & ((1 << w2) - 1)
                if w2 == w1:
                    return x
                if w2 > w1:
                    if signed:
                        s = st.signed(x, w1)
                        s = st.cons.norm(s)
                        l, h = st.cons.rng(s)
                        if l < 0:
                            return st.cons.norm(add(s, 1 << w2))
                        return s
                    return x
                return st.cons.low(x, w2, w1)
            return ii
        if kind in ("f2i", "i2f", "f2f"):
            w1 = from_.bits
            w2 = to.bits
            sg = from_.k == "int" if kind == "i2f" else to.k == "int"

            def fc(st, fr):
                return flt_cast(st, kind, w1, w2, sg, v(st, fr))
            return fc
        msg = "cast " + kind

        def bad(st, fr):
            raise Unsupported(msg)
        return bad

    # ---- terminators
    def term(self, t):
        try:
            return self.term_(t)
        except Unsupported as e:
            msg = str(e)

            def bad(st, fr):
                raise Unsupported(msg)
            return bad

    def term_(self, t):
        k = t[0]
        eng = self.eng
        if k == "goto":
            b = t[1]

            def goto(st, fr):
                fr.bb = b
                fr.si = 0
                return True
            return goto
        if k == "switch":
            o = self.operand(t[1])
            br = t[2]
            other = t[3]
            ty = self.prog.types[t[4]]
            targets = {v: b for v, b in br}
            isb = ty.k == "bool"

            def switch(st, fr):
                v = o(st, fr)
                if isinstance(v, Cond):
                    v = 1 if st.decide(v) else 0
                elif type(v) is not int:
                    v = st.num(v)
                    if type(v) is not int:
                        l, h = st.cons.rng(v)
                        alts = []
                        for c in targets:
                            if c < l or c > h:
                                continue
                            r = st.cons.eq(add(v, -c))
                            if r is True:
                                alts = None
                                v = c
                                break
                            if r is None:
                                alts.append([("eq", add(v, -c))])
                        if alts is not None:
                            if not alts:
                                fr.bb = other
                                fr.si = 0
                                return True
                            rest = [("ne", add(v, -c)) for c in targets if l <= c <= h]
                            alts.append(rest)
                            raise NeedSplit(alts, "switch")
                fr.bb = targets.get(v, other)
                fr.si = 0
                return True
            return switch
        if k == "ret":
            def ret(st, fr):
                eng.pop(st)
                return True
            return ret
        if k == "assert":
            o = self.operand(t[1])
            exp = t[2]
            msg = t[3]
            target = t[4]

            def asr(st, fr):
                if st.decide(o(st, fr), "assert") != exp:
                    raise Violation("panic", msg)
                fr.bb = target
                fr.si = 0
                return True
            return asr
        if k == "drop":
            ty = self.prog.types[t[3]]
            target = t[2]
            if ty.k == "dyn":
                ad = self.addr(t[1])

                def dropdyn(st, fr):
                    p, m = ad(st, fr)
                    f = vtable_word(st, m, 0)
                    if isinstance(f, FnV):
                        eng.call_fn(st, eng.prog.fns[f.f], [p], None, target, "drop")
                    else:
                        fr.bb = target
                        fr.si = 0
                    return True
                return dropdyn
            if ty.drop is None:
                def nodrop(st, fr):
                    fr.bb = target
                    fr.si = 0
                    return True
                return nodrop
            ad = self.addr(t[1])
            f = self.prog.fns[ty.drop]
            fat = not ty.sized

            def drop(st, fr):
                p, m = ad(st, fr)
                eng.call_fn(st, f, [Agg(16, [(0, 8, p), (8, 8, m)]) if fat else p], None, target, "drop")
                return True
            return drop
        if k == "call":
            return self.call(t)
        if k == "unreachable":
            def unr(st, fr):
                raise Violation("ub", "unreachable code is reached")
            return unr
        msg = "terminator " + k

        def bad(st, fr):
            raise Unsupported(msg)
        return bad

    def call(self, t):
        eng = self.eng
        prog = self.prog
        args = [self.operand(o) for o in t[2]]
        atys = [prog.types[x] for x in t[5]]
        dest = self.write(t[3])
        target = t[4]
        dty = prog.types[t[6]]
        cal = t[1]
        if cal[0] == "fn":
            fn = prog.fns[cal[1]]
            if fn.empty:
                def nop(st, fr):
                    fr.bb = target
                    fr.si = 0
                    return True
                return nop
            if fn.virtual is not None:
                idx = fn.virtual

                def vcall(st, fr):
                    vs = [a(st, fr) for a in args]
                    s = vs[0]
                    if not isinstance(s, Agg) or s.size != 16:
                        raise Unsupported("virtual call receiver")
                    f = vtable_word(st, agg_part(st, s, 8, 8), idx)
                    if not isinstance(f, FnV):
                        raise Unsupported("virtual call of %r" % (f,))
                    vs[0] = agg_part(st, s, 0, 8)
                    g = eng.prog.fns[f.f]
                    eng.call_fn(st, g, vs, dest, target, "virtual", atys, dty)
                    return True
                return vcall
            m = eng.models.find(eng, fn)
            if m is not None:
                def mcall(st, fr):
                    vs = [a(st, fr) for a in args]
                    r = m(eng, st, fr, fn, vs, atys, dty, dest, target)
                    if r is not PUSHED:
                        if target is None:
                            raise Unsupported("model of a diverging function returns")
                        dest(st, fr, r)
                        fr.bb = target
                        fr.si = 0
                    return True
                return mcall
            if fn.raw is None:
                msg = "no body: " + (fn.intrinsic or fn.name)

                def nobody(st, fr):
                    raise Unsupported(msg)
                if target is None:
                    def nobody(st, fr):
                        raise Violation("panic", fn.path)
                return nobody
            if target is None and eng.models.panics(fn):
                def pan(st, fr):
                    v = Violation("panic", fn.path)
                    raise v
                return pan
            closure = fn.closure

            if not closure:
                def dcall(st, fr):
                    eng.push(st, fn, [a(st, fr) for a in args], dest, target, None)
                    return True
                return dcall

            def ccall(st, fr):
                vs = [a(st, fr) for a in args]
                vs = eng.untuple(st, fn, vs, atys)
                eng.push(st, fn, vs, dest, target, None)
                return True
            return ccall
        if cal[0] == "ptr":
            fp = self.operand(cal[1])

            def pcall(st, fr):
                f = fp(st, fr)
                if not isinstance(f, FnV):
                    raise Unsupported("call through %r" % (f,))
                vs = [a(st, fr) for a in args]
                eng.call_fn(st, eng.prog.fns[f.f], vs, dest, target, "ptr", atys, dty, viaptr=True)
                return True
            return pcall
        msg = "unresolved call %r" % (cal,)

        def bad(st, fr):
            raise Unsupported(msg)
        return bad


class _Pushed:
    pass


PUSHED = _Pushed()


def _call_fn(self, st, fn, vs, dest, target, why, atys=None, dty=None, viaptr=False, model=True):
    fr = st.frames[-1]
    if fn.empty:
        fr.bb = target
        fr.si = 0
        return
    m = self.models.find(self, fn) if model else None
    if m is not None:
        r = m(self, st, fr, fn, vs, atys, dty, dest or (lambda s, f, v: None), target)
        if r is not PUSHED:
            if dest is not None:
                dest(st, fr, r)
            fr.bb = target
            fr.si = 0
        return
    if fn.raw is None:
        if target is None:
            raise Violation("panic", fn.path)
        raise Unsupported("no body: " + (fn.intrinsic or fn.name))
    if fn.closure and not viaptr:
        vs = self.untuple(st, fn, vs, atys)
    elif fn.closure and len(vs) == fn.argc - 1:
        vs = [Agg(0, [])] + vs
    elif viaptr and fn.spread is not None and len(vs) != fn.argc:
        # an FnOnce shim called through a function pointer: the environment is empty, the rest is a tuple
        tt = fn.locals[fn.argc]
        cells = []
        for i, v in enumerate(vs):
            off, fty = self.prog.field(tt, None, i)
            if isinstance(v, Agg):
                cells += [(off + q, s, x) for q, s, x in v.cells]
            elif fty.size:
                cells.append((off, fty.size, v))
        tup = Agg(tt.size, cells)
        vs = [Agg(0, []), agg_part(st, tup, 0, tt.size) if tt.scalar else tup]
    self.push(st, fn, vs, dest or (lambda s, f, v: None), target, why)


def _untuple(self, st, fn, vs, atys):
    if len(vs) == 2 and atys is not None and atys[1].k == "tuple":
        tt = atys[1]
        fields = tt.vtys[0] if tt.vtys else []
        if len(fields) + 1 == fn.argc:
            out = [vs[0]]
            for i, f in enumerate(fields):
                if f.size == 0:
                    out.append(Agg(0, []))
                elif f.scalar:
                    out.append(agg_part(st, vs[1], tt.offs[i], f.size))
                else:
                    out.append(agg_sub(st, vs[1], tt.offs[i], f.size))
            return out
    if len(vs) == fn.argc:
        return vs
    raise Unsupported("arguments of closure %s" % fn.name)


Engine.call_fn = _call_fn
Engine.untuple = _untuple


# ---- helpers on values

def padd(p, o):
    if type(o) is int and o == 0:
        return p
    if isinstance(p, Ptr):
        return Ptr(p.a, add(p.o, o))
    if isinstance(p, (int, Lin)):
        return add(p, o)
    if p is UNINIT or p is None:
        raise Violation("uninit", "use of an uninitialised pointer")
    if isinstance(p, FnV):
        raise Unsupported("offset of a function pointer")
    raise Unsupported("offset of %r" % (p,))


def agg_part(st, v, off, n):
    """A scalar inside a value"""
    if isinstance(v, Agg):
        for q, s, x in v.cells:
            if s == n and type(q) is int and q == off:
                return x if type(x) is not Lin else st.cons.norm(x)
        ps = agg_pieces(st, v, off, n)
        return st.join(ps, n)
    if v is None or v is UNINIT:
        return UNINIT
    if off == 0:
        if isinstance(v, (Ptr, FnV)):
            if n == 8:
                return v
        if isinstance(v, Cond):
            return v
        if isinstance(v, int):
            return v & ((1 << (8 * n)) - 1)
        x = st.num(v)
        return st.cons.low(x, 8 * n, 128)
    x = st.num(v)
    return st.cons.slice(x, 8 * off, 8 * (off + n), 128)


def agg_pieces(st, v, off, n):
    out = []
    for q, s, x in sorted(v.cells, key=lambda c: c[0] if type(c[0]) is int else 1 << 60):
        if type(q) is not int or type(s) is not int:
            raise Unsupported("part of an aggregate with pieces of unknown length")
        if q < off + n and q + s > off:
            lo = max(q, off)
            hi = min(q + s, off + n)
            out.append((lo - off, hi - lo, st._part(x, s, lo - q, hi - lo)))
    return out


def agg_sub(st, v, off, n):
    if v is None or v is UNINIT:
        return Agg(n, [])
    if not isinstance(v, Agg):
        if off == 0:
            return Agg(n, [(0, n, v)])
        return Agg(n, [(0, n, agg_part(st, v, off, n))])
    if off == 0 and n == v.size:
        return v
    return Agg(n, agg_pieces(st, v, off, n))


def vtable_word(st, meta, i):
    if not isinstance(meta, Ptr):
        raise Unsupported("vtable %r" % (meta,))
    return st.load(padd(meta, 8 * i), 8)


def int_to_ptr(st, v):
    if isinstance(v, Ptr):
        return v
    v = st.num(v)
    if type(v) is int:
        return v
    for aid, base in st.addr.items():
        d = st.cons.norm(sub(v, base))
        if type(d) is int or not any(a.var.name == "addr" for a, _ in d.t):
            return Ptr(aid, d)
    return v


def tag_value(ty, variant):
    tag = ty.tag
    bits = 8 * tag["tag_size"]
    if tag["enc"] == "direct":
        return ty.discr[variant] & ((1 << bits) - 1)
    e = tag["enc"]
    if variant == e["untagged"]:
        return None
    return (variant - e["start"] + e["niche_start"]) & ((1 << bits) - 1)


def discr_decoder(ty):
    tag = ty.tag
    bits = 8 * tag["tag_size"]
    M = (1 << bits) - 1
    ds = ty.discr if ty.discr else list(range(len(ty.vtys)))
    if tag["enc"] == "direct":
        # the tag is the discriminant, possibly of a wider type
        conv = {d & M: d for d in ds}
        if all(k == d for k, d in conv.items()):
            def direct(st, v):
                if v is UNINIT:
                    raise Violation("uninit", "discriminant of uninitialised memory")
                return v
            return direct

        def dir2(st, v):
            v = st.const(v, "discriminant")
            return conv[v]
        return dir2
    e = tag["enc"]
    start, end, ns, unt = e["start"], e["end"], e["niche_start"], e["untagged"]
    vals = {}
    for k in range(start, end + 1):
        if k == unt and False:
            continue
        vals[(k - start + ns) & M] = k

    def niche(st, v):
        if v is UNINIT:
            raise Violation("uninit", "discriminant of uninitialised memory")
        if isinstance(v, (Ptr, FnV)):
            return ds[unt]
        v = st.num(v)
        if type(v) is int:
            k = vals.get(v)
            return ds[unt if k is None else k]
        alts = []
        for c, k in vals.items():
            r = st.cons.eq(add(v, -c))
            if r is True:
                return ds[k]
            if r is None:
                alts.append([("eq", add(v, -c))])
        if not alts:
            return ds[unt]
        alts.append([("ne", add(v, -c)) for c in vals])
        raise NeedSplit(alts, "niche")
    return niche


def transmute_fn(v, from_, to):
    n = to.size
    if from_.size == 0 and n == 0:
        return lambda st, fr: Agg(0, [])

    def tm(st, fr):
        x = v(st, fr)
        if to.scalar:
            if isinstance(x, Agg):
                x = agg_part(st, x, 0, n)
            if isinstance(x, Seg):
                x = x.scalar(st, n)
            return x
        if not isinstance(x, Agg):
            return Agg(n, [(0, n, x)])
        return x
    return tm


def cmp_cond(st, x, y, signed, w, op):
    """x op y on numbers, op in lt le gt ge eq ne"""
    if op in ("eq", "ne"):
        d = st.cons.norm(sub(x, y))
        if type(d) is int:
            r = d == 0
            return int(r if op == "eq" else not r)
        r = st.cons.eq(d)
        if r is not None:
            return int(r if op == "eq" else not r)
        return Cond("eq", d, op == "ne")
    if signed:
        x = st.signed(x, w)
        y = st.signed(y, w)
    if op == "lt":
        d = sub(sub(y, x), 1)
    elif op == "le":
        d = sub(y, x)
    elif op == "gt":
        d = sub(sub(x, y), 1)
    else:
        d = sub(x, y)
    d = st.cons.norm(d)
    r = st.cons.ge(d)
    if r is None:
        return Cond("ge", d)
    return int(r)


def ptr_cmp(st, x, y, op):
    if isinstance(x, Agg) or isinstance(y, Agg):
        # wide pointers
        if op not in ("eq", "ne"):
            raise Unsupported("order of wide pointers")
        a = ptr_cmp(st, agg_part(st, x, 0, 8), agg_part(st, y, 0, 8), "eq")
        b = ptr_cmp(st, agg_part(st, x, 8, 8), agg_part(st, y, 8, 8), "eq")
        r = st.decide(a) and st.decide(b)
        return int(r if op == "eq" else not r)
    if x is UNINIT or y is UNINIT:
        raise Violation("uninit", "comparison of uninitialised memory")
    if isinstance(x, FnV) or isinstance(y, FnV):
        if op in ("eq", "ne"):
            r = x == y
            return int(r if op == "eq" else not r)
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        if x.a == y.a:
            return cmp_cond(st, x.o, y.o, False, 64, op)
        if op in ("eq", "ne"):
            return int(op == "ne")
    elif op in ("eq", "ne"):
        n = y if isinstance(x, Ptr) else x
        if (isinstance(x, Ptr) or isinstance(y, Ptr)) and type(n) is int and n < 16:
            return int(op == "ne")
    return cmp_cond(st, st.num(x), st.num(y), False, 64, op)


OPS = {"Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge", "Eq": "eq", "Ne": "ne"}


def lin_mul(st, x, y):
    x = st.cons.norm(x)
    y = st.cons.norm(y)
    if type(x) is int:
        return scale(y, x)
    if type(y) is int:
        return scale(x, y)
    # one of them with few values
    for a in (x, y):
        l, h = st.cons.rng(a)
        if h - l <= 64:
            st.const(a, "product")
    raise Unsupported("product of unknowns")


def bin_fn(op, ta, tb, dty):
    k = ta.k
    if op in OPS:
        o = OPS[op]
        if k in ("ptr", "ref", "fnptr"):
            return lambda st, x, y: ptr_cmp(st, x, y, o)
        if k == "float":
            w = ta.bits
            return lambda st, x, y: flt_cmp(st, o, w, x, y)
        w = ta.bits or 8 * ta.size
        sg = k == "int"

        if k == "bool":
            def cmpb(st, x, y):
                if isinstance(x, Cond) and type(y) is int and o in ("eq", "ne"):
                    return x if (y == 1) == (o == "eq") else x.neg()
                if isinstance(y, Cond) and type(x) is int and o in ("eq", "ne"):
                    return y if (x == 1) == (o == "eq") else y.neg()
                return cmp_cond(st, st.num(x), st.num(y), False, 8, o)
            return cmpb

        def cmpi(st, x, y):
            if isinstance(x, (Ptr, FnV)) or isinstance(y, (Ptr, FnV)):
                return ptr_cmp(st, x, y, o)
            if type(x) is int and type(y) is int and not sg:
                if o == "eq":
                    return int(x == y)
                if o == "lt":
                    return int(x < y)
            return cmp_cond(st, st.num(x), st.num(y), sg, w, o)
        return cmpi
    if op == "Offset":
        sz = ta.to.size

        def off(st, x, y):
            y = st.num(y)
            if tb.k == "int":
                y = st.signed(y, 64)
            return padd(x, scale(y, sz))
        return off
    w = ta.bits
    if k == "float":
        return lambda st, x, y: flt(st, op.lower(), w, x, y)
    if w is None and k in ("ptr", "ref"):
        raise Unsupported("pointer arithmetic " + op)
    sg = k == "int"
    M = (1 << w) - 1
    if op in ("Add", "AddUnchecked"):
        def addf(st, x, y):
            if isinstance(x, Ptr) and not isinstance(y, Ptr) and w == 64:
                y = st.num(y)
                if type(y) is int:
                    if y >> 63:
                        y -= 1 << 64
                    return Ptr(x.a, st.cons.norm(add(x.o, y)))
            x, y = st.num(x), st.num(y)
            if type(x) is int and type(y) is int:
                return (x + y) & M
            return st.wrap(add(x, y), w)
        return addf
    if op in ("Sub", "SubUnchecked"):
        def subf(st, x, y):
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.a == y.a:
                return st.wrap(sub(x.o, y.o), w)
            x, y = st.num(x), st.num(y)
            if type(x) is int and type(y) is int:
                return (x - y) & M
            return st.wrap(sub(x, y), w)
        return subf
    if op in ("Mul", "MulUnchecked"):
        def mulf(st, x, y):
            x, y = st.num(x), st.num(y)
            if sg:
                x, y = st.signed(x, w), st.signed(y, w)
            return st.wrap(lin_mul(st, x, y), w)
        return mulf
    if op in ("BitAnd", "BitOr", "BitXor"):
        if k == "bool":
            def boolf(st, x, y):
                # short cuts keep conditions whole
                for p, q in ((x, y), (y, x)):
                    if type(p) is int:
                        if op == "BitAnd":
                            return q if p else 0
                        if op == "BitOr":
                            return 1 if p else q
                        if isinstance(q, Cond):
                            return q.neg() if p else q
                x, y = st.num(x), st.num(y)
                if type(x) is int and type(y) is int:
                    return {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op]
                x, y = st.const(x), st.const(y)
                return {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op]
            return boolf
        if op == "BitAnd":
            def andf(st, x, y):
                if isinstance(x, Ptr) and type(y) is int and y == M ^ 0:
                    return x
                return st.cons.and_(st.num(x), st.num(y), w)
            return andf
        if op == "BitOr":
            return lambda st, x, y: st.cons.norm(st.cons.or_(st.num(x), st.num(y), w))
        return lambda st, x, y: st.cons.norm(st.cons.xor_(st.num(x), st.num(y), w))
    if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
        left = op.startswith("Shl")

        def shf(st, x, y):
            x = st.num(x)
            y = st.num(y)
            if type(y) is not int:
                y = st.const(y, "shift")
            y &= w - 1
            if left:
                if type(x) is int:
                    return (x << y) & M
                lo = st.cons.low(x, w - y, w)
                return st.cons.norm(scale(lo, 1 << y))
            if sg:
                x = st.signed(x, w)
                if type(x) is int:
                    return (x >> y) & M
                x = st.cons.norm(x)
                l, h = st.cons.rng(x)
                if l < 0:
                    # floor(x / 2^y) of a negative number, through the pattern
                    u = st.cons.norm(add(x, 1 << w))
                    q = st.cons.shr(u, y, w)
                    return st.cons.norm(add(q, (1 << w) - (1 << (w - y))))
                return st.cons.shr(x, y, w)
            return st.cons.shr(x, y, w)
        return shf
    if op in ("Div", "Rem"):
        div = op == "Div"

        def dv(st, x, y):
            x, y = st.num(x), st.num(y)
            if sg:
                x, y = st.signed(x, w), st.signed(y, w)
            if type(y) is not int:
                y = st.const(y, "divisor")
            if y == 0:
                raise Violation("panic", "division by zero")
            if type(x) is int:
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                r = x - q * y
                return (q if div else r) & M
            x = st.cons.norm(x)
            l, h = st.cons.rng(x)
            if l < 0 or y < 0:
                if h < 0:
                    raise Unsupported("signed division")
                if not st.decide_ge(x, "sign"):
                    raise Unsupported("signed division")
                if y < 0:
                    raise Unsupported("signed division")
            if y & (y - 1) == 0:
                s = y.bit_length() - 1
                return st.cons.shr(x, s, w) if div else st.cons.low(x, s, w)
            q = divmod_lin(st, x, y, w)
            return st.cons.norm(q) if div else st.cons.norm(sub(x, scale(q, y)))
        return dv
    if op == "Cmp":
        def cmp3(st, x, y):
            if isinstance(x, (Ptr, FnV)) or isinstance(y, (Ptr, FnV)):
                lt = ptr_cmp(st, x, y, "lt")
                if st.decide(lt):
                    return 0xFF
                return 0 if st.decide(ptr_cmp(st, x, y, "eq")) else 1
            x, y = st.num(x), st.num(y)
            if sg:
                x, y = st.signed(x, w), st.signed(y, w)
            d = st.cons.norm(sub(x, y))
            if type(d) is int:
                return 0xFF if d < 0 else (1 if d > 0 else 0)
            if not st.decide_ge(d, "cmp"):
                return 0xFF
            return 0 if st.decide_eq(d, "cmp") else 1
        return cmp3
    raise Unsupported("operator " + op)


def divmod_lin(st, x, y, w):
    key = ("div", x, y)
    f = st.cons.facts
    q = f.get(key)
    if q is None:
        l, h = st.cons.rng(x)
        v = Var(max((h // y).bit_length(), 1), "q", 0, h // y)
        q = v.lin()
        f[key] = q
        r = sub(x, scale(q, y))
        st.cons.add_ge(r)
        st.cons.add_ge(sub(y - 1, r))
    return q


def overflow_fn(op, w, sg):
    M = (1 << w) - 1
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, M)
    base = op

    def f(st, x, y):
        if base in ("Shl", "Shr"):
            raise Unsupported("checked shift")
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.a == y.a and base == "Sub":
            x, y = st.cons.norm(x.o), st.cons.norm(y.o)
        else:
            x, y = st.num(x), st.num(y)
        if sg:
            x, y = st.signed(x, w), st.signed(y, w)
        if base == "Add":
            r = add(x, y)
        elif base == "Sub":
            r = sub(x, y)
        elif base == "Mul":
            r = lin_mul(st, x, y)
        else:
            raise Unsupported("checked " + base)
        r = st.cons.norm(r)
        if type(r) is int:
            return r & M, int(not lo <= r <= hi)
        ok = st.decide_ge(sub(r, lo), "overflow") and st.decide_ge(sub(hi, r), "overflow")
        if ok:
            if sg:
                l, h = st.cons.rng(r)
                if l < 0:
                    if h < 0:
                        return st.cons.norm(add(r, 1 << w)), 0
                    if st.decide_ge(r, "sign"):
                        return r, 0
                    return st.cons.norm(add(r, 1 << w)), 0
            return r, 0
        return st.wrap(r, w), 1
    return f


# ---- floats: bit patterns, operations on unknowns are uninterpreted
import struct


def _tof(bits, w):
    return struct.unpack("<f" if w == 32 else "<d", bits.to_bytes(w // 8, "little"))[0]


def _fromf(f, w):
    if w == 32:
        try:
            return int.from_bytes(struct.pack("<f", f), "little")
        except OverflowError:
            return 0x7F800000 if f > 0 else 0xFF800000
    return int.from_bytes(struct.pack("<d", f), "little")


def memo(st, key, bits, name):
    v = st.fact(key)
    if v is None:
        v = Var(bits, name).lin()
        st.cons.facts[key] = v
    return v if type(v) is int else st.cons.norm(v)


def flt(st, op, w, *xs):
    xs = [st.num(x) for x in xs]
    if op == "neg":
        top = 1 << (w - 1)
        return st.cons.norm(st.cons.xor_(xs[0], top, w))
    if all(type(x) is int for x in xs):
        a, b = (_tof(x, w) for x in xs)
        try:
            r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b}[op]()
            return _fromf(r, w)
        except (ZeroDivisionError, OverflowError, KeyError):
            pass
    return memo(st, ("flt", op + str(w)) + tuple(xs), w, "f" + op)


def flt_cmp(st, op, w, x, y):
    x, y = st.num(x), st.num(y)
    if type(x) is int and type(y) is int:
        a, b = _tof(x, w), _tof(y, w)
        return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op])
    if op == "ne":
        c = flt_cmp(st, "eq", w, x, y)
        return c.neg() if isinstance(c, Cond) else 1 - c
    if op in ("gt", "ge"):
        x, y = y, x
        op = "lt" if op == "gt" else "le"
    if op == "eq":
        if x == y:
            # equal unless it is not a number
            # widening keeps what is a number and what is not
            src = unwiden(st, x) if w == 64 else None
            c = Cond("fact", ("nan", 32, src) if src is not None else ("nan", w, x))
            if w == 32:
                src = unwiden(st, x, "64.32.0")
                if type(src) is int:
                    return int(_tof(src, 64) == _tof(src, 64))
                if src is not None:
                    c = Cond("fact", ("nan", 64, src))
            r = st.test(c)
            return c.neg() if r is None else int(not r)
        if repr(x) > repr(y):
            x, y = y, x
    return Cond("fact", ("fcmp", op, w, x, y))


def flt_cast(st, kind, w1, w2, sg, v):
    x = st.fix(st.num(v))
    r = flt_cast_(st, kind, w1, w2, sg, x)
    if type(x) is int and type(r) is int:
        # What was computed of the same number before it was known
        op = "%d.%d.%d" % (w1, w2, sg)
        for k, y in list(st.cons.facts.items()):
            if type(k) is tuple and k[0] == kind and k[1] == op and type(k[2]) is not int and st.fix(k[2]) == x:
                y = st.cons.norm(y)
                if type(y) is not int:
                    st.cons.add_eq(sub(y, r))
    return r


def flt_cast_(st, kind, w1, w2, sg, x):
    if type(x) is int:
        if kind == "i2f":
            if sg and x >> (w1 - 1):
                x -= 1 << w1
            if w2 == 64:
                return _fromf(float(x), 64)
            if abs(x) < 1 << 24:
                return _fromf(float(x), 32)
        elif kind == "f2i":
            f = _tof(x, w1)
            lo, hi = (-(1 << (w2 - 1)), (1 << (w2 - 1)) - 1) if sg else (0, (1 << w2) - 1)
            if f != f:
                return 0
            r = lo if f < lo else hi if f > hi else int(f)
            return r & ((1 << w2) - 1)
        else:
            f = _tof(x, w1)
            if f == f:
                return _fromf(f, w2)
    if kind == "f2f" and w1 == 64 and w2 == 32:
        # narrowing what was widened gives it back
        src = unwiden(st, x)
        if src is not None:
            return src
    return memo(st, (kind, "%d.%d.%d" % (w1, w2, sg), x), w2, kind)


def unwiden(st, x, how="32.64.0"):
    """The 32-bit float which x is the widened form of, if it is known to be one"""
    for k, v in st.cons.facts.items():
        if type(k) is tuple and k[0] == "f2f" and k[1] == how and st.cons.norm(v) == x:
            return k[2]
    return None
