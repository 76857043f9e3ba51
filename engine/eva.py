"""The abstract interpreter: states, memory and the transfer functions of MIR."""
import sys
import math

from dom import (Cons, Var, Lin, Atom, NeedSplit, Infeasible, Unsupported, add, sub, scale, neg, mk, runs)
from mir import Program

sys.setrecursionlimit(20000)


class Uninit:
    def __repr__(self):
        return "uninit"


UNINIT = Uninit()


class Ptr:
    __slots__ = ("a", "o")

    def __init__(self, a, o):
        self.a = a
        self.o = o

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.a == x.a and self.o == x.o

    def __hash__(self):
        return hash((self.a, self.o))

    def __repr__(self):
        return "&%s+%r" % (self.a, self.o)


class FnV:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __eq__(self, x):
        return isinstance(x, FnV) and self.f == x.f

    def __hash__(self):
        return hash(("fn", self.f))

    def __repr__(self):
        return "fn#%d" % self.f


class Cond:
    """A boolean which the state does not determine (yet). op: ge, eq, fact"""
    __slots__ = ("op", "x", "n")

    def __init__(self, op, x, n=False):
        self.op = op
        self.x = x
        self.n = n

    def neg(self):
        return Cond(self.op, self.x, not self.n)

    def alts(self):
        t, f = self.cons(True), self.cons(False)
        return t, f

    def cons(self, val):
        v = val != self.n
        if self.op == "ge":
            return ("ge", self.x) if v else ("ge", sub(-1, self.x))
        if self.op == "eq":
            return ("eq", self.x) if v else ("ne", self.x)
        return ("fact", self.x, v)

    def __repr__(self):
        return "%s%s(%r)" % ("!" if self.n else "", self.op, self.x)


class Agg:
    """A value of an aggregate type: cells (offset, size, value), and pieces of unknown length"""
    __slots__ = ("size", "cells")

    def __init__(self, size, cells):
        self.size = size
        self.cells = cells

    def __repr__(self):
        return "Agg(%r, %r)" % (self.size, self.cells)


class Opaque:
    """Contents: a sequence of bytes about which only facts are known"""
    count = 0
    __slots__ = ("id", "name", "text", "len")

    def __init__(self, name):
        Opaque.count += 1
        self.text = False
        self.len = None
        self.id = Opaque.count
        self.name = name

    def __repr__(self):
        return "%s$%d" % (self.name, self.id)


class Alloc:
    __slots__ = ("id", "size", "align", "cells", "log", "kind", "ro", "owner", "name")

    def __init__(self, id, size, align, kind, owner, name=""):
        self.id = id
        self.size = size
        self.align = align
        self.cells = {}
        self.log = None
        self.kind = kind
        self.ro = False
        self.owner = owner
        self.name = name

    def copy(self, owner):
        n = Alloc.__new__(Alloc)
        n.id = self.id
        n.size = self.size
        n.align = self.align
        n.cells = dict(self.cells)
        n.log = None if self.log is None else list(self.log)
        n.kind = self.kind
        n.ro = self.ro
        n.owner = owner
        n.name = self.name
        return n


class Frame:
    __slots__ = ("fn", "bb", "si", "locals", "dest", "target", "callsite", "tag", "loops")

    def copy(self):
        n = Frame.__new__(Frame)
        n.fn = self.fn
        n.bb = self.bb
        n.si = self.si
        n.locals = list(self.locals)
        n.dest = self.dest
        n.target = self.target
        n.callsite = self.callsite
        n.tag = self.tag
        n.loops = self.loops
        return n


class Violation(Exception):
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


class PathEnd(Exception):
    pass


def of_text(fr):
    """That a str is made of UTF-8 sequences comes with its type (only core makes one, and looks at the
    bytes first), and is assumed of texts of unknown content where they are decoded"""
    return fr.fn.path.startswith("core::str::validations::")


class Token:
    pass


NEXT = [1000]


def fresh_id():
    NEXT[0] += 1
    return NEXT[0]


class State:
    __slots__ = ("eng", "prog", "mem", "frames", "cons", "token", "addr", "statics", "steps", "last", "trace", "ghost",
                 "depth")

    def __init__(self, eng):
        self.eng = eng
        self.prog = eng.prog
        self.mem = {}
        self.frames = []
        self.cons = Cons()
        self.token = Token()
        self.addr = {}
        self.statics = {}
        self.steps = 0
        self.last = (None, 0, 0)
        self.trace = ()
        self.ghost = {}
        self.depth = 0

    def fork(self):
        n = State.__new__(State)
        n.eng = self.eng
        n.prog = self.prog
        n.mem = dict(self.mem)
        n.frames = [f.copy() for f in self.frames]
        n.cons = self.cons.copy()
        n.token = Token()
        self.token = Token()
        n.addr = dict(self.addr)
        n.statics = dict(self.statics)
        n.steps = self.steps
        n.last = self.last
        n.trace = self.trace
        n.ghost = dict(self.ghost)
        n.depth = self.depth
        return n

    # ---- constraints
    def fact(self, key):
        """What is recorded under a key, whose numbers may have other names by now"""
        f = self.cons.facts
        v = f.get(key)
        if v is not None:
            return v
        norm = self.cons.norm
        nk = None
        for k, x in f.items():
            if type(k) is tuple and k[0] == key[0] and len(k) == len(key):
                for p, q in zip(k, key):
                    if p is q or p == q:
                        continue
                    if isinstance(p, (Lin, int)) and isinstance(q, (Lin, int)) and norm(p) == norm(q):
                        continue
                    break
                else:
                    f[key] = x
                    return x
        return None

    def assume(self, alt):
        c = self.cons
        for x in alt:
            if x[0] == "ge":
                c.add_ge(x[1])
            elif x[0] == "eq":
                c.add_eq(x[1])
            elif x[0] == "ne":
                c.add_ne(x[1])
            elif x[0] == "fact":
                old = self.fact(x[1])
                if old is not None and old != x[2]:
                    raise Infeasible()
                c.facts[x[1]] = x[2]
            else:
                raise AssertionError(x)

    def test(self, c):
        """True, False or None"""
        if type(c) is int:
            return c != 0
        if type(c) is bool:
            return c
        if isinstance(c, Cond):
            if c.op == "ge":
                r = self.cons.ge(c.x)
            elif c.op == "eq":
                r = self.cons.eq(c.x)
            else:
                r = self.fact(c.x)
            if r is None:
                return None
            return r != c.n
        if isinstance(c, Lin):
            r = self.cons.eq(c)
            return None if r is None else not r
        if isinstance(c, (Ptr, FnV)):
            return True
        if c is UNINIT:
            raise Violation("uninit", "branch on uninitialised memory")
        raise Unsupported("test of %r" % (c,))

    def decide(self, c, why=""):
        r = self.test(c)
        if r is None:
            if isinstance(c, Lin):
                c = Cond("eq", c, True)
            t, f = c.alts()
            raise NeedSplit([[t], [f]], why)
        return r

    def decide_ge(self, x, why=""):
        x = self.cons.norm(x)
        if type(x) is int:
            return x >= 0
        return self.decide(Cond("ge", x), why)

    def decide_eq(self, x, why=""):
        x = self.cons.norm(x)
        if type(x) is int:
            return x == 0
        return self.decide(Cond("eq", x), why)

    # ---- integers
    def num(self, v, w=None):
        """A number (int or Lin) from a scalar"""
        if type(v) is int:
            return v
        if type(v) is Lin:
            return self.cons.norm(v)
        if isinstance(v, Cond):
            return 1 if self.decide(v) else 0
        if isinstance(v, Ptr):
            return self.address(v)
        if v is UNINIT:
            raise Violation("uninit", "use of uninitialised memory")
        if isinstance(v, FnV):
            return 0x1000000 + 16 * v.f
        raise Unsupported("number from %r" % (v,))

    def const(self, v, why="", limit=300):
        """A concrete value, by partitioning if it has few values"""
        v = self.num(v)
        if type(v) is int:
            return v
        l, h = self.cons.rng(v)
        if self.cons.ges:
            l, h = self.range(v)
            if l == h:
                return l
            if l > h:
                raise Infeasible()
        if h - l > limit:
            raise Unsupported("concrete value needed of %r in [%d,%d] %s" % (v, l, h, why))
        raise NeedSplit([[("eq", add(v, -k))] for k in range(l, h + 1)], why)

    def range(self, v):
        l, h = self.cons.rng(v)
        l2 = self.cons.minimum(v)
        h2 = self.cons.minimum(neg(v))
        if l2 is None or h2 is None:
            raise Infeasible()
        return max(l, math.ceil(l2)), min(h, math.floor(-h2))

    def fix(self, v):
        """The normal form; a number where the constraints leave one value only"""
        v = self.cons.norm(v)
        if type(v) is int or not self.cons.ges:
            return v
        key = ("fix", v)
        r = self.cons.cache.get(key)
        if r is None:
            l, h = self.range(v)
            r = self.cons.cache[key] = l if l == h else v
        return r

    def wrap(self, x, w):
        x = self.cons.norm(x)
        M = 1 << w
        if type(x) is int:
            return x & (M - 1)
        l, h = self.cons.rng(x)
        if l >= 0 and h < M:
            return x
        if l // M == h // M:
            return add(x, -(l // M) * M)
        if self.cons.ge(x) is True and self.cons.ge(sub(M - 1, x)) is True:
            return x
        if h // M - l // M <= 3:
            alts = []
            for k in range(l // M, h // M + 1):
                y = add(x, -k * M)
                if self.cons.ge(y) is False or self.cons.ge(sub(M - 1, y)) is False:
                    continue
                alts.append([("ge", y), ("ge", sub(M - 1, y))])
            if len(alts) == 1:
                y = self.cons.norm(alts[0][0][1])
                if self.cons.ge(y) is True and self.cons.ge(sub(M - 1, y)) is True:
                    return y
            raise NeedSplit(alts, "wrap")
        if l >= 0:
            return self.cons.low(x, w, h.bit_length())
        raise Unsupported("wrap of %r" % (x,))

    def signed(self, x, w):
        """The signed value of a w-bit pattern"""
        x = self.num(x)
        H = 1 << (w - 1)
        if type(x) is int:
            return x - 2 * H if x >= H else x
        l, h = self.cons.rng(x)
        if h < H:
            return x
        if l >= H:
            return add(x, -2 * H)
        if self.decide_ge(add(x, -H), "sign"):
            return add(x, -2 * H)
        return x

    def address(self, p):
        b = self.addr.get(p.a)
        if b is None:
            al = self.get(p.a)
            if al is None:
                raise Violation("dangling", "address of a freed allocation")
            v = Var(46, "addr", lo=16)
            b = scale(v.lin(), max(al.align, 1))
            if al.align <= 1:
                b = v.lin()
            # allocations are apart; they are taken to lie in the order in which their addresses are first asked for
            if self.addr:
                last = next(reversed(self.addr))
                la = self.get(last)
                self.cons.add_ge(sub(b, add(self.addr[last], la.size if la is not None else 1)))
            self.addr[p.a] = b
        return self.cons.norm(add(b, p.o))

    # ---- memory
    def new(self, size, align, kind, name=""):
        a = Alloc(fresh_id(), size, align, kind, self.token, name)
        self.mem[a.id] = a
        return a

    def get(self, aid):
        a = self.mem.get(aid)
        if a is None:
            if aid < 0:
                a = self.eng.const_alloc(aid)
        return a

    def own(self, aid):
        a = self.mem.get(aid)
        if a is None:
            if aid < 0:
                a = self.eng.const_alloc(aid)
                if a.ro:
                    raise Violation("readonly", "write to constant memory")
                a = self.mem[aid] = a.copy(self.token)
                return a
            raise Violation("dangling", "access to freed memory")
        if a.owner is not self.token:
            a = a.copy(self.token)
            self.mem[aid] = a
        return a

    def access(self, p, n, what):
        """The allocation and offset for an access of n bytes at p, checked"""
        if type(n) is int and n == 0:
            return None, 0
        if not isinstance(p, Ptr):
            if p is UNINIT:
                raise Violation("uninit", "use of an uninitialised pointer")
            if type(n) is not int:
                if self.decide_eq(n):
                    return None, 0
            if isinstance(p, (int, Lin)):
                raise Violation("bounds", "%s through a pointer without memory (%r)" % (what, p))
            raise Unsupported("access through %r" % (p,))
        a = self.mem.get(p.a)
        if a is None:
            if p.a < 0:
                a = self.eng.const_alloc(p.a)
            else:
                if type(n) is not int and self.decide_eq(n):
                    return None, 0
                raise Violation("dangling", "%s to freed memory" % what)
        o = p.o
        if type(o) is int and type(n) is int and type(a.size) is int:
            if o < 0 or o + n > a.size:
                raise Violation("bounds", "%s of %d bytes at offset %d of %d bytes (%s)" % (what, n, o, a.size, a.name or a.kind))
            return a, o
        if type(n) is not int:
            n = self.cons.norm(n)
            if self.decide_eq(n):
                return None, 0
        o = self.cons.norm(o)
        lo = self.cons.ge(o)
        if lo is not True:
            if not self.decide_ge(o, "bounds"):
                raise Violation("bounds", "%s before the start (%s)" % (what, a.name or a.kind))
        e = self.cons.norm(sub(a.size, add(o, n)))
        if not self.decide_ge(e, "bounds"):
            raise Violation("bounds", "%s past the end (%s): %r bytes at %r of %r" % (what, a.name or a.kind, n, o, a.size))
        return a, o

    def load(self, p, n):
        """A scalar of n bytes"""
        a, o = self.access(p, n, "read")
        if a is None:
            return 0
        return self.load_at(a, o, n)

    def load_at(self, a, o, n):
        if a.log is None and type(o) is int:
            c = a.cells.get(o)
            if c is not None and c[0] == n:
                v = c[1]
                if type(v) is Lin:
                    return self.cons.norm(v)
                return v
            ps = self._gather(a, o, n)
        else:
            ps = self.read_range(a, o, n)
        return self.join(ps, n)

    def join(self, ps, n):
        """ps: [(reloff, size, value)] covering [0,n), gaps are uninitialised"""
        tot = 0
        r = 0
        ptr = None
        for (ro, sz, v) in ps:
            if v is UNINIT:
                return UNINIT
            if isinstance(v, (Ptr, FnV)):
                if sz == n:
                    return v
                v = self.num(v)
            if isinstance(v, Seg):
                v = v.scalar(self, sz)
            tot += sz
            if isinstance(v, Cond):
                if sz == n:
                    return v
                v = self.num(v)
            if sz == n:
                return self.cons.norm(v)
            r = add(r, scale(self.cons.norm(v), 1 << (8 * ro)))
        if tot < n:
            return UNINIT
        return r

    def _part(self, v, sz, lo, n):
        """n bytes at lo of a value of sz bytes"""
        if lo == 0 and n == sz:
            return v
        if v is UNINIT:
            return v
        if isinstance(v, Seg):
            return v.sub(lo, n)
        if isinstance(v, (Ptr, FnV)):
            raise Unsupported("part of a pointer")
        v = self.num(v)
        return self.cons.slice(v, 8 * lo, 8 * (lo + n), 8 * sz)

    def _gather(self, a, o, n):
        ps = []
        cells = a.cells
        if len(cells) > 64 and n < 64:
            cand = []
            for q in range(o - 15, o + n):
                c = cells.get(q)
                if c is not None and q + c[0] > o:
                    cand.append((q, c))
        else:
            cand = sorted((q, c) for q, c in cells.items() if q < o + n and q + c[0] > o)
        for q, (sz, v) in cand:
            s = max(q, o)
            e = min(q + sz, o + n)
            v = self._part(v, sz, s - q, e - s)
            if ps and isinstance(v, Seg):
                p = ps[-1]
                if isinstance(p[2], Seg) and p[0] + p[1] == s - o and p[2].sub(p[1], e - s) == v:
                    ps[-1] = (p[0], p[1] + e - s, p[2])
                    continue
            ps.append((s - o, e - s, v))
        return ps

    def store(self, p, n, v):
        a, o = self.access(p, n, "write")
        if a is None:
            return
        if a.ro:
            raise Violation("readonly", "write to constant memory")
        if a.owner is not self.token:
            a = self.own(a.id)
        self.store_at(a, o, n, v)

    def store_at(self, a, o, n, v):
        if a.log is None and type(o) is int and type(n) is int and n <= 16:
            cells = a.cells
            c = cells.get(o)
            if c is not None and c[0] == n:
                cells[o] = (n, v)
                return
            self._clear(a, o, n)
            cells[o] = (n, v)
            return
        if a.log is None:
            a.log = self.runs(a)
            a.cells = {}
        if a.log and type(n) is int and n <= 16:
            # overwriting in place
            for i in range(len(a.log) - 1, max(-1, len(a.log) - 12), -1):
                e = a.log[i]
                if e[1] == n and e[0] == o:
                    if all(self._apart(o, n, x[0], x[1]) for x in a.log[i + 1:]):
                        a.log[i] = (o, n, v)
                        return
                    break
        a.log.append((o, n, v))

    def _apart(self, o, n, p, m):
        return self.cons.ge(sub(p, add(o, n))) is True or self.cons.ge(sub(o, add(p, m))) is True

    def _clear(self, a, o, n):
        cells = a.cells
        if not cells:
            return
        if len(cells) > 64 and n < 64:
            cand = [q for q in range(o - 15, o + n) if q in cells and q + cells[q][0] > o]
        else:
            cand = [q for q, c in cells.items() if q < o + n and q + c[0] > o]
        new = []
        for q in cand:
            sz, v = cells[q]
            if q < o:
                new.append((q, o - q, self._part(v, sz, 0, o - q)))
            if q + sz > o + n:
                new.append((o + n, q + sz - o - n, self._part(v, sz, o + n - q, q + sz - o - n)))
        for q in cand:
            del cells[q]
        for q, s, v in new:
            cells[q] = (s, v)

    def runs(self, a):
        """The cells in order; those which continue the run of bytes before them are joined to it"""
        out = []
        for q, (n, v) in sorted(a.cells.items()):
            if out and isinstance(v, Seg):
                p, m, w = out[-1]
                if isinstance(w, Seg) and p + m == q and w.sub(m, n) == v:
                    out[-1] = (p, m + n, w)
                    continue
            out.append((q, n, v))
        return out

    def read_range(self, a, o, n):
        """Pieces [(reloff, len, value)] of [o, o+n), sorted; gaps are uninitialised"""
        if a.log is None:
            if type(o) is int and type(n) is int:
                return self._gather(a, o, n)
            entries = self.runs(a)
        else:
            entries = a.log
        o = self.cons.norm(o)
        n = self.cons.norm(n)
        todo = [(o, self.cons.norm(add(o, n)))]
        out = []
        for e in reversed(entries):
            if not todo:
                break
            eo, en, ev = e
            eo = self.cons.norm(eo)
            ee = self.cons.norm(add(eo, en))
            nt = []
            for (s, t) in todo:
                if self.cons.ge(sub(s, ee)) is True or self.cons.ge(sub(eo, t)) is True:
                    nt.append((s, t))
                    continue
                # decide the four relations
                if self.decide_ge(sub(s, ee), "overlap") or self.decide_ge(sub(eo, t), "overlap"):
                    nt.append((s, t))
                    continue
                if self.decide_ge(sub(s, eo), "overlap"):
                    ls = s
                else:
                    nt.append((s, eo))
                    ls = eo
                if self.decide_ge(sub(ee, t), "overlap"):
                    le = t
                else:
                    nt.append((ee, t))
                    le = ee
                ln = self.fix(sub(le, ls))
                inner = self.fix(sub(ls, eo))
                at = self.fix(sub(ls, o))
                if isinstance(ev, Seg):
                    out.append((at, ln, ev.sub(inner, ln)))
                else:
                    inner = self.const(inner, "part of a scalar")
                    ln = self.const(ln, "part of a scalar")
                    out.append((at, ln, self._part(ev, en, inner, ln)))
            todo = nt
        if type(n) is int and all(type(x[0]) is int for x in out):
            out.sort(key=lambda x: x[0])
        else:
            out = self.sort_pieces(out)
        return out

    def sort_pieces(self, ps):
        res = []
        for p in ps:
            i = len(res)
            while i > 0:
                r = self.cons.ge(sub(res[i - 1][0], p[0]))
                if r is True and not (self.cons.eq(sub(res[i - 1][0], p[0])) is True):
                    i -= 1
                else:
                    break
            res.insert(i, p)
        return res

    def load_agg(self, p, size):
        a, o = self.access(p, size, "read")
        if a is None:
            return Agg(size, [])
        if a.log is None and type(o) is int and type(size) is int:
            cells = a.cells
            if o == 0 and a.size == size and len(cells) < 64 and not any(isinstance(c[1], Seg) for c in cells.values()):
                return Agg(size, [(q, c[0], c[1]) for q, c in cells.items()])
            return Agg(size, self._gather(a, o, size))
        return Agg(size, self.read_range(a, o, size))

    def store_agg(self, p, v):
        a, o = self.access(p, v.size, "write")
        if a is None:
            return
        if a.ro:
            raise Violation("readonly", "write to constant memory")
        if a.owner is not self.token:
            a = self.own(a.id)
        self.put_agg(a, o, v)

    def put_agg(self, a, o, v):
        if a.log is None and type(o) is int and type(v.size) is int and v.size <= 1 << 22 and all(
                type(c[0]) is int and type(c[1]) is int for c in v.cells):
            if o == 0 and a.size == v.size:
                a.cells = {}
            else:
                self._clear(a, o, v.size)
            for q, s, x in v.cells:
                q += o
                # (no cell has more than 16 bytes, so that it is found from each of them)
                while s > 16 and isinstance(x, Seg):
                    a.cells[q] = (16, x)
                    x = x.sub(16, s - 16)
                    q += 16
                    s -= 16
                a.cells[q] = (s, x)
            return
        if a.log is None:
            a.log = self.runs(a)
            a.cells = {}
        for q, s, x in v.cells:
            a.log.append((self.cons.norm(add(o, q)), s, x))

    def copy_range(self, src, dst, n):
        n = self.num(n)
        v = self.load_agg(src, n)
        self.store_agg(dst, v)

    def free(self, aid):
        self.mem.pop(aid, None)

    # ---- typed values
    def load_ty(self, p, ty):
        if ty.scalar:
            v = self.load(p, ty.size)
            return v
        if ty.size == 0:
            return Agg(0, [])
        return self.load_agg(p, ty.size)

    def store_ty(self, p, ty, v):
        if isinstance(v, Agg):
            if v.size == 0:
                return
            self.store_agg(p, v)
        elif ty.size:
            self.store(p, ty.size, v)


class Seg:
    """A run of bytes with one source: opaque contents at an offset, or one byte repeated"""
    __slots__ = ("src", "off")

    def __init__(self, src, off):
        self.src = src
        self.off = off

    def sub(self, o, n):
        if isinstance(self.src, Opaque):
            return Seg(self.src, add(self.off, o))
        return self

    def byte(self, st, i):
        if not isinstance(self.src, Opaque):
            return self.src
        o = st.cons.norm(add(self.off, i))
        key = ("byte", self.src.id, o)
        m = st.cons.facts
        v = m.get(key)
        if v is None:
            # the same byte by another name
            for k, x in m.items():
                if k[0] == "byte" and k[1] == self.src.id:
                    if st.cons.eq(sub(k[2], o)) is True:
                        m[key] = x
                        return x
            hook = st.eng.byte_hook
            v = None
            if hook is not None:
                v = hook(st, self.src, o)
            if v is None:
                v = Var(8, "%s[%r]" % (self.src.name, o)).lin()
            m[key] = v
        return v

    def scalar(self, st, n):
        r = 0
        for i in range(n):
            b = self.byte(st, i)
            if b is UNINIT:
                return UNINIT
            r = add(r, scale(st.cons.norm(b), 1 << (8 * i)))
        return r

    def __repr__(self):
        return "Seg(%r+%r)" % (self.src, self.off)

    def __eq__(self, x):
        return isinstance(x, Seg) and self.src is x.src and self.off == x.off

    def __hash__(self):
        return hash((id(self.src), self.off))
