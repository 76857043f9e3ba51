"""The numeric domain: integers as linear forms over bit slices of unknowns.

A `Var` is an unknown unsigned integer of `bits` bits. An `Atom` is the slice [lo, hi) of a Var, taken as
an unsigned integer. A `Lin` is c0 + sum(c_i * atom_i), and stands for that exact integer. A machine
integer of width w is a Python int or a Lin whose value is known to be in [0, 2^w).

`Cons` holds what is known about the atoms in one abstract state: a substitution in solved form (from
equalities and from slicing), an interval for each atom, linear inequalities (a polyhedron), and
disequalities. Entailment is decided by interval evaluation and exact rational simplex, with the
coefficients tightened to integers.
"""
from fractions import Fraction
from math import gcd


class Infeasible(Exception):
    pass


class NeedSplit(Exception):
    """The abstract value does not determine what happens next: the state is partitioned."""

    def __init__(self, alts, why=""):
        self.alts = alts
        self.why = why


class Var:
    __slots__ = ("id", "bits", "name", "atoms", "lo", "hi", "tag")
    count = 0

    def __init__(self, bits, name, lo=0, hi=None, tag=None):
        Var.count += 1
        self.id = Var.count
        self.bits = bits
        self.name = name
        self.atoms = {}
        self.lo = lo
        self.hi = (1 << bits) - 1 if hi is None else hi
        self.tag = tag

    def atom(self, lo=0, hi=None):
        if hi is None:
            hi = self.bits
        k = (lo, hi)
        a = self.atoms.get(k)
        if a is None:
            a = self.atoms[k] = Atom(self, lo, hi)
        return a

    def lin(self):
        return Lin(0, ((self.atom(), 1),))

    def __repr__(self):
        return "%s#%d" % (self.name, self.id)


class Atom:
    __slots__ = ("var", "lo", "hi", "bits", "key", "max", "min0")

    def __init__(self, var, lo, hi):
        self.var = var
        self.lo = lo
        self.hi = hi
        self.bits = hi - lo
        self.key = (var.id, lo, hi)
        whole = lo == 0 and hi == var.bits
        self.max = var.hi if whole else (1 << (hi - lo)) - 1
        self.min0 = var.lo if whole else 0

    def __repr__(self):
        if self.lo == 0 and self.hi == self.var.bits:
            return repr(self.var)
        return "%r[%d..%d]" % (self.var, self.lo, self.hi)


def _k(t):
    return t[0].key


class Lin:
    __slots__ = ("c", "t", "h")

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self.h = None

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.c, tuple((a.key, k) for a, k in self.t)))
        return self.h

    def __repr__(self):
        s = ["%s%r" % ("" if k == 1 else "%d*" % k, a) for a, k in self.t]
        if self.c or not s:
            s.append(str(self.c))
        return "(" + " + ".join(s) + ")"


def mk(c, d):
    """From a dict of terms; an int if there are none"""
    t = [(a, k) for a, k in d.items() if k]
    if not t:
        return c
    if len(t) > 1:
        t.sort(key=_k)
    return Lin(c, tuple(t))


def add(x, y):
    if type(x) is int:
        if type(y) is int:
            return x + y
        return Lin(x + y.c, y.t)
    if type(y) is int:
        return Lin(x.c + y, x.t)
    d = dict(x.t)
    for a, k in y.t:
        d[a] = d.get(a, 0) + k
    return mk(x.c + y.c, d)


def scale(x, k):
    if type(x) is int:
        return x * k
    if k == 0:
        return 0
    if k == 1:
        return x
    return Lin(x.c * k, tuple((a, q * k) for a, q in x.t))


def neg(x):
    return scale(x, -1)


def sub(x, y):
    return add(x, scale(y, -1))


class Cons:
    __slots__ = ("sub", "lo", "hi", "ges", "nes", "facts", "names", "ver", "cache")

    def __init__(self):
        self.sub = {}
        self.lo = {}
        self.hi = {}
        self.ges = []
        self.nes = []
        self.facts = {}
        self.names = {}
        self.ver = 0
        self.cache = {}

    def copy(self):
        n = Cons.__new__(Cons)
        n.sub = dict(self.sub)
        n.lo = dict(self.lo)
        n.hi = dict(self.hi)
        n.ges = list(self.ges)
        n.nes = list(self.nes)
        n.facts = dict(self.facts)
        n.names = dict(self.names)
        n.ver = self.ver
        n.cache = self.cache
        return n

    # ---- normal form
    def norm(self, x):
        if type(x) is int:
            return x
        s = self.sub
        for a, _ in x.t:
            if a in s:
                break
        else:
            return x
        d = {}
        c = x.c
        work = list(x.t)
        while work:
            a, k = work.pop()
            e = s.get(a)
            if e is None:
                d[a] = d.get(a, 0) + k
            elif type(e) is int:
                c += k * e
            else:
                c += k * e.c
                for b, q in e.t:
                    work.append((b, q * k))
        return mk(c, d)

    def alo(self, a):
        return self.lo.get(a, a.min0)

    def ahi(self, a):
        return self.hi.get(a, a.max)

    def rng(self, x):
        """Interval of a normalised form"""
        if type(x) is int:
            return x, x
        l = h = x.c
        lo, hi = self.lo, self.hi
        for a, k in x.t:
            al = lo.get(a, a.min0)
            ah = hi.get(a, a.max)
            if k > 0:
                l += k * al
                h += k * ah
            else:
                l += k * ah
                h += k * al
        return l, h

    # ---- slicing
    def cut(self, atom, at):
        """Splits an atom at bit `at` of its own"""
        assert 0 < at < atom.bits
        v = atom.var
        low = v.atom(atom.lo, atom.lo + at)
        high = v.atom(atom.lo + at, atom.hi)
        l, h = self.alo(atom), self.ahi(atom)
        self.ver += 1
        e = Lin(0, tuple(sorted([(low, 1), (high, 1 << at)], key=_k)))
        self._subst(atom, e)
        hl, hh = l >> at, h >> at
        if hl == hh:
            ll, lh = l - (hl << at), h - (hl << at)
        else:
            ll, lh = 0, (1 << at) - 1
        self._bound(high, hl, hh)
        self._bound(low, ll, lh)
        if hl != hh and (l != (hl << at) or h != (hh << at) + (1 << at) - 1):
            if l != (hl << at):
                self.add_ge(add(e, -l))
            if h != (hh << at) + (1 << at) - 1:
                self.add_ge(sub(h, e))

    def _subst(self, atom, e):
        s = self.sub
        s[atom] = e
        self.lo.pop(atom, None)
        self.hi.pop(atom, None)
        self.ver += 1
        self.cache = {}
        if any(any(a is atom for a, _ in g.t) for g in self.ges):
            old = self.ges
            self.ges = []
            for g in old:
                # others may have been replaced meanwhile
                if any(a in s for a, _ in g.t):
                    self.add_ge(g)
                else:
                    self.ges.append(g)
        if any(any(a is atom for a, _ in g.t) for g in self.nes):
            old = self.nes
            self.nes = []
            for g in old:
                if any(a in s for a, _ in g.t):
                    self.add_ne(g)
                else:
                    self.nes.append(g)

    def _bound(self, a, l, h):
        changed = False
        if l > self.alo(a):
            self.lo[a] = l
            changed = True
        if h < self.ahi(a):
            self.hi[a] = h
            changed = True
        if changed:
            self.ver += 1
            self.cache = {}
            l, h = self.alo(a), self.ahi(a)
            if l > h:
                raise Infeasible()
            if l == h:
                self._subst(a, l)
        return changed

    # ---- facts
    def add_ge(self, x):
        x = self.norm(x)
        if type(x) is int:
            if x < 0:
                raise Infeasible()
            return
        g = 0
        for _, k in x.t:
            g = gcd(g, k)
        if g > 1:
            x = Lin(x.c // g, tuple((a, k // g) for a, k in x.t))
        l, h = self.rng(x)
        if h < 0:
            raise Infeasible()
        if l >= 0:
            return
        if len(x.t) == 1:
            a, k = x.t[0]
            if k > 0:
                self._bound(a, -(x.c // k), self.ahi(a))
            else:
                self._bound(a, self.alo(a), x.c // -k)
            self._edges()
            return
        if x in self.ges:
            return
        y = neg(x)
        for g in self.ges:
            if g.t == y.t:
                # k*t + c >= 0 and -k*t + d >= 0
                if g.c == y.c:
                    self.ges.remove(g)
                    self.add_eq(x)
                    return
                if g.c < y.c:
                    raise Infeasible()
            elif g.t == x.t:
                if g.c <= x.c:
                    return
                self.ges.remove(g)
                break
        self.ges.append(x)
        self.ver += 1
        self.cache = {}
        self._propagate(x)

    def _propagate(self, first):
        # Interval consequences of the inequalities, a few rounds
        for _ in range(4):
            ch = False
            for g in list(self.ges):
                g = self.norm(g)
                if type(g) is int:
                    if g < 0:
                        raise Infeasible()
                    continue
                _, h = self.rng(g)
                if h < 0:
                    raise Infeasible()
                for a, k in g.t:
                    if a in self.sub:
                        continue
                    al, ah = self.alo(a), self.ahi(a)
                    rest = h - (k * ah if k > 0 else k * al)
                    # k*a + rest >= 0
                    if k > 0:
                        nl = -(rest // k)
                        if nl > al:
                            ch |= self._bound(a, nl, ah)
                    else:
                        nh = rest // -k
                        if nh < ah:
                            ch |= self._bound(a, al, nh)
            if not ch:
                break

    def _edges(self):
        """Disequalities at the edge of an interval move it"""
        again = True
        while again:
            again = False
            for g in self.nes:
                g2 = self.norm(g)
                if type(g2) is int:
                    if g2 == 0:
                        raise Infeasible()
                    continue
                if len(g2.t) == 1:
                    a, k = g2.t[0]
                    if (-g2.c) % k == 0:
                        v = -g2.c // k
                        l, h = self.alo(a), self.ahi(a)
                        if v == l:
                            again = self._bound(a, l + 1, h)
                        elif v == h:
                            again = self._bound(a, l, h - 1)
                        if again:
                            break

    def add_eq(self, x, keep=None):
        x = self.norm(x)
        if type(x) is int:
            if x != 0:
                raise Infeasible()
            return
        l, h = self.rng(x)
        if l > 0 or h < 0:
            raise Infeasible()
        g = 0
        for _, k in x.t:
            g = gcd(g, k)
        if x.c % g:
            raise Infeasible()
        if g > 1:
            x = Lin(x.c // g, tuple((a, k // g) for a, k in x.t))
        # bit-disjoint sums of a constant: each slice is determined
        if len(x.t) == 1:
            a, k = x.t[0]
            v = -x.c // k
            if not (self.alo(a) <= v <= self.ahi(a)):
                raise Infeasible()
            self._subst(a, v)
            self._edges()
            return
        if x.c <= 0 and all(k > 0 for _, k in x.t) or x.c >= 0 and all(k < 0 for _, k in x.t):
            sg = 1 if x.c <= 0 else -1
            tot = -x.c * sg
            ts = sorted(((k * sg, a) for a, k in x.t), key=lambda z: z[0])
            ok = True
            reach = 0
            for k, a in ts:
                if k <= reach:
                    ok = False
                    break
                reach += k * self.ahi(a)
            if ok:
                for k, a in reversed(ts):
                    q = tot // k
                    tot -= q * k
                    if not (self.alo(a) <= q <= self.ahi(a)):
                        raise Infeasible()
                    self._subst(a, q)
                if tot:
                    raise Infeasible()
                self._edges()
                return
        # what it has in common with other equalities goes away
        if self.ges:
            y = x
            for e in self._equalities():
                for z in (add(y, e), sub(y, e)):
                    if type(z) is int:
                        if z:
                            raise Infeasible()
                        return
                    if len(z.t) < len(y.t):
                        y = z
                        break
            if y is not x:
                self.add_eq(y, keep)
                return
        # a single odd coefficient: the low bits of its atom are determined
        odd = [(a, k) for a, k in x.t if k & 1]
        if len(odd) == 1:
            a, k = odd[0]
            q = min((k2 & -k2).bit_length() - 1 for b, k2 in x.t if b is not a)
            r = -x.c * pow(k, -1, 1 << q) % (1 << q)
            if a.bits > q:
                self.cut(a, q)
                a = a.var.atom(a.lo, a.lo + q)
            if a not in self.sub:
                if not (self.alo(a) <= r <= self.ahi(a)):
                    raise Infeasible()
                self._subst(a, r)
            self.add_eq(x)
            return
        best = None
        for a, k in x.t:
            if k in (1, -1) and a.bits == a.var.bits and a is not keep:
                sc = (a.var.tag != "def", a.key)
                if best is None or sc > best[0]:
                    best = (sc, a, k)
        if best is None:
            # slices are not solved for: they would get out of the reach of bit operations
            if x not in self.ges:
                self.ges.append(x)
            n = neg(x)
            if n not in self.ges:
                self.ges.append(n)
            self.ver += 1
            self.cache = {}
            self._propagate(x)
            return
        _, a, k = best
        rest = dict(x.t)
        del rest[a]
        e = scale(mk(x.c, rest), -k)
        l, h = self.alo(a), self.ahi(a)
        self._subst(a, e)
        self.add_ge(add(e, -l))
        self.add_ge(sub(h, e))
        self._edges()

    def _equalities(self):
        m = self.cache.get("eqs")
        if m is None:
            have = set(self.ges)
            m = self.cache["eqs"] = [g for g in self.ges if g.t[0][1] > 0 and neg(g) in have]
        return m

    def add_ne(self, x):
        x = self.norm(x)
        if type(x) is int:
            if x == 0:
                raise Infeasible()
            return
        l, h = self.rng(x)
        if l > 0 or h < 0:
            return
        g = 0
        for _, k in x.t:
            g = gcd(g, k)
        if x.c % g:
            return
        if self.ge(x) is True:
            self.add_ge(add(x, -1))
            return
        if self.ge(neg(x)) is True:
            self.add_ge(add(neg(x), -1))
            return
        if x.t[0][1] < 0:
            x = neg(x)
        if x not in self.nes:
            self.nes.append(x)
            self.ver += 1
            self.cache = {}
        self._edges()

    # ---- entailment
    def ge(self, x):
        """Is x >= 0: True, False or None (not determined)"""
        x = self.norm(x)
        if type(x) is int:
            return x >= 0
        l, h = self.rng(x)
        if l >= 0:
            return True
        if h < 0:
            return False
        if not self.ges:
            return None
        r = self.cache.get(x, 0)
        if r != 0:
            return r
        mn = self.minimum(x)
        if mn is None:
            raise Infeasible()
        if mn >= 0:
            r = True
        else:
            mx = self.minimum(neg(x))
            r = False if mx > 0 else None
        self.cache[x] = r
        return r

    def _parts(self):
        """The inequalities by connected component: atom -> LP or list"""
        m = self.cache.get("lp")
        if m is None:
            comp = {}
            for g in self.ges:
                z = [[g], {a for a, _ in g.t}, None]
                for a, _ in g.t:
                    o = comp.get(a)
                    if o is not None and o is not z:
                        z[0] += o[0]
                        z[1] |= o[1]
                        for b in o[1]:
                            comp[b] = z
                for a in z[1]:
                    comp[a] = z
            m = self.cache["lp"] = comp
        return m

    def minimum(self, x):
        """The minimum of x over the polyhedron: a rational; None if it is empty"""
        if type(x) is int:
            return x
        m = self._parts()
        tot = x.c
        by = {}
        for a, k in x.t:
            z = m.get(a)
            if z is None:
                tot += k * (self.alo(a) if k > 0 else self.ahi(a))
            else:
                by.setdefault(id(z), (z, []))[1].append((a, k))
        for z, t in by.values():
            if z[2] is None:
                z[2] = LP(z[0], {a: (self.alo(a), self.ahi(a)) for a in z[1]})
            v = z[2].min(Lin(0, tuple(t)))
            if v is None:
                return None
            tot += v
        return tot

    def eq(self, x):
        x = self.norm(x)
        if type(x) is int:
            return x == 0
        l, h = self.rng(x)
        if l > 0 or h < 0:
            return False
        g = 0
        for _, k in x.t:
            g = gcd(g, k)
        if x.c % g:
            return False
        y = neg(x) if x.t[0][1] < 0 else x
        if self.nes:
            for z in self.nes:
                if self.norm(z) == y or self.norm(neg(z)) == y:
                    return False
        # low bits: an odd constant next to even coefficients of everything but known-zero low slices
        a = self.ge(x)
        if a is False:
            return False
        b = self.ge(neg(x))
        if b is False:
            return False
        if a is True and b is True:
            return True
        return None

    def feasible(self):
        """Whether the whole polyhedron is non-empty (rationals)"""
        if not self.ges:
            return True
        for z in self._parts().values():
            if z[2] is None:
                z[2] = LP(z[0], {a: (self.alo(a), self.ahi(a)) for a in z[1]})
            if z[2].empty:
                return False
        return True

    def integer_point(self, budget=200, empty_only=False):
        """Whether the constraints have an integer solution: True, False or None (not found out). Equalities
        between slices are split by carries (the low part is a multiple of the radix, for one of the few
        possible carries); the rest is branch and bound. With empty_only, only carries are looked at."""
        work = [self.copy()]
        while work:
            budget -= 1
            if budget < 0:
                return None
            c = work.pop()
            try:
                if not c.feasible():
                    continue
                found = None
                for x in c._equalities():
                    val = sorted({(k & -k).bit_length() - 1 for _, k in x.t})
                    for q in val[1:]:
                        M = 1 << q
                        low = mk(x.c % M, {a: k for a, k in x.t if k % M})
                        rest = mk(x.c // M, {a: k // M for a, k in x.t if k % M == 0})
                        l, h = self.rng(low) if type(low) is Lin else (low, low)
                        n = h // M - -(-l // M) + 1
                        if n <= 4:
                            found = (x, low, rest, M, range(-(-l // M), h // M + 1))
                            break
                    if found:
                        break
                if found:
                    x, low, rest, M, ms = found
                    n = neg(x)
                    c.ges = [g for g in c.ges if g != x and g != n]
                    c.cache = {}
                    c.ver += 1
                    for m in ms:
                        d = c.copy()
                        try:
                            d.add_eq(sub(low, m * M))
                            d.add_eq(add(rest, m))
                        except Infeasible:
                            continue
                        work.append(d)
                    continue
                if empty_only:
                    return None
                at = {}
                frac = None
                for z in {id(z): z for z in c._parts().values()}.values():
                    for a, v in z[2].point().items():
                        at[a] = v
                        if v.denominator != 1 and frac is None:
                            frac = (a, v)
                if frac:
                    a, v = frac
                    f = v.numerator // v.denominator
                    for l, h in ((c.alo(a), f), (f + 1, c.ahi(a))):
                        d = c.copy()
                        try:
                            d._bound(a, l, h)
                            d._edges()
                        except Infeasible:
                            continue
                        work.append(d)
                    continue
                for x in c.nes:
                    x = c.norm(x)
                    if type(x) is int:
                        if x == 0:
                            raise Infeasible()
                        continue
                    if x.c + sum(k * at.get(a, c.alo(a)) for a, k in x.t) == 0:
                        for y in (x, neg(x)):
                            d = c.copy()
                            try:
                                d.add_ge(add(y, -1))
                            except Infeasible:
                                continue
                            work.append(d)
                        break
                else:
                    return True
            except Infeasible:
                continue
        return False

    # ---- bit operations on normalised values
    def name(self, x, w):
        """A variable which equals x, so that its bits can be talked about"""
        g = 0
        for _, k in x.t:
            g = gcd(g, k)
        p = (g & -g).bit_length() - 1
        if p > 0:
            r = x.c & ((1 << p) - 1)
            y = Lin(x.c >> p, tuple((a, k >> p) for a, k in x.t))
            return add(scale(self.name(y, w - p), 1 << p), r)
        key = (x, w)
        v = self.names.get(key)
        if v is None:
            for u in set(self.names.values()):
                if self.eq(sub(u.lin(), x)) is True:
                    self.names[key] = v = u
                    break
        if v is None:
            v = Var(w, "v", tag="def")
            self.names[key] = v
            l, h = self.rng(x)
            self._bound(v.atom(), l, h)
            a = v.atom()
            if a in self.sub:
                return self.norm(a.var.lin())
            # solve for an atom of x, so that v is what remains
            self.add_eq(sub(v.lin(), x), a)
        return self.norm(v.lin())

    def low(self, x, m, w):
        """x mod 2^m"""
        for _ in range(200):
            x = self.norm(x)
            if type(x) is int:
                return x & ((1 << m) - 1)
            M = 1 << m
            d = {a: k for a, k in x.t if k % M}
            b = mk(x.c % M, d)
            if type(b) is int:
                return b
            l, h = self.rng(b)
            if l >= 0 and h < M:
                return b
            if l // M == h // M:
                return add(b, -(l // M) * M)
            for a, k in b.t:
                ak = k & -k
                p = ak.bit_length() - 1
                if p < m and a.bits > m - p:
                    self.cut(a, m - p)
                    break
            else:
                # maybe linear constraints bound it
                if self.ge(b) is True and self.ge(sub(M - 1, b)) is True:
                    return b
                x = self.name(x, w)
                y = self.norm(x)
                if type(y) is Lin and len(y.t) == 1 and y.t[0][1] > 1:
                    continue
                if type(y) is Lin and len(y.t) == 1 and y.t[0][1] == 1 and y.c == 0:
                    a = y.t[0][0]
                    if a.bits > m:
                        self.cut(a, m)
                    continue
                if type(y) is Lin and any(k < 0 for _, k in y.t):
                    raise Unsupported("low bits of %r" % (y,))
        raise Unsupported("low bits of %r" % (x,))

    def shr(self, x, s, w):
        if s == 0:
            return self.norm(x)
        for _ in range(200):
            x = self.norm(x)
            if type(x) is int:
                return x >> s
            M = 1 << s
            A = {}
            B = {}
            for a, k in x.t:
                if k % M == 0:
                    A[a] = k // M
                else:
                    B[a] = k
            b = mk(x.c % M, B)
            l, h = self.rng(b)
            if l // M == h // M:
                return mk((x.c // M) + l // M, A)
            for a, k in (b.t if type(b) is Lin else ()):
                ak = k & -k
                p = ak.bit_length() - 1
                if p < s and a.bits > s - p:
                    self.cut(a, s - p)
                    break
            else:
                if self.ge(b) is True and self.ge(sub(M - 1, b)) is True:
                    return mk(x.c // M, A)
                x = self.name(x, w)
                y = self.norm(x)
                if type(y) is Lin and len(y.t) == 1 and y.t[0][1] > 1:
                    continue
                if type(y) is Lin and len(y.t) == 1 and y.t[0][1] == 1 and y.c == 0:
                    a = y.t[0][0]
                    if a.bits > s:
                        self.cut(a, s)
                    continue
                if type(y) is Lin and any(k < 0 for _, k in y.t):
                    raise Unsupported("shift of %r" % (y,))
        raise Unsupported("shift of %r" % (x,))

    def slice(self, x, lo, hi, w):
        if lo >= hi:
            return 0
        y = self.shr(x, lo, w)
        if hi >= w:
            return y
        return self.low(y, hi - lo, w)

    def maybe_ones(self, x, w):
        """A mask of the bits which can be one"""
        x = self.norm(x)
        if type(x) is int:
            return x
        m = 0
        l, h = self.rng(x)
        if x.c < 0:
            return (1 << h.bit_length()) - 1
        for a, k in x.t:
            if k <= 0 or (k & (k - 1)):
                return (1 << h.bit_length()) - 1
            q = ((1 << self.ahi(a).bit_length()) - 1) * k
            if q & m:
                return (1 << h.bit_length()) - 1
            m |= q
        if m & x.c:
            return (1 << h.bit_length()) - 1
        return (m | x.c) & ((1 << max(h.bit_length(), 1)) - 1)

    def and_(self, x, y, w):
        x, y = self.norm(x), self.norm(y)
        if type(x) is int:
            x, y = y, x
        if type(y) is int:
            if type(x) is int:
                return x & y
            r = 0
            for lo, hi in runs(y):
                r = add(r, scale(self.slice(x, lo, hi, w), 1 << lo))
            return r
        if x == y:
            return x
        both = self.maybe_ones(x, w) & self.maybe_ones(y, w)
        r = 0
        for lo, hi in runs(both):
            p, q = self.slice(x, lo, hi, w), self.slice(y, lo, hi, w)
            p, q = self.norm(p), self.norm(q)
            if p == q:
                r = add(r, scale(p, 1 << lo))
            elif type(p) is int or type(q) is int:
                if hi - lo == w:
                    raise Unsupported("and")
                r = add(r, scale(self.and_(p, q, hi - lo), 1 << lo))
            else:
                raise Unsupported("and of %r and %r" % (x, y))
        return r

    def or_(self, x, y, w):
        # x|y = x + y - (x&y)
        return sub(add(self.norm(x), self.norm(y)), self.and_(x, y, w))

    def xor_(self, x, y, w):
        a = self.and_(x, y, w)
        return sub(add(self.norm(x), self.norm(y)), scale(a, 2))


class Unsupported(Exception):
    pass


def runs(m):
    out = []
    i = 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1:
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


class LP:
    """The polyhedron {g >= 0, lo <= a <= hi} over the rationals: exact minima of linear forms. A dictionary
    simplex with bounded variables; rows are integers over a denominator, and the basis stays from one
    question to the next."""

    def __init__(self, ges, bounds):
        self.atoms = atoms = sorted(bounds, key=lambda a: a.key)
        self.idx = idx = {a: i for i, a in enumerate(atoms)}
        self.n = n = len(atoms)
        self.lo = [bounds[a][0] for a in atoms]
        # variable i < n: atom i minus its lower bound, with an upper bound; from n on: slacks
        self.up = [bounds[a][1] - bounds[a][0] for a in atoms] + [None] * len(ges)
        self.flip = [False] * (n + len(ges))
        self.T = []
        self.rhs = []
        self.den = []
        for g in ges:
            r = [0] * n
            c = g.c
            for a, k in g.t:
                r[idx[a]] += k
                c += k * self.lo[idx[a]]
            self.T.append(r)
            self.rhs.append(c)
            self.den.append(1)
        self.basic = [n + j for j in range(len(ges))]
        self.nonb = list(range(n))
        self.where = {}
        self.empty = not self._phase1()

    def _flip_nonbasic(self, c, obj):
        u = self.up[self.nonb[c]]
        self.flip[self.nonb[c]] = not self.flip[self.nonb[c]]
        for i, r in enumerate(self.T):
            k = r[c]
            if k:
                self.rhs[i] += k * u
                r[c] = -k
        if obj is not None and obj[0][c]:
            obj[1] += obj[0][c] * u
            obj[0][c] = -obj[0][c]

    def _flip_basic(self, i):
        v = self.basic[i]
        self.flip[v] = not self.flip[v]
        self.T[i] = [-k for k in self.T[i]]
        self.rhs[i] = self.up[v] * self.den[i] - self.rhs[i]

    def _pivot(self, r, c, obj):
        T, rhs, den = self.T, self.rhs, self.den
        row = T[r]
        p = row[c]
        if p > 0:
            new = [-k for k in row]
            new[c] = den[r]
            nr = -rhs[r]
        else:
            new = list(row)
            new[c] = -den[r]
            nr = rhs[r]
            p = -p
        g = gcd(p, nr, *new)
        if g > 1:
            new = [k // g for k in new]
            nr //= g
            p //= g
        T[r], rhs[r], den[r] = new, nr, p
        for i in range(len(T)):
            if i != r:
                ti = T[i]
                k = ti[c]
                if k:
                    if p == 1:
                        t = [x + k * y for x, y in zip(ti, new)]
                        d = den[i]
                        h = rhs[i] + k * nr
                    else:
                        t = [x * p + k * y for x, y in zip(ti, new)]
                        d = den[i] * p
                        h = rhs[i] * p + k * nr
                    t[c] = k * new[c]
                    if d != 1:
                        g = gcd(d, h, *t)
                        if g > 1:
                            t = [x // g for x in t]
                            h //= g
                            d //= g
                    T[i], rhs[i], den[i] = t, h, d
        if obj is not None:
            k = obj[0][c]
            if k:
                t = [x * p + k * y for x, y in zip(obj[0], new)]
                t[c] = k * new[c]
                h = obj[1] * p + k * nr
                d = obj[2] * p
                g = gcd(d, h, *t)
                if g > 1:
                    t = [x // g for x in t]
                    h //= g
                    d //= g
                obj[0], obj[1], obj[2] = t, h, d
        self.basic[r], self.nonb[c] = self.nonb[c], self.basic[r]

    def _step(self, c, obj, target=None):
        """Increases nonbasic c as far as the rows which hold (and the target row) allow. False: no limit"""
        T, rhs, den, up, basic = self.T, self.rhs, self.den, self.up, self.basic
        u = up[self.nonb[c]]
        best = None if u is None else (u, 1, -1, -1, False)
        for i in range(len(T)):
            k = T[i][c]
            if not k:
                continue
            b = up[basic[i]]
            h = rhs[i]
            if i == target:
                if k < 0:
                    continue
                num, d, fl = -h, k, False
            elif h < 0 or (b is not None and h > b * den[i]):
                continue
            elif k < 0:
                num, d, fl = h, -k, False
            elif b is not None:
                num, d, fl = b * den[i] - h, k, True
            else:
                continue
            if best is None:
                best = (num, d, basic[i], i, fl)
            else:
                z = num * best[1] - best[0] * d
                if z < 0 or (z == 0 and best[3] >= 0 and basic[i] < best[2]):
                    best = (num, d, basic[i], i, fl)
        if best is None:
            return False
        if best[3] < 0:
            self._flip_nonbasic(c, obj)
            return True
        if best[4]:
            self._flip_basic(best[3])
        self._pivot(best[3], c, obj)
        return True

    def _phase1(self):
        it = 0
        while True:
            bad = -1
            for i in range(len(self.T)):
                if self.rhs[i] < 0:
                    bad = i
                    break
                b = self.up[self.basic[i]]
                if b is not None and self.rhs[i] > b * self.den[i]:
                    self._flip_basic(i)
                    bad = i
                    break
            if bad < 0:
                return True
            var = self.basic[bad]
            while self.basic[bad] == var and self.rhs[bad] < 0:
                it += 1
                if it > 3000:
                    raise Unsupported("simplex does not end")
                row = self.T[bad]
                c = -1
                for j in range(self.n):
                    if row[j] > 0 and (c < 0 or self.nonb[j] < self.nonb[c]):
                        c = j
                if c < 0:
                    return False
                self._step(c, None, bad)

    def point(self):
        """A vertex"""
        val = [0] * self.n
        for i, v in enumerate(self.basic):
            if v < self.n:
                val[v] = Fraction(self.rhs[i], self.den[i])
        return {a: Fraction(self.lo[i] + (self.up[i] - val[i] if self.flip[i] else val[i]))
                for i, a in enumerate(self.atoms)}

    def min(self, obj):
        """The minimum of a form, None when the polyhedron is empty"""
        if self.empty:
            return None
        if type(obj) is int:
            return obj
        # in terms of the nonbasic variables
        t = [0] * self.n
        h = obj.c
        d = 1
        pos = {v: i for i, v in enumerate(self.basic)}
        npos = {v: j for j, v in enumerate(self.nonb)}
        for a, k in obj.t:
            i = self.idx[a]
            h += k * self.lo[i] * d
            kk = k
            if self.flip[i]:
                h += k * self.up[i] * d
                kk = -k
            j = npos.get(i)
            if j is not None:
                t[j] += kk * d
            else:
                r = pos[i]
                q = self.den[r]
                if q == 1:
                    m = kk * d
                    t = [x + m * y for x, y in zip(t, self.T[r])]
                    h += m * self.rhs[r]
                else:
                    m = kk * d
                    t = [x * q + m * y for x, y in zip(t, self.T[r])]
                    h = h * q + m * self.rhs[r]
                    d *= q
        o = [t, h, d]
        it = 0
        while True:
            it += 1
            if it > 4000:
                raise Unsupported("simplex does not end")
            t = o[0]
            c = -1
            if it < 50:
                b = 0
                for j in range(self.n):
                    if t[j] < b:
                        b = t[j]
                        c = j
            else:
                for j in range(self.n):
                    if t[j] < 0 and (c < 0 or self.nonb[j] < self.nonb[c]):
                        c = j
            if c < 0:
                return o[1] if o[2] == 1 else Fraction(o[1], o[2])
            if not self._step(c, o):
                return Fraction(-(10 ** 40))
