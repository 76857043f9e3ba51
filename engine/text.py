"""Strings and data of unknown length and content, and the bulk operations of std on them."""
from dom import (Cons, Var, Lin, NeedSplit, Infeasible, Unsupported, add, sub, scale, neg, mk)
from eva import UNINIT, Ptr, FnV, Cond, Agg, Opaque, Seg, Violation
from engine import PUSHED, padd, agg_part, agg_sub, memo
import models
from models import VP, path, contents, fat

MAXLEN = 1 << 28


def any_run(st, text):
    """A new run of bytes; the lengths 0 and 1 are partitions of their own"""
    k = st.ghost.get("anyrun", 0)
    n = st.ghost.get(("anyrun", k))
    if n is None:
        n = Var(29, "len%d" % k, 0, MAXLEN, tag="any").lin()
        st.ghost[("anyrun", k)] = n
        raise NeedSplit([[("eq", n)], [("eq", add(n, -1))], [("ge", add(n, -2))]], "length")
    n = st.cons.norm(n)
    st.ghost["anyrun"] = k + 1
    a = st.new(n, 1, "input", "any%d" % k)
    if type(n) is int:
        if n == 1:
            v = Var(8, "byte%d" % k, 0, 127 if text else 255, tag="any").lin()
            a.cells[0] = (1, v)
    else:
        src = Opaque("any%d" % k)
        src.text = text
        src.len = n
        a.log = [(0, n, Seg(src, 0))]
    a.ro = True
    return fat(Ptr(a.id, 0), n)


def vp_any_str(eng, st, fr, fn, a, at, dt, dest, target):
    return any_run(st, True)


def vp_any_bytes(eng, st, fr, fn, a, at, dt, dest, target):
    return any_run(st, False)


VP["any_str"] = vp_any_str
VP["any_bytes"] = vp_any_bytes


def whole(st, s, n):
    """Is this run the whole of its source?"""
    return (isinstance(s, Seg) and isinstance(s.src, Opaque) and s.src.len is not None
            and st.cons.eq(s.off) is True and st.cons.eq(sub(s.src.len, n)) is True)


def utf8_cond(st, s, n):
    if s.src.text and whole(st, s, n):
        return 1
    off, n = st.cons.norm(s.off), st.cons.norm(n)
    # (the same run may have been asked for before less was known of where it begins and ends)
    for k in st.cons.facts:
        if k[0] == "utf8" and len(k) == 4 and k[1] == s.src.id:
            if st.cons.eq(sub(k[2], off)) is True and st.cons.eq(sub(k[3], n)) is True:
                return Cond("fact", k)
    return Cond("fact", ("utf8", s.src.id, off, n))


# ---- order of strings
def rank(st, p, n):
    """(rank, first byte) of a run of at least two bytes, so that the order of ranks is that of the contents"""
    n = st.num(n)
    if type(n) is int and n < 2:
        return None
    ps = contents(st, p, n)
    if len(ps) == 1 and whole(st, ps[0][2], n):
        s = ps[0][2]
        if type(n) is int and n <= 8 and st.fact(("rank", s.src.id)) is None:
            return None     # byte by byte
        if st.fact(("bytewise", s.src.id)):
            raise Unsupported("order of contents which were compared byte by byte")
        r = memo(st, ("rank", s.src.id), 64, "rank")
        return r, s.byte(st, 0), s
    if type(n) is int and n <= 256:
        bs = [st.load(padd(p, i), 1) for i in range(n)]
        bs = [st.num(b) for b in bs]
        if all(type(b) is int for b in bs):
            b = bytes(bs)
            r = st.fact(("rankc", b))
            if r is None:
                r = Var(64, "rank").lin()
                for k, x in list(st.cons.facts.items()):
                    if k[0] == "rankc":
                        st.cons.add_ge(add(sub(r, x), -1) if b > k[1] else add(sub(x, r), -1))
                st.cons.facts[("rankc", b)] = r
            return st.cons.norm(r), b[0], b
    return None


def by_rank(st, x, y):
    """-1, 0 or 1"""
    (rx, fx, sx), (ry, fy, sy) = x, y
    d = st.cons.norm(sub(rx, ry))
    eq = st.test(Cond("eq", d)) if type(d) is not int else d == 0
    if eq is None or eq is True:
        same = same_alts(st, sx, sy)
    if eq is None:
        raise NeedSplit([[("eq", d)] + same, [("ge", add(d, -1)), ("ge", sub(fx, fy))],
                         [("ge", add(neg(d), -1)), ("ge", sub(fy, fx))]], "order of strings")
    if eq:
        return 0
    return 1 if st.decide_ge(d, "order of strings") else -1


def same_alts(st, x, y):
    out = []
    if isinstance(x, Seg) and isinstance(y, Seg):
        out.append(("eq", sub(x.src.len, y.src.len)))
        out.append(("eq", sub(x.byte(st, 0), y.byte(st, 0))))
    elif isinstance(x, Seg) or isinstance(y, Seg):
        if isinstance(y, Seg):
            x, y = y, x
        out.append(("eq", add(x.src.len, -len(y))))
        for i, c in enumerate(y):
            out.append(("eq", add(x.byte(st, i), -c)))
    return out


def order(st, p, n, q, m):
    """Lexicographic order of two runs of bytes"""
    n, m = st.num(n), st.num(m)
    cp = p if isinstance(p, Ptr) else None
    x, y = rank(st, p, n), rank(st, q, m)
    if x is not None and y is not None:
        return by_rank(st, x, y)
    if type(n) is int and type(m) is int:
        k = min(n, m)
        for a, b in ((p, n), (q, m)):
            for c in contents(st, a, b):
                if isinstance(c[2], Seg) and isinstance(c[2].src, Opaque):
                    if st.fact(("rank", c[2].src.id)) is not None:
                        raise Unsupported("order of contents which were compared as a whole")
                    st.cons.facts[("bytewise", c[2].src.id)] = 1
        r = models.compare(st, p, q, k)
        return r or (n > m) - (n < m)
    # one of them has less than two bytes
    for (a, k, b, j, sg) in ((p, n, q, m, 1), (q, m, p, n, -1)):
        if type(k) is int and k < 2:
            if k == 0:
                return 0 if st.decide_eq(j) else -sg
            if st.decide_eq(j):
                return sg
            r = models.compare(st, a, b, 1)
            if r:
                return r * sg
            return 0 if st.decide_eq(add(j, -1)) else -sg
    raise Unsupported("order of unknown contents")


@path("<u8 as core::slice::cmp::SliceOrd>::compare")
def m_slice_ord(eng, st, fr, fn, a, at, dt, dest, target):
    r = order(st, agg_part(st, a[0], 0, 8), agg_part(st, a[0], 8, 8), agg_part(st, a[1], 0, 8),
              agg_part(st, a[1], 8, 8))
    return r & 0xFF


def compare_runs(st, x, y, n):
    """Two opaque runs which have to be equal over n bytes"""
    if type(n) is int and n <= 8:
        for z in (x, y):
            if st.fact(("rank", z.src.id)) is not None:
                break
        else:
            st.cons.facts[("bytewise", x.src.id)] = st.cons.facts[("bytewise", y.src.id)] = 1
            return None
    if whole(st, x, n) and whole(st, y, n):
        for z in (x, y):
            if st.fact(("bytewise", z.src.id)):
                raise Unsupported("order of contents which were compared byte by byte")
        d = (memo(st, ("rank", x.src.id), 64, "rank"), x.byte(st, 0), x)
        e = (memo(st, ("rank", y.src.id), 64, "rank"), y.byte(st, 0), y)
        return by_rank(st, d, e)
    flip = (x.src.id, st.cons.norm(x.off)) > (y.src.id, st.cons.norm(y.off)) if x.src.id == y.src.id and \
        type(st.cons.norm(x.off)) is int and type(st.cons.norm(y.off)) is int else x.src.id > y.src.id
    if flip:
        x, y = y, x
    key = ("cmp", x.src.id, st.cons.norm(x.off), y.src.id, st.cons.norm(y.off), st.cons.norm(n))
    if key not in st.cons.facts:
        for k in st.cons.facts:
            # what is known of other comparisons of these is not put together with this one
            if k[0] == "cmp" and {k[1], k[3]} & {x.src.id, y.src.id}:
                raise Unsupported("several comparisons of unknown contents")
    v = memo(st, key, 2, "cmp")
    r = st.const(v, "compare") - 1
    return -r if flip else r


def compare_mixed(st, a, b, n):
    raise Unsupported("comparison of unknown contents %r %r %r" % (a, b, n))


# ---- bulk operations
def fall(eng, st, fn, a, dest, target):
    eng.push(st, fn, a, dest, target, None)
    return PUSHED


def fill(st, p, n, v):
    n = st.num(n)
    if type(n) is int and n == 0:
        return
    st.store_agg(p, Agg(n, [(0, n, Seg(v, 0))]))


def extending(eng, st, clo, closure):
    """Where Vec::extend writes next, and what notes that it has written"""
    ptr = sl = None
    for i, t in enumerate(clo.vtys[0]):
        off = clo.offs[i]
        if t.k == "ptr":
            ptr = agg_part(st, closure, off, 8)
        elif "SetLenOnDrop" in t.name:
            sl = (off, t)
    if ptr is None or sl is None:
        raise Unsupported("the closure of extend_trusted")
    off, t = sl
    f = {x: eng.prog.field(t, None, i) for i, x in enumerate(t.fnames[0])}
    where = agg_part(st, closure, off + f["len"][0], 8)
    cur = st.num(agg_part(st, closure, off + f["local_len"][0], 8))

    def done(n):
        st.store(where, 8, st.cons.norm(add(cur, n)))
    return padd(ptr, cur), cur, done


@path("std::iter::Iterator::for_each")
def m_for_each(eng, st, fr, fn, a, at, dt, dest, target):
    """The loop of Vec::extend over a byte that is repeated so many times, and over the bytes of a slice"""
    it, clo = at[0], at[1]
    if "extend_trusted" not in clo.name:
        return fall(eng, st, fn, a, dest, target)
    if it.name == "std::iter::RepeatN<u8>":
        o, opt = eng.prog.field(it, None, 0)
        inner = opt.vtys[1][0]
        base = o + eng.prog.field(opt, 1, 0)[0]
        f = {x: eng.prog.field(inner, None, i) for i, x in enumerate(inner.fnames[0])}
        n = st.num(agg_part(st, a[0], base + f["count"][0], 8))
        if type(n) is int and n <= 64:
            return fall(eng, st, fn, a, dest, target)
        v = agg_part(st, a[0], base + f["element"][0], 1)
        p, _, done = extending(eng, st, clo, a[1])
        fill(st, p, n, v)
        done(n)
        return models.UNIT
    if it.name in ("std::iter::Copied<std::slice::Iter<'_, u8>>", "std::iter::Cloned<std::slice::Iter<'_, u8>>"):
        o, inner = eng.prog.field(it, None, 0)
        f = {x: eng.prog.field(inner, None, i) for i, x in enumerate(inner.fnames[0])}
        b = agg_part(st, a[0], o + f["ptr"][0], 8)
        e = agg_part(st, a[0], o + f["end_or_len"][0], 8)
        if not isinstance(b, Ptr) or not isinstance(e, Ptr) or b.a != e.a:
            return fall(eng, st, fn, a, dest, target)
        n = st.cons.norm(sub(e.o, b.o))
        if type(n) is int and n <= 64:
            return fall(eng, st, fn, a, dest, target)
        p, _, done = extending(eng, st, clo, a[1])
        st.copy_range(b, p, n)
        done(n)
        return models.UNIT
    return fall(eng, st, fn, a, dest, target)


@path("<std::iter::Take<I> as std::iter::Iterator>::for_each")
def m_take_for_each(eng, st, fr, fn, a, at, dt, dest, target):
    """The loop of Vec::extend over a repeated byte"""
    it, clo = at[0], at[1]
    if it.name != "std::iter::Take<std::iter::Repeat<u8>>" or "extend_trusted" not in clo.name:
        return fall(eng, st, fn, a, dest, target)
    fo = {x: eng.prog.field(it, None, i) for i, x in enumerate(it.fnames[0])}
    n = st.num(agg_part(st, a[0], fo["n"][0], 8))
    v = agg_part(st, a[0], fo["iter"][0], 1)
    if type(n) is int and n <= 64:
        return fall(eng, st, fn, a, dest, target)
    p, n0, done = extending(eng, st, clo, a[1])
    fill(st, p, n, v)
    done(n)
    return models.UNIT


def leaf(eng, ty, *names):
    """The offset of a field of a field"""
    off = 0
    for n in names:
        f = {x: i for i, x in enumerate(ty.fnames[0])}
        o, ty = eng.prog.field(ty, None, f[n])
        off += o
    return off


@path("std::vec::Vec::<T, A>::extend_with", "alloc::vec::Vec::<T, A>::extend_with")
def m_extend_with(eng, st, fr, fn, a, at, dt, dest, target):
    """Vec::resize: the same byte, so many times"""
    n = st.num(a[1])
    vec = at[0].to
    if type(n) is int and n <= 64 or at[2].size != 1 or vec.k != "adt" and not vec.fnames:
        return fall(eng, st, fn, a, dest, target)
    p = a[0]
    cap = padd(p, leaf(eng, vec, "buf", "inner", "cap"))
    ptr = padd(p, leaf(eng, vec, "buf", "inner", "ptr"))
    length = padd(p, leaf(eng, vec, "len"))
    m = st.num(st.load(length, 8))
    c = st.num(st.load(cap, 8))
    new = st.cons.norm(add(m, n))
    if not st.decide_ge(sub((1 << 63) - 1, new), "capacity"):
        raise Violation("panic", "capacity overflow")
    if not st.decide_ge(sub(c, new), "capacity"):
        # grown as Vec does it
        twice = st.cons.norm(add(c, c))
        big = twice if st.decide_ge(sub(twice, new), "capacity") else new
        if not st.decide_ge(sub(big, 8), "capacity"):
            big = 8
        b = st.new(big, 1, "heap")
        old = st.load(ptr, 8)
        if not st.decide_ge(sub(0, c), "capacity"):
            al = models.release(st, old)
            st.put_agg(b, 0, st.load_agg(Ptr(al.id, 0), m))
            st.free(al.id)
        st.store(ptr, 8, Ptr(b.id, 0))
        st.store(cap, 8, big)
    fill(st, padd(st.load(ptr, 8), m), n, a[2])
    st.store(length, 8, new)
    return models.UNIT
