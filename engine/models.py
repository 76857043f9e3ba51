"""What the analysis knows about functions it does not look into: compiler intrinsics, the allocator, and the
functions of the harness which stand for unknown inputs and for obligations."""
from dom import (Cons, Var, Lin, Atom, NeedSplit, Infeasible, Unsupported, add, sub, scale, neg, mk, runs)
from eva import UNINIT, Ptr, FnV, Cond, Agg, Opaque, PathEnd, Seg, Violation, of_text
from engine import (PUSHED, Diverge, Done, padd, agg_part, agg_sub, vtable_word, bin_fn, overflow_fn, memo, tag_value,
                    cmp_cond, flt, flt_cast, flt_cmp, discr_decoder, transmute_fn)

INTR = {}
PATHS = {}
FOREIGN = {}


def intr(*names):
    def d(f):
        for n in names:
            INTR[n] = f
        return f
    return d


def path(*names):
    def d(f):
        for n in names:
            PATHS[n] = f
        return f
    return d


UNIT = Agg(0, [])


def find(eng, fn):
    m = fn.model
    if m is not None:
        return m or None
    f = None
    if fn.kind == "intrinsic" or fn.intrinsic:
        f = INTR.get(fn.intrinsic)
    if f is None:
        f = PATHS.get(fn.path)
    if f is None and fn.crate == "harness" and "::vp::" in fn.path:
        f = VP.get(fn.path.split("::vp::")[1])
    fn.model = f or False
    return f


def panics(fn):
    return fn.crate in ("core", "std", "alloc", "hashbrown")


def mk_enum(eng, ty, variant, vals):
    """A value of an enum type"""
    if isinstance(variant, str):
        variant = ty.vnames.index(variant)
    cells = []
    for i, v in enumerate(vals):
        off, t = eng.prog.field(ty, variant, i)
        if isinstance(v, Agg):
            cells += [(off + q, s, x) for q, s, x in v.cells]
        elif t.size:
            cells.append((off, t.size, v))
    if ty.tag is not None:
        t = tag_value(ty, variant)
        if t is not None:
            cells.append((ty.tag["tag_off"], ty.tag["tag_size"], t))
    if ty.scalar:
        for q, s, x in cells:
            if s == ty.size:
                return x
        return UNINIT
    return Agg(ty.size, cells)


def mk_struct(eng, ty, vals):
    cells = []
    for i, v in enumerate(vals):
        off, t = eng.prog.field(ty, None, i)
        if isinstance(v, Agg):
            cells += [(off + q, s, x) for q, s, x in v.cells]
        elif t.size:
            cells.append((off, t.size, v))
    if ty.scalar:
        return cells[0][2]
    return Agg(ty.size, cells)


def fat(p, m):
    return Agg(16, [(0, 8, p), (8, 8, m)])


def targ(eng, fn, i=0):
    x = fn.args[i]
    return eng.prog.types[x]


# ---- the harness
VP = {}


def vp(f):
    VP[f.__name__[3:]] = f
    return f


def _any(name, bits):
    def f(eng, st, fr, fn, a, at, dt, dest, target):
        k = st.ghost.get("any", 0)
        st.ghost["any"] = k + 1
        return Var(bits, "%s%d" % (name, k), tag="any").lin()
    VP["any_" + name] = f


for _n, _b in (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("usize", 64), ("i8", 8), ("i16", 16), ("i32", 32),
               ("i64", 64), ("isize", 64), ("f32", 32), ("f64", 64)):
    _any(_n, _b)


@vp
def vp_any_bool(eng, st, fr, fn, a, at, dt, dest, target):
    return Var(1, "bool", tag="any").lin()


@vp
def vp_any_char(eng, st, fr, fn, a, at, dt, dest, target):
    k = st.ghost.get("char", 0)
    v = st.ghost.get(("char", k))
    if v is None:
        v = Var(21, "char", 0, 0x10FFFF, tag="any").lin()
        st.ghost[("char", k)] = v
    # not a surrogate
    x = st.num(v)
    if not st.decide_ge(sub(0xD7FF, x), "char") and not st.decide_ge(sub(x, 0xE000), "char"):
        raise Infeasible()
    st.ghost["char"] = k + 1
    return v


@vp
def vp_check(eng, st, fr, fn, a, at, dt, dest, target):
    name = const_str(st, a[1])
    r = st.test(a[0])
    if r is None:
        st.decide(a[0], "check")
    eng.checked[name] = eng.checked.get(name, 0) + 1
    if not r:
        v = Violation("check", name)
        raise v
    return UNIT


@vp
def vp_assume(eng, st, fr, fn, a, at, dt, dest, target):
    if not st.decide(a[0], "assume"):
        raise Infeasible()
    return UNIT


@vp
def vp_reached(eng, st, fr, fn, a, at, dt, dest, target):
    eng.reached.add(const_str(st, a[0]))
    return UNIT


def const_str(st, v):
    p = agg_part(st, v, 0, 8)
    n = agg_part(st, v, 8, 8)
    out = bytearray()
    for i in range(n):
        out.append(st.const(st.load(padd(p, i), 1)))
    return out.decode()


# ---- memory
def allocate(eng, st, size, align, zero):
    size = st.num(size)
    align = st.const(align)
    a = st.new(size, align, "heap")
    if zero:
        a.log = [(0, size, Seg(0, 0))]
    return Ptr(a.id, 0)


@path("alloc::alloc::__rust_alloc")
def m_alloc(eng, st, fr, fn, a, at, dt, dest, target):
    return allocate(eng, st, a[0], a[1], False)


@path("alloc::alloc::__rust_alloc_zeroed")
def m_alloc_zeroed(eng, st, fr, fn, a, at, dt, dest, target):
    return allocate(eng, st, a[0], a[1], True)


def release(st, p):
    if not isinstance(p, Ptr):
        raise Violation("dangling", "deallocation of %r" % (p,))
    al = st.mem.get(p.a)
    if al is None or al.kind != "heap":
        raise Violation("dangling", "deallocation of memory which is not allocated")
    if st.cons.norm(p.o) != 0:
        raise Violation("dangling", "deallocation at an offset")
    return al


@path("alloc::alloc::__rust_dealloc")
def m_dealloc(eng, st, fr, fn, a, at, dt, dest, target):
    al = release(st, a[0])
    st.free(al.id)
    return UNIT


@path("alloc::alloc::__rust_realloc")
def m_realloc(eng, st, fr, fn, a, at, dt, dest, target):
    p, old, align, new = a
    al = release(st, p)
    new = st.num(new)
    old = st.cons.norm(al.size)
    grow = st.decide_ge(sub(new, old), "realloc")
    n = old if grow else new
    if al.log is None and type(n) is int:
        v = Agg(n, [c for c in st.runs(al) if c[0] + c[1] <= n])
        if not grow:
            v = st.load_agg(Ptr(al.id, 0), n)
    else:
        v = st.load_agg(Ptr(al.id, 0), n)
    b = st.new(new, al.align, "heap")
    st.put_agg(b, 0, v)
    st.free(al.id)
    return Ptr(b.id, 0)


@path("alloc::alloc::__rust_no_alloc_shim_is_unstable_v2")
def m_noshim(eng, st, fr, fn, a, at, dt, dest, target):
    return UNIT


@intr("copy", "copy_nonoverlapping")
def i_copy(eng, st, fr, fn, a, at, dt, dest, target):
    sz = targ(eng, fn).size
    st.copy_range(a[0], a[1], scale(st.num(a[2]), sz))
    return UNIT


@intr("write_bytes")
def i_write_bytes(eng, st, fr, fn, a, at, dt, dest, target):
    n = st.cons.norm(scale(st.num(a[2]), targ(eng, fn).size))
    v = a[1]
    if type(n) is int and n <= 32:
        st.store_agg(a[0], Agg(n, [(i, 1, v) for i in range(n)]))
    else:
        v = st.num(v)
        st.store_agg(a[0], Agg(n, [(0, n, Seg(v, 0))]))
    return UNIT


@intr("volatile_load", "unaligned_volatile_load", "read_via_copy")
def i_read(eng, st, fr, fn, a, at, dt, dest, target):
    return st.load_ty(a[0], targ(eng, fn))


@intr("volatile_store", "write_via_move")
def i_write(eng, st, fr, fn, a, at, dt, dest, target):
    st.store_ty(a[0], targ(eng, fn), a[1])
    return UNIT


@intr("typed_swap_nonoverlapping")
def i_swap(eng, st, fr, fn, a, at, dt, dest, target):
    t = targ(eng, fn)
    x, y = st.load_ty(a[0], t), st.load_ty(a[1], t)
    st.store_ty(a[0], t, y)
    st.store_ty(a[1], t, x)
    return UNIT


def contents(st, p, n):
    """Pieces of n bytes at p; n may be unknown"""
    n = st.num(n)
    if type(n) is int and n == 0:
        return []
    v = st.load_agg(p, n)
    return v.cells


def single_seg(st, p, n):
    """(source, offset) if the n bytes at p are one run of opaque contents"""
    c = contents(st, p, n)
    if len(c) == 1 and isinstance(c[0][2], Seg) and isinstance(c[0][2].src, Opaque):
        s = c[0][2]
        return s.src, st.cons.norm(s.off)
    return None


def compare(st, p, q, n):
    """memcmp: -1, 0 or 1; partitions when it is not known"""
    n = st.num(n)
    if type(n) is not int:
        if st.decide_eq(n, "compare"):
            return 0
        a, b = contents(st, p, n), contents(st, q, n)
        if len(a) == 1 and len(b) == 1:
            x, y = a[0][2], b[0][2]
            if isinstance(x, Seg) and isinstance(y, Seg):
                if x.src is y.src and st.cons.eq(sub(x.off, y.off)) is True:
                    return 0
                return text.compare_runs(st, x, y, n)
        l, h = st.cons.rng(n)
        if h - l <= 40:
            n = st.const(n, "compare")
        else:
            return text.compare_mixed(st, a, b, n)
    if n == 0:
        return 0
    a, b = contents(st, p, n), contents(st, q, n)
    if len(a) == 1 and len(b) == 1:
        x, y = a[0][2], b[0][2]
        if isinstance(x, Seg) and isinstance(y, Seg):
            if x.src is y.src and st.cons.eq(sub(x.off, y.off)) is True:
                return 0
            if isinstance(x.src, Opaque) and isinstance(y.src, Opaque):
                r = text.compare_runs(st, x, y, n)
                if r is not None:
                    return r
    if n > 4096:
        raise Unsupported("comparison of %d bytes" % n)
    for i in range(n):
        x = st.load(padd(p, i), 1)
        y = st.load(padd(q, i), 1)
        x, y = st.num(x), st.num(y)
        d = st.cons.norm(sub(x, y))
        if type(d) is int:
            if d:
                return 1 if d > 0 else -1
            continue
        if not st.decide_eq(d, "compare"):
            return 1 if st.decide_ge(d, "compare") else -1
    return 0


@intr("compare_bytes")
def i_compare_bytes(eng, st, fr, fn, a, at, dt, dest, target):
    r = compare(st, a[0], a[1], a[2])
    if isinstance(r, int):
        return r & 0xFFFFFFFF
    return r


@intr("raw_eq")
def i_raw_eq(eng, st, fr, fn, a, at, dt, dest, target):
    return int(compare(st, a[0], a[1], targ(eng, fn).size) == 0)


# ---- sizes and types
def size_align(eng, st, t, v):
    """Of the value behind a pointer"""
    if t.sized:
        return t.size, t.align
    m = agg_part(st, v, 8, 8)
    tail = eng.prog.tail(t)
    if tail.k == "str":
        ts, ta = st.num(m), 1
    elif tail.k == "slice":
        ts, ta = scale(st.num(m), tail.elem.size), tail.elem.align
    elif tail.k == "dyn":
        ts, ta = vtable_word(st, m, 1), vtable_word(st, m, 2)
    else:
        raise Unsupported("size of " + t.name)
    if t is tail:
        return ts, ta

    def rec(t):
        if t is tail:
            return ts, ta
        if t.k == "pat":
            return rec(t.base)
        s, al = rec(t.vtys[0][-1])
        off = t.offs[-1]
        off = (off + al - 1) // al * al
        al2 = max([al] + [f.align for f in t.vtys[0][:-1]])
        tot = add(off, s)
        if type(tot) is int:
            tot = (tot + al2 - 1) // al2 * al2
        elif al2 > 1:
            r = st.cons.low(add(tot, al2 - 1), al2.bit_length() - 1, 64)
            tot = sub(add(tot, al2 - 1), r)
        return tot, al2
    return rec(t)


@intr("size_of_val")
def i_size_of_val(eng, st, fr, fn, a, at, dt, dest, target):
    return st.cons.norm(size_align(eng, st, targ(eng, fn), a[0])[0])


@intr("align_of_val", "min_align_of_val")
def i_align_of_val(eng, st, fr, fn, a, at, dt, dest, target):
    return size_align(eng, st, targ(eng, fn), a[0])[1]


@intr("size_of")
def i_size_of(eng, st, fr, fn, a, at, dt, dest, target):
    return targ(eng, fn).size


@intr("align_of", "min_align_of", "pref_align_of")
def i_align_of(eng, st, fr, fn, a, at, dt, dest, target):
    return targ(eng, fn).align


@intr("needs_drop")
def i_needs_drop(eng, st, fr, fn, a, at, dt, dest, target):
    return int(targ(eng, fn).drop is not None)


@intr("vtable_size")
def i_vtable_size(eng, st, fr, fn, a, at, dt, dest, target):
    return vtable_word(st, a[0], 1)


@intr("vtable_align")
def i_vtable_align(eng, st, fr, fn, a, at, dt, dest, target):
    return vtable_word(st, a[0], 2)


@intr("discriminant_value")
def i_discr(eng, st, fr, fn, a, at, dt, dest, target):
    t = targ(eng, fn)
    if t.k != "enum":
        return 0
    if t.tag is None:
        return t.discr[t.single or 0]
    v = st.load(padd(a[0], t.tag["tag_off"]), t.tag["tag_size"])
    return discr_decoder(t)(st, v)


# ---- arithmetic
def bits(eng, fn, i=0):
    t = targ(eng, fn, i)
    return t.bits or 8 * t.size


def sgn(eng, fn):
    return targ(eng, fn).k == "int"


@intr("bswap")
def i_bswap(eng, st, fr, fn, a, at, dt, dest, target):
    w = bits(eng, fn)
    x = st.num(a[0])
    r = 0
    for i in range(w // 8):
        b = st.cons.slice(x, 8 * i, 8 * i + 8, w)
        r = add(r, scale(st.cons.norm(b), 1 << (w - 8 - 8 * i)))
    return st.cons.norm(r)


@intr("bitreverse")
def i_bitreverse(eng, st, fr, fn, a, at, dt, dest, target):
    w = bits(eng, fn)
    x = st.const(a[0])
    return int(bin(x)[2:].zfill(w)[::-1], 2)


@intr("ctpop")
def i_ctpop(eng, st, fr, fn, a, at, dt, dest, target):
    x = st.num(a[0])
    if type(x) is int:
        return bin(x).count("1")
    return popcount(st, x, bits(eng, fn))


def popcount(st, x, w):
    m = st.cons.maybe_ones(x, w)
    r = 0
    for lo, hi in runs(m):
        for i in range(lo, hi):
            r = add(r, st.cons.norm(st.cons.slice(x, i, i + 1, w)))
    return st.cons.norm(r)


def split_len(st, x, w):
    """The bit length of x, by partition"""
    x = st.num(x)
    if type(x) is int:
        return x.bit_length()
    l, h = st.cons.rng(x)
    if l > 0 and l.bit_length() == h.bit_length():
        return l.bit_length()
    alts = []
    for k in range(l.bit_length(), h.bit_length() + 1):
        if k == 0:
            alts.append([("eq", x)])
        else:
            alts.append([("ge", add(x, -(1 << (k - 1)))), ("ge", sub((1 << k) - 1, x))])
    if len(alts) == 1:
        return l.bit_length()
    # already implied by other facts?
    for k, alt in zip(range(l.bit_length(), h.bit_length() + 1), alts):
        if k and st.cons.ge(alt[0][1]) is True and st.cons.ge(alt[1][1]) is True:
            return k
    raise NeedSplit(alts, "bit length")


@intr("ctlz", "ctlz_nonzero")
def i_ctlz(eng, st, fr, fn, a, at, dt, dest, target):
    w = bits(eng, fn)
    return w - split_len(st, a[0], w)


@intr("cttz", "cttz_nonzero")
def i_cttz(eng, st, fr, fn, a, at, dt, dest, target):
    w = bits(eng, fn)
    x = st.num(a[0])
    for i in range(w):
        b = st.cons.norm(st.cons.slice(x, i, i + 1, w))
        if not st.decide_eq(b, "trailing zeros"):
            return i
    return w


@intr("rotate_left", "rotate_right")
def i_rot(eng, st, fr, fn, a, at, dt, dest, target):
    w = bits(eng, fn)
    k = st.const(a[1], "rotate") % w
    if fn.intrinsic == "rotate_right":
        k = (w - k) % w
    x = st.num(a[0])
    if k == 0:
        return x
    hi = st.cons.shr(x, w - k, w)
    lo = st.cons.low(x, w - k, w)
    return st.cons.norm(add(scale(lo, 1 << k), hi))


@intr("saturating_add", "saturating_sub")
def i_sat(eng, st, fr, fn, a, at, dt, dest, target):
    w = bits(eng, fn)
    x, y = st.num(a[0]), st.num(a[1])
    s = sgn(eng, fn)
    if s:
        x, y = st.signed(x, w), st.signed(y, w)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    r = st.cons.norm(add(x, y) if fn.intrinsic == "saturating_add" else sub(x, y))
    if type(r) is int:
        return min(max(r, lo), hi) & ((1 << w) - 1)
    if not st.decide_ge(sub(r, lo), "saturate"):
        return lo & ((1 << w) - 1)
    if not st.decide_ge(sub(hi, r), "saturate"):
        return hi
    return st.wrap(r, w)


def _bin(op):
    def f(eng, st, fr, fn, a, at, dt, dest, target):
        t = at[0] if at else targ(eng, fn)
        t2 = at[1] if at else t
        return bin_fn(op, t, t2, t)(st, a[0], a[1])
    return f


for _n, _o in (("wrapping_add", "Add"), ("wrapping_sub", "Sub"), ("wrapping_mul", "Mul"), ("unchecked_add", "Add"),
               ("unchecked_sub", "Sub"), ("unchecked_mul", "Mul"), ("unchecked_shl", "Shl"), ("unchecked_shr", "Shr"),
               ("unchecked_div", "Div"), ("unchecked_rem", "Rem"), ("exact_div", "Div"), ("disjoint_bitor", "BitOr")):
    INTR[_n] = _bin(_o)


def _ovf(op):
    def f(eng, st, fr, fn, a, at, dt, dest, target):
        w = bits(eng, fn)
        v, o = overflow_fn(op, w, sgn(eng, fn))(st, a[0], a[1])
        o0, _ = eng.prog.field(dt, None, 0)
        o1, _ = eng.prog.field(dt, None, 1)
        return Agg(dt.size, [(o0, w // 8, v), (o1, 1, o)])
    return f


for _n, _o in (("add_with_overflow", "Add"), ("sub_with_overflow", "Sub"), ("mul_with_overflow", "Mul")):
    INTR[_n] = _ovf(_o)


@intr("three_way_compare")
def i_cmp3(eng, st, fr, fn, a, at, dt, dest, target):
    t = targ(eng, fn)
    return bin_fn("Cmp", t, t, dt)(st, a[0], a[1])


@intr("ptr_offset_from_unsigned", "ptr_offset_from")
def i_poff(eng, st, fr, fn, a, at, dt, dest, target):
    p, q = a[0], a[1]
    sz = targ(eng, fn).size
    if isinstance(p, Ptr) and isinstance(q, Ptr) and p.a == q.a:
        d = st.cons.norm(sub(p.o, q.o))
    elif not isinstance(p, Ptr) and not isinstance(q, Ptr):
        d = st.cons.norm(sub(st.num(p), st.num(q)))
    else:
        raise Violation("ub", "distance of pointers into different memory")
    if fn.intrinsic == "ptr_offset_from_unsigned":
        if not st.decide_ge(d, "distance"):
            raise Violation("ub", "negative distance of pointers")
    if sz > 1:
        if type(d) is int:
            d //= sz
        else:
            if type(d) is Lin and d.c % sz == 0 and all(k % sz == 0 for _, k in d.t):
                d = Lin(d.c // sz, tuple((x, k // sz) for x, k in d.t))
            elif sz & (sz - 1) == 0:
                d = st.cons.shr(d, sz.bit_length() - 1, 64)
            else:
                raise Unsupported("distance in elements")
    return st.wrap(d, 64)


@intr("arith_offset", "offset")
def i_offset(eng, st, fr, fn, a, at, dt, dest, target):
    t = at[0].to if at and at[0].to is not None else targ(eng, fn)
    n = st.num(a[1])
    if not (at and at[1].k == "uint"):
        n = st.signed(n, 64)
    return padd(a[0], scale(n, t.size))


@intr("ptr_guaranteed_cmp")
def i_pgc(eng, st, fr, fn, a, at, dt, dest, target):
    return 2


@intr("ptr_mask")
def i_ptr_mask(eng, st, fr, fn, a, at, dt, dest, target):
    raise Unsupported("ptr_mask")


# ---- control
@intr("assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "cold_path", "forget", "breakpoint")
def i_nothing(eng, st, fr, fn, a, at, dt, dest, target):
    return UNIT


@intr("likely", "unlikely", "black_box")
def i_id(eng, st, fr, fn, a, at, dt, dest, target):
    return a[0]


@intr("is_val_statically_known", "ub_checks", "contract_checks")
def i_zero(eng, st, fr, fn, a, at, dt, dest, target):
    return 0


@intr("select_unpredictable")
def i_select(eng, st, fr, fn, a, at, dt, dest, target):
    return a[1] if st.decide(a[0], "select") else a[2]


@intr("assume")
def i_assume(eng, st, fr, fn, a, at, dt, dest, target):
    if not st.decide(a[0], "assume"):
        if of_text(fr):
            raise PathEnd()
        raise Violation("ub", "assumption which does not hold")
    return UNIT


@intr("abort", "abort_immediate", "unreachable")
def i_abort(eng, st, fr, fn, a, at, dt, dest, target):
    raise Violation("panic", "abort")


@intr("transmute", "transmute_unchecked")
def i_transmute(eng, st, fr, fn, a, at, dt, dest, target):
    f, t = targ(eng, fn), targ(eng, fn, 1)
    return transmute_fn(lambda s, r: a[0], f, t)(st, fr)


@intr("caller_location")
def i_caller(eng, st, fr, fn, a, at, dt, dest, target):
    n = st.new(24, 8, "static", "location")
    return Ptr(n.id, 0)


@intr("const_eval_select")
def i_ces(eng, st, fr, fn, a, at, dt, dest, target):
    # (args tuple, const fn, runtime fn)
    t = at[2]
    f = eng.prog.fns[t.inst]
    tt = at[0]
    vs = []
    for i, ft in enumerate(tt.vtys[0] if tt.vtys else []):
        off = tt.offs[i]
        if ft.size == 0:
            vs.append(UNIT)
        elif ft.scalar:
            vs.append(agg_part(st, a[0], off, ft.size))
        else:
            vs.append(agg_sub(st, a[0], off, ft.size))
    eng.call_fn(st, f, vs, dest, target, "select", tt.vtys[0], dt)
    return PUSHED


@intr("catch_unwind")
def i_catch(eng, st, fr, fn, a, at, dt, dest, target):
    raise Unsupported("catch_unwind")


@path("std::sys::sync::once::futex::Once::call")
def p_once(eng, st, fr, fn, a, at, dt, dest, target):
    """Runs the closure the first time. One thread: it cannot be running already"""
    p, f = a[0], a[2]
    if st.const(st.load(p, 4), "once") == 0:
        return UNIT
    st.store(p, 4, 0)
    s, m = agg_part(st, f, 0, 8), agg_part(st, f, 8, 8)
    for i in (4, 3):
        g = vtable_word(st, m, i)
        if isinstance(g, FnV):
            break
    else:
        raise Unsupported("closure of Once")
    eng.call_fn(st, eng.prog.fns[g.f], [s, fat(Ptr(p.a, p.o), 0)], dest, target, "virtual", at[:2], dt)
    return PUSHED


@path("crossbeam_utils::sync::sharded_lock::current_index")
def p_shard(eng, st, fr, fn, a, at, dt, dest, target):
    """The shard of this thread, which is an optimisation: as during the destruction of the thread's locals"""
    return mk_enum(eng, dt, "None", [])


@path("alloc::rcs::arc::arcinner_layout_for_value_layout", "alloc::rcs::rc::rc_inner_layout_for_value_layout")
def p_rc_layout(eng, st, fr, fn, a, at, dt, dest, target):
    """Two counters in front of the value"""
    os, ts = eng.prog.field(dt, None, 0)
    oa, ta = eng.prog.field(dt, None, 1)
    size, align = st.num(agg_part(st, a[0], os, 8)), st.const(agg_part(st, a[0], oa, 8))
    al = max(8, align)
    off = -(-16 // align) * align
    x = add(off, size)
    x = st.cons.and_(add(x, al - 1), ((1 << 64) - 1) & ~(al - 1), 64)
    return Agg(16, [(os, 8, x), (oa, 8, al)])


# ---- atomics: one thread
@intr("atomic_load")
def i_aload(eng, st, fr, fn, a, at, dt, dest, target):
    return st.load_ty(a[0], targ(eng, fn))


@intr("atomic_store")
def i_astore(eng, st, fr, fn, a, at, dt, dest, target):
    st.store_ty(a[0], targ(eng, fn), a[1])
    return UNIT


def _rmw(op):
    def f(eng, st, fr, fn, a, at, dt, dest, target):
        t = targ(eng, fn)
        old = st.load_ty(a[0], t)
        new = a[1] if op is None else bin_fn(op, t, t, t)(st, old, a[1])
        st.store_ty(a[0], t, new)
        return old
    return f


for _n, _o in (("atomic_xchg", None), ("atomic_xadd", "Add"), ("atomic_xsub", "Sub"), ("atomic_and", "BitAnd"),
               ("atomic_or", "BitOr"), ("atomic_xor", "BitXor")):
    INTR[_n] = _rmw(_o)


@intr("atomic_cxchg", "atomic_cxchgweak")
def i_cxchg(eng, st, fr, fn, a, at, dt, dest, target):
    t = targ(eng, fn)
    old = st.load_ty(a[0], t)
    c = bin_fn("Eq", t, t, t)(st, old, a[1])
    ok = st.decide(c, "compare and exchange")
    if ok:
        st.store_ty(a[0], t, a[2])
    o0, _ = eng.prog.field(dt, None, 0)
    o1, _ = eng.prog.field(dt, None, 1)
    return Agg(dt.size, [(o0, t.size, old), (o1, 1, int(ok))])


@intr("atomic_fence", "atomic_singlethreadfence")
def i_fence(eng, st, fr, fn, a, at, dt, dest, target):
    return UNIT


# ---- floats
@intr("fabs", "fabsf64", "fabsf32")
def i_fabs(eng, st, fr, fn, a, at, dt, dest, target):
    w = 8 * dt.size
    return st.cons.low(st.num(a[0]), w - 1, w)


# ---- text
@path("std::str::from_utf8", "core::str::from_utf8", "core::str::converts::from_utf8", "std::str::converts::from_utf8")
def m_from_utf8(eng, st, fr, fn, a, at, dt, dest, target):
    ok = valid_utf8(st, agg_part(st, a[0], 0, 8), agg_part(st, a[0], 8, 8))
    if ok:
        return mk_enum(eng, dt, "Ok", [a[0]])
    et = eng.prog.field(dt, dt.vnames.index("Err"), 0)[1]
    return mk_enum(eng, dt, "Err", [Agg(et.size, [])])


def sequences(st, bs):
    """Are these UTF-8 sequences? None if the kinds of the bytes are not known"""
    def within(x, lo, hi):
        return st.cons.ge(sub(x, lo)) is True and st.cons.ge(sub(hi, x)) is True
    i = 0
    while i < len(bs):
        b = bs[i]
        if within(b, 0, 0x7F):
            i += 1
            continue
        for k, lo, hi, least in ((1, 0xC0, 0xDF, 0x80), (2, 0xE0, 0xEF, 0x800), (3, 0xF0, 0xF7, 0x10000)):
            if within(b, lo, hi):
                break
        else:
            return None
        rest = bs[i + 1:i + 1 + k]
        if len(rest) < k or not all(within(c, 0x80, 0xBF) for c in rest):
            return None
        v = sub(b, lo)
        for c in rest:
            v = add(scale(v, 64), sub(c, 0x80))
        v = st.cons.norm(v)
        for good in (Cond("ge", sub(v, least)), Cond("ge", sub(0x10FFFF, v))):
            if not st.decide(good, "utf8"):
                return False
        if k == 2 and st.decide(Cond("ge", sub(v, 0xD800)), "utf8") and st.decide(Cond("ge", sub(0xDFFF, v)), "utf8"):
            return False
        i += 1 + k
    return True


def facts_hold(st):
    """What was taken to be valid or invalid, when its bytes were not known, is it"""
    for k, v in list(st.cons.facts.items()):
        if type(k) is tuple and k[0] == "utf8b":
            bs = [st.cons.norm(b) for b in k[1:]]
            if all(type(b) is int for b in bs):
                try:
                    bytes(bs).decode("utf-8")
                    ok = True
                except UnicodeDecodeError:
                    ok = False
                if ok != bool(v):
                    raise Infeasible()
            elif v:
                try:
                    spell(st, bs)
                except NeedSplit:
                    pass


def alias(st):
    """Bytes of one text which were read by different names are equal if they are one byte"""
    by = {}
    for k, v in st.cons.facts.items():
        if type(k) is tuple and k[0] == "byte":
            by.setdefault(k[1], []).append((k[2], v))
    for ks in by.values():
        for i, (o, v) in enumerate(ks):
            for p, w in ks[:i]:
                x = sub(o, p)
                y = st.cons.norm(sub(v, w))
                if y == 0:
                    continue
                r = st.cons.eq(x)
                if r is False:
                    continue
                if r is True:
                    if type(y) is int or st.cons.eq(y) is False:
                        raise Infeasible()
                    if st.cons.eq(y) is None:
                        raise NeedSplit([[("eq", y)]], "alias")
                    continue
                raise NeedSplit([[("eq", x), ("eq", y)], [("ne", x)]], "alias")


def valid_utf8(st, p, n):
    n = st.num(n)
    if type(n) is int and n == 0:
        return True
    ps = contents(st, p, n)
    known = type(n) is int and n <= 4096 and all(type(c[2]) is int for c in ps)
    if known:
        facts_hold(st)
        bs = bytearray()
        for i in range(n):
            bs.append(st.load(padd(p, i), 1))
        try:
            bs.decode("utf-8")
            return True
        except UnicodeDecodeError:
            return False
    if len(ps) == 1 and isinstance(ps[0][2], Seg) and isinstance(ps[0][2].src, Opaque):
        s = ps[0][2]
        c = text.utf8_cond(st, s, n)
        return st.decide(c, "utf8")
    if type(n) is int:
        bs = tuple(st.num(st.load(padd(p, i), 1)) for i in range(n))
        # ASCII is always valid
        if all(st.cons.ge(sub(127, b)) is True for b in bs):
            return True
        r = sequences(st, bs)
        if r is not None:
            return r
        return st.decide(Cond("fact", ("utf8b",) + bs), "utf8")
    key = ("utf8", tuple((c[0], c[1], c[2]) for c in ps))
    return st.decide(Cond("fact", key), "utf8")


import text


# ---- text of messages: its content is not followed
def leaves(ty, off=0):
    if ty.k in ("struct", "tuple", "closure"):
        for o, t in zip(ty.offs or [], ty.vtys[0] if ty.vtys else []):
            yield from leaves(t, off + o)
    elif ty.size:
        yield off, ty


@path("alloc::fmt::format::format_inner", "std::fmt::format::format_inner")
def m_format(eng, st, fr, fn, a, at, dt, dest, target):
    n = Var(20, "message", 2).lin()
    al = st.new(n, 1, "heap")
    src = Opaque("message")
    src.text = True
    src.len = n
    al.log = [(0, n, Seg(src, 0))]
    parts = []
    for o, t in leaves(dt):
        if t.k in ("ptr", "ref") or t.k == "pat" and t.base.k in ("ptr", "ref"):
            parts.append((o, 8, Ptr(al.id, 0)))
        elif t.size == 8:
            parts.append((o, 8, n))
        else:
            raise Unsupported("layout of String")
    if len(parts) != 3:
        raise Unsupported("layout of String")
    return Agg(dt.size, sorted(parts))


@path("<alloc::string::String as core::clone::Clone>::clone", "<std::string::String as std::clone::Clone>::clone")
def m_string_clone(eng, st, fr, fn, a, at, dt, dest, target):
    p = n = None
    ls = list(leaves(dt))
    for o, t in ls:
        if t.k in ("ptr", "ref") or t.k == "pat" and t.base.k in ("ptr", "ref"):
            p = st.load_ty(padd(a[0], o), t)
        elif t.size == 8 and t.k != "pat":
            n = st.num(st.load_ty(padd(a[0], o), t))
    if p is None or n is None or len(ls) != 3:
        raise Unsupported("layout of String")
    if st.decide_eq(n, "empty string"):
        q = 1
    else:
        q = Ptr(st.new(n, 1, "heap").id, 0)
        st.copy_range(p, q, n)
    parts = []
    for o, t in ls:
        if t.k in ("ptr", "ref") or t.k == "pat" and t.base.k in ("ptr", "ref"):
            parts.append((o, 8, q))
        else:
            parts.append((o, 8, n))
    return Agg(dt.size, sorted(parts, key=lambda c: c[0]))


# ---- the characters of a string of which is known only that it is one
CHARS = [((0, 0x7F),), ((0xC2, 0xDF), (0x80, 0xBF)),
         ((0xE0, 0xE0), (0xA0, 0xBF), (0x80, 0xBF)), ((0xE1, 0xEC), (0x80, 0xBF), (0x80, 0xBF)),
         ((0xED, 0xED), (0x80, 0x9F), (0x80, 0xBF)), ((0xEE, 0xEF), (0x80, 0xBF), (0x80, 0xBF)),
         ((0xF0, 0xF0), (0x90, 0xBF), (0x80, 0xBF), (0x80, 0xBF)),
         ((0xF1, 0xF3), (0x80, 0xBF), (0x80, 0xBF), (0x80, 0xBF)),
         ((0xF4, 0xF4), (0x80, 0x8F), (0x80, 0xBF), (0x80, 0xBF))]


def spell(st, bs):
    """Partitions the state by the kinds of characters that the bytes of a valid string can be"""
    i = 0
    while i < len(bs):
        alts = []
        for c in CHARS:
            if i + len(c) > len(bs):
                continue
            t = [r for b, (lo, hi) in zip(bs[i:], c)
                 for r in (st.cons.ge(sub(b, lo)), st.cons.ge(sub(hi, b)))]
            if all(x is True for x in t):
                break
            if False not in t:
                alts.append([y for b, (lo, hi) in zip(bs[i:], c) for y in (("ge", sub(b, lo)), ("ge", sub(hi, b)))])
        else:
            if not alts:
                raise Infeasible()
            raise NeedSplit(alts, "utf8")
        i += len(c)


@vp
def vp_collide(eng, st, fr, fn, a, at, dt, dest, target):
    st.ghost["collide"] = True
    return UNIT


@path("core::unicode::unicode_data::alphabetic::lookup_slow", "core::unicode::unicode_data::n::lookup",
      "core::unicode::unicode_data::alphabetic::lookup", "core::unicode::unicode_data::n::lookup_slow")
def m_unicode(eng, st, fr, fn, a, at, dt, dest, target):
    import unicodedata
    c = st.num(a[0])
    alpha = "alphabetic" in fn.path
    if type(c) is not int:
        key = ("alphabetic" if alpha else "numeric", c)
        r = st.fact(key)
        if r is None:
            raise NeedSplit([[("fact", key, True)], [("fact", key, False)]], "letters")
        return int(r)
    k = unicodedata.category(chr(c))
    if not alpha:
        return int(k[0] == "N")
    if k[0] == "L" or k == "Nl":
        return 1
    if k[0] in "PZC" or k in ("Nd", "No", "Sm", "Sc", "Sk"):
        return 0
    if k == "So":
        return int(any(l <= c <= h for l, h in ((0x24B6, 0x24E9), (0x1F130, 0x1F149), (0x1F150, 0x1F169), (0x1F170, 0x1F189))))
    raise Unsupported("whether U+%04X is a letter" % c)


@path("folklore::util::hash")
def m_hash(eng, st, fr, fn, a, at, dt, dest, target):
    # What a map contains does not depend on the hash function: one whose values are all equal leaves the
    # comparison of keys, which is made for any content
    if st.ghost.get("collide"):
        return 1
    eng.call_fn(st, fn, a, dest, target, None, at, dt, model=False)
    return PUSHED


# There is one thread: whoever holds a lock that is waited for is the one who waits
@path("std::sys::sync::rwlock::futex::RwLock::read_contended", "std::sys::sync::rwlock::futex::RwLock::write_contended",
      "std::sys::sync::mutex::futex::Mutex::lock_contended")
def m_contended(eng, st, fr, fn, a, at, dt, dest, target):
    raise Violation("deadlock", "a lock is taken by a thread which holds it already")


@path("std::sys::sync::rwlock::futex::RwLock::read")
def m_read(eng, st, fr, fn, a, at, dt, dest, target):
    # Twice for reading is a deadlock as well once another thread waits for writing in between
    if st.const(st.load(a[0], 4), "lock") & ((1 << 30) - 1):
        raise Violation("deadlock", "a lock is taken by a thread which holds it already")
    eng.call_fn(st, fn, a, dest, target, None, at, dt, model=False)
    return PUSHED


@path("core::str::validations::next_code_point", "core::str::validations::next_code_point_reverse",
      "core::str::next_code_point", "core::str::next_code_point_reverse")
def m_code_point(eng, st, fr, fn, a, at, dt, dest, target):
    for k, v in list(st.cons.facts.items()):
        if v is True and type(k) is tuple and k[0] == "utf8b" and len(k) <= 9:
            spell(st, [st.num(b) for b in k[1:]])
    eng.call_fn(st, fn, a, dest, target, None, at, dt, model=False)
    return PUSHED


@path("alloc::string::String::from_utf8_lossy", "std::string::String::from_utf8_lossy")
def m_utf8_lossy(eng, st, fr, fn, a, at, dt, dest, target):
    p, n = agg_part(st, a[0], 0, 8), agg_part(st, a[0], 8, 8)
    if valid_utf8(st, p, n):
        return mk_enum(eng, dt, 0, [fat(p, n)])
    return mk_enum(eng, dt, 1, [m_format(eng, st, fr, fn, None, None, eng.prog.field(dt, 1, 0)[1], None, None)])
