"""Loads the dumped MIR and compiles it to closures over abstract states."""
import json


class Ty:
    __slots__ = ("id", "k", "name", "size", "align", "abi", "fields", "variants", "elem", "len", "to", "bits", "d",
                 "enum", "single", "tag", "offs", "stride", "drop", "inst", "sized", "scalar", "fat", "base", "vtys",
                 "discr", "box", "adef", "args", "vnames", "fnames")


class Fn:
    __slots__ = ("id", "name", "path", "crate", "kind", "virtual", "intrinsic", "foreign", "empty", "args", "body",
                 "compiled", "locals", "argc", "spread", "closure", "never", "names", "span", "raw", "model", "heads", "memlocals")

    def __repr__(self):
        return self.name


class Program:
    def __init__(self, path):
        m = json.load(open(path))
        self.m = m
        self.types = []
        for i, t in enumerate(m["types"]):
            ty = Ty()
            ty.id = i
            ty.d = t
            self.types.append(ty)
        for ty in self.types:
            self._ty(ty)
        for ty in self.types:
            ty.fat = self.is_fat(ty)
            ty.scalar = ty.sized and ty.size <= 16 and ty.size > 0 and not ty.fat and (
                ty.abi == "scalar" or ty.k in ("bool", "char", "int", "uint", "float", "ref", "ptr", "fnptr"))
        self.fns = []
        for i, f in enumerate(m["fns"]):
            fn = Fn()
            fn.id = i
            fn.name = f["name"]
            fn.path = f["path"]
            fn.crate = f["crate"]
            k = f["kind"]
            fn.virtual = k[1] if isinstance(k, list) else None
            fn.kind = k if isinstance(k, str) else "virtual"
            fn.intrinsic = f["intrinsic"]
            fn.foreign = f["foreign"]
            fn.empty = f["empty"]
            fn.args = f["args"]
            fn.closure = f["closure"]
            b = f["body"]
            fn.raw = b
            fn.compiled = None
            fn.model = None
            fn.heads = None
            if b:
                fn.locals = [self.types[t] for t in b["locals"]]
                fn.argc = b["argc"]
                fn.spread = b["spread"]
                fn.never = fn.locals[0].k == "never"
                fn.names = dict(b["names"])
                fn.span = b["span"]
            else:
                fn.never = None
                fn.span = ""
            self.fns.append(fn)
        self.roots = {n: k for n, k in m["roots"]}

    def _ty(self, ty):
        d = ty.d
        ty.k = d["k"]
        ty.name = d["name"]
        l = d.get("layout")
        ty.box = d.get("box", False)
        ty.adef = d.get("def")
        ty.args = d.get("args")
        ty.vnames = d.get("vnames")
        ty.fnames = d.get("fnames")
        T = self.types
        ty.elem = T[d["elem"]] if "elem" in d else None
        ty.to = T[d["to"]] if "to" in d else None
        ty.base = T[d["base"]] if "base" in d else None
        ty.len = d.get("len")
        ty.bits = d.get("bits")
        ty.drop = d.get("drop")
        ty.inst = d.get("inst")
        ty.discr = d.get("discr")
        ty.vtys = [[T[x] for x in v] for v in d.get("variants", [])]
        ty.single = None
        ty.tag = None
        ty.offs = None
        ty.stride = None
        if l is None:
            ty.size = 0
            ty.align = 1
            ty.abi = "unsized"
            ty.sized = False
        else:
            ty.size = l["size"]
            ty.align = l["align"]
            ty.abi = l["abi"]
            ty.sized = l["abi"] != "unsized"
            f = l["fields"]
            v = l["variants"]
            if isinstance(f, dict):
                ty.stride = f["stride"]
            elif f is not None:
                ty.offs = f
            if isinstance(v, dict):
                if "single" in v:
                    ty.single = v["single"]
                else:
                    ty.tag = v
        if ty.k in ("bool", "char"):
            ty.bits = 8 if ty.k == "bool" else 32

    def is_fat(self, ty):
        if ty.k in ("ref", "ptr"):
            return not ty.to.sized and ty.to.k != "foreign"
        return False

    def tail(self, ty):
        """The unsized tail of an unsized type"""
        while ty.k in ("struct", "tuple") and ty.vtys and ty.vtys[0]:
            ty = ty.vtys[0][-1]
        if ty.k == "pat":
            return self.tail(ty.base)
        return ty

    def field(self, ty, variant, i):
        """(offset, type) of a field"""
        if ty.k == "pat":
            return 0, ty.base
        if ty.k == "enum":
            v = ty.single if variant is None else variant
            if ty.tag is not None:
                return ty.tag["offsets"][v][i], ty.vtys[v][i]
            if ty.single == v:
                return ty.offs[i], ty.vtys[v][i]
            return 0, ty.vtys[v][i]  # uninhabited variant
        if ty.k == "array" or ty.k == "slice":
            return ty.elem.size * i, ty.elem
        if ty.k in ("ref", "ptr"):
            raise KeyError("field of pointer")
        return ty.offs[i], ty.vtys[0][i]
