"""Declarations, the reference layout (computed here, independently of the macro) and Rust emission.

A *leaf* is one scalar (or one opaque nested bitfield) of a declaration together with the physical
position of each of its bits in the byte array. Positions are computed from the documented rules:

  * the bit stream runs from the most significant bit of byte 0 onward (msb0); a field follows the
    previous one unless it names its own range;
  * big endian: most significant value bit first; little endian: whole bytes least significant
    first, each most-significant-bit first, the remaining high bits last;
  * lsb0 mirrors the bit ranges inside the declaration, `reverse` mirrors the bytes;
  * element arrays: each element is its own field; block arrays: element 0 loses the missing bits.
"""
from dataclasses import dataclass, field as dfield
from typing import Optional, List, Any
import re

W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128,
     "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128,
     "bool": 8, "char": 32, "f32": 32, "f64": 64}
CARRIER = {8: "u8", 16: "u16", 32: "u32", 64: "u64", 128: "u128"}


def kind_of(t):
    if t in ("bool", "char"):
        return t
    return {"u": "uint", "i": "int", "f": "float"}[t[0]]


def snake(s):
    return re.sub(r"(?<=[a-z0-9])([A-Z])", r"_\1", s).lower()


class Alloc:
    """Hands out slices of the symbolic input array `i`."""

    def __init__(self, base=0):
        self.n = base

    def take(self, k):
        r = self.n
        self.n += k
        return r


# ---------------------------------------------------------------- bit copying
def chunks(pos):
    """pos[k] = physical bit p (p//8 byte, msb-first in byte) of value bit k (lsb first)."""
    out = []
    for k, p in enumerate(pos):
        B, s = p // 8, 7 - p % 8
        if out:
            b0, s0, k0, w0 = out[-1]
            if b0 == B and s0 + w0 == s and k0 + w0 == k:
                out[-1] = (b0, s0, k0, w0 + 1)
                continue
        out.append((B, s, k, 1))
    return out


def get_expr(pos, buf, carrier):
    parts = []
    for B, s, k, w in chunks(pos):
        e = f"(({buf}[{B}] >> {s}) & {hex((1 << w) - 1)})"
        parts.append(f"(({e} as {carrier}) << {k})" if carrier != "u8" or k else e)
    return "(" + " | ".join(parts) + ")"


def set_stmts(pos, buf, var):
    out = []
    for B, s, k, w in chunks(pos):
        m = (1 << w) - 1
        out.append(f"{buf}[{B}] = ({buf}[{B}] & {hex(0xff & ~(m << s))}) | (((({var} >> {k}) as u8) & {hex(m)}) << {s});")
    return " ".join(out)


def le_stream(L):
    """stream offset of each value bit (lsb first) for a little endian field of L bits."""
    out = []
    full = L // 8
    for k in range(full * 8):
        out.append(8 * (k // 8) + 7 - k % 8)
    r = L % 8
    for k in range(r):
        out.append(8 * full + r - 1 - k)
    return out


def be_stream(L):
    return [L - 1 - k for k in range(L)]


# ---------------------------------------------------------------- types
@dataclass
class Leaf:
    path: str            # accessor below the value, e.g. ".a[1]" or "" for a tuple match variable
    ty: str              # rust type
    kind: str            # uint int bool char float penum nested
    pos: List[int]       # see `chunks`; for nested: physical position of inner bit i (msb first)
    decl: Any = None
    endian: str = "be"

    @property
    def n(self):
        return len(self.pos)

    @property
    def carrier(self):
        if self.kind == "penum":
            return "u8"
        return CARRIER[W[self.ty]]

    def conv(self, e):
        """value expression -> carrier expression"""
        k = self.kind
        if k in ("uint",):
            return f"({e})"
        if k == "int":
            return f"(({e}) as {self.carrier})"
        if k == "bool":
            return f"(({e}) as u8)"
        if k == "char":
            return f"(({e}) as u32)"
        if k == "float":
            return f"(({e}).to_bits())"
        if k == "penum":
            return f"{self.decl.name}_ref_into(&({e}))"
        raise AssertionError(k)

    def raw(self, buf):
        return get_expr(self.pos, buf, self.carrier)

    def expected(self, buf):
        """carrier expression (nested: value expression) the declaration promises for `buf`."""
        k = self.kind
        if k == "nested":
            return f"<{self.ty} as Bitfields<{self.decl.N}>>::from_bytes({self.inner_bytes(buf)})"
        raw = self.raw(buf)
        if k == "int" and self.n < W[self.ty]:
            d = W[self.ty] - self.n
            return f"(((({raw}) << {d}) as {self.ty} >> {d}) as {self.carrier})"
        if k == "bool":
            return f"((({raw}) != 0) as u8)"
        if k == "char":
            return f"(match char::from_u32({raw}) {{ Some(c) => c as u32, None => 0xFFFD }})"
        if k == "penum":
            return f"{self.decl.name}_ref_into(&{self.decl.name}_ref_from({raw}))"
        return raw

    def inner_bytes(self, buf):
        M = self.decl.N
        rows = []
        for j in range(M):
            pos = [self.pos[8 * j + 7 - k] if 8 * j + 7 - k < self.n else None for k in range(8)]
            parts = []
            run = []
            for k in range(8):
                if pos[k] is not None:
                    run.append((k, pos[k]))
            # coalesce
            i = 0
            while i < len(run):
                k0, p0 = run[i]
                B, s0, w = p0 // 8, 7 - p0 % 8, 1
                while i + w < len(run) and run[i + w][1] // 8 == B and 7 - run[i + w][1] % 8 == s0 + w:
                    w += 1
                parts.append(f"((({buf}[{B}] >> {s0}) & {hex((1 << w) - 1)}) << {k0})")
                i += w
            rows.append(" | ".join(parts) if parts else "0u8")
        return "[" + ", ".join(rows) + "]"

    def set(self, buf, e, tmp):
        """statements writing value expression `e` (truncated) into `buf`."""
        if self.kind == "nested":
            out = [f"let {tmp} = <{self.ty} as Bitfields<{self.decl.N}>>::into_bytes(({e}).clone());"]
            for i in range(self.n):
                p = self.pos[i]
                out.append(f"{buf}[{p//8}] = ({buf}[{p//8}] & {hex(0xff ^ (1 << (7-p%8)))}) | ((({tmp}[{i//8}] >> {7-i%8}) & 1) << {7-p%8});")
            return " ".join(out)
        return f"let {tmp}: {self.carrier} = {self.conv(e)}; " + set_stmts(self.pos, buf, tmp)

    def eq(self, a, buf):
        """boolean expression: value expression `a` equals what `buf` holds"""
        if self.kind == "nested":
            return f"({a}) == {self.expected(buf)}"
        return f"{self.conv(a)} == {self.expected(buf)}"

    def sym(self, al, canon):
        """expression producing an arbitrary value from input `i`; may `return None` through `?`.
        canon: only values representable in the declared width."""
        k = self.kind
        if k == "nested":
            return self.decl.sym(al, canon)
        if k == "penum":
            m = f" & {(1 << self.n) - 1:#x}" if canon and self.n < 8 else ""
            return f"{self.decl.name}_sym(i[{al.take(1)}]{m})?"
        w = W[self.ty] // 8
        o = al.take(w)
        raw = f"{self.carrier}::from_le_bytes([" + ", ".join(f"i[{o+j}]" for j in range(w)) + "])"
        if k == "bool":
            return f"(i[{o}] & 1 != 0)"
        if k == "float":
            return f"{self.ty}::from_bits({raw})"
        if canon and self.n < W[self.ty]:
            if k == "int":
                d = W[self.ty] - self.n
                return f"((({raw}) << {d}) as {self.ty} >> {d})"
            raw = f"(({raw}) & {hex((1 << self.n) - 1)})"
        if k == "char":
            return f"char::from_u32({raw})?"
        if k == "int":
            return f"(({raw}) as {self.ty})"
        return raw


def spell(attrs, style):
    """#[bondrewd(..)] in one list, in reverse order, or one attribute each"""
    if not attrs:
        return ""
    if style % 2:
        attrs = attrs[::-1]
    if style >= 2:
        return " ".join(f"#[bondrewd({a})]" for a in attrs)
    return f"#[bondrewd({', '.join(attrs)})]"


def is_le(e):
    return e in ("le", "lsb", "little", "lil", "ne", "native", None)


@dataclass
class F:
    """One declared field."""
    name: str
    ty: Any                       # rust primitive name or a declaration (nested / primitive enum)
    bits: Optional[int] = None    # declared bit length (None: natural)
    arr: Any = None               # None | ("elem", n, bits|None) | ("block", n, bits)
    endian: Optional[str] = None
    rng: Any = None               # explicit (start, end)
    reserve: bool = False
    read_only: bool = False
    redundant: bool = False
    overlap: Optional[int] = None
    bytes_attr: bool = False      # spell lengths with *_byte_length
    capture: bool = False
    struct_size: Optional[int] = None
    infer: bool = False           # array whose element length follows from its range
    loose: bool = False           # the declaration may contradict itself
    style: int = 0                # how the attributes are spelled
    # computed
    start: int = 0
    end: int = 0

    def tyname(self):
        return self.ty if isinstance(self.ty, str) else self.ty.name

    def rust_ty(self):
        t = self.tyname()
        if self.arr:
            return f"[{t}; {self.arr[1]}]"
        return t

    def natural(self):
        if isinstance(self.ty, str):
            return 1 if self.ty == "bool" else W[self.ty]
        if isinstance(self.ty, PEnum):
            return 8
        return 8 * self.ty.N

    def elem_bits(self):
        """bit lengths of the scalars in order"""
        if not self.arr:
            if self.rng:
                return [self.rng[1] - self.rng[0]]
            return [self.bits if self.bits is not None else self.natural()]
        if self.arr[0] == "elem":
            eb = self.arr[2] if self.arr[2] is not None else self.natural()
            return [eb] * self.arr[1]
        n, tot = self.arr[1], self.arr[2]
        w = W[self.ty] if isinstance(self.ty, str) else 8 * (1 if isinstance(self.ty, PEnum) else self.ty.N)
        first = tot - (n - 1) * w
        if not 0 < first <= w:
            # contradictory: more bits than the elements have, or none left for the first ones
            assert self.loose
            return [min(w, max(0, tot - (n - 1 - k) * w)) for k in range(n)]
        return [first] + [w] * (n - 1)

    def length(self):
        return self.arr[2] if self.loose and self.arr else sum(self.elem_bits())

    def attrs(self):
        a = []
        if not isinstance(self.ty, str):
            if isinstance(self.ty, PEnum):
                a.append('enum_primitive = "u8"')
            elif self.struct_size is not None:
                a.append(f"struct_size = {self.struct_size}")
        def length(stem, v):
            if self.bytes_attr and v % 8 == 0:
                a.append(f"{stem}byte_length = {v // 8}")
            else:
                a.append(f"{stem}bit_length = {v}")
        if self.rng:
            a.append(f'bits = "{self.rng[0]}..{self.rng[1]}"')
            if not self.arr:
                self.bits = None
        if self.arr:
            if self.arr[0] == "elem" and self.arr[2] is not None and not self.infer:
                length("element_", self.arr[2])
            if self.arr[0] == "block":
                length("block_", self.arr[2])
        elif self.bits is not None:
            length("", self.bits)
        if self.endian:
            a.append(f'endianness = "{self.endian}"')
        for k in ("reserve", "read_only", "redundant"):
            if getattr(self, k):
                a.append(k)
        if self.capture:
            a.append("capture_id")
        if self.overlap is not None:
            a.append(f"overlapping_bits = {self.overlap}")
        return spell(a, self.style) + " " if a else ""

    def counted(self):
        if self.redundant:
            return 0
        return self.length() - (self.overlap or 0)

    @property
    def writes(self):
        """into_bytes stores it"""
        return not (self.reserve or self.read_only or self.redundant or self.capture)

    @property
    def reads(self):
        return not self.reserve

    def stream_endian(self, default):
        if isinstance(self.ty, str) and self.ty in ("bool",):
            return "be"
        e = self.endian or default
        return "le" if is_le(e) else "be"

    def leaves(self, phys, default, base=""):
        """phys(stream position) -> physical position"""
        out = []
        p = self.start
        for idx, L in enumerate(self.elem_bits()):
            path = base + (f"[{idx}]" if self.arr else "")
            en = self.stream_endian(default)
            if isinstance(self.ty, str):
                off = le_stream(L) if en == "le" else be_stream(L)
                out.append(Leaf(path, self.ty, kind_of(self.ty), [phys(p + o) for o in off], endian=en))
            elif isinstance(self.ty, PEnum):
                out.append(Leaf(path, self.ty.name, "penum", [phys(p + o) for o in be_stream(L)], self.ty))
            else:
                out.append(Leaf(path, self.ty.name, "nested", [phys(p + o) for o in range(L)], self.ty))
            p += L
        return out

    def sym(self, leaves, al, canon):
        es = [l.sym(al, canon) for l in leaves]
        return "[" + ", ".join(es) + "]" if self.arr else es[0]


def place(fields, start=0):
    """assign stream ranges; returns the bits counted (excluding `start`)"""
    last = start
    tot = 0
    for f in fields:
        if f.capture:
            f.start, f.end = 0, start
            continue
        if f.rng:
            f.start, f.end = f.rng
        else:
            f.start, f.end = last, last + f.length()
        if not f.redundant:
            last = f.end
        tot += f.counted()
    return tot, last


class Struct:
    is_enum = False
    style = 0

    def __init__(self, name, fields, default=None, lsb0=False, reverse=False, fill=None, extra="",
                 derives="Clone, PartialEq, Debug", tag="", tuple=False):
        self.name, self.fields, self.default = name, fields, default
        self.tuple = tuple
        if tuple:
            for n, f in enumerate(fields):
                f.name = str(n)
        self.lsb0, self.reverse, self.fill, self.extra = lsb0, reverse, fill, extra
        self.derives, self.tag = derives, tag
        self.bits, last = place(fields)
        # explicit ranges may leave bits unused
        self.bits = max([self.bits] + [f.end for f in fields])
        if fill:
            self.bits += fill * 8 - max(f.end for f in fields)
        self.N = (self.bits + 7) // 8
        T = self.bits

        def phys(p):
            return (self.N - 1 - p // 8) * 8 + p % 8 if self.reverse else p
        self._phys = phys
        self._leaves = {}
        for f in fields:
            if self.lsb0:
                # mirror the field's whole range, keep the order inside it
                saved = (f.start, f.end)
                f.start, f.end = T - saved[1], T - saved[0]
                ph = (lambda p: (self.N - 1 - p // 8) * 8 + p % 8) if self.reverse else (lambda p: p)
                self._leaves[f.name] = f.leaves(ph, default)
            else:
                self._leaves[f.name] = f.leaves(phys, default)

    def leaves(self, f):
        return self._leaves[f.name]

    def deps(self):
        return [f.ty for f in self.fields if not isinstance(f.ty, str)]

    def attr_line(self):
        a = []
        if self.default:
            a.append(f'default_endianness = "{self.default}"')
        if self.lsb0 or self.style:
            a.append(f'read_from = "{"lsb0" if self.lsb0 else "msb0"}"')
        if self.reverse:
            a.append("reverse")
        if self.fill:
            a.append(f"fill_bytes = {self.fill}")
        if self.extra:
            a.append(self.extra)
        return spell(a, self.style) + "\n" if a else ""

    def fn(self, f):
        return f"field_{f.name}" if self.tuple else f.name

    def rust(self):
        if self.tuple:
            body = ",\n".join(f"    {f.attrs()}pub {f.rust_ty()}" for f in self.fields)
            return f"#[derive(Bitfields, {self.derives})]\n{self.attr_line()}pub struct {self.name}(\n{body}\n);\n"
        body = "\n".join(f"    {f.attrs()}pub {f.name}: {f.rust_ty()}," for f in self.fields)
        return f"#[derive(Bitfields, {self.derives})]\n{self.attr_line()}pub struct {self.name} {{\n{body}\n}}\n"

    def support(self):
        return ""

    def sym(self, al, canon):
        return f"{self.name} {{ " + ", ".join(
            f"{f.name}: {f.sym(self.leaves(f), al, canon)}" for f in self.fields) + " }"

    def bitpos(self, f):
        return [p for l in self.leaves(f) for p in l.pos]


class PEnum:
    """derive(BitfieldEnum): variants = [(name, explicit value or None)]; `invalid` = index of the
    unit variant marked invalid; `catch` = (index, field name or None) of the variant whose single u8
    payload collects unknown values. Without either, the last variant collects unknown values."""
    is_enum = True
    N = 1

    def __init__(self, name, variants, invalid=None, catch=None, attr="", mark_catch=False, tag=""):
        self.name, self.variants, self.invalid, self.catch, self.attr = name, variants, invalid, catch, attr
        self.mark_catch, self.tag = mark_catch, tag
        explicit = {i: v for i, (_, v) in enumerate(variants) if v is not None}
        if invalid is not None and invalid not in explicit:
            explicit[invalid] = invalid
        self.ids = [None] * len(variants)
        used = set(explicit.values())
        assert len(used) == len(explicit)
        g = 0
        for i in range(len(variants)):
            if i in explicit:
                self.ids[i] = explicit[i]
                continue
            while g in used:
                g += 1
            self.ids[i] = g
            g += 1
        self.catchall = invalid if invalid is not None else (None if catch else len(variants) - 1)

    @property
    def prim(self):
        """the number type: u8 when it is named or when a u8 payload catches numbers, else by the count of variants"""
        return "u8" if self.catch or (self.attr.startswith("u8") and self.invalid is None) or len(self.variants) < 256 else "u16"

    @classmethod
    def loose(cls, name, variants, invalid=()):
        """a declaration that may contradict itself; only `prim_self` applies"""
        p = cls.__new__(cls)
        p.name, p.variants, p.catch, p.attr, p.mark_catch, p.tag = name, variants, None, "", False, ""
        p.invalid, p.many = None, invalid
        p.support = lambda: ""
        return p

    def deps(self):
        return []

    def rust(self):
        out = "#[derive(BitfieldEnum, Clone, PartialEq, Debug)]\n"
        if self.attr:
            out += f"#[bondrewd_enum({self.attr})]\n"
        if self.catch and any(v is not None for _, v in self.variants):
            out += "#[repr(u8)]\n"
        out += f"pub enum {self.name} {{\n"
        for i, (n, v) in enumerate(self.variants):
            if i == self.invalid or i in getattr(self, "many", ()) or (self.catch and self.catch[0] == i and self.mark_catch):
                out += "    #[bondrewd_enum(invalid)]\n"
            body = ""
            if self.catch and self.catch[0] == i:
                body = f" {{ {self.catch[1]}: u8 }}" if self.catch[1] else "(u8)"
            out += f"    {n}{body}" + (f" = {v}" if v is not None else "") + ",\n"
        return out + "}\n"

    def con(self, i, e):
        n = self.variants[i][0]
        if self.catch and self.catch[0] == i:
            return f"{self.name}::{n} {{ {self.catch[1]}: {e} }}" if self.catch[1] else f"{self.name}::{n}({e})"
        return f"{self.name}::{n}"

    def known(self):
        return [(i, self.ids[i]) for i in range(len(self.variants)) if not (self.catch and self.catch[0] == i)]

    def support(self):
        n = self.name
        into = "".join(f"{self.con(i, '')} => {v}, " for i, v in self.known())
        frm = "".join(f"{v} => {self.con(i, '')}, " for i, v in self.known() if i != self.catchall)
        if self.catch:
            pat = self.con(self.catch[0], "x")
            if self.catch[1]:
                into += f"{pat} => *x, "
            else:
                into += f"{pat} => *x, "
            last = self.con(self.catch[0], "v")
        else:
            last = self.con(self.catchall, "")
        o = f"pub fn {n}_ref_into(e: &{n}) -> {self.prim} {{ match e {{ {into} }} }}\n"
        o += f"pub fn {n}_ref_from(v: {self.prim}) -> {n} {{ match v {{ {frm} _ => {last} }} }}\n"
        # any value the enum can hold: a variant, or the catch variant with an unknown number
        o += f"pub fn {n}_sym(v: {self.prim}) -> Option<{n}> {{ Some({n}_ref_from(v)) }}\n"
        return o


@dataclass
class V:
    name: str
    fields: List[F] = dfield(default_factory=list)
    vid: Optional[int] = None
    discr: Optional[int] = None
    invalid: bool = False
    tuple: bool = False
    default: Optional[str] = None    # default endianness of this variant
    fill: Optional[int] = None       # fill_bytes of this variant
    style: int = 0
    extra: str = ""                  # further attributes


class Enum:
    is_enum = True
    style = 0

    def __init__(self, name, id_bits, variants, default=None, reverse=False, payload=None, extra="",
                 derives="Clone, PartialEq, Debug", id_bytes_attr=False, total=None, id_explicit=True, tag="", lsb0=False):
        self.name, self.id_bits, self.variants = name, id_bits, variants
        self.default, self.reverse, self.payload, self.extra = default, reverse, payload, extra
        self.derives, self.id_bytes_attr, self.total, self.id_explicit, self.tag = derives, id_bytes_attr, total, id_explicit, tag
        big = 0
        for v in variants:
            if v.tuple:
                for i, f in enumerate(v.fields):
                    f.name = f"{i}"
            tot, _ = place(v.fields, id_bits)
            big = max([big, tot + id_bits, 8 * (v.fill or 0)] + [f.end for f in v.fields])
        self.bits = big
        self.N = (big + 7) // 8
        # ids: explicit first, the others get the lowest unused numbers in declaration order
        used = [x for v in variants for x in (v.vid, v.discr) if x is not None]
        g = 0
        self.ids = []
        for v in variants:
            e = v.vid if v.vid is not None else v.discr
            if e is None:
                while g in used:
                    g += 1
                e = g
                used.append(e)
            self.ids.append(e)
        self.catch = next((i for i, v in enumerate(variants) if v.invalid), len(variants) - 1)
        self.lsb0 = lsb0
        ph = (lambda p: (self.N - 1 - p // 8) * 8 + p % 8) if reverse else (lambda p: p)
        self.phys = ph
        self.idw = next(w for w in (8, 16, 32, 64, 128) if id_bits <= w)
        idt = f"u{self.idw}"
        off = le_stream(id_bits) if is_le(default) else be_stream(id_bits)
        T = big
        self.id_leaf = Leaf("", idt, "uint", [ph(o + (T - id_bits if lsb0 else 0)) for o in off])
        self._l = {}
        for vi, v in enumerate(variants):
            for f in v.fields:
                if f.capture:
                    self._l[vi, f.name] = [Leaf("", idt, "uint", self.id_leaf.pos)]
                else:
                    if lsb0:
                        f.start, f.end = T - f.end, T - f.start
                    self._l[vi, f.name] = f.leaves(ph, v.default or default)

    def leaves(self, vi, f):
        return self._l[vi, f.name]

    def deps(self):
        return [f.ty for v in self.variants for f in v.fields if not isinstance(f.ty, str)]

    def support(self):
        return ""

    def rust(self):
        a = []
        if self.default:
            a.append(f'default_endianness = "{self.default}"')
        if self.id_explicit:
            if self.id_bytes_attr:
                a.append(f"id_byte_length = {self.id_bits // 8}")
            else:
                a.append(f"id_bit_length = {self.id_bits}")
        if self.payload is not None:
            a.append(f"payload_bit_length = {self.payload}")
        if self.total is not None:
            a.append(f"enforce_bits = {self.total}")
        if self.reverse:
            a.append("reverse")
        if self.lsb0:
            a.append('read_from = "lsb0"')
        if self.extra:
            a.append(self.extra)
        repr_ = "#[repr(u64)]\n" if any(v.discr is not None for v in self.variants) and any(v.fields for v in self.variants) else ""
        out = f"#[derive(Bitfields, {self.derives})]\n{repr_}{spell(a, self.style)}\npub enum {self.name} {{\n"
        for v in self.variants:
            at = []
            if v.vid is not None:
                at.append(f"variant_id = {v.vid}")
            if v.invalid:
                at.append("invalid")
            if v.default:
                at.append(f'default_endianness = "{v.default}"')
            if v.fill:
                at.append(f"fill_bytes = {v.fill}")
            if v.extra:
                at.append(v.extra)
            if at:
                out += f"    {spell(at, v.style)}\n"
            d = f" = {v.discr}" if v.discr is not None else ""
            if not v.fields:
                out += f"    {v.name}{d},\n"
            elif v.tuple:
                out += f"    {v.name}(" + ", ".join(f"{f.attrs()}{f.rust_ty()}" for f in v.fields) + f"){d},\n"
            else:
                out += f"    {v.name} {{ " + ", ".join(f"{f.attrs()}{f.name}: {f.rust_ty()}" for f in v.fields) + f" }}{d},\n"
        return out + "}\n"

    def pat(self, vi, pre="x"):
        v = self.variants[vi]
        if not v.fields:
            return f"{self.name}::{v.name}"
        if v.tuple:
            return f"{self.name}::{v.name}(" + ", ".join(f"{pre}{f.name}" for f in v.fields) + ")"
        return f"{self.name}::{v.name} {{ " + ", ".join(f"{f.name}: {pre}{f.name}" for f in v.fields) + " }"

    def fn_name(self, vi, f):
        v = self.variants[vi]
        if v.tuple:
            # the id occupies index 0 of every variant that does not capture it itself
            if f.capture:
                return f"{snake(v.name)}_variant_id"
            capt = any(x.capture for x in v.fields)
            k = int(f.name) + (0 if capt else 1)
            return f"{snake(v.name)}_field_{k}"
        return f"{snake(v.name)}_{f.name}"

    def sym(self, al, canon):
        """an arbitrary value of any variant (captured ids: any number no other variant owns)"""
        sel = al.take(1)
        arms = []
        for vi, v in enumerate(self.variants):
            arms.append(f"{vi} => {self.sym_variant(vi, al, canon)}")
        return f"(match i[{sel}] {{ " + ", ".join(arms) + ", _ => return None })"

    def sym_variant(self, vi, al, canon):
        v = self.variants[vi]
        if not v.fields:
            return f"{self.name}::{v.name}"
        vals = []
        for f in v.fields:
            if f.capture:
                l = self.leaves(vi, f)[0]
                e = l.sym(al, True)
                others = [str(x) for j, x in enumerate(self.ids) if j != vi]
                guard = " | ".join(others) if others else None
                if vi != self.catch:
                    # only the catch-all can hold a number other than its own
                    e = f"{{ let c = {e}; if c != {self.ids[vi]} {{ return None; }} c }}"
                else:
                    e = f"{{ let c = {e}; " + (f"if matches!(c, {guard}) {{ return None; }} " if guard else "") + "c }"
                vals.append((f, e))
            else:
                vals.append((f, f.sym(self.leaves(vi, f), al, canon)))
        if v.tuple:
            return f"{self.name}::{v.name}(" + ", ".join(e for _, e in vals) + ")"
        return f"{self.name}::{v.name} {{ " + ", ".join(f"{f.name}: {e}" for f, e in vals) + " }"
