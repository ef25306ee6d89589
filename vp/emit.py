"""Rust emission: turns declarations into check functions over an arbitrary input array.

Every check is `pub fn NAME(i: &[u8; K]) -> Option<()>`: it builds byte arrays / values out of `i`, runs
the macro-generated code and the reference side by side and panics (`ck!`) where they differ. `None`
means the input does not denote an admissible value. Kani runs it with `i` symbolic; the replay binary
runs the very same function natively with the bytes of a counterexample."""
from model import *


class Check:
    def __init__(self, mod, name, k, what):
        self.mod, self.name, self.k, self.what = mod, name, max(k, 1), what

    @property
    def path(self):
        return f"{self.mod}::{self.name}"


class Case:
    """One declaration under test with its check functions."""

    def __init__(self, decl, ops, tag="", only=None, finding=None, weight=1, pre="", refusable=False):
        self.refusable = refusable  # the derive may refuse this declaration; if it accepts it, the checks apply
        self.decl, self.ops, self.tag = decl, ops, tag or decl.tag
        self.only = only          # restrict field-wise checks to these fields
        self.finding = finding
        self.weight = weight
        self.pre = pre
        self.checks = []
        self.features = None      # None: every optional feature on

    def build(self, mod):
        self.mod = mod
        seen, out = set(), []

        def dep(d):
            if d.name in seen:
                return
            seen.add(d.name)
            for x in d.deps():
                dep(x)
            out.append(d.rust() + d.support())
        dep(self.decl)
        self.decl_src = "".join(out)
        body = []
        self.checks = []
        for op in self.ops:
            fn = OPS[op] if isinstance(op, str) else op
            for name, k, what, code in fn(self):
                nm = f"k{len(self.checks)}_{name}"
                self.checks.append(Check(mod, nm, k, what))
                body.append(f"pub fn {nm}(i: &[u8; {max(k,1)}]) -> Option<()> {{\n{code}\nSome(())\n}}\n")
        self.src = ("use bondrewd::*;\n" + self.pre + self.decl_src + "".join(body))
        return self.src


def buf(al, n):
    o = al.take(n)
    return "[" + ", ".join(f"i[{o+j}]" for j in range(n)) + "]"


def same(a, b, n, msg):
    return "".join(f'ck!({a}[{j}] == {b}[{j}], "{msg}: byte {j}");\n' for j in range(n))






OPS = {}


def op(f):
    OPS[f.__name__[3:]] = f
    return f


def _fields(c):
    return [f for f in c.decl.fields if c.only is None or f.name in c.only]


# ------------------------------------------------------------------ structs
@op
def op_dec(c):
    """from_bytes decodes every field as laid out, for every byte array"""
    d = c.decl
    al = Alloc()
    o = f"let b: [u8; {d.N}] = {buf(al, d.N)};\nlet v = <{d.name} as Bitfields<{d.N}>>::from_bytes(b);\n"
    for f in _fields(c):
        for l in d.leaves(f):
            if f.reserve:
                if l.kind not in ("nested", "penum"):
                    o += f'ck!({l.conv("v." + f.name + l.path)} == 0, "from_bytes: reserved field {f.name} is not its default");\n'
                continue
            e = l.eq(f"v.{f.name}{l.path}", "b")
            o += f'ck!({e}, "from_bytes: field {f.name}{l.path} differs from its declared bits");\n'
    return [("dec", al.n, "from_bytes", o)]


@op
def op_get(c):
    """read_<field> decodes the field as laid out, for every byte array"""
    d = c.decl
    al = Alloc()
    o = f"let b: [u8; {d.N}] = {buf(al, d.N)};\n"
    for f in _fields(c):
        o += f"let r_{f.name} = {d.name}::read_{d.fn(f)}(&b);\n"
        for l in d.leaves(f):
            e = l.eq(f"r_{f.name}{l.path}", "b")
            o += f'ck!({e}, "read_{f.name}{l.path} differs from its declared bits");\n'
    return [("get", al.n, "read_*", o)]


def _value(c, al, canon):
    """bind one symbolic value per field"""
    d = c.decl
    o = ""
    for f in d.fields:
        o += f"let x_{f.name}: {f.rust_ty()} = {f.sym(d.leaves(f), al, canon)};\n"
    o += f"let v = {d.name} {{ " + ", ".join(f"{f.name}: x_{f.name}.clone()" for f in d.fields) + " };\n"
    return o


def _ref_enc(c, var="e"):
    d = c.decl
    o = f"let mut {var} = [0u8; {d.N}];\n"
    n = 0
    for f in d.fields:
        if not f.writes:
            continue
        for l in d.leaves(f):
            o += "{ " + l.set(var, f"x_{f.name}{l.path}", "t") + " }\n"
            n += 1
    return o + _agree(d.fields, d.leaves, lambda f: f"x_{f.name}", var)


def _agree(fields, leaves, name, var):
    """fields that share bits (overlapping_bits) have to agree about them"""
    ws = [f for f in fields if f.writes]
    if not any(f.overlap for f in ws):
        return ""
    return "".join(f'if !({l.eq(name(f) + l.path, var)}) {{ return None; }}\n' for f in ws for l in leaves(f))


@op
def op_enc(c):
    """into_bytes equals the reference encoding of every value (oversized numbers truncated, unused bits 0)"""
    d = c.decl
    al = Alloc()
    o = _value(c, al, False) + _ref_enc(c)
    o += f"let b: [u8; {d.N}] = v.into_bytes();\n" + same("b", "e", d.N, "into_bytes differs from the declared layout")
    return [("enc", al.n, "into_bytes", o)]


@op
def op_enc_canon(c):
    d = c.decl
    al = Alloc()
    o = _value(c, al, True) + _ref_enc(c)
    o += f"let b: [u8; {d.N}] = v.into_bytes();\n" + same("b", "e", d.N, "into_bytes differs from the declared layout")
    return [("enc", al.n, "into_bytes", o)]


@op
def op_rt(c):
    """from_bytes(into_bytes(v)) == v for every representable v"""
    d = c.decl
    al = Alloc()
    o = _value(c, al, True)
    if any(f.overlap and f.writes for f in d.fields):
        o += _ref_enc(c)
    o += f"let b: [u8; {d.N}] = v.into_bytes();\nlet w = <{d.name} as Bitfields<{d.N}>>::from_bytes(b);\n"
    for f in d.fields:
        if not f.writes:
            continue
        for l in d.leaves(f):
            if l.kind == "nested":
                cmp = f"w.{f.name}{l.path} == x_{f.name}{l.path}"
            else:
                cmp = f'{l.conv("w." + f.name + l.path)} == {l.conv("x_" + f.name + l.path)}'
            o += f'ck!({cmp}, "round trip changes field {f.name}{l.path}");\n'
            rd = f"{d.name}::read_{d.fn(f)}(&b){l.path}"
            if l.kind == "nested":
                cmp = f"{rd} == x_{f.name}{l.path}"
            else:
                cmp = f'{l.conv(rd)} == {l.conv("x_" + f.name + l.path)}'
            o += f'ck!({cmp}, "read_{f.name}{l.path} after into_bytes is not the value");\n'
    return [("rt", al.n, "into_bytes/from_bytes", o)]


@op
def op_set(c):
    """write_<field> stores the value in the field's bits and leaves every other bit alone"""
    d = c.decl
    out = []
    for f in _fields(c):
        if f.read_only:
            continue
        al = Alloc()
        o = f"let mut b: [u8; {d.N}] = {buf(al, d.N)};\nlet mut e = b;\n"
        o += f"let x: {f.rust_ty()} = {f.sym(d.leaves(f), al, False)};\n"
        for l in d.leaves(f):
            o += "{ " + l.set("e", f"x{l.path}", "t") + " }\n"
        o += f"{d.name}::write_{d.fn(f)}(&mut b, x.clone());\n"
        o += same("b", "e", d.N, f"write_{f.name} does not store exactly the field's bits")
        out.append((f"set_{f.name}", al.n, f"write_{f.name}", o))
    return out


@op
def op_set_get(c):
    """read after write returns the written value; other bits keep"""
    d = c.decl
    out = []
    for f in _fields(c):
        if f.read_only:
            continue
        al = Alloc()
        o = f"let mut b: [u8; {d.N}] = {buf(al, d.N)};\nlet o = b;\n"
        o += f"let x: {f.rust_ty()} = {f.sym(d.leaves(f), al, True)};\n"
        o += f"{d.name}::write_{d.fn(f)}(&mut b, x.clone());\nlet r = {d.name}::read_{d.fn(f)}(&b);\n"
        own = [0] * d.N
        for l in d.leaves(f):
            if l.kind == "nested":
                o += f'ck!(r{l.path} == x{l.path}, "read_{f.name}{l.path} after write_{f.name}");\n'
            else:
                o += f'ck!({l.conv("r" + l.path)} == {l.conv("x" + l.path)}, "read_{f.name}{l.path} after write_{f.name}");\n'
            for p in l.pos:
                own[p // 8] |= 1 << (7 - p % 8)
        for j in range(d.N):
            m = 0xff & ~own[j]
            if m:
                o += f'ck!(b[{j}] & {m:#x} == o[{j}] & {m:#x}, "write_{f.name} disturbs another field in byte {j}");\n'
        out.append((f"sg_{f.name}", al.n, f"write_{f.name}/read_{f.name}", o))
    return out


@op
def op_apart(c):
    """writing one field never changes what another field reads as, unless one of them is declared to share bits"""
    d = c.decl
    out = []
    for f in d.fields:
        if f.read_only:
            continue
        al = Alloc()
        o = f"let mut b: [u8; {d.N}] = {buf(al, d.N)};\nlet x: {f.rust_ty()} = {f.sym(d.leaves(f), al, True)};\n"
        gs = [g for g in d.fields if g is not f and not (f.redundant or g.redundant or f.overlap or g.overlap)]
        for g in gs:
            o += f"let p_{g.name} = {d.name}::read_{d.fn(g)}(&b);\n"
        o += f"{d.name}::write_{d.fn(f)}(&mut b, x.clone());\n"
        o += f"let r = {d.name}::read_{d.fn(f)}(&b);\n"
        for l in d.leaves(f):
            o += f'ck!({eqv(l, "r" + l.path, "x" + l.path)}, "{f.name} cannot hold a value of its type");\n'
        for g in gs:
            o += f"let q_{g.name} = {d.name}::read_{d.fn(g)}(&b);\n"
            for l in d.leaves(g):
                o += f'ck!({eqv(l, f"p_{g.name}{l.path}", f"q_{g.name}{l.path}")}, "writing {f.name} changes {g.name}");\n'
        out.append((f"apart_{f.name}", al.n, f"write_{f.name}/read_*", o))
    return out


@op
def op_eapart(c):
    """the id and the fields of a variant do not share bits"""
    d = c.decl
    out = []
    for vi, v in enumerate(d.variants):
        fs = [f for f in v.fields if not (f.capture or f.redundant or f.overlap)]
        for f in [None] + fs:
            if f is not None and f.read_only:
                continue
            al = Alloc()
            o = f"let mut b: [u8; {d.N}] = {buf(al, d.N)};\n"
            if f is None:
                fn = "variant_id"
                o += f"let x: u{d.idw} = {d.id_leaf.sym(al, True)};\n"
            else:
                fn = d.fn_name(vi, f)
                o += f"let x: {f.rust_ty()} = {f.sym(d.leaves(vi, f), al, True)};\n"
            others = [(d.fn_name(vi, g), d.leaves(vi, g)) for g in fs if g is not f] + ([("variant_id", [d.id_leaf])] if f is not None else [])
            for k, (gn, ls) in enumerate(others):
                o += f"let p{k} = {d.name}::read_{gn}(&b);\n"
            o += f"{d.name}::write_{fn}(&mut b, x.clone());\nlet r = {d.name}::read_{fn}(&b);\n"
            for l in ([d.id_leaf] if f is None else d.leaves(vi, f)):
                o += f'ck!({eqv(l, "r" + l.path, "x" + l.path)}, "{fn} cannot hold a value of its type");\n'
            for k, (gn, ls) in enumerate(others):
                o += f"let q{k} = {d.name}::read_{gn}(&b);\n"
                for l in ls:
                    o += f'ck!({eqv(l, f"p{k}{l.path}", f"q{k}{l.path}")}, "writing {fn} changes {gn}");\n'
            out.append((f"eapart_{vi}_{fn}", al.n, f"write/read of variant fields and id", o))
    return out


def op_enf(cond, what):
    """a declared size that does not hold"""
    def mk(c):
        d = c.decl
        c_ = cond if isinstance(cond, str) else ("true" if cond else "false")
        return [("enf", d.N, "BIT_SIZE", f"let B = {d.name}::BIT_SIZE;\nck!({c_}, \"{what}\");\n")]
    return mk


@op
def op_prim_self(c):
    """every variant has a number of its own"""
    d = c.decl
    n = d.name
    o = f"let v = <{n} as BitfieldEnum>::from_primitive(i[0]);\nck!(<{n} as BitfieldEnum>::from_primitive(v.clone().into_primitive()) == v, \"from_primitive(into_primitive(v)) != v\");\n"
    for i, (vn, _) in enumerate(d.variants):
        if d.catch and d.catch[0] == i:
            continue
        o += f'ck!(<{n} as BitfieldEnum>::from_primitive({n}::{vn}.into_primitive()) == {n}::{vn}, "{vn} does not survive a round trip");\n'
    return [("prim_self", 1, "from_primitive/into_primitive", o)]


@op
def op_views(c):
    """from_bytes agrees with the read functions, into_bytes with the write functions, and decoding is stable"""
    d = c.decl
    al = Alloc()
    o = f"let b: [u8; {d.N}] = {buf(al, d.N)};\nlet v = <{d.name} as Bitfields<{d.N}>>::from_bytes(b);\n"

    def cmp(l, a, b):
        return f"{a} == {b}" if l.kind == "nested" else f"{l.conv(a)} == {l.conv(b)}"
    for f in d.fields:
        if f.reserve:
            continue
        o += f"let r_{f.name} = {d.name}::read_{d.fn(f)}(&b);\n"
        for l in d.leaves(f):
            o += f'ck!({cmp(l, "v." + f.name + l.path, "r_" + f.name + l.path)}, "from_bytes and read_{f.name}{l.path} disagree");\n'
    if any(f.overlap and f.writes for f in d.fields):
        # an invalid char is not written back as it was: what shares its bits may disagree with it
        o += "".join(f"let x_{f.name} = v.{f.name}.clone();\n" for f in d.fields) + _ref_enc(c)
    o += "let w = v.clone();\n"
    o += f"let c: [u8; {d.N}] = w.into_bytes();\nlet u = <{d.name} as Bitfields<{d.N}>>::from_bytes(c);\n"
    for f in d.fields:
        if not f.writes:
            continue
        for l in d.leaves(f):
            o += f'ck!({cmp(l, "v." + f.name + l.path, "u." + f.name + l.path)}, "decode-encode-decode changes {f.name}{l.path}");\n'
    o += f"let mut z = [0u8; {d.N}];\n"
    for f in d.fields:
        if f.writes:
            o += f"{d.name}::write_{d.fn(f)}(&mut z, v.{f.name}.clone());\n"
    o += same("c", "z", d.N, "into_bytes and the write functions disagree")
    return [("views", al.n, "from_bytes/into_bytes vs read/write", o)]


def _spare(d):
    """per byte, the mask of the bits after the last declared bit"""
    ph = d.phys if d.is_enum else d._phys
    m = [0] * d.N
    for p in range(d.bits, 8 * d.N):
        q = ph(p)
        m[q // 8] |= 1 << (7 - q % 8)
    return m


def _const(c, vals, tag):
    d = c.decl
    B = f"<{d.name} as Bitfields<{d.N}>>"
    m = _spare(d)
    out = []
    al = Alloc()
    o = f'ck!({B}::BIT_SIZE == {d.bits}, "BIT_SIZE");\nck!({B}::BYTE_SIZE == {d.N}, "BYTE_SIZE");\n'
    o += f"let b: [u8; {d.N}] = {buf(al, d.N)};\nlet mut a = b;\n"
    for j, x in enumerate(m):
        if x:
            o += f"a[{j}] ^= i[{al.take(1)}] & {x:#x};\n"
    o += f"let v = {B}::from_bytes(b);\nlet w = {B}::from_bytes(a);\n"
    o += _value_eq(c, "v", "w", "bits after the last declared bit change what is decoded") if any(m) else ""
    out.append((tag, al.n, "BIT_SIZE, BYTE_SIZE, from_bytes", o))
    for name, mk in vals:
        al = Alloc()
        o = mk(al) + f"let b: [u8; {d.N}] = v.into_bytes();\nck!(b.len() == {B}::BYTE_SIZE, \"into_bytes length\");\n"
        for j, x in enumerate(m):
            if x:
                o += f'ck!(b[{j}] & {x:#x} == 0, "into_bytes sets a bit after the last declared bit");\n'
        out.append((f"{tag}_{name}", al.n, "BYTE_SIZE, into_bytes", o))
    return out


@op
def op_const(c):
    """the size constants, and that nothing outside the declared bits is read or set"""
    return _const(c, [("enc", lambda al: _value(c, al, False))], "const")


@op
def op_econst(c):
    d = c.decl
    return _const(c, [(snake(v.name), lambda al, vi=vi: _evalue(d, vi, al, False)) for vi, v in enumerate(d.variants)], "econst")


@op
def op_total(c):
    """nothing panics, whatever the bytes, the value and the slice length"""
    d = c.decl
    B = f"<{d.name} as Bitfields<{d.N}>>"
    al = Alloc()
    o = _slice_head(al, d.N) + f"let mut a = [0u8; {d.N}];\nfor j in 0..{d.N} {{ a[j] = b[j]; }}\n"
    o += f"let v = {B}::from_bytes(a);\nlet _ = v.clone().into_bytes();\nlet _ = <{d.name} as BitfieldsDyn<{d.N}>>::from_slice(&b[..n]);\nlet k = {d.name}::check_slice(&b[..n]);\n"
    fns = []
    if d.is_enum:
        o += f"let _ = v.id();\nlet _ = {d.name}::read_variant_id(&a);\nlet _ = {d.name}::read_slice_variant_id(&b[..n]);\n"
        for vi, v in enumerate(d.variants):
            fns += [(d.fn_name(vi, f), f, d.leaves(vi, f)) for f in v.fields]
    else:
        fns = [(d.fn(f), f, d.leaves(f)) for f in d.fields]
    for fn, f, ls in fns:
        o += f"let _ = {d.name}::read_{fn}(&a);\nlet _ = {d.name}::read_slice_{fn}(&b[..n]);\nif let Ok(q) = &k {{ let _ = q.read_{fn}(); }}\n"
    out = [("total", al.n, "from_bytes, from_slice, read_*, read_slice_*, check_slice", o)]
    if d.is_enum:
        vals = [(snake(v.name), lambda al, vi=vi: _evalue(d, vi, al, False)) for vi, v in enumerate(d.variants)]
    else:
        vals = [("v", lambda al: _value(c, al, False))]
    for nm, mk in vals:
        al = Alloc()
        out.append((f"total_enc_{nm}", al.n, "into_bytes", mk(al) + "let _ = v.into_bytes();\n"))
        out[-1] = (out[-1][0], al.n, out[-1][2], out[-1][3])
    for fn, f, ls in fns:
        if f.read_only or f.capture:
            continue
        al = Alloc()
        o = _slice_head(al, d.N) + f"let mut a = [0u8; {d.N}];\nlet x: {f.rust_ty()} = {f.sym(ls, al, False)};\n"
        o += f"{d.name}::write_{fn}(&mut a, x.clone());\nlet _ = {d.name}::write_slice_{fn}(&mut b[..n], x.clone());\n"
        o += f"if let Ok(mut q) = {d.name}::check_slice_mut(&mut b[..n]) {{ q.write_{fn}(x.clone()); }}\n"
        out.append((f"total_{fn}", al.n, "write_*, write_slice_*, check_slice_mut", o))
    return out


# ------------------------------------------------------------------ slices (feature dyn_fns)
def need(leaves):
    """bytes a field needs: everything up to its last byte"""
    return max(p // 8 for l in leaves for p in l.pos) + 1


def eqv(l, a, b):
    return f"{a} == {b}" if l.kind == "nested" else f"{l.conv(a)} == {l.conv(b)}"


def _slice_head(al, n, extra=2):
    """`b`: the bytes, `n`: an arbitrary length up to BYTE_SIZE + extra"""
    m = n + extra
    o = f"let mut b: [u8; {m}] = {buf(al, m)};\n"
    k = al.take(1)
    return o + f"let n = i[{k}] as usize;\nif n > {m} {{ return None; }}\n"


@op
def op_sl_get(c):
    """read_slice_<field>: Ok exactly when the field's bytes are there, then the same value as the array form"""
    d = c.decl
    al = Alloc()
    o = _slice_head(al, d.N)
    o += f"let mut a = [0u8; {d.N}];\nfor j in 0..{d.N} {{ if j < n {{ a[j] = b[j]; }} }}\n"
    for f in _fields(c):
        nd = need(d.leaves(f))
        o += f"match {d.name}::read_slice_{d.fn(f)}(&b[..n]) {{\nOk(v) => {{ ck!(n >= {nd}, \"read_slice_{f.name} accepts a slice that is too short\");\n"
        for l in d.leaves(f):
            o += f'ck!({l.eq("v" + l.path, "a")}, "read_slice_{f.name}{l.path} differs from the array form");\n'
        o += f'}}\nErr(e) => {{ ck!(n < {nd}, "read_slice_{f.name} refuses a slice that holds the field"); ck!(e.0 == n && e.1 == {nd}, "read_slice_{f.name}: error lengths"); }} }}\n'
    return [("sl_get", al.n, "read_slice_*", o)]


@op
def op_sl_set(c):
    """write_slice_<field>: Ok exactly when the field's bytes are there; stores exactly the field's bits; an error changes nothing"""
    d = c.decl
    out = []
    for f in _fields(c):
        if f.read_only:
            continue
        al = Alloc()
        m = d.N + 2
        nd = need(d.leaves(f))
        o = _slice_head(al, d.N) + "let mut e = b;\n"
        o += f"let x: {f.rust_ty()} = {f.sym(d.leaves(f), al, False)};\n"
        o += f"match {d.name}::write_slice_{d.fn(f)}(&mut b[..n], x.clone()) {{\nOk(()) => {{ ck!(n >= {nd}, \"write_slice_{f.name} accepts a slice that is too short\");\n"
        for l in d.leaves(f):
            o += "{ " + l.set("e", f"x{l.path}", "t") + " }\n"
        o += f'}}\nErr(r) => {{ ck!(n < {nd}, "write_slice_{f.name} refuses a slice that holds the field"); ck!(r.0 == n && r.1 == {nd}, "write_slice_{f.name}: error lengths"); }} }}\n'
        o += same("b", "e", m, f"write_slice_{f.name} does not store exactly the field's bits")
        out.append((f"sls_{f.name}", al.n, f"write_slice_{f.name}", o))
    return out


def _len_ops(c, items):
    """slice functions: Ok exactly when the field's bytes are there, the error carries both lengths, an error or a success
    never touches a byte past the field, and check_slice / from_slice need BYTE_SIZE"""
    d = c.decl
    m = d.N + 2
    al = Alloc()
    o = _slice_head(al, d.N)
    for fn, ls, x, wr in items:
        nd = need(ls)
        o += f"match {d.name}::read_slice_{fn}(&b[..n]) {{\nOk(_) => ck!(n >= {nd}, \"read_slice_{fn} accepts a slice that is too short\"),\n"
        o += f'Err(e) => {{ ck!(n < {nd}, "read_slice_{fn} refuses a slice that holds the field"); ck!(e.0 == n && e.1 == {nd}, "read_slice_{fn}: error lengths"); }} }}\n'
    for fn, extra in ((f"{d.name}::check_slice(&b[..n])", "check_slice"), (f"<{d.name} as BitfieldsDyn<{d.N}>>::from_slice(&b[..n])", "from_slice"), (f"{d.name}::check_slice_mut(&mut b[..n])", "check_slice_mut")):
        o += f'match {fn} {{\nOk(_) => ck!(n >= {d.N}, "{extra} accepts a slice that is too short"),\nErr(e) => {{ ck!(n < {d.N}, "{extra} refuses a slice that is long enough"); ck!(e.0 == n && e.1 == {d.N}, "{extra}: error lengths"); }} }}\n'
    out = [("len_get", al.n, "read_slice_*, check_slice, check_slice_mut, from_slice", o)]
    for fn, ls, sym, wr in items:
        if not wr:
            continue
        al = Alloc()
        nd = need(ls)
        o = _slice_head(al, d.N) + "let e = b;\n" + sym(al)
        o += f"let r = {d.name}::write_slice_{fn}(&mut b[..n], x);\nlet mut from = 0usize;\n"
        o += f"match r {{\nOk(_) => {{ ck!(n >= {nd}, \"write_slice_{fn} accepts a slice that is too short\"); from = {nd}; }}\n"
        o += f'Err(e) => {{ ck!(n < {nd}, "write_slice_{fn} refuses a slice that holds the field"); ck!(e.0 == n && e.1 == {nd}, "write_slice_{fn}: error lengths"); }} }}\n'
        for j in range(m):
            o += f'ck!({j} < from || b[{j}] == e[{j}], "write_slice_{fn} touches a byte outside the field");\n'
        out.append((f"len_set_{fn}", al.n, "write_slice_*", o))
    return out


@op
def op_sl_len(c):
    d = c.decl
    return _len_ops(c, [(d.fn(f), d.leaves(f), lambda al, f=f: f"let x: {f.rust_ty()} = {f.sym(d.leaves(f), al, False)};\n", not f.read_only) for f in d.fields])


@op
def op_esl_len(c):
    d = c.decl
    items = [("variant_id", [d.id_leaf], None, False)]
    for vi, v in enumerate(d.variants):
        for f in v.fields:
            items.append((d.fn_name(vi, f), d.leaves(vi, f), lambda al, vi=vi, f=f: f"let x: {f.rust_ty()} = {f.sym(d.leaves(vi, f), al, False)};\n",
                          not (f.capture or f.read_only)))
    return _len_ops(c, items)


@op
def op_checked(c):
    """check_slice: Ok exactly for slices of BYTE_SIZE or more; the view's reads match the array form"""
    d = c.decl
    al = Alloc()
    o = _slice_head(al, d.N)
    o += f"match {d.name}::check_slice(&b[..n]) {{\nOk(v) => {{ ck!(n >= {d.N}, \"check_slice accepts a slice that is too short\");\n"
    for f in _fields(c):
        o += f"let r_{f.name} = v.read_{d.fn(f)}();\n"
        for l in d.leaves(f):
            o += f'ck!({l.eq("r_" + f.name + l.path, "b")}, "checked read_{f.name}{l.path} differs from the array form");\n'
    o += f'}}\nErr(e) => {{ ck!(n < {d.N}, "check_slice refuses a slice that is long enough"); ck!(e.0 == n && e.1 == {d.N}, "check_slice: error lengths"); }} }}\n'
    return [("checked", al.n, "check_slice, Checked::read_*", o)]


@op
def op_checked_mut(c):
    d = c.decl
    out = []
    for f in _fields(c):
        if f.read_only:
            continue
        al = Alloc()
        m = d.N + 2
        o = _slice_head(al, d.N) + "let mut e = b;\n"
        o += f"let x: {f.rust_ty()} = {f.sym(d.leaves(f), al, False)};\n"
        o += f"match {d.name}::check_slice_mut(&mut b[..n]) {{\nOk(mut v) => {{ ck!(n >= {d.N}, \"check_slice_mut accepts a slice that is too short\");\n"
        o += f"v.write_{d.fn(f)}(x.clone());\nlet r = v.read_{d.fn(f)}();\n"
        for l in d.leaves(f):
            o += "{ " + l.set("e", f"x{l.path}", "t") + " }\n"
        for l in d.leaves(f):
            o += f'ck!({l.eq("r" + l.path, "e")}, "CheckedMut::read_{d.fn(f)}{l.path} after write");\n'
        o += f'}}\nErr(r) => {{ ck!(n < {d.N}, "check_slice_mut refuses a slice that is long enough"); ck!(r.0 == n && r.1 == {d.N}, "check_slice_mut: error lengths"); }} }}\n'
        o += same("b", "e", m, f"CheckedMut::write_{d.fn(f)} does not store exactly the field's bits")
        out.append((f"cm_{f.name}", al.n, f"check_slice_mut, CheckedMut::write_{d.fn(f)}", o))
    return out


@op
def op_unchecked(c):
    """from_unchecked_slice over a slice of any length: every field whose bytes are there reads and writes as in the array"""
    d = c.decl
    if d.is_enum:
        items = [(d.fn_name(vi, f), f, d.leaves(vi, f)) for vi, v in enumerate(d.variants) for f in v.fields]
    else:
        items = [(d.fn(f), f, d.leaves(f)) for f in d.fields]
    al = Alloc()
    o = _slice_head(al, d.N) + f"let v = {d.name}Checked::from_unchecked_slice(&b[..n]);\n"
    for fn, f, ls in items:
        o += f"if n >= {need(ls)} {{ let r = v.read_{fn}();\n"
        for l in ls:
            o += f'ck!({l.eq("r" + l.path, "b")}, "unchecked read_{fn}{l.path} differs from the array form");\n'
        o += "}\n"
    out = [("un_get", al.n, "from_unchecked_slice, Checked::read_*", o)]
    for fn, f, ls in items:
        if f.capture or f.read_only:
            continue
        al = Alloc()
        o = _slice_head(al, d.N) + f"if n < {need(ls)} {{ return None; }}\nlet mut e = b;\nlet x: {f.rust_ty()} = {f.sym(ls, al, False)};\n"
        for l in ls:
            o += "{ " + l.set("e", f"x{l.path}", "t") + " }\n"
        o += f"let mut v = {d.name}CheckedMut::from_unchecked_slice(&mut b[..n]);\nv.write_{fn}(x.clone());\nlet r = v.read_{fn}();\n"
        for l in ls:
            o += f'ck!({l.eq("r" + l.path, "e")}, "unchecked read_{fn}{l.path} after write");\n'
        o += same("b", "e", d.N + 2, f"unchecked write_{fn} does not store exactly the field's bits")
        out.append((f"un_{fn}", al.n, "from_unchecked_slice, CheckedMut::write_*", o))
    return out


@op
def op_from_slice(c):
    """from_slice/from_vec decode the first BYTE_SIZE bytes like from_bytes, refuse shorter input; from_vec removes them"""
    d = c.decl
    al = Alloc()
    o = _slice_head(al, d.N)
    T = f"<{d.name} as BitfieldsDyn<{d.N}>>"
    o += f"let mut a = [0u8; {d.N}];\nfor j in 0..{d.N} {{ a[j] = b[j]; }}\n"
    o += f"match {T}::from_slice(&b[..n]) {{\nOk(v) => {{ ck!(n >= {d.N}, \"from_slice accepts a slice that is too short\");\n"
    o += f"let w = <{d.name} as Bitfields<{d.N}>>::from_bytes(a);\n" + _value_eq(c, "v", "w", "from_slice differs from from_bytes")
    o += f'}}\nErr(e) => {{ ck!(n < {d.N}, "from_slice refuses a slice that is long enough"); ck!(e.0 == n && e.1 == {d.N}, "from_slice: error lengths"); }} }}\n'
    out = [("from_slice", al.n, "from_slice", o)]
    for n in sorted({0, max(d.N - 1, 0), d.N, d.N + 2}):
        al = Alloc()
        o = f"let b: [u8; {d.N + 2}] = {buf(al, d.N + 2)};\n"
        o += f"let mut q: Vec<u8> = vec![" + ", ".join(f"b[{j}]" for j in range(n)) + "];\n"
        o += f"let mut a = [0u8; {d.N}];\nfor j in 0..{d.N} {{ a[j] = b[j]; }}\n"
        o += f"match {T}::from_vec(&mut q) {{\nOk(v) => {{ ck!({n} >= {d.N}, \"from_vec accepts a vector that is too short\");\n"
        o += f"let w = <{d.name} as Bitfields<{d.N}>>::from_bytes(a);\n" + _value_eq(c, "v", "w", "from_vec differs from from_bytes")
        o += f'ck!(q.len() == {max(n - d.N, 0)}, "from_vec does not remove exactly the bytes used");\n'
        for j in range(max(n - d.N, 0)):
            o += f'ck!(q[{j}] == b[{d.N + j}], "from_vec keeps the wrong bytes");\n'
        o += f'}}\nErr(e) => {{ ck!({n} < {d.N}, "from_vec refuses a vector that is long enough"); ck!(e.0 == {n} && e.1 == {d.N}, "from_vec: error lengths");\n'
        o += f'ck!(q.len() == {n}, "a refused from_vec changes the vector"); }} }}\n'
        out.append((f"from_vec_{n}", al.n, "from_vec", o))
    return out


def _value_eq(c, a, b, msg):
    d = c.decl
    if isinstance(d, Enum):
        o = ""
        for vi, v in enumerate(d.variants):
            body = ""
            for f in v.fields:
                for l in d.leaves(vi, f):
                    body += f'ck!({eqv(l, "(*x" + f.name + ")" + l.path, "(*y" + f.name + ")" + l.path)}, "{msg}: {v.name}.{f.name}");\n'
            o += f"({d.pat(vi, 'x')}, {d.pat(vi, 'y')}) => {{ {body} }}\n"
        tail = "" if len(d.variants) == 1 else f'_ => panic!("{msg}: other variant"),\n'
        return f"match (&{a}, &{b}) {{ {o}{tail} }}\n"
    o = ""
    for f in d.fields:
        for l in d.leaves(f):
            o += f'ck!({eqv(l, f"{a}.{f.name}{l.path}", f"{b}.{f.name}{l.path}")}, "{msg}: {f.name}{l.path}");\n'
    return o


# ------------------------------------------------------------------ hex (feature hex_fns)
@op
def op_hex(c):
    """hex text is two digits per byte of into_bytes; from_hex inverts it in either case and names the first bad character"""
    d = c.decl
    H = 2 * d.N
    T = f"<{d.name} as BitfieldHex<{H}, {d.N}>>"
    out = []
    al = Alloc()
    mk = f"let v = {d.sym(al, True)};\n"
    for low in (False, True):
        fn = "into_hex_lower" if low else "into_hex_upper"
        o = mk + f"let h: [u8; {H}] = {T}::{fn}(v.clone());\nlet b: [u8; {d.N}] = v.into_bytes();\n"
        base = "b'a'" if low else "b'A'"
        for j in range(d.N):
            for k, e in ((2 * j, f"b[{j}] >> 4"), (2 * j + 1, f"b[{j}] & 15")):
                o += f'{{ let q = {e}; ck!(h[{k}] == if q < 10 {{ b\'0\' + q }} else {{ {base} + (q - 10) }}, "{fn}: digit {k}"); }}\n'
        out.append((fn, al.n, fn, o))
    al = Alloc()
    o = f"let h: [u8; {H}] = {buf(al, H)};\n"
    o += f"let mut bad: Option<usize> = None;\nlet mut b = [0u8; {d.N}];\n"
    for k in range(H):
        o += (f"let q = h[{k}]; let g = if q >= b'0' && q <= b'9' {{ q - b'0' }} else if q >= b'a' && q <= b'f' {{ q - b'a' + 10 }} "
              f"else if q >= b'A' && q <= b'F' {{ q - b'A' + 10 }} else {{ if bad.is_none() {{ bad = Some({k}); }} 0 }}; "
              f"b[{k // 2}] |= g << {4 if k % 2 == 0 else 0};\n")

    def verdict(call, errpat):
        r = f"match {call} {{\nOk(v) => {{ ck!(bad.is_none(), \"from_hex accepts a character that is no hex digit\");\n"
        r += f"let w = <{d.name} as Bitfields<{d.N}>>::from_bytes(b);\n" + _value_eq(c, "v", "w", "from_hex differs from from_bytes of the digits") + "}\n"
        r += f"Err({errpat}) => {{ ck!(bad.is_some(), \"from_hex refuses hex digits\"); let p = bad.unwrap(); ck!(e.1 == p, \"from_hex: index of the bad character\"); ck!(e.0 == h[p] as char, \"from_hex: bad character\"); }}\n"
        if errpat != "e":
            r += 'Err(_) => panic!("from_hex: length error for a full slice"),\n'
        return r + "}\n"
    out.append(("from_hex", al.n, "from_hex", o + verdict(f"{T}::from_hex(h)", "e")))
    if c.features and "dyn_fns" not in c.features:
        return out
    TD = f"<{d.name} as BitfieldHexDyn<{H}, {d.N}>>"
    out.append(("from_hex_slice", al.n, "from_hex_slice", o + verdict(f"{TD}::from_hex_slice(&h)", "BitfieldHexDynError::Hex(e)")))
    al2 = Alloc()
    o = f"let h: [u8; {H + 1}] = {buf(al2, H + 1)};\nlet n = i[{al2.take(1)}] as usize;\nif n > {H + 1} {{ return None; }}\n"
    o += f"match {TD}::from_hex_slice(&h[..n]) {{\nErr(BitfieldHexDynError::Length(e)) => {{ ck!(n < {H}, \"from_hex_slice: length error for a full slice\"); ck!(e.0 == n && e.1 == {H}, \"from_hex_slice: error lengths\"); }}\n"
    o += f"_ => {{ ck!(n >= {H}, \"from_hex_slice accepts a slice that is too short\"); }} }}\n"
    out.append(("from_hex_len", al2.n, "from_hex_slice length", o))
    for n in sorted({0, H - 1, H, H + 2}):
        al3 = Alloc()
        o3 = f"let h: [u8; {H + 2}] = {buf(al3, H + 2)};\n"
        o3 += f"let mut q: Vec<u8> = vec![" + ", ".join(f"h[{j}]" for j in range(n)) + "];\n"
        o3 += f"let r = {TD}::from_hex_vec(&mut q);\n"
        if n < H:
            o3 += f'match r {{ Err(BitfieldHexDynError::Length(e)) => {{ ck!(e.0 == {n} && e.1 == {H}, "from_hex_vec: error lengths"); }} _ => panic!("from_hex_vec accepts a vector that is too short") }}\n'
        else:
            o3 += f"let s = {TD}::from_hex_slice(&h);\nmatch (r, s) {{ (Ok(v), Ok(w)) => {{ " + _value_eq(c, "v", "w", "from_hex_vec differs from from_hex_slice") + \
                " }\n(Err(BitfieldHexDynError::Hex(x)), Err(BitfieldHexDynError::Hex(y))) => { ck!(x.0 == y.0 && x.1 == y.1, \"from_hex_vec: error\"); }\n_ => panic!(\"from_hex_vec and from_hex_slice disagree\"), }\n"
        out.append((f"from_hex_vec_{n}", al3.n, "from_hex_vec", o3))
    return out


# ------------------------------------------------------------------ data carrying enums
def _id_of(d):
    return f"let id: u{d.idw} = {d.id_leaf.expected('b')};\n"


def _vpat(d, vi):
    """ids that decode to variant vi, as a match arm pattern; the catch-all comes last"""
    return str(d.ids[vi])


def _order(d):
    return [vi for vi in range(len(d.variants)) if vi != d.catch] + [d.catch]


@op
def op_edec(c):
    """from_bytes picks the variant by id (unknown ids: the catch-all) and decodes its payload, for every byte array"""
    d = c.decl
    al = Alloc()
    o = f"let b: [u8; {d.N}] = {buf(al, d.N)};\n" + _id_of(d)
    o += f"let v = <{d.name} as Bitfields<{d.N}>>::from_bytes(b);\nmatch id {{\n"
    for vi in _order(d):
        v = d.variants[vi]
        body = ""
        for f in v.fields:
            for l in d.leaves(vi, f):
                if f.reserve:
                    if l.kind not in ("nested", "penum"):
                        body += f'ck!({l.conv("(*x" + f.name + ")" + l.path)} == 0, "from_bytes: reserved field {v.name}.{f.name} is not its default");\n'
                    continue
                body += f'ck!({l.eq("(*x" + f.name + ")" + l.path, "b")}, "from_bytes: field {v.name}.{f.name}{l.path} differs from its declared bits");\n'
        other = "" if len(d.variants) == 1 else f'_ => panic!("from_bytes: an id of {v.name} decodes to another variant"), '
        o += f"{'_' if vi == d.catch else d.ids[vi]} => match &v {{ {d.pat(vi, 'x')} => {{ {body} }} {other} }},\n"
    o += "}\n"
    return [("edec", al.n, "from_bytes", o)]


@op
def op_eget(c):
    """read_variant_id and read_<variant>_<field> return the declared bits of any byte array"""
    d = c.decl
    al = Alloc()
    o = f"let b: [u8; {d.N}] = {buf(al, d.N)};\n" + _id_of(d)
    o += f'ck!({d.name}::read_variant_id(&b) == id, "read_variant_id differs from the declared bits");\n'
    for vi, v in enumerate(d.variants):
        for f in v.fields:
            fn = f"read_{d.fn_name(vi, f)}"
            if f.reserve and False:
                continue
            o += f"let r = {d.name}::{fn}(&b);\n"
            for l in d.leaves(vi, f):
                o += f'ck!({l.eq("r" + l.path, "b")}, "{fn}{l.path} differs from its declared bits");\n'
    return [("eget", al.n, "read_variant_id, read_<variant>_<field>", o)]


def _evalue(d, vi, al, canon):
    v = d.variants[vi]
    o = ""
    for f in v.fields:
        if f.capture:
            l = d.leaves(vi, f)[0]
            o += f"let x{f.name}: {l.ty} = {l.sym(al, True)};\n"
            others = [str(x) for j, x in enumerate(d.ids) if j != vi]
            if vi != d.catch:
                # only the catch-all can hold a number other than its own
                o += f"if x{f.name} != {d.ids[vi]} {{ return None; }}\n"
            elif others:
                o += f"if matches!(x{f.name}, {' | '.join(others)}) {{ return None; }}\n"
        else:
            o += f"let x{f.name}: {f.rust_ty()} = {f.sym(d.leaves(vi, f), al, canon)};\n"
    if not v.fields:
        con = f"{d.name}::{v.name}"
    elif v.tuple:
        con = f"{d.name}::{v.name}(" + ", ".join(f"x{f.name}.clone()" for f in v.fields) + ")"
    else:
        con = f"{d.name}::{v.name} {{ " + ", ".join(f"{f.name}: x{f.name}.clone()" for f in v.fields) + " }"
    return o + f"let v = {con};\n"


def _eid(d, vi):
    v = d.variants[vi]
    capt = [f for f in v.fields if f.capture]
    return f"x{capt[0].name}" if capt else str(d.ids[vi])


def _eref_enc(d, vi):
    v = d.variants[vi]
    o = f"let mut e = [0u8; {d.N}];\n{{ " + d.id_leaf.set("e", f"({_eid(d, vi)})", "t") + " }\n"
    for f in v.fields:
        if f.writes:
            for l in d.leaves(vi, f):
                o += "{ " + l.set("e", f"x{f.name}{l.path}", "t") + " }\n"
    return o + _agree(v.fields, lambda f: d.leaves(vi, f), lambda f: f"x{f.name}", "e")


@op
def op_eenc(c):
    """into_bytes stores the variant's id and payload as laid out and zeros everywhere else, for every value"""
    d = c.decl
    out = []
    for vi, v in enumerate(d.variants):
        al = Alloc()
        o = _evalue(d, vi, al, False) + _eref_enc(d, vi)
        o += f"let b: [u8; {d.N}] = v.into_bytes();\n" + same("b", "e", d.N, f"into_bytes of {v.name} differs from the declared layout")
        out.append((f"eenc_{snake(v.name)}", al.n, f"into_bytes of a variant", o))
    return out


@op
def op_ert(c):
    """from_bytes(into_bytes(v)) == v for every representable value of every variant"""
    d = c.decl
    out = []
    for vi, v in enumerate(d.variants):
        al = Alloc()
        o = _evalue(d, vi, al, True)
        if any(f.overlap and f.writes for f in v.fields):
            o += _eref_enc(d, vi)
        o += f"let b: [u8; {d.N}] = v.into_bytes();\nlet w = <{d.name} as Bitfields<{d.N}>>::from_bytes(b);\n"
        o += f"let id: u{d.idw} = {_eid(d, vi)};\n"
        o += f'ck!({d.name}::read_variant_id(&b) == id, "read_variant_id after into_bytes of {v.name}");\n'
        o += f'ck!(w.id() == id, "id() after the round trip of {v.name}");\n'
        body = ""
        for f in v.fields:
            if not (f.writes or f.capture):
                continue
            for l in d.leaves(vi, f):
                body += f'ck!({eqv(l, "(*y" + f.name + ")" + l.path, "x" + f.name + l.path)}, "round trip changes {v.name}.{f.name}{l.path}");\n'
        other = "" if len(d.variants) == 1 else f'_ => panic!("round trip turns {v.name} into another variant"), '
        o += f"match &w {{ {d.pat(vi, 'y')} => {{ {body} }} {other} }}\n"
        out.append((f"ert_{snake(v.name)}", al.n, "into_bytes/from_bytes of a variant", o))
    return out


@op
def op_eid(c):
    """id() is the declared or lowest unused id of the variant (captured ids: the captured number)"""
    d = c.decl
    al = Alloc()
    o = ""
    out = []
    for vi, v in enumerate(d.variants):
        al = Alloc()
        o = _evalue(d, vi, al, True)
        o += f'ck!(v.id() == {_eid(d, vi)}, "id() of {v.name}");\n'
        out.append((f"eid_{snake(v.name)}", al.n, "id()", o))
    return out


@op
def op_eset(c):
    """write_variant_id / write_<variant>_<field> store exactly their bits"""
    d = c.decl
    al = Alloc()
    o = f"let mut b: [u8; {d.N}] = {buf(al, d.N)};\nlet mut e = b;\nlet x: u{d.idw} = {d.id_leaf.sym(al, False)};\n"
    o += "{ " + d.id_leaf.set("e", "x", "t") + f" }}\n{d.name}::write_variant_id(&mut b, x);\n"
    o += same("b", "e", d.N, "write_variant_id does not store exactly the id bits")
    out = [("eset_id", al.n, "write_variant_id", o)]
    for vi, v in enumerate(d.variants):
        for f in v.fields:
            if f.capture or f.read_only:
                continue
            fn = f"write_{d.fn_name(vi, f)}"
            al = Alloc()
            o = f"let mut b: [u8; {d.N}] = {buf(al, d.N)};\nlet mut e = b;\n"
            o += f"let x: {f.rust_ty()} = {f.sym(d.leaves(vi, f), al, False)};\n"
            for l in d.leaves(vi, f):
                o += "{ " + l.set("e", f"x{l.path}", "t") + " }\n"
            o += f"{d.name}::{fn}(&mut b, x.clone());\n" + same("b", "e", d.N, f"{fn} does not store exactly the field's bits")
            out.append((f"e{fn}", al.n, "write_<variant>_<field>", o))
    return out


@op
def op_eviews(c):
    """from_bytes agrees with the per-variant readers and the slice and checked forms, into_bytes with the write functions, for every byte array"""
    d = c.decl
    al = Alloc()
    o = f"let b: [u8; {d.N}] = {buf(al, d.N)};\nlet v = <{d.name} as Bitfields<{d.N}>>::from_bytes(b);\n"
    o += f'ck!({d.name}::read_slice_variant_id(&b).ok() == Some({d.name}::read_variant_id(&b)), "read_slice_variant_id");\n'
    o += "match &v {\n"
    for vi, v in enumerate(d.variants):
        body = ""
        for f in v.fields:
            if f.reserve:
                continue
            fn = d.fn_name(vi, f)
            body += f"let r = {d.name}::read_{fn}(&b); let s = match {d.name}::read_slice_{fn}(&b) {{ Ok(s) => s, Err(_) => panic!(\"read_slice_{fn} refuses a full slice\") }}; let t = match {d.name}::check_slice(&b) {{ Ok(k) => k.read_{fn}(), Err(_) => panic!(\"check_slice refuses a full slice\") }};\n"
            for l in d.leaves(vi, f):
                x = f"(*x{f.name}){l.path}"
                for q in "rst":
                    body += f'ck!({eqv(l, x, q + l.path)}, "from_bytes and read_{fn}{l.path} disagree");\n'
        if any(f.overlap and f.writes for f in v.fields):
            body += "{ " + "".join(f"let x{f.name} = (*x{f.name}).clone();\n" for f in v.fields) + _eref_enc(d, vi) + "}\n"
        body += f"let mut z = [0u8; {d.N}];\n{d.name}::write_variant_id(&mut z, v.id());\n"
        for f in v.fields:
            if f.writes:
                body += f"{d.name}::write_{d.fn_name(vi, f)}(&mut z, (*x{f.name}).clone());\n"
        body += f"let c: [u8; {d.N}] = v.clone().into_bytes();\n" + same("c", "z", d.N, "into_bytes and the write functions disagree")
        o += f"{d.pat(vi, 'x')} => {{ {body} }}\n"
    o += "}\n"
    return [("eviews", al.n, "from_bytes vs read_/read_slice_/check_slice, into_bytes vs write_", o)]


@op
def op_esl(c):
    """slice readers/writers of enum fields: Ok exactly when the bytes are there, right value; errors change nothing"""
    d = c.decl
    out = []
    m = d.N + 2
    al = Alloc()
    o = _slice_head(al, d.N) + f"let mut a = [0u8; {d.N}];\nfor j in 0..{d.N} {{ if j < n {{ a[j] = b[j]; }} }}\n"
    items = [("variant_id", [d.id_leaf], None, None, f"u{d.idw}")]
    for vi, v in enumerate(d.variants):
        for f in v.fields:
            items.append((d.fn_name(vi, f), d.leaves(vi, f), f, vi, f.rust_ty()))
    for fn, ls, f, vi, ty in items:
        nd = need(ls)
        o += f"match {d.name}::read_slice_{fn}(&b[..n]) {{\nOk(v) => {{ ck!(n >= {nd}, \"read_slice_{fn} accepts a slice that is too short\");\n"
        for l in ls:
            o += f'ck!({l.eq("v" + l.path, "a")}, "read_slice_{fn}{l.path} differs from the array form");\n'
        o += f'}}\nErr(e) => {{ ck!(n < {nd}, "read_slice_{fn} refuses a slice that holds the field"); ck!(e.0 == n && e.1 == {nd}, "read_slice_{fn}: error lengths"); }} }}\n'
    out.append(("esl_get", al.n, "read_slice_<variant>_<field>", o))
    for fn, ls, f, vi, ty in items:
        if f is None or f.capture or f.read_only:
            continue
        nd = need(ls)
        al = Alloc()
        o = _slice_head(al, d.N) + "let mut e = b;\n"
        o += f"let x: {ty} = {ls[0].sym(al, False) if f is None else f.sym(ls, al, False)};\n"
        o += f"match {d.name}::write_slice_{fn}(&mut b[..n], x.clone()) {{\nOk(()) => {{ ck!(n >= {nd}, \"write_slice_{fn} accepts a slice that is too short\");\n"
        for l in ls:
            o += "{ " + l.set("e", f"x{l.path}", "t") + " }\n"
        o += f'}}\nErr(r) => {{ ck!(n < {nd}, "write_slice_{fn} refuses a slice that holds the field"); ck!(r.0 == n && r.1 == {nd}, "write_slice_{fn}: error lengths"); }} }}\n'
        o += same("b", "e", m, f"write_slice_{fn} does not store exactly the field's bits")
        out.append((f"esls_{fn}", al.n, "write_slice_<variant>_<field>", o))
    return out


@op
def op_echecked(c):
    d = c.decl
    al = Alloc()
    o = _slice_head(al, d.N)
    o += f"match {d.name}::check_slice(&b[..n]) {{\nOk(v) => {{ ck!(n >= {d.N}, \"check_slice accepts a slice that is too short\");\n"
    for vi, v in enumerate(d.variants):
        for f in v.fields:
            fn = d.fn_name(vi, f)
            o += f"let r = v.read_{fn}();\n"
            for l in d.leaves(vi, f):
                o += f'ck!({l.eq("r" + l.path, "b")}, "checked read_{fn}{l.path} differs from the array form");\n'
    o += f'}}\nErr(e) => {{ ck!(n < {d.N}, "check_slice refuses a slice that is long enough"); ck!(e.0 == n && e.1 == {d.N}, "check_slice: error lengths"); }} }}\n'
    out = [("echecked", al.n, "check_slice, Checked::read_*", o)]
    for vi, v in enumerate(d.variants):
        for f in v.fields:
            if f.capture or f.read_only:
                continue
            fn = d.fn_name(vi, f)
            al = Alloc()
            o = _slice_head(al, d.N) + "let mut e = b;\n"
            o += f"let x: {f.rust_ty()} = {f.sym(d.leaves(vi, f), al, False)};\n"
            o += f"match {d.name}::check_slice_mut(&mut b[..n]) {{\nOk(mut v) => {{ ck!(n >= {d.N}, \"check_slice_mut accepts a slice that is too short\");\nv.write_{fn}(x.clone());\n"
            for l in d.leaves(vi, f):
                o += "{ " + l.set("e", f"x{l.path}", "t") + " }\n"
            o += f'}}\nErr(r) => {{ ck!(n < {d.N}, "check_slice_mut refuses a slice that is long enough"); }} }}\n'
            o += same("b", "e", d.N + 2, f"CheckedMut::write_{fn} does not store exactly the field's bits")
            out.append((f"ecm_{fn}", al.n, "check_slice_mut, CheckedMut::write_*", o))
    return out


@op
def op_eparteq(c):
    """enum == number compares the enum's id"""
    d = c.decl
    out = []
    for vi, v in enumerate(d.variants):
        al = Alloc()
        o = _evalue(d, vi, al, True)
        w = d.idw // 8
        a = al.take(w)
        o += f"let y = u{d.idw}::from_le_bytes([" + ", ".join(f"i[{a+j}]" for j in range(w)) + "]);\n"
        o += f'ck!((v == y) == ({_eid(d, vi)} == y), "{v.name} == number");\nck!((v != y) == ({_eid(d, vi)} != y), "{v.name} != number");\n'
        out.append((f"eq_{snake(v.name)}", al.n, "PartialEq with the id type", o))
    return out


# ------------------------------------------------------------------ primitive enums
@op
def op_prim(c):
    """from_primitive/into_primitive for every number"""
    d = c.decl
    n = d.name
    o = "let p = i[0];\n" if d.prim == "u8" else "let p: u16 = i[0] as u16 | (i[1] as u16) << 8;\n"
    o += f"let v = <{n} as BitfieldEnum>::from_primitive(p);\n"
    o += f'ck!(v == {n}_ref_from(p), "from_primitive picks the wrong variant");\n'
    o += f'ck!(v.clone().into_primitive() == {n}_ref_into(&v), "into_primitive");\n'
    known = " | ".join(str(x) for _, x in d.known())
    cond = f"matches!(p, {known})" if not d.catch else "true"
    o += f'if {cond} {{ ck!(v.clone().into_primitive() == p, "a known number does not survive"); }}\n'
    o += f'let q = <{n} as BitfieldEnum>::from_primitive(v.clone().into_primitive());\nck!(q == v, "from_primitive(into_primitive(v)) != v");\n'
    return [("prim", 1 if d.prim == "u8" else 2, "from_primitive/into_primitive", o)]


@op
def op_prim_eq(c):
    """enum == number: the number of a variant other than the one that collects unknown numbers"""
    d = c.decl
    n = d.name
    pats = " | ".join(d.con(i, "") for i, _ in d.known() if i != d.catchall)
    o = f"let v = <{n} as BitfieldEnum>::from_primitive(p);\nlet k = {n}_ref_into(&v);\nlet named = matches!(&v, {pats});\n"
    o = ("let (p, q) = (i[0], i[1]);\n" if d.prim == "u8" else "let (p, q): (u16, u16) = (i[0] as u16 | (i[1] as u16) << 8, i[2] as u16 | (i[3] as u16) << 8);\n") + o
    o += 'ck!((v == q) == (named && k == q), "enum == number");\nck!((v != q) != (v == q), "enum != number");\n'
    return [("prim_eq", 2 if d.prim == "u8" else 4, "PartialEq<number>", o)]
