"""Declaration families."""
import itertools
import random
from dataclasses import replace

from emit import op_enf
from model import *

INTS = ["u8", "u16", "u32", "u64", "u128"]
SINTS = ["i8", "i16", "i32", "i64", "i128"]
QUICK = {8: [1, 2, 3, 4, 5, 6, 7, 8], 16: [2, 6, 8, 9, 10, 11, 13, 14, 15, 16], 32: [5, 12, 16, 17, 19, 24, 25, 30, 31, 32],
         64: [7, 20, 32, 33, 38, 40, 47, 53, 56, 59, 63, 64], 128: [10, 48, 65, 72, 91, 103, 114, 120, 127, 128]}
SMALL = {8: [1, 3, 7, 8], 16: [4, 9, 12, 15, 16], 32: [10, 17, 24, 29, 32], 64: [35, 40, 51, 64], 128: [68, 97, 121, 128]}


def eight(name, ty, L, **kw):
    """One struct in which a field of type `ty` and length L starts at each of the 8 bit offsets."""
    fields, seen, pos, n = [], set(), 0, 0
    while len(seen) < 8:
        if pos % 8 in seen:
            fields.append(F(f"p{n}", "bool"))
            n += 1
            pos += 1
            continue
        seen.add(pos % 8)
        fields.append(F(f"f{pos % 8}", ty, L))
        pos += L
    return Struct(name, fields, **kw)


def few(name, ty, L, starts, tail=3, **kw):
    """the same for a chosen list of bit offsets"""
    fields, pos, n = [], 0, 0
    for s in starts:
        gap = (s - pos) % 8
        if gap:
            fields.append(F(f"p{n}", "u8" if gap > 1 else "bool", gap if gap > 1 else None))
            n += 1
            pos += gap
        fields.append(F(f"f{s}_{n}", ty, L))
        pos += L
    if tail:
        fields.append(F("tail", "u8", tail))
    return Struct(name, fields, **kw)


def full(name, ty, L, **kw):
    """one field at one offset, padded to whole bytes (needed by lsb0 declarations)"""
    return few(name, ty, L, **kw)


def lens(ty, thorough, table=QUICK):
    w = W[ty]
    return list(range(1, w + 1)) if thorough else table[w]


def ints(thorough, types=INTS, table=QUICK, **kw):
    """(tag, struct) of every type and length; wide fields at fewer bit offsets unless thorough"""
    out = []
    for ty in types:
        for n, L in enumerate(lens(ty, thorough, table)):
            if thorough or L <= 33:
                out.append((f"{ty}_{L}", eight("S", ty, L, **kw)))
            else:
                a = (3 * n) % 8
                out.append((f"{ty}_{L}", few("S", ty, L, [a, (a + 3) % 8, (a + 6) % 8], **kw)))
    return out


def mode(en, rev=False, lsb0=False):
    return f"{en}{'_rev' if rev else ''}{'_lsb0' if lsb0 else ''}"


def inner13():
    return Struct("In13", [F("x", "u8", 3), F("y", "i16", 9), F("w", "bool")], default="be")


def inner(L):
    """a nested declaration of L bits"""
    fs = [F("w", "bool")]
    if L > 1:
        a = min(L - 1, 5)
        fs.append(F("x", "u8", a))
        r = L - 1 - a
        if r:
            ty = "u8" if r <= 8 else "u16" if r <= 16 else "u32" if r <= 32 else "u64"
            fs.append(F("y", ty, r))
    return Struct(f"In{L}", fs, default="be")


def inner16():
    return Struct("In16", [F("x", "u8", 3), F("y", "u16", 13)], default="be")


def inner_le():
    return Struct("InLe", [F("x", "u8", 3), F("y", "u32", 21)], default="le")


def inner_rev():
    return Struct("InRev", [F("x", "u8", 5), F("y", "u16", 11)], default="be", reverse=True)


def pe3():
    return PEnum("P", [("A", None), ("B", None), ("C", None)], catch=(2, None))


def unit_enum():
    return Enum("En", 2, [V("A"), V("B"), V("C"), V("D")], default="be")


def data_enum():
    return Enum("En2", 3, [V("A", [F("a", "u8", 5)]), V("B", [F("b", "u16", 11)]), V("C")], default="be")


def pad(off):
    return [F("p", "u8" if off > 1 else "bool", off if off > 1 else None)] if off else []


def enums(en, rev, lsb0=False):
    """(tag, data carrying enum)"""
    kw = dict(default=en, reverse=rev, lsb0=lsb0)
    out = []
    for idb in (1, 2, 3, 5, 8, 11):
        vs = [V("One", [F("a", "u16")]), V("Two", [F("a", "u16", 10), F("b", "u8", 6)])]
        if idb > 1:
            vs.append(V("Idk"))
        out.append((f"basic{idb}", Enum("E", idb, vs, **kw)))
    out.append(("capt", Enum("E", 2, [V("One", [F("a", "u16")], discr=1), V("Two", [F("a", "i16", 10), F("b", "u8", 6)], discr=2),
                                      V("Idk", [F("id", "u8", capture=True), F("a", "u16")], discr=0)], **kw)))
    out.append(("inv", Enum("E", 3, [V("One", [F("a", "u32", 19)]), V("Bad", [F("id", "u8", capture=True), F("a", "u16")], invalid=True),
                                     V("Two", [F("a", "i16", 10), F("b", "bool")], vid=1), V("Three", [F("z", "u8")])], **kw)))
    out.append(("inv2", Enum("E", 4, [V("One", [F("a", "u8", 6)], vid=5), V("Bad", invalid=True), V("Two", [F("a", "u16", 10)], vid=15),
                                      V("Three"), V("Four", [F("q", "bool")])], **kw)))
    out.append(("tup", Enum("E", 3, [V("One", [F("a", "u32", 19)], tuple=True), V("Two", [F("a", "i16", 10), F("b", "bool")], tuple=True),
                                     V("Three", [F("z", "u8")])], **kw)))
    out.append(("tupc", Enum("E", 3, [V("One", [F("a", "u32", 19)], tuple=True),
                                      V("Two", [F("c", "u8", capture=True), F("a", "i16", 10), F("b", "bool")], tuple=True, invalid=True),
                                      V("Three", [F("z", "u8")])], **kw)))
    out.append(("mixed", Enum("E", 8, [V("One", [F("a", "u32")]), V("Two", [F("a", inner16(), 16), F("b", "u8", arr=("elem", 3, 4))]),
                                       V("Three", [F("z", "u8"), F("r", "u8", 4, reserve=True)])], **kw)))
    out.append(("vfill", Enum("E", 5, [V("One", [F("a", "u16", 13)], fill=3), V("Two", [F("b", "i32", 22)]), V("Three", fill=5), V("Four", [F("c", "u8", capture=True), F("d", "u32", 27)], fill=4)], **kw)))
    return out


def wide_enums(en, rev, thorough=False, lsb0=False):
    """data enums with wide ids, per-variant endianness, and payload attributes"""
    kw = dict(default=en, reverse=rev, lsb0=lsb0)
    out = []
    for idb in (12, 16, 17, 23, 24, 31, 32, 33, 47, 57, 64, 65, 100, 128) if thorough else (16, 23, 32, 33, 65):
        out.append((f"id{idb}", Enum("E", idb, [V("A", [F("a", "u16", 13)]), V("B", [F("b", "u8")], vid=(1 << idb) - 2), V("C")], **kw)))
    other = "be" if en == "le" else "le"
    out.append(("vend", Enum("E", 3, [V("One", [F("a", "u32", 19)], default=other), V("Two", [F("a", "i16", 10), F("b", "u16", 12, endian="le"), F("c", "u16", 12, endian="be")]),
                                      V("Three", [F("z", "u16", 15), F("y", "u32", 11)], default=other),
                                      V("Four", [F("c", "u8", capture=True), F("z", "u16", 13)], invalid=True, default=other)], **kw)))
    out.append(("vend9", Enum("E", 9, [V("One", [F("a", "u32", 19)], default=other), V("Two", [F("a", "i16", 10), F("b", "u16", 12, endian="le"), F("bo", "bool")]),
                                       V("Four", [F("c", "u16", capture=True), F("z", "u16", 13)], default=other)], **kw)))
    out.append(("rng", Enum("E", 4, [V("One", [F("a", "u8", 3, rng=(8, 11)), F("b", "u16", 9)]),
                                     V("Two", [F("a", "i16", 10), F("r", "u8", 3, rng=(4, 7), redundant=True), F("b", "u16", 12, read_only=True)]),
                                     V("Three", [F("z", "u16", arr=("block", 2, 19)), F("y", "f32"), F("ch", "char")])], **kw)))
    return out


def id_enums(en, rev, thorough=False):
    """how ids are assigned to variants that name none"""
    kw = dict(default=en, reverse=rev)
    pats = [(1, 0, None, None), (None, 1, 2, None), (None, None, 3, 2, None), (0, 1, 2, None, None), (None, 2, 1, None, 4, None), (7, None, 0, None, 1, None), (5, 6, None, 4, 3, None, 0, None),
            (None, 1, 2, 3, None, 5, 6, None, 8), (3, 2, 1, 0, None, None), (None, 4, None, 3, None, 1, None), (2, None, 1, None, 0, None)]
    if thorough:
        pats += [p for n in (3, 4) for p in itertools.product(range(-1, n), repeat=n) if all(p.count(x) < 2 for x in range(n)) and -1 in p and max(p) >= 0]
    out = []
    for k, p in enumerate(pats):
        p = [None if x == -1 else x for x in p]
        for inv in ([None, len(p) // 2] if thorough else [None if k % 2 else k % len(p)]):
            idb = 3 + k % 3 + (1 if len(p) > 8 else 0)
            vs = [V(f"V{j}", [F("a", "u8", 3 + j % 5)] if j % 3 != 2 else [], vid=x, invalid=j == inv) for j, x in enumerate(p)]
            out.append((f"ids{k}_{inv}", Enum("E", idb, vs, **kw)))
    return out


def far(en, rev=False, lsb0=False, thorough=False):
    """(tag, struct): fields whose byte and bit positions need more than a byte to count"""
    kw = dict(default=en, reverse=rev, lsb0=lsb0)
    out = []
    for off in range(8) if thorough else (0, 3, 6):
        b, h = 248 + off, 2040 + off
        out.append((f"far{off}", Struct("S", [F("a", "u16", rng=(b, b + 11)), F("b", "u32", 23), F("c", "i16", 13), F("d", "u8"), F("e", "bool")], **kw)))
        out.append((f"farther{off}", Struct("S", [F("p", "u8", 5), F("a", "u16", rng=(h, h + 12)), F("b", "u32", 27), F("z", "u8", 6)], **kw)))
        if thorough:
            out.append((f"fararr{off}", Struct("S", [F("a", "u16", arr=("elem", 3, 9), rng=(b, b + 27)), F("n", inner13(), 13), F("c", "u8", arr=("block", 3, 21)), F("z", "i8", 5)], **kw)))
    return out


def many_variants(en, rev, thorough):
    """data enums with many variants and ids beyond a byte"""
    out = []
    for n, idb, vids in ((24, 5, {3: 31, 9: 0}), (40, 11, {0: 2047, 7: 300, 20: 255, 21: 256})) + (((140, 8, {5: 255}), (270, 9, {2: 511, 100: 0})) if thorough else ()):
        vs = [V(f"V{j}", [F("a", "u8", 3 + j % 6)] if j % 3 == 1 and j < 60 else [F("b", "u16", 12)] if j == 2 else [], vid=vids.get(j)) for j in range(n)]
        out.append((f"many{n}", Enum("E", idb, vs, default=en, reverse=rev)))
    return out


# ------------------------------------------------------------------ declarations that may contradict themselves
def uty(n):
    return "u8" if n <= 8 else "u16" if n <= 16 else "u32" if n <= 32 else "u64"


def hits(*rs):
    return any(a < d and c < b for i, (a, b) in enumerate(rs) for c, d in rs[i + 1:])


def overlaps(en, rev, lsb0, thorough):
    """(tag, declaration, conflicting)"""
    kw = dict(default=en, reverse=rev, lsb0=lsb0)
    out = []

    def two(tag, fa, fb, extra=()):
        ra, rb = fa.rng, fb.rng
        bad = hits(ra, rb)
        out.append((tag, Struct("S", [fa, fb], **kw), bad))
    for off in (range(8) if thorough else (0, 3, 7)):
        s, e = off + 4, off + 15
        for k, (x, y) in enumerate([(s, e), (s, e - 3), (s + 2, e), (s + 3, s + 4), (e - 1, e), (s, s + 1), (s - 3, e + 2), (s - 4, s + 1), (e - 1, e + 6), (s - 4, s), (e, e + 7), (e + 1, e + 5), (s - 2, e), (s, e + 4)]):
            A = lambda: F("a", uty(e - s), rng=(s, e))
            B = lambda: F("b", uty(y - x) if y - x > 1 else "bool", rng=(x, y))
            two(f"p{off}_{k}", A(), B())
            two(f"q{off}_{k}", B(), A())
            bad = hits((s, e), (x, y))
            if k % 3 == off % 3 or thorough:
                # another field declared in between
                out.append((f"m{off}_{k}", Struct("S", [A(), F("c", "u8", rng=(40, 43)), B()], **kw), bad))
                # one that is declared to share bits does not excuse the others
                out.append((f"r{off}_{k}", Struct("S", [A(), F("r", "u8", rng=(s + 1, s + 5), redundant=True), B()], **kw), bad))
                for at in ("read_only", "reserve"):
                    b = B()
                    setattr(b, at, True)
                    out.append((f"{at}{off}_{k}", Struct("S", [A(), b], **kw), bad))
                out.append((f"el{off}_{k}", Struct("S", [F("a", "u8", arr=("elem", 3, 4), rng=(s, s + 12)), B()], **kw), hits((s, s + 12), (x, y))))
                out.append((f"bl{off}_{k}", Struct("S", [B(), F("a", "u8", arr=("block", 2, 11), rng=(s, e))], **kw), bad))
                out.append((f"ne{off}_{k}", Struct("S", [F("a", inner13(), rng=(s, s + 13)), B()], **kw), hits((s, s + 13), (x, y))))
        # a field without a range runs into one placed ahead of it
        for L in (4, 5, 6, 12):
            out.append((f"run{off}_{L}", Struct("S", [F("a", "u8", rng=(off + 5, off + 12)), F("c", "u8", rng=(0, off + 0 or 1)), F("b", uty(L), L)], **kw), (off or 1) + L > off + 5))
    return out


def contradictions(en, rev, thorough):
    """(tag, declaration, operations, conflicting)"""
    kw = dict(default=en, reverse=rev)
    out = []
    # fields wider than their type
    for ty in ("u8", "u16", "u32", "u64", "i16", "i32", "char"):
        for more in (1, 4, 7, 8, 12) if thorough else (1, 4, 8):
            out.append((f"wide_{ty}_{more}", Struct("S", [F("p", "u8", 3), F("a", ty, W[ty] + more), F("z", "u8", 6)], **kw), ["rt", "apart", "total"], True))
        for more in (1, 5, 8) if thorough else (1, 8):
            if ty != "char" and W[ty] < 33:
                out.append((f"widearr_{ty}_{more}", Struct("S", [F("p", "u8", 3), F("a", ty, arr=("elem", 2, W[ty] + more)), F("z", "u8", 6)], **kw), ["rt", "apart", "total"], True))
    # variants read from another end than their enum
    for k, (idb, lsb) in enumerate([(8, False), (3, False), (8, True), (12, True)]):
        for x in ("reverse", 'read_from = "lsb0"', 'read_from = "msb0"'):
            bad = not rev if x == "reverse" else ("lsb0" in x) != lsb
            vs = [V("A", [F("a", "u8", 5)], extra=x), V("B", [F("b", "u16", 11)]), V("C")]
            out.append((f"vend{k}_{x[:7]}{x[-5:-1]}".replace(" ", "").replace('"', ""), Enum("E", idb, vs, lsb0=lsb, **kw), ["edec", "ert", "eid"], bad))
    # floats with more or less than their bits
    for k, (ty, arr, L) in enumerate([("f32", None, 31), ("f32", None, 33), ("f32", None, 64), ("f64", None, 32), ("f64", None, 63), ("f64", None, 72), ("f32", 2, 16), ("f32", 2, 33), ("f32", 3, 31), ("f64", 2, 32), ("f64", 2, 65), ("f32", 1, 16)]):
        f = F("a", ty, L) if not arr else F("a", ty, arr=("elem", arr, L))
        out.append((f"float{k}", Struct("S", [F("p", "u8", 3), f, F("z", "u8", 6)], **kw), ["rt", "apart", "total"], True))
        if arr:
            f = F("a", ty, arr=("block", arr, arr * L), loose=True)
            out.append((f"floatb{k}", Struct("S", [F("p", "u8", 3), f, F("z", "u8", 6)], **kw), ["rt", "apart", "total"], True))
    # ranges without bits
    for a, b in ((8, 8), (0, 0), (9, 8), (17, 9), (40, 0)):
        for fs in ([F("p", "u8"), F("a", "u16", rng=(a, b)), F("z", "u8", 6)], [F("a", "u16", rng=(a, b)), F("z", "u8", 6)]):
            out.append((f"range{a}_{b}_{len(fs)}", Struct("S", fs, **kw), [op_enf("false", "a range without bits is accepted")], True))
    # blocks with more bits than their elements have, or with too few for the first ones
    for ty, n, Ls in (("u8", 3, (8, 12, 16, 17, 24, 25, 29, 32)), ("u16", 2, (9, 16, 17, 32, 33, 40)), ("u32", 2, (20, 32, 65, 70)), ("u64", 1, (65, 72))):
        for L in Ls:
            w = W[ty]
            out.append((f"block_{ty}_{n}_{L}", Struct("S", [F("p", "u8", 3), F("a", ty, arr=("block", n, L), loose=True), F("z", "u8", 6)], **kw), ["apart", "total"], not (n - 1) * w < L <= n * w))
    # more bits shared than the field has
    for L, n in ((6, 7), (6, 6), (9, 40), (1, 2)):
        out.append((f"share{L}_{n}", Struct("S", [F("p", "u8"), F("a", uty(L) if L > 1 else "bool", rng=(4, 4 + L), overlap=n, read_only=True), F("z", "u8", rng=(16, 22))], **kw), [op_enf("B == 22", "BIT_SIZE is not the end of the last field")], n > L))
    # enum: payload over the id, over each other
    for k, (idb, ra, rb) in enumerate([(4, (2, 8), None), (4, (4, 8), (8, 20)), (4, (4, 12), (11, 20)), (9, (8, 20), None), (9, (9, 20), None), (3, (0, 3), None), (3, (0, 9), None), (12, (12, 20), (3, 5)), (5, (9, 20), (4, 9)), (5, (9, 20), (5, 9))]):
        fs = [F("a", uty(ra[1] - ra[0]), rng=ra)] + ([F("b", uty(rb[1] - rb[0]), rng=rb)] if rb else [])
        bad = hits((0, idb), ra) or bool(rb and (hits((0, idb), rb) or hits(ra, rb)))
        out.append((f"idov{k}", Enum("E", idb, [V("A", fs), V("B", [F("c", "u8", 7)]), V("C")], **kw), ["eapart", "ert", "eid"], bad))
    # ids: used twice, too large for the id, too many variants
    for k, (idb, ids) in enumerate([(3, (2, 2, None)), (3, (0, None, 0)), (3, (9, None, 1)), (3, (None, 8, None)), (3, (7, None, None)), (2, (None,) * 5), (2, (3, None, None, None)), (2, (3, None, None, None, None)), (1, (1, None)), (1, (1, None, None)),
                                    (1, (None, 2)), (4, (15, None, None)), (4, (16, None, None)), (4, (None, 5, 4, 5)), (8, (255, None)), (5, (31, 32, None))]):
        taken = [x for x in ids if x is not None]
        bad = len(set(taken)) < len(taken) or any(x >= 1 << idb for x in taken) or len(ids) > 1 << idb
        out.append((f"ids{k}", Enum("E", idb, [V(f"V{j}", [F("a", "u8", 3 + j)], vid=x) for j, x in enumerate(ids)], **kw), ["eid", "ert"], bad))
        out.append((f"idsd{k}", Enum("E", idb, [V(f"V{j}", [F("a", "u8", 3 + j)], vid=x if j % 2 else None, discr=None if j % 2 else x) for j, x in enumerate(ids)], **kw), ["eid", "ert"], bad or len(set(taken)) < len(taken)))
    return out


def sizes(en, rev):
    """(tag, declaration, condition on BIT_SIZE `B`, contradictory): declared total sizes"""
    out = []
    fs = lambda L: [F("a", "u8", 4), F("b", "u32", L)]
    for L in (4, 9, 11, 12, 13, 20):
        t = 4 + L
        for n in (t - 1, t, t + 1, (t + 7) // 8 * 8):
            out.append((f"bits{L}_{n}", Struct("S", fs(L), default=en, reverse=rev, extra=f"enforce_bits = {n}"), f"B == {n}", n != t))
        for n in (t // 8, (t + 7) // 8):
            out.append((f"bytes{L}_{n}", Struct("S", fs(L), default=en, reverse=rev, extra=f"enforce_bytes = {n}"), f"B == {8 * n}", 8 * n != t))
        out.append((f"full{L}", Struct("S", fs(L), default=en, reverse=rev, extra="enforce_full_bytes"), "B % 8 == 0", t % 8 != 0))
    return out


def esizes(en, rev):
    """the same for data enums and their variants"""
    out = []
    kw = dict(default=en, reverse=rev)
    for idb in (1, 4, 8, 11):
        for L in (5, 12, 13, 20):
            t = idb + L
            vs = lambda x="": [V("A", [F("a", "u8", 4)]), V("B", [F("b", uty(L), L)], extra=x)]
            for n in (t - 1, t, t + 1, (t + 7) // 8 * 8, idb + 4):
                out.append((f"ebits{idb}_{L}_{n}", Enum("E", idb, vs(), total=n, **kw), f"B == {n}", n != t))
                if L > 4:
                    out.append((f"vbits{idb}_{L}_{n}", Enum("E", idb, vs(f"enforce_bits = {n}"), **kw), f"B == {n}", n != t))
            for n in sorted({t // 8, (t + 7) // 8, (t + 15) // 8} - {0}):
                if n * 8 > idb:
                    out.append((f"ebytes{idb}_{L}_{n}", Enum("E", idb, vs(), extra=f"enforce_bytes = {n}", **kw), f"B > {8 * n - 8} && B <= {8 * n}", n != (t + 7) // 8))
                out.append((f"vbytes{idb}_{L}_{n}", Enum("E", idb, vs(f"enforce_bytes = {n}"), **kw), f"B == {8 * n}", 8 * n != t))
            out.append((f"vfull{idb}_{L}", Enum("E", idb, vs("enforce_full_bytes"), **kw), "B % 8 == 0", t % 8 != 0))
    return out


def bad_penums():
    A, B, C, D = ("A", None), ("B", None), ("C", None), ("D", None)
    return [("dup", PEnum.loose("P", [("A", 2), ("B", 2), C])), ("dup3", PEnum.loose("P", [("A", 7), B, ("C", 7), D])), ("big", PEnum.loose("P", [("A", 256), ("B", 2), C])),
            ("big2", PEnum.loose("P", [A, ("B", 258), ("C", 2), D])), ("inv2", PEnum.loose("P", [A, B, C, D], invalid=(1, 2))), ("invdup", PEnum.loose("P", [("A", 1), B, C, D], invalid=(1,))),
            ("ok", PEnum.loose("P", [("A", 255), B, ("C", 0), D])), ("okinv", PEnum.loose("P", [("A", 3), B, C, D], invalid=(1,)))]


# ------------------------------------------------------------------ declarations that mix everything
SCALARS = ["u8"] * 4 + ["u16"] * 4 + ["u32"] * 3 + ["u64"] * 2 + ["u128", "i8", "i8", "i16", "i16", "i32", "i32", "i64", "i128"]


def some_field(r, name, room, nest=True, default=None):
    """a field of at most about `room` bits"""
    en = r.choice([None, None, None, "be", "le"])
    k = r.randrange(20 if nest else 15)
    if k < 8 or room < 8:
        ty = r.choice(SCALARS)
        L = min(r.choice([r.randint(1, W[ty]), r.randint(1, min(W[ty], 12)), W[ty]]), max(room, 1))
        f = F(name, ty, None if L == W[ty] and r.random() < .5 else L, endian=en)
        f.bytes_attr = r.random() < .3
        return f
    if k == 8 or room < 20:
        return F(name, "bool")
    if k == 9:
        L = r.choice([8, 12, 21, 24, 32])
        return F(name, "char", None if L == 32 else L, endian=en)
    if k == 10:
        return F(name, "f64" if room >= 64 and r.random() < .4 else "f32", endian=en)
    if k < 13:
        ty = r.choice(SCALARS + ["bool", "bool", "char", "f32"])
        n = r.randint(1, 5)
        w = 1 if ty == "bool" else W[ty]
        b = r.randint(1, w) if ty[0] in "ui" else w
        while n > 1 and n * b > room:
            n -= 1
        b = min(b, room) if ty[0] in "ui" else b
        return F(name, ty, arr=("elem", n, None if b == w else b), endian=en)
    if k < 15:
        ty = r.choice(["u8", "u8", "u16", "u32", "u64", "i8", "i16"])
        n = r.randint(1, max(1, min(4, room // W[ty])))
        return F(name, ty, arr=("block", n, n * W[ty] - r.randrange(W[ty]) if ty[0] == "u" else n * W[ty]), endian=en)
    if k == 15:
        L = r.choice([1, 3, 8, 9, 12, 17, 20, 24, 31])
        return F(name, inner(L), L)
    if k == 16:
        return F(name, inner13(), 13) if r.random() < .5 else F(name, inner13(), arr=("elem", 2, 13), struct_size=2)
    if k == 17:
        return F(name, inner_le(), 24) if r.random() < .5 else F(name, inner_rev(), 16)
    if k == 18:
        return F(name, data_enum(), 14) if r.random() < .5 else F(name, unit_enum(), 2)
    return F(name, pe3(), r.choice([2, 3, 5, 8])) if r.random() < .6 else F(name, pe3(), arr=("elem", r.randint(2, 3), r.choice([2, 4, 8])))


def share(r, f, at, base=0):
    """let the field begin with bits of what ends at `at`"""
    L = f.length()
    n = r.randint(1, min(at - base, L, 20))
    f.rng, f.bits, f.overlap = (at - n, at - n + L), None, n


def sharing(en, rev, lsb0=False):
    """redundant fields at the start, in the middle and at the end, and fields that share bits with the one before, both written"""
    kw = dict(default=en, reverse=rev, lsb0=lsb0)
    A, B, C = (lambda: F("a", "u16", 11)), (lambda: F("b", "i32", 19)), (lambda: F("c", "u8", 6))
    out = []
    for t, s, e in (("start", 0, 5), ("mid", 7, 21), ("end", 25, 36)):
        out.append((f"red_{t}", Struct("S", [A(), B(), C(), F("r", uty(e - s), rng=(s, e), redundant=True)], **kw)))
    out.append(("red_two", Struct("S", [A(), F("r", "bool", rng=(3, 4), redundant=True), B(), F("q", "i16", rng=(9, 21), redundant=True), C()], **kw)))
    for n in (1, 6, 11):
        out.append((f"sh{n}", Struct("S", [A(), F("b", "i32", rng=(11 - n, 30 - n), overlap=n), C()], **kw)))
    out.append(("sh_last", Struct("S", [A(), C(), F("b", "u32", rng=(13, 32), overlap=4)], **kw)))
    out.append(("sh_two", Struct("S", [A(), F("b", "u16", rng=(8, 20), overlap=3), F("c", "u32", rng=(18, 41), overlap=2)], **kw)))
    out.append(("sh_enum", Enum("E", 5, [V("Va", [A(), F("b", "i32", rng=(12, 31), overlap=4), C()]), V("Vb", [F("x", "u16"), F("y", "u16", rng=(19, 28), overlap=2)]),
                                         V("Vc", [F("x", "u32", 23), F("r", "u8", rng=(6, 12), redundant=True)])], **kw)))
    return out


def soup(key, count, room=(16, 110), special=True, lsb=True, nest=True, **kw):
    """`count` structs that mix types, lengths, attributes, ranges and modes; the same ones for the same key"""
    r = random.Random(f"bondrewd {key}")
    out = []
    for c in range(count):
        left = r.randint(*room)
        fs, at = [], 0
        while left > 0 and len(fs) < 9:
            f = some_field(r, f"f{len(fs)}", left, nest)
            x = r.random()
            if special and x < .08 and isinstance(f.ty, str):
                f.reserve = True
            elif special and x < .16:
                f.read_only = True
            L = f.length()
            x = r.random()
            if special and x > .94 and at > 3 and not f.bytes_attr and not f.arr:
                share(r, f, at)
                fs.append(f)
                left -= L - f.overlap
                at = f.rng[1]
                continue
            if x < .12 and not f.bytes_attr:
                gap = r.choice([0, 0, 1, 5, 9])
                f.rng = (at + gap, at + gap + L)
                f.bits = None
                if f.arr and f.arr[0] == "elem":
                    f.arr = ("elem", f.arr[1], L // f.arr[1])
                at += gap
                left -= gap
            fs.append(f)
            at += L
            left -= L
            if special and at > 9 and r.random() < .07:
                s = r.randint(0, at - 8)
                n = r.randint(2, min(40, at - s))
                fs.append(F(f"f{len(fs)}", uty(n), rng=(s, s + n), redundant=True, endian=r.choice([None, "be", "le"])))
        d = dict(default=r.choice(["be", "le", "be", "le", None]), reverse=r.random() < .35, lsb0=lsb and r.random() < .25)
        if special and r.random() < .1:
            d["fill"] = (at + 7) // 8 + r.randint(1, 3)
        d.update(kw)
        out.append((f"mix{c}", Struct("S", fs, **d)))
    return out


SYN = {"be": ["be", "msb", "big"], "le": ["le", "lsb", "little", "lil"]}
DSYN = {**SYN, None: [None, "ne", "native"]}   # without a default numbers are little endian


def respell(r, fs, start=0, rng=True):
    """the same fields, declared in other words"""
    place(fs, start)
    for f in fs:
        f.style = r.randrange(4)
        f.endian = r.choice(SYN.get(f.endian, [f.endian]))
        if f.capture:
            continue
        if rng and not f.rng and r.random() < .35:
            f.rng = (f.start, f.end)
            if f.arr and f.arr[0] == "elem" and (f.arr[2] is None or r.random() < .5) and isinstance(f.ty, str):
                f.infer = True
            if not f.arr:
                f.bits = None
        if not f.arr and not f.rng and f.bits is None and not f.struct_size and r.random() < .5:
            f.bits = f.natural()
        f.bytes_attr = r.random() < .7
    return fs


def other_words(key, n, **kw):
    r = random.Random(f"bondrewd words {key}")
    out = []
    for t, d in soup(key, n, **kw):
        # build it anew: `soup` has placed it already
        fs = [replace(f, start=0, end=0) for f in d.fields]
        e = Struct("S", respell(r, fs), default=r.choice(DSYN[d.default]), lsb0=d.lsb0, reverse=d.reverse, fill=d.fill)
        e.style = r.randrange(4)
        out.append((t, e))
    return out


def synonyms():
    """every way to name an endianness, wherever one can be given"""
    out = []
    for e in SYN["be"] + SYN["le"] + ["ne", "native"]:
        other = "be" if is_le(e) else "le"
        fs = [F("a", "u16"), F("b", "i32", 19), F("c", "u8", 5), F("q", "u16", arr=("elem", 2, 11)), F("w", "u32", arr=("block", 2, 50)), F("z", "char", 21), F("f", "f32")]
        out.append((f"s_{e}", Struct("S", [replace(f) for f in fs], default=e)))
        if e not in ("ne", "native"):
            out.append((f"f_{e}", Struct("S", [F("k", "bool")] + [replace(f, endian=e) for f in fs], default=other)))
        vs = lambda: [V("Va", [F("x", "u16"), F("y", "i32", 20)]), V("Vb", [F("x", "u32", 27)])]
        out.append((f"e_{e}", Enum("E", 11, vs(), default=e)))
        w = vs() + [V("Vc", [F("x", "u32", 27)])]
        w[1].default = e
        out.append((f"v_{e}", Enum("E", 5, w, default=other)))
    return out


def eother_words(key, n, **kw):
    r = random.Random(f"bondrewd enum words {key}")
    out = []
    for t, d in esoup(key, n, **kw):
        vs = []
        for v in d.variants:
            fs = [replace(f, start=0, end=0) for f in v.fields]
            vid, discr = v.vid, v.discr
            if vid is not None and r.random() < .5:
                vid, discr = None, vid
            vs.append(replace(v, fields=respell(r, fs, d.id_bits), vid=vid, discr=discr, style=r.randrange(4), default=r.choice(SYN.get(v.default, [v.default]))))
        rust, last = [], -1
        for v in vs:
            last = v.discr if v.discr is not None else last + 1
            rust.append(last)
        if len(set(rust)) < len(rust):    # rustc would number two variants alike
            for v in vs:
                if v.discr is not None:
                    v.vid, v.discr = v.discr, None
        e = Enum("E", d.id_bits, vs, default=r.choice(DSYN[d.default]), reverse=d.reverse, lsb0=d.lsb0, id_bytes_attr=d.id_bits % 8 == 0 and r.random() < .7)
        e.style = r.randrange(4)
        out.append((t, e))
    return out


def esoup(key, count, **kw):
    """the same for data enums"""
    r = random.Random(f"bondrewd enum {key}")
    out = []
    for c in range(count):
        idb = r.choice([1, 2, 3, 3, 4, 5, 6, 7, 8, 8, 9, 10, 12, 14, 16, 19])
        idt = next(f"u{w}" for w in (8, 16, 32) if idb <= w)
        nv = r.randint(2, min(6, 1 << idb))
        ids = r.sample(range(min(1 << idb, 4000)), nv)
        bad = r.choice([None, None, r.randrange(nv)])
        capt = r.random()
        vs = []
        for j in range(nv):
            tup = r.random() < .25
            left = r.choice([0, 7, 16, 24, 40])
            fs, at = [], idb
            if (capt < .35 and j == (nv - 1 if bad is None else bad)) or (capt > .9 and j == 0):
                fs.append(F("id", idt, capture=True))
            while left > 0 and len(fs) < 5:
                f = some_field(r, f"f{len(fs)}", left, nest=r.random() < .5)
                if not tup:
                    x = r.random()
                    if x < .06 and isinstance(f.ty, str):
                        f.reserve = True
                    elif x < .12:
                        f.read_only = True
                L = f.length()
                if r.random() < .06 and not f.arr and not f.bytes_attr and at - idb > 3:
                    share(r, f, at, idb)
                    L -= f.overlap
                fs.append(f)
                at += L
                left -= L
            vs.append(V("V" + "abcdef"[j], fs, vid=ids[j] if r.random() < .5 else None, invalid=j == bad, tuple=tup and bool(fs),
                        default=r.choice([None, None, None, "be", "le"])))
        if all(not v.fields for v in vs):
            vs[0].fields.append(F("a", "u16", 11))
        d = dict(default=r.choice(["be", "le", None]), reverse=r.random() < .35, lsb0=r.random() < .25)
        d.update(kw)
        out.append((f"emix{c}", Enum("E", idb, vs, **d)))
    return out


def classes(key, base=0, longest=24, types=None, room=72):
    """field lists that together place a field of every length 1..`longest` at every bit offset 0..7; the first one starts at bit `base`"""
    r = random.Random(f"bondrewd classes {key}")
    left = {o: list(range(1, longest + 1)) for o in range(8)}
    for v in left.values():
        r.shuffle(v)
    out = []
    while any(left.values()):
        fs, at, end = [], base, base + room
        while at < end and any(left.values()):
            k = at % 8
            if left[k]:
                L = left[k].pop()
                ok = [t for t in (types or INTS[:3] + SINTS[:3]) if W[t] >= L]
                fs.append(F(f"f{len(fs)}", r.choice(ok[:3]), L))
            else:
                # nothing left to place here: move to an offset that has some
                L = next(n for n in range(1, 9) if left[(k + n) % 8])
                fs.append(F(f"p{len(fs)}", "u8", L))
            at += L
        out.append(fs)
    return out


def kinds_of():
    """every kind of field, alone and in arrays"""
    return [[F("a", "bool"), F("c", "char", 21), F("n", inner13(), 13), F("k", pe3(), 4), F("w", "i16", arr=("block", 2, 21))],
            [F("f", "f32"), F("b", "bool", arr=("elem", 3, None)), F("g", "f64"), F("i", "i16", arr=("elem", 2, 11))],
            [F("v", data_enum(), 14), F("u", unit_enum(), 2), F("c", "char", arr=("elem", 2, 21)), F("q", "u16", arr=("elem", 3, 9)), F("k", pe3(), arr=("elem", 2, 3))],
            [F("m", inner13(), arr=("elem", 2, 13), struct_size=2), F("f", "f32", arr=("elem", 2, None)), F("k", pe3(), arr=("block", 2, 16)), F("w", "u8", arr=("block", 3, 19))]]


def kinds(en, rev, lsb0=False, off=3, **kw):
    return [(f"kind{n}_{off}", Struct("S", pad(off) + fs + [F("z", "i8", 5)], default=en, reverse=rev, lsb0=lsb0, **kw)) for n, fs in enumerate(kinds_of())]


def ekinds(en, rev, lsb0=False, idb=3):
    return [(f"ekind{n}_{idb}", Enum("E", idb, [V("Va", a + [F("z", "i8", 5)]), V("Vb", [F("z", "i8", 5)] + b)], default=en, reverse=rev, lsb0=lsb0))
            for n, (a, b) in enumerate([kinds_of()[:2], kinds_of()[2:]])]
