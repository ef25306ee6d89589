"""The properties: which declarations are encoded for each, and which operations are checked on them."""
from emit import *
from grid import *


class Spec:
    def __init__(self, cases, bounds, explanation="", assumptions=(), level="translation_validation", shards=8,
                 per_harness=400, unwind=300, timeout=240, build_timeout=800, wrap=False):
        self.cases, self.bounds, self.explanation, self.assumptions = cases, bounds, explanation, list(assumptions)
        self.level, self.shards, self.per_harness, self.unwind = level, shards, per_harness, unwind
        self.timeout, self.build_timeout = timeout, build_timeout
        self.wrap = wrap    # expand the macro as release builds do, without overflow checks of its own


PROPS = {}
EXPL = ("Each declaration is expanded by the derive macro of /repo's working tree, the generated functions are compiled by Kani from MIR "
        "to a goto program, and CBMC decides the check's assertions for every value of its symbolic input bytes; every counterexample is "
        "replayed natively (dev and release profile) before it is reported.")
ASSUME = ["The rustc/Kani translation to goto and CBMC's bit-precise semantics and SAT back end are trusted.",
          "The reference layout in vp/model.py states the documented layout rules.",
          "Declarations outside the stated grid are not covered."]


def prop(f):
    PROPS[f.__name__] = f
    return f


def build(name, tier, seed):
    s = PROPS[name](tier == "thorough", seed)
    s.explanation = s.explanation or EXPL
    s.assumptions = ASSUME + s.assumptions
    return s


def case(d, ops, tag):
    return Case(d, ops, tag=tag)


def offs(thorough, quick):
    return range(8) if thorough else quick


def mixed(key, ops, n, **kw):
    """random mixed structs, the same on every run"""
    return [case(d, ops, t) for t, d in soup(key, n, **kw)]


def emixed(key, ops, n, **kw):
    return [case(d, ops, t) for t, d in esoup(key, n, **kw)]


MIX = " Further structs that mix types, arrays, nested declarations, attributes, ranges and modes are drawn by a fixed rule (names mix*, emix* in the samples)."
CL = " Structs that together place every length of 1..24 bits at every bit offset, per endianness and reversal."
KD = " Every kind of field (numbers, bool, char, floats, nested structs and enums, primitive enums, arrays of them) in structs and in variants."
SH = " Redundant fields and fields that share bits (overlapping_bits), both written."
MODES = [(en, rev) for en in ("be", "le") for rev in (False, True)]


# ------------------------------------------------------------------ layout of scalar fields
def layout(en, thorough):
    cases = [case(d, ["dec", "get", "enc_canon"], f"{en}_{t}") for t, d in ints(thorough, default=en)]
    cases += [case(d, ["dec", "get", "enc_canon"], f"{en}_{t}") for t, d in ints(False, SINTS, SMALL, default=en)]
    # neighbours of different types and per-field endianness against the opposite default
    other = "le" if en == "be" else "be"
    for off in offs(thorough, (0, 3, 6)):
        fs = pad(off) + [F("b", "u16", 12, endian=en), F("c", "u16", 12), F("d", "i32", 20, endian=en), F("e", "u64", 37), F("g", "u8", endian=en), F("h", "bool")]
        cases.append(case(Struct("S", fs, default=other), ["dec", "get", "enc_canon"], f"{en}_perfield_{off}"))
        fs = pad(off) + [F("a", "u16", 9), F("b", "i16", 15), F("c", "u32"), F("d", "i64", 33), F("e", "u8", 5), F("f", "i8", 4), F("g", "bool"), F("z", "u128", 77)]
        cases.append(case(Struct("S", fs, default=en), ["dec", "get", "enc_canon"], f"{en}_mixed_{off}"))
    cases += [case(d, ["dec", "get", "enc_canon"], f"{en}_{t}") for t, d in far(en, thorough=thorough)]
    return cases


LB = ("integer types u8..u128, i8..i128; quick: lengths {} bits at all 8 bit offsets (lengths over 33 bits: 3 offsets); thorough: every length "
      "1..width at all 8 offsets; structs of 1..144 bytes; every byte array / every representable field value symbolic")


@prop
def C01(thorough, seed):
    return Spec(layout("be", thorough), LB.format(QUICK))


@prop
def C02(thorough, seed):
    cases = layout("le", thorough)
    # without any attribute numbers are little endian
    for n, fs in enumerate(([F("a", "u16"), F("b", "u32", 19), F("c", "i16", 13)], [F("p", "u8", 3), F("a", "u64", 45), F("b", "i32"), F("c", "u16", 9)])):
        cases.append(case(Struct("S", fs), ["dec", "get", "enc_canon"], f"default_{n}"))
        cases.append(case(Struct("S", fs, default="ne"), ["dec", "get", "enc_canon"], f"ne_{n}"))
    return Spec(cases, LB.format(QUICK))


@prop
def C03(thorough, seed):
    cases = []
    for en, rev in MODES:
        for t, d in ints(thorough, INTS + SINTS, SMALL, default=en, reverse=rev):
            cases.append(case(d, ["rt"], f"{mode(en, rev)}_{t}"))
        for off in offs(thorough, (0, 3)):
            fs = pad(off) + [F("a", "bool"), F("c", "char"), F("d", "f32"), F("n", inner13(), 13), F("e", "f64"), F("k", pe3(), 4), F("c2", "char", 21),
                             F("q", "u16", arr=("elem", 3, 9)), F("w", "u16", arr=("block", 3, 43)), F("z", "i16", 6)]
            cases.append(case(Struct("S", fs, default=en, reverse=rev), ["rt"], f"{mode(en, rev)}_all_{off}"))
    for en, rev in MODES:
        cases += [case(Struct("S", fs, default=en, reverse=rev), ["rt"], f"{mode(en, rev)}_cl{n}") for n, fs in enumerate(classes("c03" + mode(en, rev)))]
    cases += mixed("rt", ["rt"], 240 if thorough else 40)
    for en, rev in MODES:
        for lsb0 in (False, True):
            cases += [case(d, ["rt"], f"{t}_{mode(en, rev, lsb0)}") for o in offs(thorough, (3,)) for t, d in kinds(en, rev, lsb0, o)]
            cases += [case(d, ["ert"], f"{t}_{mode(en, rev, lsb0)}") for o in range(1, 9) if thorough or o == 3 for t, d in ekinds(en, rev, lsb0, o)]
    return Spec(cases, "types u8..i128, bool, char, f32, f64, nested struct, primitive enum, arrays; " + LB.format(SMALL) + CL + KD)


@prop
def C04(thorough, seed):
    cases = []
    for en, rev in MODES:
        for t, d in ints(thorough and not rev, INTS + SINTS, SMALL, default=en, reverse=rev):
            cases.append(case(d, ["enc"] + (["set"] if not thorough and int(t.split("_")[1]) <= 33 else []), f"{mode(en, rev)}_{t}"))
        for off in offs(thorough, (1, 6)):
            fs = pad(off) + [F("a", "u16", arr=("elem", 3, 9)), F("b", "u8", arr=("block", 3, 19)), F("k", pe3(), 4), F("c", "i32", 6), F("z", "u8", 3)]
            cases.append(case(Struct("S", fs, default=en, reverse=rev), ["enc", "set"], f"{mode(en, rev)}_mix_{off}"))
    for en, rev in MODES:
        cases += [case(Struct("S", fs, default=en, reverse=rev), ["enc"], f"{mode(en, rev)}_cl{n}") for n, fs in enumerate(classes("c04" + mode(en, rev)))]
    cases += mixed("enc", ["enc", "set"], 160 if thorough else 24)
    for en, rev in MODES:
        for lsb0 in (False, True):
            cases += [case(d, ["enc"], f"{t}_{mode(en, rev, lsb0)}") for o in offs(thorough, (5,)) for t, d in kinds(en, rev, lsb0, o)]
            cases += [case(d, ["eenc"], f"{t}_{mode(en, rev, lsb0)}") for o in range(1, 9) if thorough or o == 5 for t, d in ekinds(en, rev, lsb0, o)]
    return Spec(cases, "every value of the Rust type, not only those that fit; " + LB.format(SMALL) + CL + KD)


@prop
def C05(thorough, seed):
    cases = []
    for en, rev in MODES:
        table = QUICK if en == "be" and not rev else SMALL
        for t, d in ints(thorough and not rev, INTS, table, default=en, reverse=rev):
            cases.append(case(d, ["set_get"], f"{mode(en, rev)}_{t}"))
        for off in offs(thorough, (2, 5)):
            fs = pad(off) + [F("a", "bool"), F("i", "i16", 11), F("d", "f32"), F("n", inner13(), 13), F("k", pe3(), 4), F("q", "u16", arr=("elem", 3, 9)),
                             F("w", "u8", arr=("block", 3, 21)), F("j", "i8", 5), F("z", "u8", 6)]
            cases.append(case(Struct("S", fs, default=en, reverse=rev), ["set_get"], f"{mode(en, rev)}_mix_{off}"))
    for en, rev in MODES:
        cases += [case(Struct("S", fs, default=en, reverse=rev), ["set_get"], f"{mode(en, rev)}_cl{n}") for n, fs in enumerate(classes("c05" + mode(en, rev))[:: 1 if thorough or rev else 2])]
    cases += mixed("set", ["set_get"], 160 if thorough else 24)
    for en, rev in MODES:
        cases += [case(d, ["set_get"], f"{mode(en, rev)}_{t}") for t, d in far(en, rev, thorough=thorough)[:: 1 if thorough else 3]]
    for en, rev in MODES:
        cases += [case(d, ["set_get"], f"{t}_{mode(en, rev)}") for o in offs(thorough, (2,)) for t, d in kinds(en, rev, False, o)]
        cases += [case(d, ["eapart"], f"{t}_{mode(en, rev)}") for o in range(1, 9) if thorough or o == 2 for t, d in ekinds(en, rev, False, o)]
    return Spec(cases, "arbitrary previous contents of the array; " + LB.format(QUICK) + CL + KD)


@prop
def C06(thorough, seed):
    cases = []
    for en, rev in MODES:
        for t, d in ints(thorough and not rev, SINTS, SMALL if rev else QUICK, default=en, reverse=rev):
            cases.append(case(d, ["dec", "get"], f"{mode(en, rev)}_{t}"))
        for ty, n, b, off in (("i8", 3, 5, 1), ("i16", 3, 9, 2), ("i32", 2, 23, 0), ("i64", 2, 41, 7)):
            fs = pad(off) + [F("a", ty, arr=("elem", n, b)), F("z", "u8", 6)]
            cases.append(case(Struct("S", fs, default=en, reverse=rev), ["dec", "get"], f"{mode(en, rev)}_arr_{ty}_{b}"))
    for en, rev in MODES:
        cases += [case(Struct("S", fs, default=en, reverse=rev), ["dec", "get"], f"{mode(en, rev)}_cl{n}") for n, fs in enumerate(classes("c06" + mode(en, rev), types=SINTS[:3]))]
    return Spec(cases, "signed integer fields i8..i128; " + LB.format(QUICK) + CL)


@prop
def C07(thorough, seed):
    cases = []
    for en in ("be", "le"):
        for t, d in ints(thorough, INTS, QUICK, default=en, reverse=True):
            cases.append(case(d, ["dec", "get", "enc_canon"] + (["set"] if int(t.split("_")[1]) in (3, 8, 12, 17, 24) else []), f"{en}_{t}"))
        for off in offs(thorough, (0, 3)):
            fs = pad(off) + [F("a", "bool"), F("c", "char"), F("n", inner16(), 16), F("m", inner13(), 13), F("k", pe3(), 4), F("q", "u16", arr=("elem", 3, 9)),
                             F("w", "u8", arr=("block", 3, 21)), F("j", "i8", 5), F("z", "f32")]
            cases.append(case(Struct("S", fs, default=en, reverse=True), ["dec", "get", "enc_canon", "set_get"], f"{en}_mix_{off}"))
    cases += mixed("rev", ["dec", "get", "enc", "set"], 160 if thorough else 24, reverse=True)
    for en in ("be", "le"):
        cases += [case(d, ["dec", "get", "enc_canon", "set"], f"{en}_{t}") for t, d in far(en, True, thorough=thorough)[:: 1 if thorough else 2]]
    return Spec(cases, LB.format(QUICK))


def whole(fields):
    """append a field so that the declaration fills whole bytes"""
    t, _ = place(fields)
    return fields + ([F("fit", "u8", -t % 8)] if t % 8 else [])


@prop
def C08(thorough, seed):
    cases = []
    for en, rev in MODES:
        for ty in INTS[:4] + ["i16", "i64"]:
            for n, L in enumerate(lens(ty, thorough, SMALL)):
                if not thorough and L < 24 and n % 2:
                    continue   # shorter ones: see `classes` below
                for off in offs(thorough and L < 33, ((3 * n + 1) % 8,)):
                    fs = whole(pad(off) + [F("a", ty, L)])
                    cases.append(case(Struct("S", fs, default=en, reverse=rev, lsb0=True), ["dec", "get", "enc_canon", "set_get"], f"{mode(en, rev)}_{ty}_{L}_{off}"))
        for off in offs(thorough, (0, 3)):
            fs = whole(pad(off) + [F("a", "bool"), F("n", inner16(), 16), F("k", pe3(), 4), F("q", "u16", arr=("elem", 3, 9)),
                                   F("w", "u8", arr=("block", 3, 21)), F("j", "i8", 5), F("z", "f32")])
            cases.append(case(Struct("S", fs, default=en, reverse=rev, lsb0=True), ["dec", "get", "enc_canon", "set_get"], f"{mode(en, rev)}_mix_{off}"))
        kw = dict(default=en, reverse=rev, lsb0=True)
        ops = ["dec", "get", "enc_canon", "set_get", "const"]
        for n, off in enumerate(offs(thorough, (0, 5))):
            # declarations that end inside a byte, with fill bytes, with explicit ranges and gaps
            cases.append(case(Struct("S", pad(off) + [F("a", "u8", 4), F("b", "u16", 9), F("d", "i32", 19 + n)], **kw), ops, f"{mode(en, rev)}_part_{off}"))
            cases.append(case(Struct("S", pad(off) + [F("a", "u8", 4), F("b", "u16", 9), F("c", "u8", 3)], fill=4, **kw), ops, f"{mode(en, rev)}_fill_{off}"))
            cases.append(case(Struct("S", pad(off) + [F("a", "u8", 4), F("b", "u16", rng=(off + 4, off + 13)), F("c", "u8", 3)], **kw), ops, f"{mode(en, rev)}_rng_{off}"))
            cases.append(case(Struct("S", pad(off) + [F("a", "u8", 4), F("b", "u16", rng=(off + 7, off + 18)), F("c", "i16", 11)], **kw), ops, f"{mode(en, rev)}_gap_{off}"))
        for t, d in sharing(en, rev, lsb0=True):
            cases.append(case(d, (["edec", "eget", "eenc", "eset"] if d.is_enum else ["dec", "get", "enc", "set", "const"]), f"{mode(en, rev)}_{t}"))
        for t, d in enums(en, rev, True)[:: 1 if thorough else 3]:
            cases.append(case(d, ["edec", "eget", "eenc", "ert"], f"{mode(en, rev)}_enum_{t}"))
    for en, rev in MODES:
        cases += [case(Struct("S", fs, default=en, reverse=rev, lsb0=True), ["dec", "get", "enc"], f"{mode(en, rev)}_cl{n}") for n, fs in enumerate(classes("c08" + mode(en, rev)))]
    cases += mixed("lsb0", ["dec", "get", "enc", "set", "const"], 160 if thorough else 24, lsb0=True)
    cases += emixed("lsb0", ["edec", "eget", "eenc"], 100 if thorough else 8, lsb0=True)
    for en, rev in MODES:
        cases += [case(d, ["dec", "get", "enc_canon", "set"], f"{mode(en, rev)}_{t}") for t, d in far(en, rev, True, thorough)[:: 1 if thorough else 3]]
    for en, rev in MODES:
        cases += [case(d, ["dec", "get", "enc", "set"], f"{t}_{mode(en, rev, True)}") for o in offs(thorough, (6,)) for t, d in kinds(en, rev, True, o)]
        cases += [case(d, ["edec", "eget", "eenc", "eset"], f"{t}_{mode(en, rev, True)}") for o in range(1, 9) if thorough or o == 6 for t, d in ekinds(en, rev, True, o)]
    return Spec(cases, "declarations that fill whole bytes and declarations that end inside a byte, with fill bytes, explicit ranges and gaps; data enums; " + LB.format(SMALL) + CL + KD + SH)


@prop
def C09(thorough, seed):
    cases = []
    ops = ["dec", "get", "enc_canon", "set_get"]
    el = [("u8", 3, 5), ("u8", 4, None), ("u16", 3, 11), ("u16", 2, 16), ("u32", 2, 20), ("bool", 5, None), ("i16", 3, 9), ("u64", 2, 33), ("i8", 3, 4), ("f32", 2, None), ("char", 2, None), ("u128", 2, 70)]
    bl = [("u8", 3, 20), ("u8", 3, 24), ("u16", 3, 43), ("u16", 2, 32), ("u32", 2, 40), ("u16", 2, 17), ("u8", 9, 65), ("u64", 2, 100)]
    el += [("u8", 16, 5), ("bool", 33, None), ("u16", 19, 9), ("u32", 9, 32)]
    bl += [("u8", 16, 123), ("u16", 17, 17 * 16 - 5), ("u32", 9, 9 * 32), ("u8", 33, 33 * 8)]
    if thorough:
        el += [("u8", n, b) for n in (1, 2, 5, 8) for b in (1, 2, 3, 6, 7, 8)] + [("u32", 3, b) for b in (1, 7, 9, 17, 25, 31)]
        bl += [("u8", n, n * 8 - m) for n in (2, 4) for m in range(8)] + [("u16", 2, 32 - m) for m in range(16)] + [("u32", 2, 64 - m) for m in (0, 5, 9, 20, 31)]
    for en, rev in MODES:
        for k, (ty, n, b) in enumerate(el):
            for off in offs(thorough and k < 12, ((3 * k + 1) % 8,)):
                cases.append(case(Struct("S", pad(off) + [F("a", ty, arr=("elem", n, b)), F("z", "u8", 6)], default=en, reverse=rev), ops, f"el_{mode(en, rev)}_{ty}_{n}_{b}_{off}"))
        # every spelling of the lengths and places of arrays of full-size and shortened elements
        for k, (ty, arr) in enumerate([("f32", ("elem", 2, 32)), ("f64", ("elem", 2, 64)), ("f32", ("block", 2, 64)), ("f64", ("block", 2, 128)), ("char", ("elem", 2, 21)), ("char", ("elem", 2, 24)), ("char", ("elem", 2, 32)),
                                       ("char", ("block", 2, 64)), ("char", ("block", 2, 50)), ("bool", ("elem", 4, 1)), ("i8", ("block", 3, 21)), ("i16", ("block", 2, 25)), ("i32", ("block", 2, 43)), ("i64", ("block", 2, 90)),
                                       ("u128", ("block", 2, 200)), ("u8", ("block", 1, 5)), ("u32", ("block", 1, 19)), ("u128", ("elem", 1, 77))]):
            for j, (by, rng) in enumerate(((False, False), (True, False), (False, True), (True, True))):
                if by and arr[2] % 8 or not thorough and j % 2 != (k + rev) % 2:
                    continue
                off = (3 * k + 1) % 8
                a = F("a", ty, arr=arr, bytes_attr=by)
                a.rng = (off + 2, off + 2 + a.length()) if rng else None
                cases.append(case(Struct("S", pad(off) + [a, F("z", "u8", 6)], default=en, reverse=rev), ops, f"ar_{mode(en, rev)}_{ty}_{arr[0]}{arr[1]}_{arr[2]}_{by}_{rng}"))
        for k, (ty, n, b) in enumerate(bl):
            for off in offs(thorough and k < 8, ((3 * k + 2) % 8,)):
                cases.append(case(Struct("S", pad(off) + [F("a", ty, arr=("block", n, b)), F("z", "u8", 6)], default=en, reverse=rev), ops, f"bl_{mode(en, rev)}_{ty}_{n}_{b}_{off}"))
    return Spec(cases, "element and block arrays of 1..33 elements: u8..u128, i8..i64, bool, char, f32, f64, with lengths in bits or bytes and with or without an explicit range; element lengths, block lengths and bit offsets as listed in samples; all values symbolic")


@prop
def C10(thorough, seed):
    cases = []
    ops = ["dec", "get", "enc", "set_get", "rt"]
    for en, rev in MODES:
        m = mode(en, rev)
        kw = dict(default=en, reverse=rev)
        for off in offs(thorough, (0, 3, 4)):
            p = pad(off)
            z = F("z", "u8", 6)
            cases.append(case(Struct("S", p + [F("a", inner13(), 13), z], **kw), ops, f"n13_{m}_{off}"))
            cases.append(case(Struct("S", p + [F("a", inner16(), 16), F("b", inner16(), struct_size=2), z], **kw), ops, f"n16_{m}_{off}"))
            cases.append(case(Struct("S", p + [F("a", inner_le(), 24), z], **kw), ops, f"nle_{m}_{off}"))
            cases.append(case(Struct("S", p + [F("a", inner_rev(), 16), z], **kw), ops, f"nrev_{m}_{off}"))
            cases.append(case(Struct("S", p + [F("a", inner16(), struct_size=2, arr=("elem", 2, 16)), z], **kw), ops, f"arr16_{m}_{off}"))
            cases.append(case(Struct("S", p + [F("c", inner13(), arr=("elem", 2, 13), struct_size=2), z], **kw), ops, f"arr13_{m}_{off}"))
            cases.append(case(Struct("S", p + [F("a", unit_enum(), 2), F("b", unit_enum(), arr=("elem", 3, 2)), z], **kw), ops, f"unit_{m}_{off}"))
            cases.append(case(Struct("S", p + [F("a", data_enum(), 14), F("b", data_enum(), 14), z], **kw), ops, f"data_{m}_{off}"))
            cases.append(case(Struct("S", p + [F("a", pe3(), 5), F("b", pe3(), 8), F("c", pe3(), arr=("elem", 2, 3)), z], **kw), ops, f"penum_{m}_{off}"))
        for k, (ty, arr, ss) in enumerate([(pe3(), ("block", 2, 16), None), (pe3(), ("block", 3, 21), None), (inner16(), ("block", 2, 32), 2), (inner_le(), ("block", 2, 48), 3), (unit_enum(), ("block", 2, 16), 1)]):
            cases.append(case(Struct("S", pad((3 * k + 1) % 8) + [F("a", ty, arr=arr, struct_size=ss), F("z", "u8", 6)], **kw), ops, f"block{k}_{m}"))
        for k, L in enumerate((1, 2, 7, 8, 9, 10, 15, 17, 18, 23, 25, 31, 33, 41)):
            # every length of the nested declaration relative to whole bytes, at every bit offset in turn
            for off in offs(thorough, ((5 * k + 2 * (en == "le") + rev) % 8,)):
                cases.append(case(Struct("S", pad(off) + [F("a", inner(L), L), F("z", "u8", 6)], **kw), ops, f"len{L}_{m}_{off}"))
        mid = Struct("Mid", [F("h", "u8", 5), F("i", inner13(), 13), F("t", "u8", 6)], default="le")
        cases.append(case(Struct("S", [F("p", "bool"), F("m", mid, 24), F("z", "u8", 6)], **kw), ops, f"deep_{m}"))
    return Spec(cases, "nested structs of 1..41 bits (big/little endian, reversed, two levels), nested unit and data enums, primitive enums, element and block arrays of them, at the listed bit offsets (thorough: all 8); all values symbolic")


@prop
def C11(thorough, seed):
    cases = []
    for en, rev in MODES:
        for off in offs(thorough, (0, 1, 6)):
            for n, f in enumerate(([F("a", "bool"), F("b", "bool"), F("c", "bool", 3)], [F("a", "char")], [F("a", "char", 21)], [F("a", "char", 24)], [F("a", "f32")], [F("a", "f64")],
                                   [F("a", "char", arr=("elem", 2, None)), F("b", "f32", arr=("elem", 2, None)), F("c", "bool", arr=("elem", 3, None))])):
                if n == 0:
                    f = f[:2]
                cases.append(case(Struct("S", pad(off) + f + [F("z", "u8", 6)], default=en, reverse=rev), ["dec", "get", "enc_canon", "set_get"], f"{mode(en, rev)}_{n}_{off}"))
    for en, rev in MODES:
        for lsb0 in (False, True):
            cases += [case(d, ["dec", "get", "enc", "set_get"], f"{t}_{mode(en, rev, lsb0)}") for o in offs(thorough, (1,)) for t, d in kinds(en, rev, lsb0, o)]
            cases += [case(d, ["eget", "eenc", "ert"], f"{t}_{mode(en, rev, lsb0)}") for o in range(1, 9) if thorough or o == 1 for t, d in ekinds(en, rev, lsb0, o)]
    return Spec(cases, "bool, char (21, 24 and 32 bits), f32, f64 and arrays of them at the listed bit offsets (thorough: all 8); all bit patterns symbolic, NaN payloads included" + KD)


@prop
def C12(thorough, seed):
    cases = []
    for en, rev in MODES:
        m = mode(en, rev)
        kw = dict(default=en, reverse=rev)
        for off in offs(thorough, (0, 4)):
            p = pad(off)
            n = off
            cases.append(case(Struct("S", p + [F("b", "u16", 9, reserve=True), F("c", "u32", 18), F("d", "i16", 11)], **kw), ["dec", "get", "enc", "set"], f"reserve_{m}_{off}"))
            cases.append(case(Struct("S", p + [F("r1", "u8", 3, reserve=True), F("r2", "u8", arr=("elem", 2, 3), reserve=True), F("b", "bool", reserve=True), F("d", "i16", 11)], **kw), ["dec", "get", "enc", "set"], f"reserve2_{m}_{off}"))
            cases.append(case(Struct("S", p + [F("b", "u16", 9), F("c", "u32", 18, read_only=True), F("d", "i16", 11)], **kw), ["dec", "get", "enc", "set"], f"ro_{m}_{off}"))
            cases.append(case(Struct("S", p + [F("b", "u16", 9), F("r", "u8", None, rng=(2, 9), redundant=True), F("d", "i16", 11)], **kw), ["dec", "get", "enc", "set", "const"], f"redundant_{m}_{off}"))
            cases.append(case(Struct("S", p + [F("b", "u16", 9), F("r", "u16", overlap=7 + off, rng=(2, 9 + off), read_only=True), F("d", "i16", 11, rng=(9 + off, 20 + off))], **kw), ["dec", "get", "enc", "set", "const"], f"overlap_{m}_{off}"))
        for t, d in sharing(en, rev):
            cases.append(case(d, (["edec", "eget", "eenc", "ert", "eset"] if d.is_enum else ["dec", "get", "enc", "rt", "set", "const"]), f"{m}_{t}"))
        for fill, fs in ((3, [F("a", "u8", 4), F("b", "u16", 9)]), (20, [F("a", "u8", 4), F("b", "u16", 9)]), (2, [F("a", "u8")]), (5, [F("a", "u32", 27), F("b", "bool")])):
            cases.append(case(Struct("S", fs, fill=fill, **kw), ["dec", "get", "enc", "set", "const"], f"fill{fill}_{m}"))
        for fill, fs in ((1, [F("a", "u8", 4), F("b", "u16", 9)]), (1, [F("a", "u8")]), (2, [F("a", "u8", 4), F("b", "u16", 9)]), (3, [F("a", "u32", 25)])):
            cases.append(Case(Struct("S", fs, fill=fill, **kw), [op_enf(f"B == {8 * fill}", "fill_bytes is not the size")], tag=f"fillsmall{fill}_{m}", refusable=sum(f.length() for f in fs) > 8 * fill))
    cases += mixed("special", ["dec", "get", "enc", "set", "const"], 160 if thorough else 24)
    return Spec(cases, "reserve, read_only, redundant, overlapping_bits and fill_bytes (larger than, equal to and smaller than the fields) declarations of 2..20 bytes, both endiannesses, with and without reverse; all bytes and values symbolic" + SH)


@prop
def C13(thorough, seed):
    cases = []
    ops = ["dec", "get", "enc", "rt", "set_get", "const"]
    for en, rev in MODES:
        kw = dict(default=en, reverse=rev)
        m = mode(en, rev)
        for off in offs(thorough, (1, 4, 7)):
            for ty, L in (("u8", 5), ("u16", 12), ("i32", 29), ("u64", 40), ("u128", 75)):
                s, e = off, off + L
                fs = pad(off) + [F("a", ty, rng=(s, e)), F("b", "u16", 11), F("c", "i16", rng=(e + 11, e + 24))]
                cases.append(case(Struct("S", fs, **kw), ops, f"{m}_{ty}_{off}"))
        cases.append(case(Struct("S", [F("a", "bool", rng=(0, 1)), F("b", "u16", rng=(1, 12)), F("c", "u8", arr=("elem", 3, 3)), F("d", "i32", rng=(21, 50)), F("e", "u8")], **kw), ops, f"{m}_all"))
        for n, off in enumerate(offs(thorough, (2, 7))):
            cases.append(case(Struct("S", [F("a", "u16", rng=(off, off + 11)), F("b", "u16", 9)], **kw), ops, f"{m}_lead_{off}"))
            cases.append(case(Struct("S", [F("a", "u8", 4), F("b", "i32", rng=(4 + off, 32 + off)), F("c", "u16", 9)], **kw), ops, f"{m}_gap_{off}"))
            cases.append(case(Struct("S", [F("a", "u8", 4), F("b", "u64", rng=(19 + off, 70 + off)), F("c", "bool"), F("d", "u8", rng=(81, 84))], **kw), ops, f"{m}_gaps_{off}"))
            cases.append(case(Struct("S", [F("a", "u8", rng=(20 + off, 25 + off)), F("b", "i16", rng=(0, 12)), F("c", "u8", 6)], **kw), ops, f"{m}_order_{off}"))
            cases.append(case(Struct("S", [F("a", "u8", arr=("elem", 2, 3), rng=(off, off + 6)), F("b", "u16", 10)], **kw), ops, f"{m}_el_{off}"))
            cases.append(case(Struct("S", [F("a", "u16", arr=("block", 2, 23), rng=(off, off + 23)), F("b", "u16", 10)], **kw), ops, f"{m}_bl_{off}"))
            cases.append(case(Struct("S", [F("a", "u16", arr=("elem", 3, 7), rng=(off, off + 21), infer=True), F("c", "i32", arr=("elem", 2, 19), rng=(off + 21, off + 59), infer=True), F("b", "u16", 10)], **kw), ops, f"{m}_infer_{off}"))
            cases.append(case(Struct("S", [F("n", inner13(), rng=(off, off + 13)), F("k", pe3(), rng=(off + 14, off + 17)), F("b", "u16", 10)], **kw), ops, f"{m}_nest_{off}"))
    cases += mixed("place", ["dec", "get", "enc", "set", "const"], 160 if thorough else 16)
    return Spec(cases, "explicit ranges that continue the preceding field, leave gaps before or between fields or come out of order, of 3..75 bits, integers, arrays, nested structs and primitive enums, at the listed offsets (thorough: all 8); all bytes and values symbolic")


# ------------------------------------------------------------------ enums
EMODES = [(en, rev) for en in ("be", "le", None) for rev in (False, True)]


@prop
def C14(thorough, seed):
    cases = []
    for en, rev in EMODES:
        for t, d in enums(en, rev) + wide_enums(en, rev, thorough):
            cases.append(case(d, ["edec", "eid"] + (["eget"] if thorough else []), f"{t}_{mode(en, rev)}"))
        for t, d in id_enums(en, rev, thorough):
            cases.append(case(d, ["edec", "eid"], f"{t}_{mode(en, rev)}"))
    cases += emixed("pick", ["edec", "eid"], 160 if thorough else 30)
    for en, rev in EMODES[:: 1 if thorough else 5]:
        cases += [case(d, ["edec", "eid"], f"{t}_{mode(en, rev)}") for t, d in many_variants(en, rev, thorough)]
    return Spec(cases, "data-carrying enums of 2..5 variants, id of 1..11 bits and of 12..128 bits (quick: 16, 23, 32, 33, 65), per-variant endianness, explicit/assigned/captured ids, first/middle/last catch-all, named and tuple variants; every byte array and every value of every variant symbolic")


@prop
def C15(thorough, seed):
    cases = []
    for en, rev in EMODES:
        for n, (t, d) in enumerate(enums(en, rev) + wide_enums(en, rev, thorough)):
            cases.append(case(d, ["eget", "eenc", "ert"] + (["eset"] if thorough or n % 2 == (en == "be") else []), f"{t}_{mode(en, rev)}"))
    for m, (en, rev) in enumerate(MODES):
        for idb in range(1, 9) if thorough else (1 + 2 * m, 2 + 2 * m):
            cl = classes(f"c15{mode(en, rev)}{idb}", idb, room=48 if thorough else 64)
            for n in range(0, len(cl) - 3, 4 if thorough else 12):
                vs = [V("V" + "abcd"[k], fs) for k, fs in enumerate(cl[n:n + 4 if idb > 1 else n + 2])]
                cases.append(case(Enum("E", idb, vs, default=en, reverse=rev), ["eget", "eenc"], f"cl{idb}_{n}_{mode(en, rev)}"))
    cases += emixed("pay", ["eget", "eenc", "ert", "eset"], 120 if thorough else 16)
    for en, rev in MODES:
        cases += [case(d, ["eget", "eenc", "ert", "eset"], f"{t}_{mode(en, rev)}") for o in range(1, 9) if thorough or o == 4 for t, d in ekinds(en, rev, False, o)]
    return Spec(cases, "data-carrying enums of 2..5 variants, id of 1..11 bits and of 12..128 bits (quick: 16, 23, 32, 33, 65), per-variant and per-field endianness, explicit ranges, redundant and read_only payload fields, payloads of 0..32 bits with integers, signed integers, bools, arrays and nested structs; every byte array and value symbolic" + CL + KD)


def penums():
    A, B, C = ("A", None), ("B", None), ("C", None)
    return [("last", PEnum("P", [A, B, C])), ("catch", PEnum("P", [A, B, C], catch=(2, None))), ("catchnamed", PEnum("P", [A, B, C], catch=(1, "x"))),
            ("catchfirst", PEnum("P", [A, B, C], catch=(0, None))), ("catchlit", PEnum("P", [("A", 3), B, ("C", 0), ("D", None), ("E", 200)], catch=(3, None))),
            ("lits", PEnum("P", [("L", 42), ("M", 0), ("X", 255), ("U", 13)])), ("mix", PEnum("P", [("N", 9), ("O", None), ("Z", 0), ("F", 5), ("T", None)])),
            ("inv", PEnum("P", [("N", 9), ("O", None), ("Z", 0), ("F", 5), ("T", None)], invalid=2)), ("inv1", PEnum("P", [A, B, C], invalid=1)),
            ("inv0", PEnum("P", [A, ("B", 1), C, ("D", None)], invalid=0)), ("one", PEnum("P", [A, B])), ("top", PEnum("P", [("A", 255), ("B", 0), ("C", None), ("X", 254), ("D", 2)])),
            ("long", PEnum("P", [(f"V{j}", 3 * j if j % 4 == 0 else None) for j in range(17)]))]


def long_penums(thorough):
    """primitive enums with many variants; 256 and more make the number a u16"""
    out = [(f"n{n}", PEnum("P", [(f"V{j}", None) for j in range(n)])) for n in ((255, 256, 257, 300, 512) if thorough else (255, 256))]
    out.append(("n280l", PEnum("P", [(f"V{j}", 65535 if j == 9 else 300 if j == 100 else 40000 + j if j % 50 == 7 else None) for j in range(280)])))
    out.append(("n280i", PEnum("P", [(f"V{j}", 1000 if j == 9 else None) for j in range(280)], invalid=270)))
    for n in (70, 130, 255) if thorough else (70,):
        out.append((f"n{n}c", PEnum("P", [(f"V{j}", 255 if j == n - 1 else None) for j in range(n)], catch=(n // 3, None))))
    return out


@prop
def C16(thorough, seed):
    cases = [case(d, ["prim"], t) for t, d in penums() + long_penums(thorough)]
    for en, rev in MODES:
        for off in offs(thorough, (0, 5)):
            for t, d in penums()[:10:3]:
                cases.append(case(Struct("S", pad(off) + [F("a", d, 5), F("b", d, 8), F("z", "u8", 6)], default=en, reverse=rev), ["dec", "get", "enc_canon", "set_get"], f"field_{t}_{mode(en, rev)}_{off}"))
    return Spec(cases, "13 primitive enums of 2..17 variants (u8): all 256 numbers, every value; as fields of 5 and 8 bits")


# ------------------------------------------------------------------ slices, hex
def slice_structs(en, rev):
    kw = dict(default=en, reverse=rev)
    return [("ints", Struct("S", [F("a", "u8", 3), F("b", "u16", 11), F("c", "i8", 6), F("d", "u32", 13)], **kw)), ("wide", Struct("S", [F("a", "u8", 3), F("b", "u32", 27), F("c", "u64", 39), F("e", "u8", 7)], **kw)),
            ("aligned", Struct("S", [F("a", "u8"), F("b", "u16"), F("c", "u32", 24), F("d", "u8")], **kw)),
            ("mixed", Struct("S", [F("p", "u8", 3), F("n", inner16(), 16), F("b", "u8", arr=("elem", 3, 4)), F("rr", "u8", 5, reserve=True), F("c", "u16", arr=("block", 2, 20)), F("k", pe3(), 3), F("t", "bool")], **kw)),
            ("fill", Struct("S", [F("a", "u8", 5), F("b", "u16", 10)], fill=4, **kw))]


def lsb0_struct(en, rev):
    return Struct("S", [F("a", "u8", 3), F("b", "u16", 11), F("c", "i8", 6), F("d", "u16", 12)], default=en, reverse=rev, lsb0=True)


@prop
def C17(thorough, seed):
    cases = []
    for en, rev in MODES:
        for t, d in slice_structs(en, rev) + [("lsb0", lsb0_struct(en, rev))]:
            cases.append(case(d, ["sl_len"], f"{t}_{mode(en, rev)}"))
        for t, d in enums(en, rev)[::3 if not thorough else 1]:
            cases.append(case(d, ["esl_len"], f"{t}_{mode(en, rev)}"))
        for t, d in sharing(en, rev)[:: 1 if thorough else 4]:
            cases.append(case(d, ["esl_len" if d.is_enum else "sl_len"], f"{t}_{mode(en, rev)}"))
        if thorough:
            for t, d in ints(False, INTS + SINTS, SMALL, default=en, reverse=rev):
                cases.append(case(d, ["sl_len"], f"{t}_{mode(en, rev)}"))
    cases += mixed("len", ["sl_len"], 120 if thorough else 12) + emixed("len", ["esl_len"], 80 if thorough else 8)
    for en, rev in MODES:
        cases += [case(d, ["sl_len"], f"{mode(en, rev)}_{t}") for t, d in far(en, rev, False, thorough)[:: 1 if thorough else 4]]
    return Spec(cases, "slices of every length from 0 to BYTE_SIZE + 2 with arbitrary contents; structs of 2..10 bytes and data enums of 2..5 bytes" + SH, per_harness=100)


@prop
def C18(thorough, seed):
    cases = []
    for en, rev in MODES:
        for t, d in slice_structs(en, rev) + [("lsb0", lsb0_struct(en, rev))]:
            cases.append(case(d, ["sl_get", "sl_set", "checked", "checked_mut", "unchecked", "from_slice"], f"{t}_{mode(en, rev)}"))
        for t, d in enums(en, rev)[1::4 if not thorough else 1]:
            cases.append(case(d, ["eviews", "esl", "echecked", "unchecked", "from_slice"], f"{t}_{mode(en, rev)}"))
        for t, d in sharing(en, rev)[0 if thorough else 2 * (en == "le") + rev:: 1 if thorough else 4]:
            cases.append(case(d, ["esl", "echecked", "unchecked"] if d.is_enum else ["sl_get", "sl_set", "checked", "checked_mut", "unchecked"], f"{t}_{mode(en, rev)}"))
        if thorough:
            for t, d in ints(False, INTS + SINTS, SMALL, default=en, reverse=rev):
                cases.append(case(d, ["sl_get", "checked"], f"{t}_{mode(en, rev)}"))
    cases += mixed("slice", ["sl_get", "sl_set", "checked", "checked_mut", "unchecked", "from_slice"], 80 if thorough else 8) + emixed("slice", ["eviews", "esl", "echecked", "unchecked", "from_slice"], 60 if thorough else 6)
    for en, rev in MODES:
        cases += [case(d, ["sl_get", "sl_set", "checked", "checked_mut"], f"{t}_{mode(en, rev)}") for o in offs(thorough, (2,)) for t, d in kinds(en, rev, False, o)[0 if thorough else (rev != (en == "le")):: 1 if thorough else 2]]
        cases += [case(d, ["esl", "echecked"], f"{t}_{mode(en, rev)}") for o in range(1, 9) if thorough or o == 2 for t, d in ekinds(en, rev, False, o)[0 if thorough else (rev != (en == "le")):: 1 if thorough else 2]]
    return Spec(cases, "slices of every length from 0 to BYTE_SIZE + 2 with arbitrary contents; structs of 2..23 bytes and data enums of 2..22 bytes; every value written" + KD + SH, per_harness=100)


@prop
def C19(thorough, seed):
    cases = []
    for n, (en, rev) in enumerate(MODES):
        for t, d in slice_structs(en, rev)[:: 1 if thorough else 2]:
            cases.append(case(d, ["hex"], f"{t}_{mode(en, rev)}"))
        t, d = enums(en, rev)[3 * n]
        cases.append(case(d, ["hex"], f"{t}_{mode(en, rev)}"))
    cases += mixed("hex", ["hex"], 60 if thorough else 8, room=(10, 48)) + emixed("hex", ["hex"], 40 if thorough else 5)
    return Spec(cases, "every value and every string of 2*BYTE_SIZE arbitrary bytes, slices of every length up to 2*BYTE_SIZE + 2; structs of 3..10 bytes and data enums", per_harness=100)


@prop
def C20(thorough, seed):
    cases = []
    for t, d in penums() + [("n40", PEnum("P", [(f"V{j}", 255 if j == 9 else 90 if j == 20 else None) for j in range(40)]))]:
        d.attr = "u8, partial_eq"
        cases.append(case(d, ["prim_eq"], f"prim_{t}"))
    for en, rev in EMODES:
        for t, d in enums(en, rev)[:: 1 if thorough else 2]:
            cases.append(case(d, ["eparteq"], f"{t}_{mode(en, rev)}"))
    cases += emixed("eq", ["eparteq"], 120 if thorough else 20)
    return Spec(cases, "14 primitive enums of 2..40 variants with partial_eq and data-carrying enums with ids of 1..11 bits, compared with every number of the id type")


@prop
def C21(thorough, seed):
    cases = []
    for en, rev in MODES[:: 1 if thorough else 3]:
        for t, d in ints(thorough, INTS, SMALL, default=en, reverse=rev)[:: 1 if thorough else 2]:
            cases.append(case(d, ["const"], f"{t}_{mode(en, rev)}"))
        for t, d in sharing(en, rev):
            cases.append(case(d, ["econst" if d.is_enum else "const"], f"{t}_{mode(en, rev)}"))
        for t, d in slice_structs(en, rev):
            cases.append(case(d, ["const"], f"{t}_{mode(en, rev)}"))
        for t, d in enums(en, rev):
            cases.append(case(d, ["econst"], f"{t}_{mode(en, rev)}"))
    cases += mixed("const", ["const"], 240 if thorough else 40) + emixed("const", ["econst"], 120 if thorough else 15)
    return Spec(cases, "structs of every integer type (lengths " + str(SMALL) + ", thorough: every length), mixed structs and data enums, fill bytes included; two arrays differing arbitrarily in the spare bits, every value" + SH)


@prop
def C22(thorough, seed):
    cases = []
    groups = [[F("a", "bool"), F("c", "char"), F("d", "f32"), F("z", "i16", 6)], [F("n", inner13(), 13), F("k", pe3(), 4), F("u", unit_enum(), 2), F("v", data_enum(), 14)],
              [F("c2", "char", 21), F("q", "u16", arr=("elem", 3, 9)), F("w", "u16", arr=("block", 2, 27))], [F("big", "i128", 99)], [F("f", "f64"), F("s", "i8", 3), F("t", "u32", 23)]]
    for en, rev in MODES:
        for off in offs(thorough, (0, 3)):
            for n, g in enumerate(groups):
                cases.append(case(Struct("S", pad(off) + g, default=en, reverse=rev), ["total"], f"{mode(en, rev)}_{n}_{off}"))
        for t, d in sharing(en, rev)[:: 1 if thorough else 4]:
            cases.append(case(d, ["total"], f"{t}_{mode(en, rev)}"))
        for t, d in enums(en, rev):
            cases.append(case(d, ["total"], f"{t}_{mode(en, rev)}"))
    cases += mixed("total", ["total"], 120 if thorough else 12) + emixed("total", ["total"], 80 if thorough else 8)
    return Spec(cases, "structs of 4..17 bytes with every supported field type and data enums of 2..5 bytes; arbitrary bytes, values of the Rust types and slices of every length from 0 to BYTE_SIZE + 2" + SH, per_harness=60)


@prop
def C23(thorough, seed):
    cases = []

    def add(d, ops, tag, bad):
        cases.append(Case(d, ops, tag=tag, refusable=bad))
    for n, (en, rev) in enumerate(MODES):
        for lsb0 in (False, True):
            for k, (t, d, bad) in enumerate(overlaps(en, rev, lsb0, thorough)):
                if thorough or k % 4 == (n + 2 * lsb0) % 4:
                    add(d, ["apart", "rt"], f"{t}_{mode(en, rev, lsb0)}", bad)
        for t, d, ops, bad in contradictions(en, rev, thorough):
            add(d, ops, f"{t}_{mode(en, rev)}", bad)
        for t, d, cond, bad in sizes(en, rev):
            add(d, [op_enf(cond, "the enforced size is not the size"), "const"], f"{t}_{mode(en, rev)}", bad)
        for k, (t, d, cond, bad) in enumerate(esizes(en, rev)):
            if thorough or k % 4 == n:
                add(d, [op_enf(cond, "the enforced size is not the size"), "econst"], f"{t}_{mode(en, rev)}", bad)
    for t, d in bad_penums():
        add(d, ["prim_self"], f"pe_{t}", not t.startswith("ok"))
    return Spec(cases, wrap=True, bounds="pairs of ranges in every relation (equal, inside, around, overlapping at either end, adjacent, apart) of 1..17 bits with and without a third field, scalars, arrays, nested, read_only and reserve "
                "fields, lsb0 and reversed; fields wider than their type; enum payloads over the id; ids used twice, too large or too many; enforced bits, bytes and full bytes of structs, enums and variants; overlapping_bits longer than the field; blocks too short or too long for their elements; empty and reversed ranges; primitive enums with equal or too large numbers; for accepted "
                "ones every array content and value; the derive runs without overflow checks, as in release builds, so that arithmetic which wraps is no refusal")


@prop
def C24(thorough, seed):
    cases = [case(d, ["dec", "get", "enc", "const"], f"w{t}") for t, d in other_words("spell", 160 if thorough else 40)]
    cases += [case(d, ["edec", "eget", "eenc", "eid"], f"w{t}") for t, d in eother_words("spell", 80 if thorough else 24)]
    cases += [case(d, ["edec", "eenc"] if d.is_enum else ["dec", "enc"], t) for t, d in synonyms()]
    return Spec(cases, "every endianness synonym as default of structs, enums and variants and as attribute of fields; structs of up to 6 fields and data enums of up to 4 variants written with every attribute in another documented spelling: order of attributes, one or several #[bondrewd(..)], byte lengths for bit lengths, "
                "lengths left to the type or to the nested declaration, endianness synonyms (le lsb little lil / ne native / be msb big), explicit consecutive ranges, read_from = msb0, explicit consecutive ids, discriminants instead of id attributes; "
                "all bytes and values symbolic")


@prop
def C26(thorough, seed):
    cases = []
    for en, rev in MODES:
        for t, d in ints(False, INTS + SINTS, QUICK if thorough else SMALL, default=en, reverse=rev)[:: 1 if thorough else 2]:
            cases.append(case(d, ["views"], f"{mode(en, rev)}_{t}"))
        for t, d in sharing(en, rev):
            cases.append(case(d, ["eviews" if d.is_enum else "views"], f"{t}_{mode(en, rev)}"))
        for t, d in slice_structs(en, rev) + [("lsb0", lsb0_struct(en, rev))]:
            cases.append(case(d, ["views"], f"{mode(en, rev)}_{t}"))
        for t, d in enums(en, rev)[:: 1 if thorough else 2]:
            cases.append(case(d, ["eviews"], f"{mode(en, rev)}_{t}"))
    cases += mixed("views", ["views"], 160 if thorough else 24) + emixed("views", ["eviews"], 100 if thorough else 12)
    for en, rev in MODES:
        for lsb0 in (False, True):
            cases += [case(d, ["views"], f"{t}_{mode(en, rev, lsb0)}") for o in offs(thorough, (7,)) for t, d in kinds(en, rev, lsb0, o)]
            cases += [case(d, ["eviews"], f"{t}_{mode(en, rev, lsb0)}") for o in range(1, 9) if thorough or o == 7 for t, d in ekinds(en, rev, lsb0, o)]
    return Spec(cases, "structs of every integer type, mixed structs with reserve, arrays, nested declarations, fill bytes and lsb0, and data enums; every byte array" + KD + SH)


NO_STD = "mod std {}\nmod alloc {}\nstruct Vec;\nstruct String;\nstruct Box;\n"
SETS = [("derive",), ("derive", "hex_fns"), ("derive", "dyn_fns"), ("derive", "hex_fns", "-std"), ("derive", "-std")]


@prop
def C25(thorough, seed):
    cases = []
    for n, fs in enumerate(SETS):
        h = ["hex"] if "hex_fns" in fs else []
        y = "dyn_fns" in fs
        mine = []
        mine += mixed(f"feat{n}", ["dec", "get", "enc", "set", "const"] + h + (["views", "sl_get", "checked", "from_slice"] if y else []), 40 if thorough else 5, room=(16, 70))
        mine += emixed(f"feat{n}", ["edec", "eget", "eenc", "eset", "eid", "econst", "eparteq"] + h + (["eviews", "esl"] if y else []), 40 if thorough else 4)
        for t, d in penums()[n::5]:
            d.attr = "u8, partial_eq"
            mine.append(case(d, ["prim", "prim_eq"], f"prim_{t}"))
        for c in mine:
            c.features = fs
            c.tag = "+".join(fs) + " " + c.tag
            c.pre = NO_STD if "-std" in fs else ""
        cases += mine
    return Spec(cases, "the feature sets " + ", ".join("+".join(f) for f in SETS) + " (-std: without the default features, in a scope without std); per set 5 structs, 4 data enums and some "
                "primitive enums (thorough: 40 and 40); every byte array and every value")
