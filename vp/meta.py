#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "bondrewd-derive/src/"
RD, WR, CM, PA, FN = D + "structs/from_bytes.rs", D + "structs/into_bytes.rs", D + "structs/common.rs", D + "structs/parse.rs", D + "structs/struct_fns.rs"
EP, EF, EI, EQ = D + "enums/parse.rs", D + "enums/from_bytes.rs", D + "enums/into_bytes.rs", D + "enums/partial_eq.rs"
LIB, BL, BH, BE = D + "lib.rs", "bondrewd/src/lib.rs", "bondrewd/src/hex.rs", "bondrewd/src/error.rs"

# id, title, statement, over, quantifier, why, files, mechanism
P = [
 ("C01", "Big endian fields occupy exactly the declared bits",
  "In a big endian declaration (or field) the field takes the next bits of the byte array, most significant value bit first, counted from the most significant bit of byte 0. Decoding a whole array, reading a single field and encoding a value all use exactly these bits, for every integer type, bit length and bit offset.",
  ["programs", "inputs"], "every declaration of the bounded family (type, bit length, bit offset, neighbours) x every byte array / every representable value",
  "tests encode a handful of hand-picked values in a few layouts; shift and mask errors show only at particular length/offset combinations and only for particular bits",
  [RD, WR, CM], "shift/mask/byte-walk code generation of the big endian readers and writers"),
 ("C02", "Little endian fields occupy exactly the declared bits",
  "In a little endian declaration or field (also when no endianness is given) the value is laid out in whole bytes, least significant byte first, each most significant bit first, followed by the remaining high bits. Decoding, single-field reading and encoding all use exactly these bits, for every integer type, bit length and bit offset.",
  ["programs", "inputs"], "every declaration of the bounded family x every byte array / every representable value",
  "little endian generation has several code paths chosen by offset, length and type width; tests sample few of them with few values",
  [RD, WR, CM], "little endian readers and writers, including the trailing partial byte"),
 ("C03", "Encoding then decoding returns the same value",
  "For every declaration and every value whose fields fit their declared widths, decoding the encoded bytes gives the same value back, and so does reading each field from the encoded bytes.",
  ["programs", "inputs"], "declarations mixing all field types, both endiannesses, with and without reversed bytes x every representable value",
  "round trips are tested for single values of a few structs", [RD, WR, CM], "from_bytes and into_bytes generation"),
 ("C04", "Oversized values are truncated and never spill into neighbours",
  "Encoding or writing a number that does not fit its declared width stores its low bits and changes no bit of another field; bits that belong to no written field are zero after encoding.",
  ["programs", "inputs"], "declarations of the family x every value of the Rust type of every field, not only those that fit",
  "no test uses a value that exceeds its field for more than one layout", [WR], "masking of values in the write code"),
 ("C05", "Writing one field in place changes only that field",
  "Writing a field into an existing byte array leaves every bit outside the field as it was, and reading the field back returns the written value, whatever the array held before.",
  ["programs", "inputs", "histories"], "declarations of the family x every previous array content x every representable value; one write from an arbitrary state covers histories of writes",
  "tests write over zeroed or few buffers; a missing or wrong clear mask shows only with set bits at the right place", [WR, FN], "clear masks and stores of the write functions"),
 ("C06", "Signed fields are sign-extended from their declared width",
  "A signed integer field of any width decodes to the two's complement value of its bits, with every higher bit of the Rust type equal to the sign bit, in both endiannesses and with reversed bytes.",
  ["programs", "inputs"], "i8..i128, bit lengths and offsets of the family, arrays of signed elements x every byte array",
  "tests decode few negative values, each in one layout", [RD], "sign extension of the read code"),
 ("C07", "Byte reversal mirrors the layout over the whole array",
  "A declaration with reversed bytes encodes to, decodes from and accesses single fields in exactly the byte-wise mirror image of the same declaration without reversal.",
  ["programs", "inputs"], "declarations of the family with reverse x every byte array / value",
  "reversal is tested with a few fixed structs", [CM, RD, WR], "byte index flipping"),
 ("C08", "lsb0 declarations mirror the bit positions, not the values",
  "With bit positions counted from the last bit, a field declared at [s, e) of a T-bit declaration occupies the bits [T-e, T-s) with its value in the usual bit order, for decoding, encoding and single-field access.",
  ["programs", "inputs"], "lsb0 structs (whole bytes, partial last byte, fill bytes, explicit ranges) and data enums x every byte array / value", "one or two lsb0 structs are tested with fixed values",
  [CM, PA], "range mirroring in field parsing"),
 ("C09", "Arrays lay out their elements in order",
  "An array field with an element length stores each element in its own consecutive bits; with a block length the elements share the block and the first element loses the missing bits. Decoding, encoding, reading and writing agree with that for every content.",
  ["programs", "inputs"], "element and block arrays of 1..9 elements of all scalar types x every content", "array tests use fixed values of few shapes",
  [CM, RD, WR], "element splitting of array fields"),
 ("C10", "Nested bitfields occupy their declared bits",
  "A field that is itself a bitfield struct, data enum or primitive enum takes exactly its declared bits of the outer array and is encoded and decoded by its own declaration, at any bit offset, in arrays, under reversal and at several levels of nesting.",
  ["programs", "inputs"], "nested declarations of the bounded family x every byte array / value", "few nested structs at few offsets are tested",
  [RD, WR, CM], "bit copying to and from the inner byte array"),
 ("C11", "bool, char and float fields decode totally and exactly",
  "A bool is its one bit; a float is the IEEE value with exactly the stored bits; a char field is the stored code point, and the replacement character U+FFFD when the bits are no code point; writing stores exactly these bits.",
  ["programs", "inputs"], "bool, char and float fields and arrays of them at the listed offsets x every bit pattern", "invalid code points and unusual float patterns are rare inputs the tests do not contain",
  [RD, WR], "type-specific reads and writes"),
 ("C12", "Reserved, read-only, redundant, overlapping and fill bits",
  "Encoding writes zero to reserved and fill bits and never writes read-only or redundant fields; decoding gives reserved fields their default and reads read-only, redundant and overlapping fields from their declared bits; all single-field accessors that exist keep using these bits, and the declared size is counted accordingly; fill bytes that do not hold the fields are refused.",
  ["programs", "inputs"], "declarations of the bounded family with each attribute x every byte array / value", "each attribute is tested in one declaration with one value",
  [CM, PA, RD, WR], "attribute handling in parsing and in the generated encode/decode"),
 ("C13", "Explicit bit ranges place fields exactly there",
  "A field declared with a bit range occupies exactly this range, the field after it continues at its end, also when ranges leave bits unused or come out of order, and decoding, encoding and single-field access use these bits.",
  ["programs", "inputs"], "explicit ranges of the bounded family x every byte array / value", "few ranges are tested with fixed values", [CM, PA], "range parsing and placement"),
 ("C14", "Data enums pick the variant by its id, unknown ids go to the catch-all",
  "Decoding any byte array yields the variant that declares the stored id, or the variant marked invalid (otherwise the last one) when no variant has it; ids are the declared numbers or else the lowest unused ones in order; the id of a value is its variant's id, or the captured number for variants that capture it.",
  ["programs", "inputs"], "data enums of the bounded family x every byte array and every value of every variant", "unknown ids and capture combinations are mostly untested",
  [CM, PA, RD, WR], "id assignment, id match generation, capture_id"),
 ("C15", "Data enum payloads follow the id and survive a round trip",
  "A data enum stores its id, with the endianness of the enum, in the first bits and the payload of the variant, with the endianness of the variant, right behind it, the rest zero; per-variant accessors and the id accessors use exactly these bits; decoding an encoded value gives the same variant and fields.",
  ["programs", "inputs"], "data enums of the bounded family x every byte array and every value of every variant", "tests use fixed values of few enums", [CM, RD, WR, FN], "variant code generation"),
 ("C16", "Primitive enums map every number to a variant and back",
  "Converting any number gives the variant that declares it (or was assigned it as the lowest unused number in order), and otherwise the catch-all, which keeps the number when it has a payload; converting back returns the variant's number; the same holds when the enum is a bitfield field.",
  ["programs", "inputs"], "primitive enums of the bounded family x all 256 numbers", "tests try a few numbers of a few enums", [EP, EF, EI], "value assignment and match generation"),
 ("C17", "Slice access succeeds exactly when the bytes are there",
  "The fallible slice functions accept a slice exactly when it contains every byte the field (or the whole declaration, for whole-value functions) needs, otherwise report the given and the needed length; they never panic, and a refused or accepted write touches no byte outside the field's bytes.",
  ["programs", "inputs"], "structs and data enums of the bounded family x slices of every length 0..BYTE_SIZE+2 with arbitrary content", "slice functions are tested with full-size buffers only",
  [RD, WR, FN, BE], "length checks of read_slice/write_slice/check_slice/from_slice"),
 ("C18", "Slice, vector and checked access agree with array access",
  "On a long enough slice the slice functions, the checked views (also unchecked ones over a shorter slice that holds the accessed field), from_slice and from_vec read and write exactly what the array functions do; from_vec removes exactly the bytes it used and a refused from_vec changes nothing.",
  ["programs", "inputs"], "structs and data enums of the bounded family x slices of every length 0..BYTE_SIZE+2, arbitrary content and values", "dynamic access is tested with a few fixed buffers",
  [FN, RD, WR, BL], "dyn_fns generation"),
 ("C19", "Hex encoding and decoding is exact and total",
  "into_hex_lower/upper produce two hex digits per byte, high nibble first; from_hex accepts exactly strings of hex digits in either case, returns the decoded value, and reports the first invalid character and its position otherwise; the slice and vector forms agree and report length errors.",
  ["programs", "inputs"], "structs and enums of the bounded family x every string of 2*BYTE_SIZE bytes and every value", "hex is tested with a few valid strings", [BH, BL, BE], "hex conversion of the runtime crate and its generated use"),
 ("C20", "Comparing an enum with a number compares its id",
  "A data enum equals a number exactly when the number is the id of the value; a primitive enum with number comparison equals a number exactly when it is a variant of its own with that number, and the catch-all equals none; `!=` is the negation.",
  ["programs", "inputs"], "enums of the bounded family x every number of the id type", "tests compare a few numbers", [EQ, FN, LIB], "PartialEq generation"),
 ("C21", "Size constants and the spare bits after the last field",
  "BIT_SIZE is the sum of the declared bits (or the end of the last explicit bit range when ranges leave bits unused) and BYTE_SIZE that number rounded up to bytes; decoding never depends on the spare bits behind the last declared bit, and encoding leaves them zero.",
  ["programs", "inputs"], "declarations of the bounded family x every pair of arrays that differ in spare bits only / every value", "sizes are checked for few declarations; spare bits are never varied",
  [CM, LIB, RD, WR], "size computation and masks of the last byte"),
 ("C22", "No generated function panics",
  "Decoding, encoding, single-field access, slice and checked access never panic, overflow or index out of bounds, whatever the bytes, the value or the slice length.",
  ["programs", "inputs"], "declarations of the bounded family with every field type x every byte array, value and slice length 0..BYTE_SIZE+2", "a panic needs a rare pattern (overflowing shift, invalid char, unknown id, short slice)",
  [RD, WR, FN, BL, BH], "all generated code"),
 ("C23", "Accepted declarations keep their fields, variants and sizes apart",
  "Declarations that contradict themselves are refused at compile time. In a declaration that is accepted, two fields share bits only if one is declared redundant or overlapping, a payload field never shares bits with the id, every field stores every value of its declared width, every variant has an id (or number) of its own that is stored and recovered, and a declared total size is the size.",
  ["programs", "inputs"], "the contradictory and nearly contradictory declarations of the bounded family that the derive accepts x every byte array / value", "no test feeds the derive a declaration that it has to refuse, so a weakened check is invisible",
  [CM, PA, RD, EP], "overlap, id, width and size validation in parsing"),
 ("C24", "Equivalent spellings declare the same layout",
  "The same declaration written with other documented spellings of its attributes means the same: attribute order, splitting into several attributes, byte lengths instead of bit lengths, endianness synonyms, explicit ranges or ids that equal the implied ones, lengths left to the type. Decoding, encoding, field access and the size constants do not depend on the spelling.",
  ["programs", "inputs"], "declarations of the bounded family in random combinations of spellings x every byte array / value", "tests spell most attributes in one way only, and a spelling that is parsed wrongly still compiles",
  [PA, CM], "attribute parsing"),
 ("C25", "Optional features only add functions",
  "Without the optional features (hex_fns, dyn_fns, std) the functions that remain behave the same: encoding, decoding, single-field access, ids, comparison with numbers, size constants and hex text mean what they mean with every feature on, and the generated code needs neither std nor alloc unless dyn_fns is on.",
  ["programs", "inputs"], "five feature sets x declarations of the bounded family x every byte array / value", "the tests are built with every feature on; the generator has separate branches for features that are off",
  [LIB, RD, WR, BL, BH, EQ], "feature branches of the generator and the runtime crate"),
 ("C26", "Whole-value and single-field access agree",
  "For every byte array, decoding the array gives each field the value its single-field reader returns (data enums: the readers of the decoded variant, array, slice and checked form alike); encoding equals writing every written field into a zeroed array; and decoding, encoding and decoding again changes no written field that agrees with the fields it is declared to share bits with.",
  ["programs", "inputs"], "declarations of the bounded family x every byte array", "agreement is tested for single values of few declarations", [RD, WR, FN], "parallel code paths of whole-value and per-field functions"),
]
NA = []
LEVEL_NOTE = ("Bounded: the solver decides the check's assertions and all of Kani's panic/overflow/bounds checks for every value of the symbolic inputs of every "
              "declaration in the grid (see coverage.bounds in the evidence); loop unwinding is asserted. Declarations outside the grid are not covered. Trusted: rustc, "
              "Kani's MIR-to-goto translation, CBMC, and the reference layout in vp/model.py.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for i, t, s, o, q, w, fs, m in P:
            f.write(json.dumps(dict(id=i, title=t, statement=s, quantifier=dict(over=o, text=q), why_tests_cant=w,
                                    anchors=dict(files=sorted(set(fs)), mechanism=[dict(name=m, where=fs[0])]))) + "\n")
    na = {x["property"] for x in NA}
    man = dict(version=1, setup_cmd="python3 vp/setup.py", checks=[dict(
        property=p[0], quick_cmd=f"python3 vp/run.py {p[0]} --tier quick", thorough_cmd=f"python3 vp/run.py {p[0]} --tier thorough",
        technique="bounded symbolic execution of the macro-generated code (Kani MIR-to-goto + CBMC/SAT) against a reference layout",
        level="translation_validation", level_note=LEVEL_NOTE) for p in P if p[0] not in na], not_applicable=NA)
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
