"""Writes codegen/schemas/wide: every element type in every position, numbers around every boundary, many fields and variants, deep nesting."""
import pathlib
import re

OUT = pathlib.Path(__file__).resolve().parent.parent / "codegen" / "schemas" / "wide"
INTS = [s + b for s in "ui" for b in ("8", "16", "32", "64", "128")]
SCAL = ["bool"] + INTS + ["f32", "f64"]
TEXT = ["string", "&string", "bytes", "&bytes", "box<string>", "box<bytes>"]
CONT = ["vec<u16>", "vec<u8>", "hash_map<u8, string>", "hash_set<i32>", "option<u32>", "[i16; 3]", "(u8, string)"]
NZ = [f"non_zero<{t}>" for t in INTS + ["string", "&string", "bytes", "&bytes", "vec<u8>", "hash_map<u8, u8>", "hash_set<u8>"]]
USER = ["Pt", "Sh", "Gen<u8>", "Gen<vec<string>>"]
ALL = SCAL + TEXT + CONT + NZ + USER
KEYS = [t for t in ALL if t not in ("f32", "f64", "hash_map<u8, string>", "hash_set<i32>", "non_zero<hash_map<u8, u8>>", "non_zero<hash_set<u8>>") + tuple(USER)]
POSITIONS = {
    "Plain": ("{}", ALL), "InOption": ("option<{}>", ALL), "InVec": ("vec<{}>", ALL), "InArray": ("[{}; 2]", ALL), "InSet": ("hash_set<{}>", KEYS),
    "InKey": ("hash_map<{}, u8>", KEYS), "InValue": ("hash_map<u8, {}>", ALL), "InFirst": ("vec<({}, u8)>", ALL), "InLast": ("vec<(bool, {})>", ALL),
    "InNzVec": ("non_zero<vec<{}>>", ALL), "InNzSet": ("non_zero<hash_set<{}>>", KEYS), "InNzKey": ("non_zero<hash_map<{}, bool>>", KEYS),
    "InNzValue": ("non_zero<hash_map<u8, {}>>", ALL), "InVecOption": ("vec<option<{}>>", ALL), "InVecVec": ("vec<vec<{}>>", ALL),
    "InOptionVec": ("option<vec<{}>>", ALL), "InOptionArray": ("option<[{}; 3]>", ALL), "InOptionMap": ("option<hash_map<u8, {}>>", ALL),
    "InOptionTuple": ("vec<(u8, option<{}>)>", ALL), "InInner": ("vec<((u8, {}), bool)>", ALL), "InArgument": ("Gen<{}>", [t for t in ALL if "non_zero" not in t and t[0] != "("]),
}
USERS = """struct Pt { x: i32, y: option<u8> }
enum Sh { Dot, Of(Pt), Many { a: vec<Pt>, b: option<string> } }
struct Gen<T> { a: T, b: vec<T> @20, c: option<T> @19 }
"""
BITS = [4, 7, 8, 11, 14, 15, 16, 18, 21, 25, 28]


def boundaries(top, bits):
    n = sorted({1, 2, 3} | {x for b in bits for x in ((1 << b) - 1, 1 << b, (1 << b) + 1)} | {top - 1, top})
    return [x for x in n if 0 < x <= top]


def main():
    OUT.mkdir(exist_ok=True)
    (OUT / "Mabo.toml").write_text('[package]\nname = "contracts"\nfiles = ["*.mabo"]\n')
    names = list(POSITIONS.items())
    for n in range(3):
        s = USERS
        for name, (form, types) in names[n::3]:
            s += f"struct {name} {{\n" + "".join(f"    f{i}: {form.format(t)},\n" for i, t in enumerate(types)) + "}\n"
        (OUT / f"wide{n}.mabo").write_text(s)

    s = USERS
    for name, opt in (("Named", "{}"), ("NamedOptions", "option<{}>")):
        s += f"enum {name} {{\n" + "".join(f"    V{i} {{ a: {opt.format(t)}, b: bool @9 }},\n" for i, t in enumerate(ALL)) + "}\n"
    for name, opt in (("Unnamed", "{}"), ("UnnamedOptions", "option<{}>")):
        s += f"enum {name} {{\n" + "".join(f"    V{i}({opt.format(t)}, u16 @{i + 20}),\n" for i, t in enumerate(ALL)) + "}\n"
    (OUT / "enums.mabo").write_text(s)

    s = "/// Numbers around every power of two that changes the length of a header.\n"
    ids = boundaries((1 << 29) - 1, BITS)
    small = ["u8", "u16", "f32", "f64", "string", "bool", "i64"]
    s += "struct Ids {\n" + "".join(f"    f{i}: {small[i % 7]} @{x},\n" for i, x in enumerate(ids)) + "}\n"
    s += "struct IdOptions {\n" + "".join(f"    f{i}: option<{small[i % 7]}> @{x},\n" for i, x in enumerate(reversed(ids))) + "}\n"
    s += "struct IdTuple(" + ", ".join(f"{small[i % 7]} @{x}" for i, x in enumerate(ids)) + ")\n"
    vids = boundaries((1 << 32) - 1, BITS + [29, 31])
    s += "enum VariantIds {\n" + "".join(f"    V{i}{['', '(u8)', ' { a: u16 @7 }'][i % 3]} @{x},\n" for i, x in enumerate(vids)) + "}\n"
    s += "enum Implicit { A, B, C @300, D, E @70000, F(u8), G @5 }\n"
    s += "struct ImplicitFields { a: u8 @15, b: u8, c: option<u8>, d: u16 @127, e: u16, f: string @3, g: string, h: option<string> @2047, i: bool }\n"
    s += "struct Many {\n" + "".join(f"    m{i}: {small[i % 7]},\n" for i in range(140)) + "}\n"
    s += "enum ManyVariants {\n" + "".join(f"    M{i}{['', '(u8)', ' { a: u16 }'][i % 3]},\n" for i in range(140)) + "}\n"
    s += "struct Names { v: u8, k: option<u8>, e: vec<u8>, f: hash_map<u8, u8>, value: u16, name: string, size: u32, encode: i64, decode: option<string>, len: f32, ok: f64, " \
         "some_long_name_with_many_parts_1: bool, x1: [u8; 2], n0: u8, n1: non_zero<u8>, mabo: u8, buf: u8, std: u8, new: u8, get: u8, b: u8, error: u8, result: u8 }\n"
    s += "enum NameVariants { Some(u8), None, Ok { v: u8 }, Err { k: option<u8> }, Variant { value: vec<u8>, size: u8, n0: u16 } }\n"
    s += "struct Skipper { last: option<u8> @123456789 }\n"
    (OUT / "ids.mabo").write_text(s)

    s = "struct Tuples2 {\n"
    cycle = SCAL + TEXT
    for n in range(2, 13):
        s += f"    a{n}: vec<({', '.join(cycle[(n * 5 + i) % len(cycle)] for i in range(n))})>,\n"
        s += f"    b{n}: hash_map<u8, ({', '.join(['u8'] * n)})>,\n"
        s += f"    c{n}: [({', '.join(['option<(u8, u8)>'] * n)}); 2],\n"
    s += "}\nstruct Sizes {\n" + "".join(f"    a{n}: [u8; {n}], b{n}: [u32; {n}], c{n}: [string; {n}], d{n}: option<[f64; {n}]>,\n" for n in (1, 2, 3, 12, 13, 31, 32, 33, 64, 127, 128, 129, 257)) + "}\n"
    d = "u8"
    deep = []
    for n, form in enumerate(["vec<{}>", "option<{}>", "[{}; 1]", "hash_map<u8, {}>", "vec<({}, u8)>", "non_zero<vec<{}>>", "option<{}>", "[{}; 2]", "vec<option<{}>>"]):
        d = form.format(d)
        deep.append(f"    d{n}: {d},\n")
    s += "struct Depth {\n" + "".join(deep) + "}\n"
    s += "mod a { mod b { mod c { mod d { struct X { a: u8, b: option<u32> @9 } enum Y { One(X), Two { x: option<X> @4 } } } struct Z { x: d::X, y: vec<d::Y> } } } struct Z { z: b::c::Z, y: option<b::c::d::Y> } }\n"
    s += "struct Z { a: a::Z, b: vec<a::b::c::Z>, c: hash_map<u8, a::b::c::d::X> }\n"
    s += "struct Two<A, B> { a: A, b: B }\nstruct Three<A, B, C> { a: vec<A>, b: option<B>, c: hash_map<u8, C>, d: vec<(A, B, C)> }\n"
    s += "enum Either<A, B> { Left(A), Right { b: B, c: option<A> }, Both(A, B), Neither }\nstruct Tup<T>(T, option<T>, vec<T> @9)\n"
    s += "struct GenericUses { a: Two<u8, Two<string, vec<i16>>>, b: Three<u8, f32, string>, c: vec<Either<u32, Tup<bool>>>, d: option<Tup<Tup<option<u8>>>>, e: hash_map<string, Either<bytes, hash_map<u8, u8>>>, f: Tup<[u8; 3]>, g: Tup<box<string>> }\n"
    (OUT / "shapes.mabo").write_text(s)


main()
