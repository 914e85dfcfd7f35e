"""The unit of generated code: what the real code generator writes for a set of schemas is verified against contracts derived from
the schemas by an independent reader.

What is changed in the generated text: attributes, derives and `use` of the runtime are dropped; paths into the runtime lose their
prefix (the runtime's functions are at the root of the unit, with the contracts that the runtime unit discharges); `impl Buf` and
`impl BufMut` parameters become named type parameters; arguments of the container functions are bound to names, closures get their
contract. Anything else is taken over token by token. A shape that is not understood raises Unsupported (undecided, never broken).
"""
import json, pathlib, re
from . import extract, rust, util
from .extract import Unsupported

# ------------------------------------------------------------------------------------------------------------ schemas

TOK = re.compile(r"//[^\n]*|\s+|\"[^\"]*\"|->|::|[A-Za-z_]\w*|\d[\d_]*|[^\w\s]")
PRIMS = {"bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64"}


def toks(text):
    out = [t for t in TOK.findall(text) if not t.isspace() and not t.startswith("//")]
    return out


class Def:
    """A struct or enum. records: [(variant | None, variant id, kind, [(name, type, id)])]"""
    def __init__(self, kind, path, name, params):
        self.kind, self.path, self.name, self.params, self.records = kind, path, name, params, []

    @property
    def full(self):
        return "::".join(self.path + (self.name,))


class Reader:
    def __init__(self, name, text):
        self.t, self.i = toks(text), 0
        self.defs, self.uses = [], {}
        self.module((name,))

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def eat(self, x=None):
        v = self.t[self.i]
        if x is not None and v != x:
            raise Unsupported(f"schema: {v} where {x} is expected")
        self.i += 1
        return v

    def module(self, path):
        while self.peek() is not None and self.peek() != "}":
            x = self.eat()
            if x == "#":
                while self.eat() != "]":
                    pass
            elif x == "use":
                p = [self.eat()]
                while self.peek() == "::":
                    self.eat()
                    p.append(self.eat())
                self.eat(";")
                self.uses.setdefault(path, {})[p[-1]] = tuple(p)
            elif x == "const" or x == "type":
                while self.eat() != ";":
                    pass
            elif x == "mod":
                n = self.eat()
                self.eat("{")
                self.module(path + (n,))
                self.eat("}")
            elif x in ("struct", "enum"):
                n = self.eat()
                params = []
                if self.peek() == "<":
                    self.eat()
                    while self.peek() != ">":
                        params.append(self.eat())
                        if self.peek() == ",":
                            self.eat()
                    self.eat(">")
                d = Def(x, path, n, params)
                if x == "struct":
                    d.records.append((None, None) + self.fields(d))
                else:
                    self.eat("{")
                    last = 0
                    while self.peek() != "}":
                        v = self.eat()
                        kind, fs = self.fields(d)
                        vid = self.number()
                        last = vid if vid is not None else last + 1
                        d.records.append((v, last, kind, fs))
                        if self.peek() == ",":
                            self.eat()
                    self.eat("}")
                self.defs.append(d)
            else:
                raise Unsupported("schema: " + x)

    def number(self):
        if self.peek() == "@":
            self.eat()
            return int(self.eat().replace("_", ""))
        return None

    def fields(self, d):
        if self.peek() not in ("{", "("):
            if self.peek() == ";":
                self.eat()
            return "unit", []
        named = self.eat() == "{"
        close = "}" if named else ")"
        out, last = [], 0
        while self.peek() != close:
            name = None
            if named:
                name = self.eat()
                self.eat(":")
            ty = self.type(d)
            n = self.number()
            last = n if n is not None else last + 1
            out.append((name or f"n{len(out)}", ty, last))
            if self.peek() == ",":
                self.eat()
        self.eat(close)
        if self.peek() == ";":
            self.eat()
        return ("named" if named else "unnamed"), out

    def type(self, d):
        x = self.eat()
        if x in PRIMS:
            return ("prim", x)
        if x == "string":
            return ("string",)
        if x == "bytes":
            return ("bytes",)
        if x == "&":
            return {"string": ("string",), "bytes": ("bytes",)}[self.eat()]
        if x == "(":
            out = []
            while self.peek() != ")":
                out.append(self.type(d))
                if self.peek() == ",":
                    self.eat()
            self.eat(")")
            return ("tuple", tuple(out))
        if x == "[":
            e = self.type(d)
            self.eat(";")
            n = int(self.eat().replace("_", ""))
            self.eat("]")
            return ("array", e, n)
        args = []
        p = [x]
        while self.peek() == "::":
            self.eat()
            p.append(self.eat())
        if self.peek() == "<":
            self.eat()
            while self.peek() != ">":
                args.append(self.type(d))
                if self.peek() == ",":
                    self.eat()
            self.eat(">")
        if len(p) == 1:
            if x == "box":
                return {("string",): ("boxstr",), ("bytes",): ("boxbytes",)}[args[0]]
            if x in ("vec", "option", "hash_set", "non_zero"):
                return (x, args[0])
            if x == "hash_map":
                return (x, args[0], args[1])
            if x in d.params:
                return ("param", x)
        return ("user", (d.path, tuple(p)), tuple(args))


class Schemas:
    def __init__(self, files):
        self.readers = {p.stem: Reader(p.stem, p.read_text()) for p in files}
        self.known = {}
        for r in self.readers.values():
            for d in r.defs:
                self.known[d.path + (d.name,)] = d

    def resolve(self, at, p):
        if at + p in self.known:
            return at + p
        uses = self.readers[at[0]].uses.get(at, {})
        if p[0] in uses:
            q = uses[p[0]] + p[1:]
            if q in self.known:
                return q
        raise Unsupported("schema: unknown type " + "::".join(p))

    def rust(self, t):
        k = t[0]
        if k == "prim":
            return t[1]
        if k == "string":
            return "String"
        if k == "boxstr":
            return "Box<str>"
        if k == "bytes":
            return "Vec<u8>"
        if k == "boxbytes":
            return "Box<[u8]>"
        if k == "vec":
            return f"Vec<{self.rust(t[1])}>"
        if k == "option":
            return f"Option<{self.rust(t[1])}>"
        if k == "hash_set":
            return f"HashSet<{self.rust(t[1])}>"
        if k == "hash_map":
            return f"HashMap<{self.rust(t[1])}, {self.rust(t[2])}>"
        if k == "array":
            return f"[{self.rust(t[1])}; {t[2]}]"
        if k == "tuple":
            return "(" + ", ".join(map(self.rust, t[1])) + ")"
        if k == "param":
            return t[1]
        if k == "non_zero":
            if t[1][0] == "prim":
                return "NonZero" + t[1][1].upper()
            return f"NonZero<{self.rust(t[1])}>"
        if k == "user":
            p = self.resolve(*t[1])
            a = ", ".join(map(self.rust, t[2]))
            return "crate::gen::" + "::".join(p) + (f"<{a}>" if a else "")
        raise Unsupported(k)


def marker(t):
    k = t[0]
    if k == "prim":
        return {"bool": "Fixed1", "u8": "Fixed1", "i8": "Fixed1", "f32": "Fixed4", "f64": "Fixed8"}.get(t[1], "Varint")
    if k == "non_zero":
        return marker(t[1])
    return "LengthPrefixed"


def inner(t):
    return (t[1], True) if t[0] == "option" else (t, False)


def containers(t):
    """Container nodes of a type in the order in which they are written; tuples have no node of their own."""
    k = t[0]
    if k == "tuple":
        return [n for c in t[1] for n in containers(c)]
    if k == "non_zero" and t[1][0] in ("vec", "hash_map", "hash_set"):
        return [t]
    if k in ("vec", "hash_map", "hash_set", "option", "array"):
        return [t]
    return []


def tuples_in(t, out):
    if t[0] == "tuple":
        out.add(len(t[1]))
    for c in t[1:]:
        if isinstance(c, tuple) and c and isinstance(c[0], str) and t[0] != "user":
            tuples_in(c, out)
        elif isinstance(c, tuple):
            for x in c:
                if isinstance(x, tuple) and x and isinstance(x[0], str):
                    tuples_in(x, out)


def plain(t):
    """Does the value end where its marker says? (not if it is a user type or a parameter: known finding)"""
    if t[0] in ("user", "param", "option"):
        return False
    return True


# ------------------------------------------------------------------------------------------------------------- theory

TUPLE = """
impl<{gm}> Model for ({ts}) {{ type M = ({ms}); open spec fn m(&self) -> ({ms}) {{ ({mm}) }} }}
impl<{gs}> Size for ({ts}) {{
    open spec fn enc(&self) -> Seq<u8> {{ {encs} }}
    #[verifier::external_body] fn size(&self) -> usize {{ unimplemented!() }}
}}
impl<{ge}> Encode for ({ts}) {{ #[verifier::external_body] fn encode<W__: BufMut>(&self, w: &mut W__) {{ unimplemented!() }} }}
impl<{gd}> Decode for ({ts}) {{
    open spec fn parse(s: Seq<u8>) -> Out<Self::M> {{ {parse} }}
    #[verifier::external_body] fn decode<R__: Buf>(r: &mut R__) -> Result<Self> {{ unimplemented!() }}
}}
impl<{gl}> Local for ({ts}) {{
    proof fn local(s: Seq<u8>, t: Seq<u8>) {{ {local} }}
    proof fn bounds(s: Seq<u8>) {{ {bounds} }}
}}
impl<{gr}> Round for ({ts}) {{ proof fn rt(&self, t: Seq<u8>) {{ {rt} }} }}
"""


def tuple_impls(n):
    T = [f"T{i}" for i in range(n)]
    g = lambda b: ", ".join(f"{t}: {b}" for t in T)
    parse, off = f"Out::Val(({', '.join(f'x{i}' for i in range(n))}), {' + '.join(f'n{i}' for i in range(n))})", None
    for i in range(n - 1, -1, -1):
        at = "s" if i == 0 else "s.skip(" + " + ".join(f"n{j}" for j in range(i)) + ")"
        parse = f"match {T[i]}::parse({at}) {{ Out::Err(k) => Out::Err(k), Out::Val(x{i}, n{i}) => {parse} }}"
    # Locality, from the front: m is what is consumed in all, p what lies in front of the element.
    loc = "let m = Self::parse(s)->Val_1; "
    bnd = ""
    for i in range(n):
        p = "0" if i == 0 else f"p{i}"
        at = "s" if i == 0 else f"s.skip(p{i})"
        bnd += f"{T[i]}::bounds({at}); let p{i + 1} = {p} + {T[i]}::parse({at})->Val_1; "
    loc += "let p0 = 0int; " + bnd
    for i in range(n):
        at, bt = ("s", "t") if i == 0 else (f"s.skip(p{i})", f"t.skip(p{i})")
        if i > 0:
            loc += f"same_part_skip(s, t, p{i}, m); "
        loc += f"same_part_skip({at}, {bt}, {T[i]}::parse({at})->Val_1, m - p{i}); {T[i]}::local({at}, {bt}); "
    # Round trip, from the back.
    rt = f"let r{n} = t; "
    for i in range(n - 1, -1, -1):
        rt += f"let r{i} = self.{i}.enc() + r{i + 1}; "
    rt += "let q1 = self.0.enc(); "
    for i in range(1, n):
        rt += f"let q{i + 1} = q{i} + self.{i}.enc(); add_assoc(q{i}, self.{i}.enc(), r{i + 1}); "
    rt += f"let s = self.enc() + t; assert(self.enc() == q{n}); assert(s == r0); let p0 = 0int; assert(s.skip(0) =~= s); "
    for i in range(n):
        rt += f"let p{i + 1} = p{i} + self.{i}.enc().len() as int; element(self.{i}, s, p{i}, r{i + 1}); "
    return TUPLE.format(gm=g("Model"), gs=g("Size"), ge=g("Encode"), gd=g("Decode"), gl=g("Local"), gr=g("Round"), ts=", ".join(T),
                        ms=", ".join(f"{t}::M" for t in T), mm=", ".join(f"self.{i}.m()" for i in range(n)),
                        encs=" + ".join(f"self.{i}.enc()" for i in range(n)), parse=parse, local=loc, bounds=bnd, rt=rt)


NZ_INT = """
impl Size for $NZ {
    open spec fn enc(&self) -> Seq<u8> { enc_$T(self.val()) }
    #[verifier::external_body] fn size(&self) -> usize { unimplemented!() }
}
impl Encode for $NZ { #[verifier::external_body] fn encode<W__: BufMut>(&self, w: &mut W__) { unimplemented!() } }
impl Decode for $NZ {
    open spec fn parse(s: Seq<u8>) -> Out<$T> { match parse_$T(s) { Out::Val(v, n) => if v == 0 { Out::Err(Kind::Zero) } else { Out::Val(v, n) }, Out::Err(k) => Out::Err(k) } }
    #[verifier::external_body] fn decode<R__: Buf>(r: &mut R__) -> Result<Self> { unimplemented!() }
}
impl Local for $NZ {
    proof fn local(s: Seq<u8>, t: Seq<u8>) { <$T as Local>::local(s, t); }
    proof fn bounds(s: Seq<u8>) { <$T as Local>::bounds(s); }
}
#[verifier::external_body]
pub proof fn holds_$NZ(x: $NZ) ensures x.val() != 0 { unimplemented!() }
impl Round for $NZ { proof fn rt(&self, t: Seq<u8>) { holds_$NZ(*self); self.val().rt(t); } }
"""
NZ_CON = """
impl<$G> Decode for NonZero<$C> where $D {
    open spec fn parse(s: Seq<u8>) -> Out<Self::M> { non_zero(s, <$C as Decode>::parse(s)) }
    #[verifier::external_body] fn decode<R__: Buf>(r: &mut R__) -> Result<Self> { unimplemented!() }
}
impl<$G> Local for NonZero<$C> where $L {
    proof fn local(s: Seq<u8>, t: Seq<u8>) { broadcast use {words, blocks}; non_zero_local::<$C>(s, t); }
    proof fn bounds(s: Seq<u8>) { <$C as Local>::bounds(s); }
}
#[verifier::external_body]
pub proof fn holds_$N<$G>(x: NonZero<$C>) where $M ensures $holds { unimplemented!() }
impl<$G> Round for NonZero<$C> where $R { proof fn rt(&self, t: Seq<u8>) { holds_$N(*self); non_zero_$law(*self, t); } }
"""


def non_zero_impls(ints):
    out = "".join(NZ_INT.replace("$NZ", i["NZ"]).replace("$T", i["T"]) for i in ints)
    cons = [("string", "", "String", "", "", "", "", "x.0@.len() > 0"),
            ("vec", "T", "Vec<T>", "T: Model", "T: Decode", "T: Round", "T: Round", "x.0@.len() > 0"),
            ("set", "T", "HashSet<T>", "T: Model", "T: Decode + Hash + Eq", "T: Round + Hash + Eq", "T: Round + Hash + Eq", "!vacant_set(x.0.m())"),
            ("map", "K, V", "HashMap<K, V>", "K: Model, V: Model", "K: Decode + Hash + Eq, V: Decode", "K: Round + Hash + Eq, V: Round",
             "K: Round + Hash + Eq, V: Round", "!vacant(x.0.m())")]
    for n, g, c, m, d, l, r, h in cons:
        s = NZ_CON
        for k, v in (("$G", g), ("$D", d), ("$L", l), ("$R", r), ("$C", c), ("$N", n), ("$M", m), ("$holds", h), ("$law", n)):
            s = s.replace(k, v)
        out += s.replace("impl<>", "impl").replace("<>(", "(").replace(" where  {", " {").replace(" where  ensures", " ensures")
    return out


# ------------------------------------------------------------------------------------- specification of a definition

def generics(d, bound):
    # The generated `Decode` impls ask for `Debug`.
    bound += " + Debug" if bound in ("Decode", "Local", "Round") else ""
    return "<" + ", ".join(f"{p}: {bound}" for p in d.params) + ">" if d.params else ""


class Record:
    """A struct, or a variant with fields: names and texts used by its specification."""
    def __init__(self, s, d, rec):
        self.s, self.d = s, d
        self.variant, self.vid, self.kind, self.fields = rec
        self.p = d.name + (f"_{self.variant}" if self.variant else "")
        self.ga = "<" + ", ".join(d.params) + ">" if d.params else ""
        self.fs = []
        for name, ty, n in self.fields:
            x, opt = inner(ty)
            self.fs.append(dict(name=name, v="v_" + name, type=ty, x=x, opt=opt, n=n, m="FieldEncoding::" + marker(x), long=x[0] == "tuple",
                                rust=s.rust(ty), xr=s.rust(x)))

    def g(self, bound):
        return generics(self.d, bound)

    def st(self):
        return self.p + "_St" + self.ga

    def part(self, f, x):
        fn = "part" + ("_long" if f["long"] else "") + ("_opt" if f["opt"] else "")
        return f"{fn}({f['n']}, {f['m']}, {x})"

    def read(self, f, s):
        return f"parse_long::<{f['xr']}>({s})" if f["long"] else f"<{f['xr']} as Decode>::parse({s})"

    def whole(self, vals):
        """Model of the definition from the models of the fields."""
        h = f"{self.d.name}_M" + ("::" + self.ga if self.ga else "") + (f"::{self.variant}" if self.variant else "")
        return h + " { " + ", ".join(f"{f['name']}: {v}" for f, v in zip(self.fs, vals)) + " }"

    def spec(self):
        p, st = self.p, self.st()
        out = "".join(f"#[verifier::reject_recursive_types({x})] " for x in self.d.params) + f"pub struct {p}_St{self.g('Model')} {{ " + ", ".join(f"pub {f['name']}: Option<<{f['xr']} as Model>::M>" for f in self.fs) + " }\n"
        stc = f"{p}_St" + ("::" + self.ga if self.ga else "")
        out += f"pub open spec fn {p}_init{self.g('Model')}() -> {st} {{ {stc} {{ " + ", ".join(f"{f['name']}: None" for f in self.fs) + " } }\n"
        step = "passed(parse_skip(id.encoding, s), st)"
        for f in reversed(self.fs):
            step = (f"if id.value == {f['n']} {{ match {self.read(f, 's')} {{ Out::Err(k) => Out::Err(k), "
                    f"Out::Val(x, n) => Out::Val({stc} {{ {f['name']}: Some(x), ..st }}, n) }} }} else {{ {step} }}")
        out += f"pub open spec fn {p}_step{self.g('Decode')}(id: FieldId, s: Seq<u8>, st: {st}) -> Out<{st}> {{\n    {step}\n}}\n"
        ta = "::" + self.ga if self.ga else ""
        out += (f"pub open spec fn {p}_steps{self.g('Decode')}() -> spec_fn(FieldId, Seq<u8>, {st}) -> Out<{st}> "
                f"{{ |id: FieldId, s: Seq<u8>, st: {st}| {p}_step{ta}(id, s, st) }}\n")
        fin = "Out::Val(" + self.whole([f"st.{f['name']}" + ("" if f["opt"] else "->0") for f in self.fs]) + ", n)"
        for f in reversed(self.fs):
            if not f["opt"]:
                named = f'Some("{f["name"]}"@)' if self.kind == "named" else "None"
                fin = f"if st.{f['name']} is None {{ Out::Err(Kind::Missing({f['n']}, {named})) }} else {{ {fin} }}"
        out += f"pub open spec fn {p}_finish{self.g('Model')}(st: {st}, n: int) -> Out<{self.d.name}_M{self.ga}> {{\n    {fin}\n}}\n"
        out += (f"pub open spec fn {p}_parse{self.g('Decode')}(s: Seq<u8>) -> Out<{self.d.name}_M{self.ga}> {{\n"
                f"    match message({p}_steps{ta}(), s, {p}_init{ta}()) {{ Out::Err(k) => Out::Err(k), Out::Val(st, n) => {p}_finish(st, n) }}\n}}\n")
        args = ", ".join(f"{f['v']}: {f['rust']}" for f in self.fs)
        out += (f"pub open spec fn {p}_enc{self.g('Size')}({args}) -> Seq<u8> {{\n    "
                + " + ".join([self.part(f, f["v"]) for f in self.fs] + ["enc_u32(0)"]) + "\n}\n")
        # Every prefix of the parts: sums in the order in which they are written.
        return out

    def laws(self):
        """-> [(name, text)]"""
        p, st, ta = self.p, self.st(), "::" + self.ga if self.ga else ""
        G = self.g("Round")
        stc = f"{p}_St" + ta
        out = []
        for f in self.fs:
            lemma = "runs_part_long" if f["long"] else "runs_part"
            part = f"part_long({f['n']}, {f['m']}, x)" if f["long"] else f"part({f['n']}, {f['m']}, x)"
            size = "enc_bytes(x.enc()).len()" if f["long"] else "x.enc().len()"
            out.append((f"{p}_reads_{f['name']}", f"""
/// Field {f['n']} does what it does wherever it stands.
pub proof fn {p}_reads_{f['name']}{G}(x: {f['xr']}, a: {st})
    requires {size} <= usize::MAX
    ensures runs({p}_steps{ta}(), {part}, a, {stc} {{ {f['name']}: Some(x.m()), ..a }})
{{
    {lemma}::<{st}, {f['xr']}>({p}_steps{ta}(), header({f['n']}, {f['m']}), x, a, {stc} {{ {f['name']}: Some(x.m()), ..a }});
}}"""))
            if plain(f["x"]):
                out.append((f"{p}_skips_{f['name']}", skip_law(self, f, p, G)))
        known = " && ".join(f"id.value != {f['n']}" for f in self.fs) or "true"
        out.append((f"{p}_passes", f"""
/// A field of any other number is passed over if it ends where its marker says.
pub proof fn {p}_passes{G}(id: FieldId, e: Seq<u8>, a: {st})
    requires 0 < id.value < 0x2000_0000, {known}, skippable(id.encoding, e)
    ensures runs({p}_steps{ta}(), enc_id(id) + e, a, a)
{{
    runs_unknown({p}_steps{ta}(), id, e, a);
}}"""))
        loc = bnd = ""
        for f in self.fs:
            lo = f"long_local::<{f['xr']}>(s, t)" if f["long"] else f"<{f['xr']} as Local>::local(s, t)"
            bo = f"long_bounds::<{f['xr']}>(s)" if f["long"] else f"<{f['xr']} as Local>::bounds(s)"
            loc += f"if id.value == {f['n']} {{ {lo}; }} else "
            bnd += f"if id.value == {f['n']} {{ {bo}; }} else "
        out.append((f"{p}_local", f"""
pub proof fn {p}_local{self.g('Round')}()
    ensures local_step({p}_steps{ta}())
{{
    let step = {p}_steps{ta}();
    assert forall|id: FieldId, s: Seq<u8>, a: {st}| (#[trigger] step(id, s, a)) is Val implies 0 <= step(id, s, a)->Val_1 <= s.len() by {{
        {bnd} {{ skip_bounds(id.encoding, s); }}
    }}
    assert forall|id: FieldId, s: Seq<u8>, t: Seq<u8>, a: {st}| step(id, s, a) is Val && #[trigger] same_part(s, t, step(id, s, a)->Val_1) implies step(id, t, a) == step(id, s, a) by {{
        {loc} {{ skip_local(id.encoding, s, t); }}
    }}
}}"""))
        # Round trip: the parts lead from the initial state to the one with all fields.
        names = [f["v"] for f in self.fs]
        args = ", ".join(f"{f['v']}: {f['rust']}" for f in self.fs)
        E = f"{p}_enc({', '.join(names)})"
        sums = [None]
        for f in self.fs:
            e = self.part(f, f["v"])
            sums.append(e if sums[-1] is None else f"{sums[-1]} + {e}")
        after = lambda i: stc + " { " + ", ".join(f"{g['name']}: " + ("None" if j >= i else f"{g['v']}.m()" if g["opt"] else f"Some({g['v']}.m())")
                                                  for j, g in enumerate(self.fs)) + " }"
        for i, f in enumerate(self.fs):
            v, n = f["v"], f["name"]
            some = f"{p}_reads_{n}({'y' if f['opt'] else v}, {after(i)});"
            read = f"if let Some(y) = {v} {{ {some} }} else {{ runs_none({p}_steps{ta}(), {after(i)}); }}" if f["opt"] else some
            pars = ", ".join(f"{g['v']}: {g['rust']}" for g in self.fs[:i + 1])
            text = f"{read}\n"
            if i:
                text += (f"    {p}_upto_{i}{ta}({', '.join(names[:i])});\n    assert(({sums[i + 1]}).len() == ({sums[i]}).len() + {self.part(f, v)}.len());\n"
                         f"    runs_then({p}_steps{ta}(), {sums[i]}, {self.part(f, v)}, {p}_init{ta}(), {after(i)}, {after(i + 1)});\n")
            out.append((f"{p}_upto_{i + 1}", f"""
#[verifier::rlimit(80)] pub proof fn {p}_upto_{i + 1}{G}({pars})
    requires ({sums[i + 1]}).len() <= usize::MAX
    ensures runs({p}_steps{ta}(), {sums[i + 1]}, {p}_init{ta}(), {after(i + 1)})
{{
    {text}}}"""))
        k = len(self.fs)
        body = f"let step = {p}_steps{ta}();\n"
        if k:
            body += (f"    {p}_upto_{k}{ta}({', '.join(names)});\n    let q = {sums[k]};\n    add_assoc(q, enc_u32(0), t);\n    assert({E} == q + enc_u32(0));\n"
                     f"    assert(message(step, q + (enc_u32(0) + t), {p}_init{ta}()) == later(q.len() as int, message(step, enc_u32(0) + t, {after(k)})));\n")
        body += f"    runs_end(step, {after(k)}, t);\n"
        vals = [f"{n}.m()" for n in names]
        out.append((f"{p}_round", f"""
#[verifier::rlimit(80)] pub proof fn {p}_round{G}({args}{', ' if args else ''}t: Seq<u8>)
    requires {p}_enc({', '.join(names)}).len() <= usize::MAX
    ensures {p}_parse{ta}({p}_enc({', '.join(names)}) + t) == Out::Val({self.whole(vals)}, {p}_enc({', '.join(names)}).len() as int)
{{
    {body}}}"""))
        return out


def skip_law(self, f, p, G):
    x = f["x"]
    size = "enc_bytes(x.enc()).len()" if f["long"] else "x.enc().len()"
    enc = "enc_bytes(x.enc())" if f["long"] else "x.enc()"
    base = x[1] if x[0] == "non_zero" else x
    if base[0] == "prim":
        m = marker(base)
        if m == "Varint":
            v = "x.val()" if x[0] == "non_zero" else "x"
            num = f"zig({v} as int)" if base[1][0] == "i" else f"{v} as nat"
            hint = f"skip_varint_of({num});"
        else:
            hint = "float_bytes_len();"
    elif f["long"]:
        hint = "skip_block_of(x.enc());"
    else:
        content = {"string": "encode_utf8({0}@)", "boxstr": "encode_utf8({0}@)", "bytes": "{0}@", "boxbytes": "{0}@"}.get(base[0])
        if content is None:
            if base[0] in ("vec", "array"):
                content = "concat(refs({0}@), enc_ref::<%s>())" % self.s.rust(base[1])
            elif base[0] == "hash_set":
                content = "concat(refs({0}.entries()), enc_ref::<%s>())" % self.s.rust(base[1])
            else:
                content = "concat(pair_refs({0}.entries()), enc_pair::<%s, %s>())" % (self.s.rust(base[1]), self.s.rust(base[2]))
        hint = f"skip_block_of({content.format('x.0' if x[0] == 'non_zero' else 'x')});"
    return f"""
/// Field {f['n']} is passed over by a reader that does not know it.
pub proof fn {p}_skips_{f['name']}{G}(x: {f['xr']})
    requires {size} <= usize::MAX
    ensures skippable({f['m']}, {enc})
{{
    {hint}
}}"""


def definition(s, d):
    """-> (spec text, items {trait: text}, [(law, text)])"""
    ga = "<" + ", ".join(d.params) + ">" if d.params else ""
    g = lambda b: generics(d, b)
    rr = "".join(f"#[verifier::reject_recursive_types({x})] " for x in d.params)
    recs = [Record(s, d, r) for r in d.records]
    n = d.name
    spec = ""
    laws = []
    real = [r for r in recs if r.fs or r.kind != "unit"]
    fieldlist = lambda r: ", ".join(f"{f['name']}: <{f['rust']} as Model>::M" for f in r.fs)
    if d.kind == "struct":
        r = recs[0]
        spec += rr + f"pub struct {n}_M{g('Model')} {{ " + ", ".join(f"pub {f['name']}: <{f['rust']} as Model>::M" for f in r.fs) + " }\n"
        acc = [f"self.{f['name']}" if r.kind == "named" else f"self.{i}" for i, f in enumerate(r.fs)]
        model = r.whole([f"{a}.m()" for a in acc])
        if r.kind == "unit":
            enc, parse = "seq![]", f"Out::Val({r.whole([])}, 0)"
        else:
            enc = f"{r.p}_enc({', '.join(acc)})"
            parse = f"{r.p}_parse{'::' + ga if ga else ''}(s)"
        rt = f"{r.p}_round({', '.join(acc + ['t'])});"
        cases = [(r, None)]
    else:
        spec += rr + f"pub enum {n}_M{g('Model')} {{ " + ", ".join(f"{r.variant} {{ {fieldlist(r)} }}" for r in recs) + " }\n"

        def pat(r):
            names = [f"{f['name']}: {f['v']}" if r.kind == "named" else f["v"] for f in r.fs]
            return f"{n}::{r.variant}" + ("" if r.kind == "unit" else " { " + ", ".join(names) + " }" if r.kind == "named" else "(" + ", ".join(names) + ")")
        model = "match *self { " + ", ".join(f"{pat(r)} => {r.whole([f['v'] + '.m()' for f in r.fs])}" for r in recs) + " }"
        enc = "match *self { " + ", ".join(
            f"{pat(r)} => enc_u32({r.vid})" + ("" if r.kind == "unit" else f" + {r.p}_enc({', '.join(f['v'] for f in r.fs)})") for r in recs) + " }"
        parse = "match parse_u32(s) { Out::Err(k) => Out::Err(k), Out::Val(v, l) => "
        for r in recs:
            what = f"Out::Val({r.whole([])}, l)" if r.kind == "unit" else f"later(l, {r.p}_parse{'::' + ga if ga else ''}(s.skip(l)))"
            parse += f"if v == {r.vid} {{ {what} }} else "
        parse += "{ Out::Err(Kind::Variant(v)) } }"
        rt = "match *self { "
        for r in recs:
            names = [f["v"] for f in r.fs]
            rt += f"{pat(r)} => {{ "
            if r.kind == "unit":
                rt += f"rt_u32({r.vid}, t); "
            else:
                e = f"{r.p}_enc({', '.join(names)})"
                rt += f"tagged({r.vid}, {e}, t); {r.p}_round({', '.join(names + ['t'])}); "
            rt += "} "
        rt += "}"
    spec += "".join(r.spec() for r in real)
    spec += f"impl{g('Model')} Model for {n}{ga} {{ type M = {n}_M{ga}; open spec fn m(&self) -> {n}_M{ga} {{ {model} }} }}\n"
    for r in real:
        laws += r.laws()
    items = dict(Size=f"open spec fn enc(&self) -> Seq<u8> {{ {enc} }}", Decode=f"open spec fn parse(s: Seq<u8>) -> Out<Self::M> {{ {parse} }}", Encode="")
    if d.kind == "struct" and recs[0].kind == "unit":
        return spec, items, laws        # zero bytes: not `Local`, cannot be the element of a container (see the known findings)
    if d.kind == "struct":
        r = recs[0]
        ta = "::" + ga if ga else ""
        local = f"{r.p}_local{ta}(); message_bounds({r.p}_steps{ta}(), s, {r.p}_init{ta}()); message_local({r.p}_steps{ta}(), s, t, {r.p}_init{ta}());"
        bounds = f"{r.p}_local{ta}(); message_bounds({r.p}_steps{ta}(), s, {r.p}_init{ta}());"
    else:
        local = bounds = "broadcast use words; let l = parse_u32(s)->Val_1; let v = parse_u32(s)->Val_0; "
        local += "let m = Self::parse(s)->Val_1; "
        ta = "::" + ga if ga else ""
        lo = ""
        for r in real:
            c = f"if v == {r.vid} {{ {r.p}_local{ta}(); message_bounds({r.p}_steps{ta}(), s.skip(l), {r.p}_init{ta}()); "
            bounds += c + "} else "
            lo += c + f"same_part_skip(s, t, l, m); local_u32(s, t); message_local({r.p}_steps{ta}(), s.skip(l), t.skip(l), {r.p}_init{ta}()); }} else "
        bounds += "{}"
        local += lo + "{ same_part_skip(s, t, l, m); local_u32(s, t); }"
    laws.append((f"local {n}", f"impl{g('Round')} Local for {n}{ga} {{\n    proof fn local(s: Seq<u8>, t: Seq<u8>) {{ {local} }}\n    proof fn bounds(s: Seq<u8>) {{ {bounds} }}\n}}"))
    laws.append((f"round {n}", f"impl{g('Round')} Round for {n}{ga} {{ #[verifier::rlimit(60)] proof fn rt(&self, t: Seq<u8>) {{ {rt} }} }}"))
    return spec, items, laws


# --------------------------------------------------------------------------------------------------- generated code

KEYWORDS = {"impl", "mut", "for", "dyn", "in", "return", "as", "match", "where", "if", "let", "use", "ref", "else"}


def begins(t, i):
    """Does a path begin at t[i] (`::`)?"""
    return i == 0 or t[i - 1] in KEYWORDS or not re.match(r"\w", t[i - 1]) and t[i - 1] != ">"


def normal(t):
    """Paths into the runtime, std paths and attributes."""
    out, i = [], 0
    while i < len(t):
        if t[i] == "#" and i + 1 < len(t) and t[i + 1] == "[":
            i = rust.match(t, i + 1) + 1
            continue
        if t[i] == "::" and t[i + 1] == "mabo" and begins(t, i):
            i += 2
            while t[i] == "::" and (t[i + 1] in ("buf",)):
                i += 2
            i += 1
            continue
        if t[i] == "::" and t[i + 1] == "std" and begins(t, i):
            while t[i] == "::" and t[i + 1] in ("std", "fmt", "num", "collections"):
                i += 2
            i += 1
            continue
        out.append(t[i])
        i += 1
    return out


CALL = re.compile(r"(encode|size|decode)_(non_zero_)?(vec|hash_map|hash_set|array|option|tuple)$")


def arguments(t):
    """Split at commas, with closures kept whole."""
    out, cur, i = [], [], 0
    while i < len(t):
        x = t[i]
        if x == "|" and not cur:
            j = i + 1
            while t[j] != "|":
                j += 1
            cur += t[i:j + 1]
            i = j + 1
            continue
        if x in rust.OPEN:
            j = rust.match(t, i)
            cur += t[i:j + 1]
            i = j + 1
            continue
        if x == ",":
            out.append(cur)
            cur = []
        else:
            cur.append(x)
        i += 1
    if cur:
        out.append(cur)
    return out


def closure(t):
    """-> (parameter names, body)"""
    if t[:1] == ["||"]:
        return [], t[1:]
    if t[:1] != ["|"]:
        raise Unsupported("not a closure: " + rust.join(t)[:80])
    j = t.index("|", 1)
    ps = [p for p in "".join(t[1:j]).split(",") if p]
    if not all(re.match(r"\w+$", p) for p in ps):
        raise Unsupported("closure parameters")
    return ps, t[j + 1:]


def text(t):
    return re.sub(r"> (?=>)", ">", re.sub(r"< (?=<)", "<", " ".join(t)))


class Code:
    """Annotates the code of one function."""
    def __init__(self, s, d=None, generics=(), where=()):
        self.s, self.n, self.d = s, 0, d
        self.generics, self.where, self.parts = list(generics), list(where), []
        self.locals, self.apart = set(), []

    def part(self, name, own, params, res, contract, body):
        """A function of its own for the code of one field; -> its name."""
        n = f"{name}__{len(self.parts)}"
        g = ", ".join(x for x in self.generics + [own] if x)
        w = " where " + ", ".join(self.where) if self.where else ""
        self.parts.append(f"#[verifier::spinoff_prover] #[verifier::rlimit(60)] fn {n}<{g}>({params}){res}{w}\n    {contract}\n{{ {body} }}\n")
        a = ", ".join(x.split(":")[0].strip() for x in self.generics + [own] if x)
        return n + (f"::<{a}>" if a else "")

    def separate(self, t):
        """Does the code use nothing but the field (or `self`), the reader and the writer?"""
        return not (set(t) & self.locals)

    def fresh(self, name):
        self.n += 1
        return f"{name}{self.n}__"

    def enc(self, t, ty, x=None, long=False):
        """An encoding closure for values of `ty`: |w| (of the value x) or |w, v|."""
        ps, body = closure(t)
        R = self.s.rust(ty)
        nodes = containers(ty)
        if len(ps) == 1 and x is not None:
            v, sig = x, f"|{ps[0]}: &mut W__|"
        elif len(ps) == 2 and x is None:
            v, sig = ps[1], f"|{ps[0]}: &mut W__, {ps[1]}: &{R}|"
        else:
            raise Unsupported("closure parameters")
        w = ps[0]
        e = f"enc_bytes({v}.enc())" if long else f"{v}.enc()"
        start = "" if long or ty[0] != "tuple" else "proof { let o__ = (*old(" + w + ")).view(); " + self.chain("o__", v, ty) + "}"
        return f"{sig} requires {e}.len() <= usize::MAX ensures (*final({w})).view() == (*old({w})).view() + {e} {{ {start} {self.body(body, ty, None, x=v, long=long)} }}"

    def size(self, t, ty, x=None):
        ps, body = closure(t)
        R = self.s.rust(ty)
        if len(ps) == 0 and x is not None:
            v, sig = x, "|| -> (n__: usize)"
        elif len(ps) == 1 and x is None:
            v, sig = ps[0], f"|{ps[0]}: &{R}| -> (n__: usize)"
        else:
            raise Unsupported("closure parameters")
        return f"{sig} requires {v}.enc().len() <= usize::MAX ensures n__ == {v}.enc().len() {{ {self.body(body, ty, None, x=v)} }}"

    def dec(self, t, ty, rty):
        ps, body = closure(t)
        R = self.s.rust(ty)
        if len(ps) != 1:
            raise Unsupported("closure parameters")
        r = ps[0]
        return (f"|{r}: &mut {rty}| -> (z__: Result<{R}>) ensures <{rty}>::adv(*old({r}), *final({r})), "
                f"agrees(<{R} as Decode>::parse((*old({r})).view()), (*old({r})).view(), z__, (*final({r})).view()) "
                f"{{ proof {{ laws::<{rty}>(); }} {self.body(body, ty, rty)} }}")

    def body(self, t, ty, rty, x=None, long=False):
        nodes = containers(ty)
        out = self.walk(t, nodes, rty, ty, x, long)
        if nodes:
            raise Unsupported("fewer container calls than the type has containers")
        return out

    def walk(self, t, nodes, rty, ty=None, x=None, long=False):
        out, i = [], 0
        while i < len(t):
            m = CALL.match(t[i]) if i + 1 < len(t) and t[i + 1] == "(" and (i == 0 or t[i - 1] not in (".", "fn", "::")) else None
            if m is None:
                out.append(t[i])
                i += 1
                continue
            k = rust.match(t, i + 1)
            args = arguments(t[i + 2:k])
            op, nz, con = m.groups()
            if con == "tuple":
                if ty is None or ty[0] != "tuple" or not long or len(args) != 3:
                    raise Unsupported("tuple")
                out.append("(" + self.tuple_call(args, ty, x) + ")")
                nodes.clear()
            else:
                if not nodes:
                    raise Unsupported("more container calls than the type has containers")
                node = nodes.pop(0)
                if node[0] == "non_zero":
                    if op == "decode" and not nz:
                        raise Unsupported("plain decoder of a non-zero type")
                    node = node[1]
                elif nz:
                    raise Unsupported("non-zero decoder of a plain type")
                if node[0] != con:
                    raise Unsupported(f"{t[i]} for a {node[0]}")
                out.append("(" + getattr(self, op + "_call")(t[i], node, args, rty) + ")")
            i = k + 1
        return text(out)

    def tuple_call(self, args, ty, x):
        c, e = self.fresh("s"), self.fresh("e")
        if args[0] != ["w"]:
            raise Unsupported("writer")
        return (f"{{ let {c} = {self.size(args[1], ty, x)}; let {e} = {self.enc(args[2], ty, x)}; "
                f"proof {{ assert(writes({e}, {x}.enc())); add_assoc((*old(w)).view(), enc_u64({x}.enc().len() as u64), {x}.enc()); }} encode_tuple(w, {c}, {e}) }}")

    def content(self, node, a):
        k = node[0]
        if k == "hash_map":
            return f"concat({self.view(node, a)}, enc_pair::<{self.s.rust(node[1])}, {self.s.rust(node[2])}>())"
        return f"concat({self.view(node, a)}, enc_ref::<{self.s.rust(node[1])}>())"

    def block(self, node, a):
        """The length and the content, written one after the other."""
        return f"let c__ = {self.content(node, a)}; add_assoc(w.view(), enc_u64(c__.len() as u64), c__); "

    def view(self, node, a):
        return f"(&*{a}).each()"

    def argtype(self, node):
        if node[0] == "vec":
            return f"&[{self.s.rust(node[1])}]"
        return "&" + self.s.rust(node)

    def encode_call(self, fn, node, args, rty):
        w, a = args[0], self.fresh("x")
        if w != ["w"]:
            raise Unsupported("writer")
        k = node[0]
        pre = f"let {a}: {self.argtype(node)} = {text(args[1])}; "
        if k == "option":
            if len(args) != 3:
                raise Unsupported(fn)
            e = self.fresh("e")
            return (f"{{ {pre} let {e} = {self.enc(args[2], node[1])}; "
                    f"proof {{ if let Some(y__) = {a} {{ assert(writes_of({e}, y__, y__.enc())); add_assoc(w.view(), seq![1u8], y__.enc()); }} }} {fn}(w, {a}, {e}) }}")
        if k == "hash_map":
            if len(args) != 6:
                raise Unsupported(fn)
            K, V = self.s.rust(node[1]), self.s.rust(node[2])
            n = [self.fresh(z) for z in ("sk", "sv", "ek", "ev")]
            return (f"{{ {pre} let {n[0]} = {self.size(args[2], node[1])}; let {n[1]} = {self.size(args[3], node[2])}; "
                    f"let {n[2]} = {self.enc(args[4], node[1])}; let {n[3]} = {self.enc(args[5], node[2])}; "
                    f"proof {{ let es__ = {self.view(node, a)}; pair_sizes::<{K}, {V}, _, _>({n[0]}, {n[1]}, es__); "
                    f"{self.block(node, a)} assert(writes_all({n[2]}, firsts(es__), enc_ref::<{K}>())); assert(writes_all({n[3]}, seconds(es__), enc_ref::<{V}>())); }} "
                    f"{fn}(w, {a}, {', '.join(n)}) }}")
        if len(args) != 4:
            raise Unsupported(fn)
        E = self.s.rust(node[1])
        c, e = self.fresh("s"), self.fresh("e")
        return (f"{{ {pre} let {c} = {self.size(args[2], node[1])}; let {e} = {self.enc(args[3], node[1])}; "
                f"proof {{ sizes::<{E}, _>({c}, {self.view(node, a)}); {self.block(node, a)} assert(writes_all({e}, {self.view(node, a)}, enc_ref::<{E}>())); }} "
                f"{fn}(w, {a}, {c}, {e}) }}")

    def size_call(self, fn, node, args, rty):
        a, k = self.fresh("x"), node[0]
        if k == "option":
            c = self.fresh("s")
            return (f"{{ let {a}: Option<&{self.s.rust(node[1])}> = {text(args[0])}; let {c} = {self.size(args[1], node[1])}; {fn}({a}, {c}) }}")
        pre = f"let {a}: {self.argtype(node)} = {text(args[0])}; "
        if k == "hash_map":
            K, V = self.s.rust(node[1]), self.s.rust(node[2])
            n = [self.fresh(z) for z in ("sk", "sv")]
            return (f"{{ {pre} let {n[0]} = {self.size(args[1], node[1])}; let {n[1]} = {self.size(args[2], node[2])}; "
                    f"proof {{ pair_sizes::<{K}, {V}, _, _>({n[0]}, {n[1]}, {self.view(node, a)}); }} {fn}({a}, {', '.join(n)}) }}")
        E = self.s.rust(node[1])
        c = self.fresh("s")
        return f"{{ {pre} let {c} = {self.size(args[1], node[1])}; proof {{ sizes::<{E}, _>({c}, {self.view(node, a)}); }} {fn}({a}, {c}) }}"

    def decode_call(self, fn, node, args, rty):
        if args[0] != ["r"]:
            raise Unsupported("reader")
        k = node[0]
        sub = rty if k == "option" else f"Take<&mut {rty}>"
        tys = [node[1], node[2]] if k == "hash_map" else [node[1]]
        if len(args) != 1 + len(tys):
            raise Unsupported(fn)
        names = [self.fresh("d") for _ in tys]
        lets = "".join(f"let {n} = {self.dec(a, ty, sub)}; " for n, a, ty in zip(names, args[1:], tys))
        ps = [f"parser::<{self.s.rust(ty)}>()" for ty in tys]
        hint = "".join(f"assert(implements::<{sub}, {self.s.rust(ty)}, _>({n}, {p})); " for n, ty, p in zip(names, tys, ps))
        return f"{{ {lets} proof {{ {hint} }} {fn}(r, {', '.join(names)}) }}"

    # ---- fields

    def chain(self, o, x, ty):
        """Writing the elements of a tuple one after the other is writing their sum."""
        if ty[0] != "tuple":
            return ""
        out, q = "", None
        for i, c in enumerate(ty[1]):
            e = f"{x}.{i}.enc()"
            if q is None:
                out, q = self.chain(o, f"{x}.{i}", c), e
            else:
                out += f"add_assoc({o}, {q}, {e}); " + self.chain(f"({o} + ({q}))", f"{x}.{i}", c)
                q = f"{q} + {e}"
        return out

    def field_calls(self, t, rec, names, size):
        """encode_field, encode_field_option, size_field and size_field_option; `names`: expressions of the fields' values."""
        values = [("{0}" if n.startswith("self") else "*{0}").format(n) for n in names]
        parts = [rec.part(f, v) for f, v in zip(rec.fs, values)]
        whole = f"{rec.p}_enc({', '.join(values)})"
        base = "o__" if rec.vid is None else f"(o__ + enc_u32({rec.vid}))"
        sums = [None]
        for p in parts:
            sums.append(p if sums[-1] is None else f"{sums[-1]} + {p}")
        if rec.kind == "unit":
            pre = ""
        elif size:
            pre = "proof { " + "".join(f"header_len({f['n']}); " for f in rec.fs if f["n"] < 0x2000_0000)
            pre += f"end_len(); assert({whole}.len() == " + "".join(f"{p}.len() + " for p in parts) + "1); } "
        else:
            pre = "let ghost o__ = (*old(w)).view(); proof { "
            pre += f"add_assoc({base}, {sums[-1]}, enc_u32(0)); " if parts else ""
            pre += f"add_assoc(o__, enc_u32({rec.vid}), {whole}); " if rec.vid is not None else ""
            pre += "} "
        return pre + self.field_calls_in(t, rec, names, values, parts, base, sums)

    def field_calls_in(self, t, rec, names, values, parts, base, sums):
        out, i, seen = [], 0, 0
        while i < len(t):
            if not (re.match(r"(encode|size)_field(_option)?$", t[i]) and t[i + 1] == "("):
                out.append(t[i])
                i += 1
                continue
            k = rust.match(t, i + 1)
            args = arguments(t[i + 2:k])
            enc, opt = t[i].startswith("encode"), t[i].endswith("option")
            head = args[1] if enc else args[0]
            m = re.match(r"FieldId::new\((\d+),", "".join(head)) if enc else re.match(r"(\d+)$", "".join(head))
            f = next((f for f in rec.fs if m and f["n"] == int(m.group(1))), None)
            if f is None:
                # Not a number of the schema: by position; the contract then fails.
                if seen >= len(rec.fs):
                    raise Unsupported("more fields than the schema has")
                f = rec.fs[seen]
            seen += 1
            if f["opt"] != opt:
                raise Unsupported("optional and required fields differ from the schema")
            k0 = rec.fs.index(f)
            v, part, q = names[k0], parts[k0], sums[k0]
            h = f"enc_id(header({f['n']}, {f['m']}))"
            before = base if q is None else f"({base} + ({q}))"
            ty, n = f["x"], self.n
            # The code of the field on its own: the value is called `v`, the contract is about `mine`.
            alone = self.separate(t[i:k + 1])
            if v.startswith("self."):
                mine, par, arg = "this__" + v[4:], f"this__: &{self.d.name}{rec.ga}", "self"
                args = [["this__" if x == "self" else x for x in a] for a in args]
                head = args[1] if enc else args[0]
                mv = mine
                pre = text([self.d.name if x == "Self" else x for x in self.apart] + ["this__", ";"]) if self.apart else ""
            else:
                mine, par, arg, mv, pre = "*" + v, f"{v}: &{f['rust']}", v, v, ""
            if not alone:
                raise Unsupported("the code of a field depends on more than the field")
            mp = rec.part(f, mine)
            if enc:
                if not opt:
                    e = f"enc_bytes({mv}.enc())" if f["long"] else f"{mv}.enc()"
                    c = self.fresh("f")
                    body = (f"let {c} = {self.enc(args[2], ty, mv, f['long'])}; proof {{ assert(writes({c}, {e})); add_assoc((*old(w)).view(), {h}, {e}); }} "
                            f"encode_field(w, {text(head)}, {c});")
                else:
                    a, c = self.fresh("x"), self.fresh("f")
                    e = "enc_bytes(y__.enc())" if f["long"] else "y__.enc()"
                    body = (f"let {a}: &{f['rust']} = {text(args[2])}; let {c} = {self.enc(args[3], ty, None, f['long'])}; "
                            f"proof {{ if let Some(y__) = {a} {{ assert(writes_of({c}, y__, {e})); add_assoc((*old(w)).view(), {h}, {e}); }} else {{ add_none((*old(w)).view()); }} }} "
                            f"encode_field_option(w, {text(head)}, {a}, {c});")
                fn = self.part(f"{rec.p}_encode_{f['name']}", "W__: BufMut", f"w: &mut W__, {par}", "",
                               f"requires ({mp}).len() <= usize::MAX\n    ensures (*final(w)).view() == (*old(w)).view() + ({mp})", pre + body)
                out.append(f"{{ {fn}(w, {arg}); proof {{ " + (f"add_assoc({base}, {q}, {part}); " if q is not None else "")
                           + f"assert(w.view() == {base} + ({sums[k0 + 1]})); }} }}")
            else:
                a, c = self.fresh("x"), self.fresh("f")
                if not opt:
                    body = f"let {c} = {self.size(args[1], ty, mv)}; size_field({text(head)}, {c})"
                else:
                    body = f"let {a}: Option<&{f['xr']}> = {text(args[1])}; let {c} = {self.size(args[2], ty)}; size_field_option({text(head)}, {a}, {c})"
                hl = f"header_len({f['n']}); " if f["n"] < 0x2000_0000 else ""
                fn = self.part(f"{rec.p}_size_{f['name']}", "", par, " -> (res: usize)",
                               f"requires ({mp}).len() <= usize::MAX\n    ensures res == ({mp}).len()", "broadcast use enc_len_u32; proof { " + hl + "} " + pre + body)
                out.append(f"{fn}({arg})")
            i = k + 1
        return text(out)

    def loops(self, t, recs, top):
        """The decoding loops, one for each record in order."""
        out, i, n = [], 0, 0
        while i < len(t):
            if t[i] == "loop" and t[i + 1] == "{":
                if n >= len(recs):
                    raise Unsupported("more loops than the schema has records")
                rec = recs[n]
                n += 1
                k = rust.match(t, i + 1)
                out.append(self.loop(t[i + 2:k], rec))
                i = k + 1
                continue
            out.append(t[i])
            i += 1
        if n != len(recs):
            raise Unsupported("fewer loops than the schema has records")
        return text(out)

    def loop(self, t, rec):
        # let id = decode_id(r)?; match id.value { .. }
        m = extract.find(t, "match id . value {".split())
        if m is None:
            raise Unsupported("decoding loop")
        a, b, _ = m
        k = rust.match(t, b - 1)
        arms = self.arms(t[b:k])
        var, new = {}, []
        for num, lhs, body in arms:
            f = next((f for f in rec.fs if str(f["n"]) == num), None)
            if f is not None:
                w = extract.find(body, "$ = Some (".split())
                if w is None:
                    raise Unsupported("field is not assigned")
                var[f["name"]] = w[2][0][0]
                new.append(f"{num} => {{ {self.arm(body, f, rec)}; }}")
            else:
                new.append(f"{lhs} => {text(body)}")
        missing = [f["name"] for f in rec.fs if f["name"] not in var]
        if missing:
            raise Unsupported("no code for the fields " + ", ".join(missing))
        ta = "::" + rec.ga if rec.ga else ""
        st = f"{rec.p}_St{ta} {{ " + ", ".join(f"{f['name']}: {var[f['name']]}.m()" for f in rec.fs) + " }"
        ghost = self.fresh("from")
        steps, init = f"{rec.p}_steps{ta}()", f"{rec.p}_init{ta}()"
        return (f"let ghost {ghost} = r.view(); proof {{ assert({st} == {init}); assert(later(0, message({steps}, {ghost}, {init})) == message({steps}, {ghost}, {init})); }}\n"
                f"#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] loop\n"
                f"    invariant_except_break message({steps}, {ghost}, {init}) == later({ghost}.len() - r.view().len(), message({steps}, r.view(), {st})),\n"
                f"    invariant R__::adv(*old(r), *r), r.view().len() <= {ghost}.len(), r.view() == {ghost}.skip({ghost}.len() - r.view().len()),\n"
                f"    ensures message({steps}, {ghost}, {init}) == Out::Val({st}, {ghost}.len() - r.view().len()),\n"
                f"    decreases r.view().len()\n"
                f"{{ proof {{ turn({steps}, {ghost}, {init}, {ghost}.len() - r.view().len(), r.view(), {st}); }} {text(t[:a])} match id.value {{ {', '.join(new)} }} }}")

    def arm(self, body, f, rec):
        b = body
        while b and b[0] == "{" and rust.match(b, 0) == len(b) - 1:
            b = b[1:-1]
        if b and b[-1] == ";":
            b = b[:-1]
        if len(b) < 5 or b[1:4] != ["=", "Some", "("] or rust.match(b, 3) != len(b) - 1 or not self.separate(b[4:-1]) or b[0] in b[4:-1]:
            return self.walk_field(body, f)
        fn = self.part(f"{rec.p}_decode_{f['name']}", "R__: Buf", "r: &mut R__", f" -> (res: Result<{f['xr']}>)",
                       f"ensures R__::adv(*old(r), *final(r)), agrees({rec.read(f, '(*old(r)).view()')}, (*old(r)).view(), res, (*final(r)).view())",
                       f"{hide_tuple(f['x'])}proof {{ laws::<R__>(); }} Ok({self.walk_field(b[4:-1], f)})")
        return f"{b[0]} = Some({fn}(r)?)"

    def walk_field(self, body, f):
        nodes = containers(f["x"])
        out = self.walk(body, nodes, "R__")
        if nodes:
            raise Unsupported("fewer container calls than the type has containers")
        return out

    def arms(self, t):
        """[(number | None, pattern, body)]"""
        out, i = [], 0
        while i < len(t):
            j = i
            while t[j] != "=>":
                j += 1
            lhs = text(t[i:j])
            if t[j + 1] == "{":
                k = rust.match(t, j + 1)
                body = t[j + 1:k + 1]
                k += 1
                if k < len(t) and t[k] == ",":
                    k += 1
            else:
                k = j + 1
                while k < len(t) and t[k] != ",":
                    k = rust.match(t, k) + 1 if t[k] in rust.OPEN else k + 1
                body = t[j + 1:k]
                k += 1
            out.append((lhs if re.match(r"\d+$", lhs) else None, lhs, body))
            i = k
        return out


def encode_body(c, s, d, t, size):
    recs = [Record(s, d, r) for r in d.records]
    if d.kind == "struct":
        r = recs[0]
        names = [f"self.{f['name']}" if r.kind == "named" else f"self.{i}" for i, f in enumerate(r.fs)]
        return "{ " + c.field_calls(t[1:], r, names, size)
    return by_variant(c, d, recs, t, size)


def by_variant(c, d, recs, t, size):
    """match self { Self::V .. => { .. } }: each arm with the names of its variant."""
    m = extract.find(t, "match self {".split())
    if m is None:
        raise Unsupported("match on the variants")
    a, b, _ = m
    k = rust.match(t, b - 1)
    arms = c.arms(t[b:k])
    out = []
    for _, lhs, body in arms:
        v = re.match(r"Self :: (\w+)", lhs)
        r = next((r for r in recs if v and r.variant == v.group(1)), None)
        if r is None:
            raise Unsupported("variant " + lhs)
        out.append(f"{lhs} => {{ {c.field_calls(body, r, pattern(lhs, r), size)} }}")
    return text(t[:b]) + " " + "\n".join(out) + " " + text(t[k:])


def pattern(lhs, r):
    """The names that a pattern gives to the fields of a variant."""
    if r.kind == "unit":
        return []
    m = re.match(r"Self :: \w+ [({] (.*?) ,? ?[)}]$", lhs)
    names = [x.strip() for x in m.group(1).split(",") if x.strip()] if m else []
    if r.kind == "named":
        by = {}
        for x in names:
            a, _, b = x.partition(":")
            by[a.strip()] = (b or a).strip()
        names = [by.get(f["name"]) for f in r.fs]
    if len(names) != len(r.fs) or not all(x and re.match(r"\w+$", x) for x in names):
        raise Unsupported("pattern " + lhs)
    return names


def has_long(d):
    return any(inner(ty)[0][0] == "tuple" for _, _, _, fs in d.records for _, ty, _ in fs)


HIDE = ("bool", "u8", "i8", "f32", "f64", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128")


def hide(recs):
    """What the proof of a decoder need not look into."""
    used = {f["x"][1] for r in recs for f in r.fs if f["x"][0] == "prim"} & set(HIDE)
    return "".join(f"hide({f}); " for f in ["message", "parse_id", "parse_skip"] + sorted("parse_" + x for x in used))


def prims(t, out):
    """Basic types in a type."""
    if t[0] == "prim":
        out.add(t[1])
    if t[0] == "tuple":
        for c in t[1]:
            prims(c, out)
    elif t[0] not in ("user", "param", "prim", "non_zero"):
        for c in t[1:]:
            if isinstance(c, tuple):
                prims(c, out)
    return out


def hide_tuple(t):
    n = set()
    tuples_in(t, n)
    return "".join(f"hide(parse_{x}); " for x in sorted(prims(t, set()) & set(HIDE))) if n and max(n) > 6 else ""


def implementation(s, d, trait, node, items, stub):
    """Verus text of a generated impl with its contract."""
    f = next((f for f in node.fns), None)
    if f is None or len(node.fns) != 1:
        raise Unsupported("methods")
    gen = ", ".join(rust.join(g) for g in node.generics)
    where = [text(normal(w)) for w in node.where]
    target = text(normal(node.target))
    head = f"impl{'<' + gen + '>' if gen else ''} {target}" + (" where " + ", ".join(where) if where else "") + " {\n" + items[trait] + "\n"
    R = {"Encode": "fn encode<W__: BufMut>(&self, w: &mut W__)", "Size": "fn size(&self) -> (res: usize)",
         "Decode": "fn decode<R__: Buf>(r: &mut R__) -> (res: Result<Self>)"}[trait]
    sig = text(normal(["fn", f.name] + ["("] + [x for p in f.params for x in p + [","]] + [")"] + (["->"] + f.ret if f.ret else [])))
    want = {"Encode": "fn encode ( & self , w : & mut impl BufMut , )", "Size": "fn size ( & self , ) -> usize",
            "Decode": "fn decode ( r : & mut impl Buf , ) -> Result < Self >"}[trait]
    if sig != want:
        raise Unsupported("signature " + sig)
    if stub:
        return head + f"#[verifier::external_body] {R} {{ unimplemented!() }}\n}}\n"
    t = normal(f.body)
    recs = [Record(s, d, r) for r in d.records]
    c = Code(s, d, [text(normal(g)) for g in node.generics], where)
    c.locals, c.apart = bound(t)
    pre = ""
    if trait in ("Encode", "Size"):
        body = encode_body(c, s, d, t, trait == "Size")
        if trait == "Size":
            pre = "broadcast use enc_len_u32; proof { float_bytes_len(); } "
    else:
        real = [r for r in recs if r.kind != "unit"]
        body = c.loops(t, real, d)
        pre = (hide(real) if real else "") + "proof { laws::<R__>(); assert(r.view().skip(0) =~= r.view()); } "
    if not body.startswith("{"):
        raise Unsupported("body")
    return "".join(c.parts) + head + f"#[verifier::spinoff_prover] #[verifier::rlimit(100)] {R} {{ {pre}{body[1:]}\n}}\n"


def bound(t):
    """Names bound by `let`, except those that take `self` apart."""
    out, apart, i = set(), [], 0
    while i < len(t):
        if t[i] == "let":
            j = i + 1
            while t[j] not in ("=", ":", ";"):
                j = rust.match(t, j) + 1 if t[j] in rust.OPEN else j + 1
            if t[j:j + 3] == ["=", "self", ";"] and t[i + 1] == "Self":
                apart = t[i:j + 1]
            else:
                out |= {x for x in t[i + 1:j] if re.match(r"[a-z_]\w*$", x) and x not in KEYWORDS}
        i += 1
    return out, apart


# --------------------------------------------------------------------------------------------------------- the unit

SKIPPED = {"known"}     # schemas of the known findings
ALIASES = ("NonZeroVec", "NonZeroHashMap", "NonZeroHashSet")
CANARY = """
proof fn canary_1__() { broadcast use {words, blocks, glue}; float_bytes_len(); laws_hold__(); assert(false); }
fn canary_2__<R: Buf>(r: &mut R) { broadcast use crate::theory::glue; proof { laws::<R>(); } let _ = crate::gen::basics::Single::decode(r); assert(false); }
fn canary_3__<W: BufMut>(w: &mut W, m: &crate::gen::nested::Maps) requires m.enc().len() <= usize::MAX { broadcast use crate::theory::glue; m.encode(w); let n = m.size(); assert(false); }
proof fn laws_hold__() {}
"""


def build(sources, stubs, skip):
    from . import verus
    runtime, contracts, prelude, laws, families, theory, gen, schemas = sources
    specs, _ = extract.load(contracts, families)
    u, lost = verus.build(runtime, contracts, prelude, laws, families, stubs=[k for k in specs if not k.startswith("trait ")])
    assert u.lines[-1] == "fn main() {}" and u.lines[-2] == "}"
    del u.lines[-2:]
    u.regions.clear()
    idx = verus.source_index(runtime)
    for c in ("END_MARKER", "END_MARKER_SIZE"):
        t = idx["const " + c].toks
        u.add("pub " + text(t[t.index("const"):]).rstrip(" ;") + ";", "const " + c)
    u.add("pub mod theory { use super::*;")
    for key, txt in verus.law_items(theory):
        u.add(txt, key)
    ar = set()
    for d in schemas.known.values():
        if d.path[0] not in SKIPPED:
            for _, _, _, fs in d.records:
                for _, ty, _ in fs:
                    tuples_in(ty, ar)
    for n in sorted(ar):
        u.add(tuple_impls(n), f"law tuple {n}")
    u.add(non_zero_impls(verus.INTS + verus.BYTES), "law non_zero")
    u.add("}\npub use theory::*;")
    for n, ps in (("HashMap", ["K", "V"]), ("HashSet", ["T"]), ("NonZero", ["T"])):
        u.add(debug(n, ps))
    u.add("pub mod gen {")
    lost = {}
    for stem in sorted(schemas.readers):
        if stem not in SKIPPED:
            module(u, schemas, (stem,), rust.items(rust.tokens(gen[stem])), stubs, skip, lost)
    u.add("}")
    for key, txt in verus.law_items(CANARY):
        u.add("pub mod m_" + re.search(r"canary_\d|laws_hold", txt).group(0) + " { use super::*; " + txt + "}" if "canary" in txt else txt, key)
    u.add("}\nfn main() {}")
    return u, lost


def debug(name, params):
    p = "<" + ", ".join(params) + ">" if params else ""
    return f"#[verifier::external] impl{p} Debug for {name}{p} {{ fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {{ unimplemented!() }} }}"


def module(u, s, path, items, stubs, skip, lost):
    u.add(f"pub mod {path[-1]} {{ use crate::*;\nbroadcast use crate::theory::glue;")
    here = path[1:]
    mine = [it for it in items if tuple(it.path) == here]
    for it in mine:
        if it.kind == "use" and "mabo" not in it.toks:
            u.add(text(it.toks))
    impls = {}
    for it in mine:
        if it.kind == "impl" and "for" in it.toks:
            for f in it.fns:
                f.impl = it
            head = it.head
            generics = []
            if head[0] == "<":
                k = rust.angle(head, 0)
                generics, head = rust.split(head[1:k]), head[k + 1:]
            where = []
            if "where" in head:
                w = head.index("where")
                where, head = rust.split(head[w + 1:]), head[:w]
            it.generics, it.where, it.target = generics, where, head
            h = normal(head)
            impls[(h[0], h[h.index("for") + 1])] = it
    for p, d in s.known.items():
        if d.path != path:
            continue
        full = "::".join(p)
        ty = next((it for it in mine if it.kind in ("struct", "enum") and it.name == d.name), None)
        if ty is None or ty.kind != d.kind:
            lost["type " + full] = "not generated"
            continue
        decl = [x for x in normal(ty.toks)]
        if d.kind == "struct" and "pub" not in decl and len(d.records[0][3]) > 0:
            lost["type " + full] = "fields are not public"
        u.add("".join(f"#[verifier::reject_recursive_types({x})] " for x in d.params) + "pub " + text(decl) + ("" if decl[-1] in ("}", ";") else ";"), "type " + full)
        u.add(debug(d.name, d.params), "debug " + full)
        spec, its, laws = definition(s, d)
        u.add(spec, "spec " + full)
        for trait in ("Size", "Encode", "Decode"):
            key = f"impl {trait} for {full}"
            node = impls.get((trait, d.name))
            if node is None:
                lost[key] = "not generated"
                continue
            try:
                if trait == "Size" and has_long(d):
                    lost[key] = "known finding: the length prefix of a tuple field is not counted"
                    u.add(implementation(s, d, trait, node, its, True), key)
                else:
                    u.add(implementation(s, d, trait, node, its, key in stubs), key)
            except (Unsupported, ValueError, IndexError) as e:
                lost[key] = str(e) or repr(e)
                try:
                    u.add(implementation(s, d, trait, node, its, True), key)
                except (Unsupported, ValueError, IndexError):
                    pass
        for name, txt in laws:
            key = f"law {'::'.join(path)}::{name}"
            if key not in skip:
                u.add(txt, key)
    for m in sorted({tuple(d.path)[:len(path) + 1] for d in s.known.values() if tuple(d.path)[:len(path)] == path and len(d.path) > len(path)}):
        module(u, s, m, items, stubs, skip, lost)
    u.add("}")
