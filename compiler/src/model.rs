//! Schemas as plain data: generated, printed as schema text, and read back from the parser's and
//! the compiler's data structures.
use crate::nd::{any, below};
use mabo_compiler::simplify as s;
use mabo_parser as p;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Basic(&'static str),
    Vec(Box<Ty>),
    Map(Box<(Ty, Ty)>),
    Set(Box<Ty>),
    Opt(Box<Ty>),
    NonZero(Box<Ty>),
    Tuple(Vec<Ty>),
    Array(Box<Ty>, u32),
    Ext(Vec<String>, String, Vec<Ty>),
}

pub type Number = Option<u32>;

#[derive(Clone, Debug, PartialEq)]
pub enum Fields {
    Named(Vec<(Vec<String>, String, Ty, Number)>),
    Unnamed(Vec<(Ty, Number)>),
    Unit,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Variant {
    pub comment: Vec<String>,
    pub name: String,
    pub fields: Fields,
    pub number: Number,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Lit {
    Bool(bool),
    Int(i128),
    Float(f64),
    Str(String),
    Bytes(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Def {
    Mod(Vec<String>, String, Vec<Def>),
    Struct(Vec<String>, String, Vec<String>, Fields),
    Enum(Vec<String>, String, Vec<String>, Vec<Variant>),
    Alias(Vec<String>, String, Vec<String>, Ty),
    Const(Vec<String>, String, Ty, Lit),
    Import(Vec<String>, Option<String>),
}

pub const BASIC: [&str; 19] = [
    "bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "string", "&string",
    "bytes", "&bytes", "box<string>", "box<bytes>",
];

// ---- as text ----

impl Ty {
    pub fn text(&self) -> String {
        let list = |v: &[Ty]| v.iter().map(Ty::text).collect::<Vec<_>>().join(", ");
        match self {
            Ty::Basic(b) => (*b).to_owned(),
            Ty::Vec(t) => format!("vec<{}>", t.text()),
            Ty::Map(kv) => format!("hash_map<{}, {}>", kv.0.text(), kv.1.text()),
            Ty::Set(t) => format!("hash_set<{}>", t.text()),
            Ty::Opt(t) => format!("option<{}>", t.text()),
            Ty::NonZero(t) => format!("non_zero<{}>", t.text()),
            Ty::Tuple(v) => format!("({})", list(v)),
            Ty::Array(t, n) => format!("[{}; {n}]", t.text()),
            Ty::Ext(path, name, args) => {
                let mut o = String::new();
                for p in path {
                    o += p;
                    o += "::";
                }
                o += name;
                if !args.is_empty() {
                    o += &format!("<{}>", list(args));
                }
                o
            }
        }
    }
}

fn number(n: Number) -> String {
    n.map_or(String::new(), |n| format!(" @{n}"))
}

fn comments(c: &[String]) -> String {
    c.iter().map(|l| format!("/// {l}\n")).collect()
}

fn generics(g: &[String]) -> String {
    if g.is_empty() { String::new() } else { format!("<{}>", g.join(", ")) }
}

impl Fields {
    fn text(&self) -> String {
        match self {
            Fields::Named(f) => {
                let mut o = " {\n".to_owned();
                for (c, name, ty, id) in f {
                    o += &format!("{}{name}: {}{},\n", comments(c), ty.text(), number(*id));
                }
                o + "}"
            }
            Fields::Unnamed(f) => {
                let f = f.iter().map(|(ty, id)| ty.text() + &number(*id)).collect::<Vec<_>>();
                format!("({})", f.join(", "))
            }
            Fields::Unit => String::new(),
        }
    }
}

impl Def {
    pub fn text(&self) -> String {
        match self {
            Def::Mod(c, name, defs) => format!("{}mod {name} {{\n{}}}\n", comments(c), text(defs)),
            Def::Struct(c, name, g, f) => format!("{}struct {name}{}{}\n", comments(c), generics(g), f.text()),
            Def::Enum(c, name, g, vs) => {
                let mut o = format!("{}enum {name}{} {{\n", comments(c), generics(g));
                for v in vs {
                    o += &format!("{}{}{}{},\n", comments(&v.comment), v.name, v.fields.text(), number(v.number));
                }
                o + "}\n"
            }
            Def::Alias(c, name, g, ty) => format!("{}type {name}{} = {};\n", comments(c), generics(g), ty.text()),
            Def::Const(c, name, ty, lit) => {
                let lit = match lit {
                    Lit::Bool(b) => b.to_string(),
                    Lit::Int(i) => i.to_string(),
                    Lit::Float(f) => format!("{f:?}"),
                    Lit::Str(s) => format!("\"{s}\""),
                    Lit::Bytes(b) => format!("{b:?}"),
                };
                format!("{}const {name}: {} = {lit};\n", comments(c), ty.text())
            }
            Def::Import(segs, el) => {
                format!("use {}{};\n", segs.join("::"), el.as_ref().map_or(String::new(), |e| format!("::{e}")))
            }
        }
    }

    pub fn name(&self) -> &str {
        match self {
            Def::Mod(_, n, _) | Def::Struct(_, n, ..) | Def::Enum(_, n, ..) | Def::Alias(_, n, ..) | Def::Const(_, n, ..) => n,
            Def::Import(segs, el) => el.as_ref().unwrap_or_else(|| segs.last().unwrap()),
        }
    }
}

pub fn text(defs: &[Def]) -> String {
    defs.iter().map(Def::text).collect::<Vec<_>>().join("\n")
}

// ---- from the parser's data structures ----

fn pnames<'a>(v: impl Iterator<Item = &'a p::Name<'a>>) -> Vec<String> {
    v.map(|n| n.get().to_owned()).collect()
}

pub fn parsed_ty(t: &p::Type<'_>) -> Ty {
    use p::DataType as D;
    let b = |t: &p::Type<'_>| Box::new(parsed_ty(t));
    match &t.value {
        D::Bool => Ty::Basic("bool"),
        D::U8 => Ty::Basic("u8"),
        D::U16 => Ty::Basic("u16"),
        D::U32 => Ty::Basic("u32"),
        D::U64 => Ty::Basic("u64"),
        D::U128 => Ty::Basic("u128"),
        D::I8 => Ty::Basic("i8"),
        D::I16 => Ty::Basic("i16"),
        D::I32 => Ty::Basic("i32"),
        D::I64 => Ty::Basic("i64"),
        D::I128 => Ty::Basic("i128"),
        D::F32 => Ty::Basic("f32"),
        D::F64 => Ty::Basic("f64"),
        D::String => Ty::Basic("string"),
        D::StringRef => Ty::Basic("&string"),
        D::Bytes => Ty::Basic("bytes"),
        D::BytesRef => Ty::Basic("&bytes"),
        D::BoxString => Ty::Basic("box<string>"),
        D::BoxBytes => Ty::Basic("box<bytes>"),
        D::Vec { ty, .. } => Ty::Vec(b(ty)),
        D::HashMap { key, value, .. } => Ty::Map(Box::new((parsed_ty(key), parsed_ty(value)))),
        D::HashSet { ty, .. } => Ty::Set(b(ty)),
        D::Option { ty, .. } => Ty::Opt(b(ty)),
        D::NonZero { ty, .. } => Ty::NonZero(b(ty)),
        D::Tuple { types, .. } => Ty::Tuple(types.values().map(parsed_ty).collect()),
        D::Array { ty, size, .. } => Ty::Array(b(ty), *size),
        D::External(e) => Ty::Ext(
            e.path.iter().map(|(n, _)| n.get().to_owned()).collect(),
            e.name.get().to_owned(),
            e.generics.as_ref().map_or_else(Vec::new, |g| g.values().map(parsed_ty).collect()),
        ),
    }
}

fn pcomment(c: &p::Comment<'_>) -> Vec<String> {
    c.0.iter().map(|l| l.get().trim_start().to_owned()).collect()
}

fn pgenerics(g: Option<&p::Generics<'_>>) -> Vec<String> {
    g.map_or_else(Vec::new, |g| pnames(g.types.values()))
}

fn pfields(f: &p::Fields<'_>) -> Fields {
    match f {
        p::Fields::Named(_, f) => Fields::Named(f.values().map(|f| (
            pcomment(&f.comment), f.name.get().to_owned(), parsed_ty(&f.ty), f.id.as_ref().map(p::Id::get),
        )).collect()),
        p::Fields::Unnamed(_, f) => {
            Fields::Unnamed(f.values().map(|f| (parsed_ty(&f.ty), f.id.as_ref().map(p::Id::get))).collect())
        }
        p::Fields::Unit => Fields::Unit,
    }
}

pub fn parsed(defs: &[p::Definition<'_>]) -> Vec<Def> {
    defs.iter().map(|d| match d {
        p::Definition::Module(m) => Def::Mod(pcomment(&m.comment), m.name.get().to_owned(), parsed(&m.definitions)),
        p::Definition::Struct(s) => Def::Struct(
            pcomment(&s.comment), s.name.get().to_owned(), pgenerics(s.generics.as_ref()), pfields(&s.fields),
        ),
        p::Definition::Enum(e) => Def::Enum(
            pcomment(&e.comment), e.name.get().to_owned(), pgenerics(e.generics.as_ref()),
            e.variants.values().map(|v| Variant {
                comment: pcomment(&v.comment),
                name: v.name.get().to_owned(),
                fields: pfields(&v.fields),
                number: v.id.as_ref().map(p::Id::get),
            }).collect(),
        ),
        p::Definition::TypeAlias(a) => Def::Alias(
            pcomment(&a.comment), a.name.get().to_owned(), pgenerics(a.generics.as_ref()), parsed_ty(&a.target),
        ),
        p::Definition::Const(c) => Def::Const(
            pcomment(&c.comment), c.name.get().to_owned(), parsed_ty(&c.ty), match &c.value.value {
                p::LiteralValue::Bool(b) => Lit::Bool(*b),
                p::LiteralValue::Int(i) => Lit::Int(*i),
                p::LiteralValue::Float(f) => Lit::Float(*f),
                p::LiteralValue::String(s) => Lit::Str(s.clone()),
                p::LiteralValue::Bytes(b) => Lit::Bytes(b.clone()),
            },
        ),
        p::Definition::Import(i) => {
            Def::Import(pnames(i.segments.iter()), i.element.as_ref().map(|(_, n)| n.get().to_owned()))
        }
    }).collect()
}

// ---- from the lowered data structures ----

pub fn lowered_ty(t: &s::Type<'_>) -> Ty {
    use s::Type as T;
    let b = |t: &s::Type<'_>| Box::new(lowered_ty(t));
    match t {
        T::Bool => Ty::Basic("bool"),
        T::U8 => Ty::Basic("u8"),
        T::U16 => Ty::Basic("u16"),
        T::U32 => Ty::Basic("u32"),
        T::U64 => Ty::Basic("u64"),
        T::U128 => Ty::Basic("u128"),
        T::I8 => Ty::Basic("i8"),
        T::I16 => Ty::Basic("i16"),
        T::I32 => Ty::Basic("i32"),
        T::I64 => Ty::Basic("i64"),
        T::I128 => Ty::Basic("i128"),
        T::F32 => Ty::Basic("f32"),
        T::F64 => Ty::Basic("f64"),
        T::String => Ty::Basic("string"),
        T::StringRef => Ty::Basic("&string"),
        T::Bytes => Ty::Basic("bytes"),
        T::BytesRef => Ty::Basic("&bytes"),
        T::BoxString => Ty::Basic("box<string>"),
        T::BoxBytes => Ty::Basic("box<bytes>"),
        T::Vec(t) => Ty::Vec(b(t)),
        T::HashMap(kv) => Ty::Map(Box::new((lowered_ty(&kv.0), lowered_ty(&kv.1)))),
        T::HashSet(t) => Ty::Set(b(t)),
        T::Option(t) => Ty::Opt(b(t)),
        T::NonZero(t) => Ty::NonZero(b(t)),
        T::Tuple(v) => Ty::Tuple(v.iter().map(lowered_ty).collect()),
        T::Array(t, n) => Ty::Array(b(t), *n),
        T::External(e) => Ty::Ext(
            e.path.iter().map(|s| (*s).to_owned()).collect(), e.name.to_owned(), e.generics.iter().map(lowered_ty).collect(),
        ),
    }
}

fn scomment(c: &[&str]) -> Vec<String> {
    c.iter().map(|l| l.trim_start().to_owned()).collect()
}

fn snames(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| (*s).to_owned()).collect()
}

/// Numbers are explicit in the lowered form, names of unnamed fields have to be `n` and the index.
fn sfields(f: &s::Fields<'_>) -> Fields {
    match f.kind {
        s::FieldKind::Named => Fields::Named(
            f.fields.iter().map(|f| (scomment(&f.comment), f.name.to_string(), lowered_ty(&f.ty), Some(f.id))).collect(),
        ),
        s::FieldKind::Unnamed => Fields::Unnamed(f.fields.iter().enumerate().map(|(i, f)| {
            assert_eq!(f.name, format!("n{i}"), "name of an unnamed field");
            assert!(f.comment.is_empty(), "unnamed fields have no comment");
            (lowered_ty(&f.ty), Some(f.id))
        }).collect()),
        s::FieldKind::Unit => {
            assert!(f.fields.is_empty(), "units have no fields");
            Fields::Unit
        }
    }
}

pub fn lowered(defs: &[s::Definition<'_>]) -> Vec<Def> {
    defs.iter().map(|d| match d {
        s::Definition::Module(m) => Def::Mod(scomment(&m.comment), m.name.to_owned(), lowered(&m.definitions)),
        s::Definition::Struct(s) => Def::Struct(scomment(&s.comment), s.name.to_owned(), snames(&s.generics), sfields(&s.fields)),
        s::Definition::Enum(e) => Def::Enum(
            scomment(&e.comment), e.name.to_owned(), snames(&e.generics),
            e.variants.iter().map(|v| Variant {
                comment: scomment(&v.comment),
                name: v.name.to_owned(),
                fields: sfields(&v.fields),
                number: Some(v.id),
            }).collect(),
        ),
        s::Definition::TypeAlias(a) => {
            Def::Alias(scomment(&a.comment), a.name.to_owned(), snames(&a.generics), lowered_ty(&a.target))
        }
        s::Definition::Const(c) => Def::Const(scomment(&c.comment), c.name.to_owned(), lowered_ty(&c.ty), match &c.value {
            s::Literal::Bool(b) => Lit::Bool(*b),
            s::Literal::Int(i) => Lit::Int(*i),
            s::Literal::Float(f) => Lit::Float(*f),
            s::Literal::String(s) => Lit::Str(s.to_string()),
            s::Literal::Bytes(b) => Lit::Bytes(b.to_vec()),
        }),
        s::Definition::Import(i) => Def::Import(snames(&i.segments), i.element.as_ref().map(|e| e.to_string())),
    }).collect()
}

// ---- generation ----

/// What a generated schema may contain.
#[derive(Clone)]
pub struct Shape {
    /// Names may clash.
    pub clash: bool,
    /// Explicit numbers: 0 none, 1 distinct, 2 any.
    pub numbers: u8,
    /// Tuples of any size.
    pub tuples: bool,
    /// Type parameters that are not all used.
    pub unused: bool,
    /// References to these definitions (path, name, number of type parameters) are made; some are
    /// invalid, if there is more than one level of validity to choose from.
    pub refs: Vec<(Vec<String>, String, usize)>,
    pub other: Vec<(Vec<String>, String, usize)>,
    /// One in so many references is off (0: none).
    pub off: usize,
    pub imports: Vec<(Vec<String>, Option<String>)>,
    pub defs: usize,
    pub depth: usize,
}

pub struct Gen {
    pub shape: Shape,
    fresh: usize,
    /// How many lists may still get long.
    wide: usize,
    /// Clashes are rare, so that not every long list has one.
    sparse: bool,
}

// The later ones only nearly clash.
const LOWER: [&str; 10] = [
    "a", "b", "c1", "d_x", "dx", "c11", "a_", "ab", "a_name_that_is_long_enough_not_to_fit_into_anything_short_1", "a_name_that_is_long_enough_not_to_fit_into_anything_short_2",
];
const UPPER: [&str; 10] = [
    "A", "B", "Cc", "D1", "CC", "CC1", "D11", "Ab", "ANameThatIsLongEnoughNotToFitIntoAnythingShort1", "ANameThatIsLongEnoughNotToFitIntoAnythingShort2",
];
const LONG: [usize; 8] = [13, 17, 21, 33, 65, 129, 257, 300];

impl Gen {
    pub fn new(shape: Shape) -> Self {
        Self { shape, fresh: 0, sparse: false, wide: [0, 0, 0, 0, 0, 0, 0, 1, 1, 2][below(10)] }
    }

    /// Length of a list, sometimes far larger than usual.
    fn amount(&mut self, usual: usize) -> usize {
        if self.wide > 0 && below(6) == 0 {
            self.wide -= 1;
            self.sparse = true;
            return LONG[below(LONG.len())];
        }
        usual
    }

    fn lower(&mut self) -> String {
        self.name(&LOWER, "f")
    }

    fn upper(&mut self) -> String {
        self.name(&UPPER, "N")
    }

    fn name(&mut self, pool: &[&str], unique: &str) -> String {
        if self.shape.clash && if self.sparse { below(100) == 0 } else { below(3) != 0 } {
            pool[below(if below(3) == 0 { pool.len() } else { 4 })].to_owned()
        } else {
            self.fresh += 1;
            format!("{unique}{}", self.fresh)
        }
    }

    fn comment(&mut self) -> Vec<String> {
        (0..[0, 0, 0, 1, 2][below(5)]).map(|_| ["one", "two words"][below(2)].to_owned()).collect()
    }

    pub fn ty(&mut self, depth: usize, params: &[String]) -> Ty {
        let k = if depth == 0 { below(3) } else { below(12) };
        let inner = |s: &mut Self| Box::new(s.ty(depth - 1, params));
        match k {
            0 => Ty::Basic(BASIC[below(BASIC.len())]),
            1 if !params.is_empty() => Ty::Ext(vec![], params[below(params.len())].clone(), vec![]),
            1 | 2 => self.reference(depth, params),
            3 => Ty::Vec(inner(self)),
            4 => Ty::Map(Box::new((*inner(self), *inner(self)))),
            5 => Ty::Set(inner(self)),
            6 => Ty::Opt(inner(self)),
            7 => Ty::NonZero(inner(self)),
            8 | 9 => {
                let n = if self.shape.tuples {
                    [2, 3, 12, 1, 13, 2, 14][below(7)]
                } else {
                    [2, 3, 12, 2][below(4)]
                };
                let mut v = vec![Ty::Basic("u8"); n];
                // Only a few elements are interesting, anywhere in the tuple.
                for _ in 0..2 {
                    let i = below(n);
                    v[i] = *inner(self);
                }
                Ty::Tuple(v)
            }
            10 => Ty::Array(inner(self), [0, 1, 2, 300][below(4)]),
            _ => self.reference(depth, params),
        }
    }

    fn reference(&mut self, depth: usize, params: &[String]) -> Ty {
        if self.shape.refs.is_empty() {
            return Ty::Basic(BASIC[below(BASIC.len())]);
        }
        let (mut path, mut name, mut n) = self.shape.refs[below(self.shape.refs.len())].clone();
        // Occasionally off: another name, path or number of arguments.
        let k = if self.shape.off > 0 && below(self.shape.off) == 0 { below(7) } else { 7 };
        match k {
            0 => name = UPPER[below(4)].to_owned(),
            1 => path.insert(0, LOWER[below(4)].to_owned()),
            2 => path.push(LOWER[below(4)].to_owned()),
            3 if !path.is_empty() => _ = path.remove(0),
            4 if !path.is_empty() => _ = path.pop(),
            5 => n += 1,
            6 if n > 0 => n -= 1,
            _ => {}
        }
        let n = n.min(4);
        let args = (0..n).map(|_| if depth == 0 { Ty::Basic("u8") } else { self.ty(depth - 1, params) }).collect();
        Ty::Ext(path, name, args)
    }

    fn numbers(&mut self, n: usize) -> Vec<Number> {
        match self.shape.numbers {
            0 => vec![None; n],
            2 if n > 12 => {
                self.shape.numbers = 1;
                let mut v = self.numbers(n);
                self.shape.numbers = 2;
                if below(2) == 0 {
                    let (a, b) = (below(n), below(n));
                    v[a] = [Some(b as u32), Some(0), v[b], Some(u32::MAX), Some(1 << 29)][below(5)];
                }
                v
            }
            1 => {
                let mut next = 1;
                (0..n).map(|_| {
                    let skip = [0, 0, 0, 1, 5][below(5)];
                    let explicit = skip > 0 || below(2) == 0;
                    next += skip;
                    next += 1;
                    explicit.then_some(next - 1)
                }).collect()
            }
            _ => (0..n).map(|_| match below(8) {
                0..=2 => None,
                3..=5 => Some(below(6) as u32),
                6 => Some([u32::MAX, u32::MAX - 1, 1 << 29, (1 << 29) - 1, 255, 256][below(6)]),
                _ => Some(any::<u32>()),
            }).collect(),
        }
    }

    fn fields(&mut self, params: &[String], min: usize) -> Fields {
        let n = min.max(1 + below(5));
        let n = self.amount(n);
        let ids = self.numbers(n);
        let depth = if n > 12 { 1 } else { self.shape.depth };
        match below(5) {
            0 if min == 0 => Fields::Unit,
            1 | 2 => Fields::Unnamed(ids.into_iter().map(|id| (self.ty(depth, params), id)).collect()),
            _ => Fields::Named(
                ids.into_iter().map(|id| (self.comment(), self.lower(), self.ty(depth, params), id)).collect(),
            ),
        }
    }

    fn params(&mut self) -> Vec<String> {
        let n = [0, 0, 1, 2, 3][below(5)];
        let n = self.amount(n);
        (0..n).map(|_| if self.shape.clash && (n < 12 || below(100) == 0) { ["T", "U", "V", "T1", "T11", "TT", "Tt"][below(if below(3) == 0 { 7 } else { 3 })].to_owned() } else {
            self.fresh += 1;
            format!("T{}", self.fresh)
        }).collect()
    }

    /// Mention every parameter somewhere, unless unused ones are wanted.
    fn using(&mut self, params: &[String], f: &mut Fields) {
        let one = below(params.len().max(1));
        for (i, p) in params.iter().enumerate() {
            if self.shape.unused && if params.len() > 12 { i == one } else { below(2) == 0 } {
                continue;
            }
            let mut ty = Ty::Ext(vec![], p.clone(), vec![]);
            let levels = below(4);
            // The parser takes twice as long for each level of references to types with parameters.
            let mut calls = 0;
            for _ in 0..if params.len() < 4 { self.amount(levels).min(40) } else { levels } {
                let b = Box::new(ty);
                ty = match below(10) {
                    0 => Ty::Vec(b),
                    1 => Ty::Map(Box::new((*b, Ty::Basic("u8")))),
                    2 => Ty::Map(Box::new((Ty::Basic("u8"), *b))),
                    3 => Ty::Set(b),
                    4 => Ty::Opt(b),
                    5 => Ty::NonZero(b),
                    6 => Ty::Tuple(vec![Ty::Basic("u8"), *b]),
                    7 => Ty::Tuple(vec![*b, Ty::Basic("u8")]),
                    8 => Ty::Array(b, 2),
                    _ if calls < 4 && self.shape.refs.iter().any(|r| r.2 > 0) => {
                        calls += 1;
                        let r = self.shape.refs.iter().filter(|r| r.2 > 0).collect::<Vec<_>>();
                        let r = r[below(r.len())].clone();
                        let k = below(r.2);
                        let mut args = vec![Ty::Basic("u8"); r.2];
                        args[k] = *b;
                        Ty::Ext(r.0, r.1, args)
                    }
                    _ => Ty::Vec(b),
                };
            }
            match f {
                Fields::Named(v) if params.len() > 12 => {
                    let name = self.lower();
                    v.push((vec![], name, ty, None));
                }
                Fields::Unnamed(v) if params.len() > 12 => v.push((ty, None)),
                Fields::Named(v) => {
                    let i = below(v.len());
                    if below(2) == 0 { v[i].2 = Ty::Tuple(vec![v[i].2.clone(), ty]) } else { v[i].2 = Ty::Tuple(vec![ty, v[i].2.clone()]) }
                }
                Fields::Unnamed(v) => {
                    let i = below(v.len());
                    v[i].0 = Ty::Tuple(vec![ty, v[i].0.clone()]);
                }
                Fields::Unit => {
                    *f = Fields::Unnamed(vec![(ty, None)]);
                }
            }
        }
    }

    pub fn def(&mut self, level: usize) -> Def {
        let c = self.comment();
        match below(if level == 0 { 8 } else { 11 }) {
            0..=2 => {
                let g = self.params();
                let mut f = self.fields(&g, 0);
                self.using(&g, &mut f);
                Def::Struct(c, self.upper(), g, f)
            }
            3 | 4 => {
                let g = self.params();
                let n = 1 + below(4);
                let n = self.amount(n);
                let ids = self.numbers(n);
                let mut vs = ids.into_iter().map(|number| Variant {
                    comment: self.comment(),
                    name: self.upper(),
                    fields: self.fields(&g, 0),
                    number,
                }).collect::<Vec<_>>();
                let k = below(n);
                self.using(&g, &mut vs[k].fields);
                Def::Enum(c, self.upper(), g, vs)
            }
            5 => {
                let mut g = self.params();
                g.truncate(12);
                let mut f = Fields::Unnamed(vec![(self.ty(self.shape.depth, &g), None)]);
                self.using(&g, &mut f);
                let Fields::Unnamed(mut f) = f else { unreachable!() };
                Def::Alias(c, self.upper(), g, f.remove(0).0)
            }
            6 => {
                let (ty, lit) = match below(5) {
                    0 => ("bool", Lit::Bool(any())),
                    1 => ("i128", Lit::Int(any::<i128>() >> [0, 0, 62, 63, 64, 65, 100, 120][below(8)])),
                    2 => ("f64", Lit::Float(f64::from(any::<i16>()) / 8.0)),
                    3 => ("string", Lit::Str(["", "text"][below(2)].to_owned())),
                    _ => ("bytes", Lit::Bytes((0..1 + below(4)).map(|_| any()).collect())),
                };
                let ty = if self.shape.tuples && below(4) == 0 { self.ty(2, &[]) } else { Ty::Basic(ty) };
                Def::Const(c, self.upper().to_uppercase(), ty, lit)
            }
            7 => {
                if self.shape.imports.is_empty() {
                    let n = 1 + below(3);
                    let segs = (0..n).map(|_| self.lower()).collect();
                    Def::Import(segs, if below(2) == 0 { Some(self.upper()) } else { None })
                } else {
                    let (s, e) = self.shape.imports[below(self.shape.imports.len())].clone();
                    Def::Import(s, e)
                }
            }
            _ => {
                let name = self.lower();
                let defs = self.defs(level - 1);
                Def::Mod(c, name, defs)
            }
        }
    }

    pub fn defs(&mut self, level: usize) -> Vec<Def> {
        let n = below(self.shape.defs + 1);
        let mut v = (0..self.amount(n)).map(|_| self.def(level)).collect::<Vec<_>>();
        // Deep below other modules.
        let levels = self.amount(0).min(30);
        for _ in 0..levels {
            v = vec![Def::Mod(vec![], self.lower(), v)];
        }
        v
    }
}
