//! Runs the real code generator on the schemas, and writes the contracts of each definition
//! (independent reading of the schemas: nothing of the parser or compiler is used for it).
use std::{env, fmt::Write, fs, path::Path};

#[derive(Clone, Debug)]
struct Ty { name: String, args: Vec<Ty> }

#[derive(Clone)]
struct Field { name: Option<String>, ty: Ty, id: u32 }

#[derive(Clone)]
enum Body { Unit, Named(Vec<Field>), Unnamed(Vec<Field>) }

enum Kind { Struct(Body), Enum(Vec<(String, u32, Body)>) }

struct Def { path: Vec<String>, name: String, params: Vec<String>, kind: Kind }

struct Reader { toks: Vec<String>, at: usize }

impl Reader {
    fn new(text: &str) -> Self {
        let mut toks = Vec::new();
        for line in text.lines() {
            let line = line.split("//").next().unwrap();
            let mut cur = String::new();
            for c in line.chars().chain([' ']) {
                if c.is_alphanumeric() || c == '_' { cur.push(c); continue; }
                if !cur.is_empty() { toks.push(std::mem::take(&mut cur)); }
                if !c.is_whitespace() { toks.push(c.to_string()); }
            }
        }
        Self { toks, at: 0 }
    }
    fn peek(&self) -> &str { self.toks.get(self.at).map_or("", String::as_str) }
    fn next(&mut self) -> String { self.at += 1; self.toks[self.at - 1].clone() }
    fn eat(&mut self, t: &str) -> bool { let y = self.peek() == t; if y { self.at += 1; } y }
    fn want(&mut self, t: &str) { assert!(self.eat(t), "wanted {t}, got {}", self.peek()); }

    fn ty(&mut self) -> Ty {
        if self.eat("&") { return self.ty(); }
        if self.eat("(") {
            let mut args = Vec::new();
            while !self.eat(")") { args.push(self.ty()); self.eat(","); }
            return Ty { name: "tuple".into(), args };
        }
        if self.eat("[") {
            let t = self.ty();
            self.want(";");
            self.next();
            self.want("]");
            return Ty { name: "array".into(), args: vec![t] };
        }
        let mut name = self.next();
        while self.eat(":") { self.want(":"); name = self.next(); }
        let mut args = Vec::new();
        if self.eat("<") { while !self.eat(">") { args.push(self.ty()); self.eat(","); } }
        Ty { name, args }
    }
    fn id(&mut self, last: &mut u32) -> u32 {
        let id = if self.eat("@") { self.next().parse().unwrap() } else { *last + 1 };
        *last = id;
        id
    }
    fn body(&mut self) -> Body {
        let mut last = 0;
        let mut fields = Vec::new();
        if self.eat("{") {
            while !self.eat("}") {
                let name = Some(self.next());
                self.want(":");
                let ty = self.ty();
                let id = self.id(&mut last);
                self.eat(",");
                fields.push(Field { name, ty, id });
            }
            Body::Named(fields)
        } else if self.eat("(") {
            while !self.eat(")") {
                let ty = self.ty();
                let id = self.id(&mut last);
                self.eat(",");
                fields.push(Field { name: None, ty, id });
            }
            Body::Unnamed(fields)
        } else {
            Body::Unit
        }
    }
    fn defs(&mut self, path: &[String], out: &mut Vec<Def>) {
        while self.at < self.toks.len() && self.peek() != "}" {
            match self.next().as_str() {
                "mod" => {
                    let mut path = path.to_vec();
                    path.push(self.next());
                    self.want("{");
                    self.defs(&path, out);
                    self.want("}");
                }
                "use" | "const" | "type" => while self.next() != ";" {},
                k => {
                    let name = self.next();
                    let mut params = Vec::new();
                    if self.eat("<") { while !self.eat(">") { params.push(self.next()); self.eat(","); } }
                    let kind = if k == "struct" {
                        Kind::Struct(self.body())
                    } else {
                        assert_eq!(k, "enum");
                        self.want("{");
                        let (mut vs, mut last) = (Vec::new(), 0);
                        while !self.eat("}") {
                            let name = self.next();
                            let body = self.body();
                            let id = self.id(&mut last);
                            self.eat(",");
                            vs.push((name, id, body));
                        }
                        Kind::Enum(vs)
                    };
                    out.push(Def { path: path.to_vec(), name, params, kind });
                }
            }
        }
    }
}

/// Wire marker of a type; `None` for types whose fields can't be skipped (a known finding).
fn marker(t: &Ty) -> Option<u32> {
    Some(match t.name.as_str() {
        "bool" | "u8" | "i8" => 2,
        "u16" | "u32" | "u64" | "u128" | "i16" | "i32" | "i64" | "i128" => 0,
        "f32" => 3,
        "f64" => 4,
        "string" | "bytes" | "vec" | "hash_map" | "hash_set" | "box" | "tuple" | "array" => 1,
        "non_zero" => return marker(&t.args[0]),
        _ => return None,
    })
}

/// Name of the binding of a field in the generated patterns.
fn var(i: usize) -> String { format!("f{i}_") }

fn pattern(body: &Body) -> String {
    match body {
        Body::Unit => String::new(),
        Body::Named(fs) => format!("{{ {} }}", fs.iter().enumerate().map(|(i, f)| format!("{}: {}", f.name.as_ref().unwrap(), var(i))).collect::<Vec<_>>().join(", ")),
        Body::Unnamed(fs) => format!("({})", fs.iter().enumerate().map(|(i, _)| var(i)).collect::<Vec<_>>().join(", ")),
    }
}

fn fields(body: &Body) -> &[Field] {
    match body { Body::Unit => &[], Body::Named(f) | Body::Unnamed(f) => f }
}

fn arb(body: &Body) -> String {
    match body {
        Body::Unit => String::new(),
        Body::Named(fs) => format!("{{ {} }}", fs.iter().map(|f| format!("{}: crate::nd::any()", f.name.as_ref().unwrap())).collect::<Vec<_>>().join(", ")),
        Body::Unnamed(fs) => format!("({})", fs.iter().map(|_| "crate::nd::any()".to_owned()).collect::<Vec<_>>().join(", ")),
    }
}

fn describe(body: &Body) -> String {
    let mut s = String::from("vec![");
    for (i, f) in fields(body).iter().enumerate() {
        let opt = f.ty.name == "option";
        let t = if opt { &f.ty.args[0] } else { &f.ty };
        let value = if t.name == "tuple" { "crate::msg::long" } else { "crate::msg::short" };
        let bytes = if opt { format!("{}.as_ref().map({value})", var(i)) } else { format!("Some({value}({}))", var(i)) };
        let name = f.name.as_ref().map_or("None".to_owned(), |n| format!("Some({n:?})"));
        let marker = marker(t).map_or("None".to_owned(), |m| format!("Some({m})"));
        write!(s, "crate::msg::Part {{ id: {}, name: {name}, marker: {marker}, optional: {opt}, tuple: {}, bytes: {bytes} }}, ", f.id, t.name == "tuple").unwrap();
    }
    s + "]"
}

fn same(head: &str, body: &Body) -> String {
    let n = fields(body).len();
    let p = pattern(body);
    let q = (0..n).fold(p.clone(), |q, i| q.replace(&var(i), &format!("g{i}_")));
    let eq = (0..n).map(|i| format!("crate::spec::Same::same({}, g{i}_)", var(i))).collect::<Vec<_>>().join(" && ");
    format!("({head}{p}, {head}{q}) => {},", if n == 0 { "true".to_owned() } else { eq })
}

fn clear(head: &str, body: &Body) -> String {
    let arms = fields(body).iter().enumerate().filter(|(_, f)| f.ty.name == "option")
        .map(|(i, f)| format!("{} => *{} = None, ", f.id, var(i))).collect::<String>();
    format!("{head}{} => match id {{ {arms} _ => {{}} }}", pattern(body))
}

fn contracts(module: &str, def: &Def, out: &mut String, list: &mut Vec<(String, bool)>) {
    let path = ["crate", module].into_iter().chain(def.path.iter().map(String::as_str)).collect::<Vec<_>>().join("::");
    let g = if def.params.is_empty() { String::new() } else { format!("<{}>", def.params.join(", ")) };
    let gi = |b: &str| if def.params.is_empty() { String::new() } else { format!("<{}>", def.params.iter().map(|p| format!("{p}: {b}")).collect::<Vec<_>>().join(", ")) };
    let ty = format!("{path}::{}{g}", def.name);
    let bare = format!("{path}::{}", def.name);
    let (bodies, is_enum): (Vec<(String, u32, &Body)>, bool) = match &def.kind {
        Kind::Struct(b) => (vec![(bare.clone(), 0, b)], false),
        Kind::Enum(vs) => (vs.iter().map(|(n, id, b)| (format!("{bare}::{n}"), *id, b)).collect(), true),
    };
    let arbs = bodies.iter().enumerate().map(|(i, (h, _, b))| format!("{i} => {h}{},", arb(b))).collect::<String>();
    writeln!(out, "impl{} crate::nd::Arb for {ty} {{ fn arb() -> Self {{ match crate::nd::below({}) {{ {arbs} _ => unreachable!() }} }} }}",
        gi("crate::nd::Arb"), bodies.len()).unwrap();
    let sames = bodies.iter().map(|(h, _, b)| same(h, b)).collect::<String>();
    writeln!(out, "impl{} crate::spec::Same for {ty} {{ #[allow(unreachable_patterns)] fn same(&self, o: &Self) -> bool {{ match (self, o) {{ {sames} _ => false }} }} }}",
        gi("crate::spec::Same")).unwrap();
    writeln!(out, "impl{} crate::spec::Spec for {ty} {{ fn spec(&self, out: &mut Vec<u8>) {{ crate::msg::write(self, out) }} }}", gi("crate::spec::Spec")).unwrap();
    let parts = bodies.iter().map(|(h, _, b)| format!("{h}{} => {},", pattern(b), describe(b))).collect::<String>();
    let variants = bodies.iter().map(|(h, id, b)| format!("{h}{} => {},", match b { Body::Unit => "", Body::Named(_) => "{..}", Body::Unnamed(_) => "(..)" }, if is_enum { format!("Some({id})") } else { "None".into() })).collect::<String>();
    let units = bodies.iter().map(|(h, _, b)| format!("{h}{} => {},", match b { Body::Unit => "", Body::Named(_) => "{..}", Body::Unnamed(_) => "(..)" }, matches!(b, Body::Unit))).collect::<String>();
    let clears = bodies.iter().map(|(h, _, b)| clear(h, b)).collect::<Vec<_>>().join(", ");
    let known = bodies.iter().map(|(_, id, _)| id.to_string()).collect::<Vec<_>>().join(", ");
    writeln!(out, "impl{} crate::msg::Msg for {ty} {{ const VARIANTS: &'static [u32] = &[{}];
 #[allow(unused_variables)] fn parts(&self) -> Vec<crate::msg::Part> {{ match self {{ {parts} }} }}
 fn variant(&self) -> Option<u32> {{ match self {{ {variants} }} }}
 fn unit(&self) -> bool {{ match self {{ {units} }} }}
 #[allow(unused_variables)] fn clear(&mut self, id: u32) {{ match self {{ {clears} }} }} }}", gi("crate::spec::Spec"), if is_enum { known } else { String::new() }).unwrap();
    if def.params.is_empty() {
        list.push((ty, bodies.iter().any(|(_, _, b)| fields(b).iter().any(|f| f.ty.name == "tuple" || (f.ty.name == "option" && f.ty.args[0].name == "tuple")))));
    }
}

fn main() {
    println!("cargo::rerun-if-changed=schemas");
    println!("cargo::rerun-if-changed=build.rs");
    let out = env::var("OUT_DIR").unwrap();
    let (mut text, mut mods, mut list) = (String::new(), String::new(), Vec::new());
    for set in ["std", "bytes", "wide"] {
        let dir = Path::new(&out).join("gen").join(set);
        fs::create_dir_all(&dir).unwrap();
        // SAFETY: there is a single thread.
        unsafe { env::set_var("OUT_DIR", &dir) };
        let kind = if set == "bytes" { mabo_build::BytesType::Bytes } else { mabo_build::BytesType::VecU8 };
        let res = std::panic::catch_unwind(|| mabo_build::Compiler::default().with_bytes_type(kind).compile(&format!("schemas/{set}")));
        match res {
            Ok(Ok(())) => {}
            Ok(Err(e)) => panic!("GENERATOR: no code is generated for schemas/{set}: {e:?}"),
            Err(_) => panic!("GENERATOR: the code generator panics for schemas/{set}"),
        }
        let mut files = fs::read_dir(format!("schemas/{set}")).unwrap().map(|f| f.unwrap().path()).filter(|p| p.extension().is_some_and(|e| e == "mabo")).collect::<Vec<_>>();
        files.sort();
        for f in files {
            let stem = f.file_stem().unwrap().to_str().unwrap();
            writeln!(mods, "#[allow(dead_code, clippy::all)] pub mod {stem} {{ include!(concat!(env!(\"OUT_DIR\"), \"/gen/{set}/mabo/{stem}.rs\")); }}").unwrap();
            if stem == "known" { continue }
            let mut defs = Vec::new();
            Reader::new(&fs::read_to_string(&f).unwrap()).defs(&[], &mut defs);
            for d in defs {
                contracts(stem, &d, &mut text, &mut list);
            }
        }
    }
    // Schemas of known findings: the code for them is compiled when the finding is demonstrated (src/known.rs).
    let dir = Path::new(&out).join("gen/broken");
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    // SAFETY: there is a single thread.
    unsafe { env::set_var("OUT_DIR", &dir) };
    for f in fs::read_dir("schemas/broken").unwrap().map(|f| f.unwrap().path()) {
        let one = dir.join(f.file_stem().unwrap());
        fs::create_dir_all(&one).unwrap();
        fs::copy(&f, one.join(f.file_name().unwrap())).unwrap();
        fs::write(one.join("Mabo.toml"), "[package]\nname = \"contracts\"\nfiles = [\"*.mabo\"]\n").unwrap();
        let _ = std::panic::catch_unwind(|| mabo_build::Compiler::default().compile(one.to_str().unwrap()));
    }
    writeln!(text, "crate::msg::contracts! {{").unwrap();
    for (ty, tuple) in &list {
        let name = ty.trim_start_matches("crate::").replace("::", "_").to_lowercase();
        writeln!(text, "    {name}: {ty}, {tuple};").unwrap();
    }
    writeln!(text, "}}").unwrap();
    fs::write(Path::new(&out).join("contracts.rs"), text).unwrap();
    fs::write(Path::new(&out).join("mods.rs"), mods).unwrap();
}
