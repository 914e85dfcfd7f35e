"""Verus unit of the schema compiler: types and functions of mabo-parser (AST) and mabo-compiler, extracted from their expanded source."""
import re
from . import desugar, extract, rust, verus
from .extract import Unsupported

PARSER_MODULES = ("token", "punctuated", "")
COMPILER_MODULES = ("", "validate", "validate::ids", "validate::names", "validate::generics", "validate::tuples", "simplify", "resolve", "resolve::error")
SUBST = [("std :: ops :: Range", "Range"), ("Cow < 'a , str >", "CowStr < 'a >"), ("Cow < 'static , str >", "CowStr < 'static >"), (" Into <", " Into__ <"), ("slice :: Iter <", "SliceIter <"), ("iter :: Once <", "OnceIter <"),
         ("std :: path :: PathBuf", "PathBuf"), ("NamedSource < String >", "NamedSource__")]
USES = {
    "mabo_parser": "use crate::*; pub use self::punctuated::Punctuated;",
    "mabo_parser::token": "use crate::*; use super::*;",
    "mabo_parser::punctuated": "use crate::*; use super::token;",
}
DEFAULT_USE = "use crate::*; use crate::specs::*; use crate::mabo_parser::*; use crate::mabo_parser::punctuated::*;"


def bare(toks):
    """Path of a type or trait without generics and lifetimes."""
    out, i = [], 0
    while i < len(toks):
        x = toks[i]
        if x == "<":
            i = rust.angle(toks, i) + 1
            continue
        if x == "&" or x.startswith("'"):
            i += 1
            continue
        out.append(x)
        i += 1
    return "".join(out)


class Source:
    def __init__(self):
        self.mods = {}     # module -> [Item]
        self.index = {}    # key -> (module, Fn | Item)
        self.copy = set()
        self.equal = set()  # types whose `==` is the derived one

    def nested(self, mod, pre, f):
        """Functions inside of the body of another one become its siblings."""
        i, t = 1, list(f.body)
        while i < len(t):
            if t[i] == "fn" and t[i - 1] in ("{", "}", ";") and re.match(r"\w+$", t[i + 1]):
                g, e = rust.parse_fn(t, i, ())
                key = "fn " + pre + g.name
                if key in self.index:
                    raise Unsupported("nested function " + g.name)
                self.index[key] = (mod, g)
                t = t[:i] + t[e:]
                continue
            i = rust.match(t, i) + 1 if t[i] in rust.OPEN else i + 1
        f.body = t

    def load(self, text, prefix):
        for it in rust.items(rust.tokens(text)):
            mod = "::".join(([prefix] if prefix else []) + list(it.path))
            self.mods.setdefault(mod, []).append(it)
            pre = mod + "::" if mod else ""
            if it.kind == "fn":
                self.nested(mod, pre, it.fns[0])
                self.index["fn " + pre + it.name] = (mod, it.fns[0])
            elif it.kind == "impl":
                head = it.head
                it.generics, it.where = [], []
                if head[0] == "<":
                    k = rust.angle(head, 0)
                    it.generics, head = rust.split(head[1:k]), head[k + 1:]
                if "where" in head:
                    w = head.index("where")
                    it.where, head = rust.split(head[w + 1:]), head[:w]
                it.target = head
                if "for" in head:
                    f = head.index("for")
                    tr, ty = bare(head[:f]), bare(head[f + 1:])
                    it.trait, it.type = tr, ty
                    if tr in ("::core::marker::Copy",):
                        self.copy.add((mod, ty))
                    if tr == "::core::marker::StructuralPartialEq":
                        self.equal.add((mod, ty))
                    if tr in ("::core::convert::From", "From"):
                        tr = "From<" + "".join(head[head.index("<") + 1:rust.angle(head, head.index("<"))]) + ">"
                        it.trait = "From"
                    self.index[f"impl {pre}{tr} for {ty}"] = (mod, it)
                else:
                    it.trait, it.type = None, bare(head)
                    for f in it.fns:
                        self.index[f"fn {pre}{it.type}::{f.name}"] = (mod, f)
            elif it.kind == "trait":
                self.index[f"trait {pre}{it.name}"] = (mod, it)


def subst(s):
    for a, b in SUBST:
        s = s.replace(a, b)
    return s


def fields(t, named):
    """Fields of a struct with every field public."""
    out = []
    for f in rust.split(t):
        if f and f[0] == "pub":
            f = f[1:]
            if f[0] == "(":
                f = f[rust.match(f, 0) + 1:]
        out.append(["pub"] + f)
    return [x for f in out for x in f + [","]]


def type_text(mod, it, src):
    toks, t, i = it.toks, [], 0
    while i < len(toks):
        if toks[i] == "#":
            i = rust.match(toks, i + 1) + 1
            continue
        t.append(toks[i])
        i += 1
    if it.kind == "struct":
        i = 0
        while t[i] not in ("{", "(", ";"):
            i += 1
        if t[i] != ";":
            k = rust.match(t, i)
            t = t[:i + 1] + fields(t[i + 1:k], t[i] == "{") + t[k:]
    else:
        # `pub` does not occur in enums
        pass
    d = "#[derive(Clone, Copy)] " if (mod, it.name) in src.copy else ""
    return d + "pub " + subst(" ".join(t)) + (";" if it.kind == "struct" and t[-1] == ")" else "")


# ------------------------------------------------------------------------------------------------ functions

def dollars(s, params):
    """$n: the name of the n-th parameter."""
    for n, q in enumerate(params):
        s = s.replace(f"${n}", q[1] if q[0] == "mut" else q[-1] if q[0] == "&" else q[0])
    return s


MARK = re.compile(r"(AUTO|STEP)(\d+)__$")


def annotate(name, spec, body, autos, params=()):
    """Tokens with AUTO/STEP markers -> text with invariants and ghost code of the contract file."""
    roles = {}
    for d in spec.get("role"):
        n, pats = d.split("=", 1)
        r = None
        for p in pats.split("|||"):
            r = extract.find(body, p.split())
            if r is not None:
                break
        if r is None:
            raise Unsupported(f"{name}: no local for the role {n.strip()}")
        roles[n.strip()] = r[2][0][0]

    # A loop that returns early has no variable for its result: as long as it goes on, nothing was found.
    early = [n for n in range(len(autos)) if f"res{n}__" not in body]

    # A loop that fills a vector of its own.
    filled = {}
    for i, x in enumerate(body):
        m = x == "loop" and MARK.match(body[i + 1])
        if m and f"out{m.group(2)}__" not in body:
            e = rust.match(body, i + 2)
            names = {body[j] for j in range(i, e - 2) if body[j + 1:j + 4] == [".", "push", "("]}
            if len(names) == 1:
                filled[m.group(2)] = names.pop()

    def fill(s):
        for n, x in filled.items():
            s = s.replace(f"out{n}__", x)
        for n in early:
            s = re.sub(rf"\bres{n}__ is (None|Ok)\b", "true", s)
            s = re.sub(rf"\bres{n}__ is (Some|Err)\b", "false", s)
            s = re.sub(rf"\bres{n}__ matches (Some|Err)\b.*?(?= ==>)", "false", s)
        for k in sorted(roles, key=len, reverse=True):
            s = s.replace("#" + k, roles[k])
        return dollars(s, params)

    for k in spec.parts:
        m = re.match(r"(?:loop|step|loopend|before|after|loopens)(\d+)$", k)
        if m and int(m.group(1)) >= len(autos):
            raise Unsupported(f"{name}: expected a loop {m.group(1)}")
    out, ends, after = [], {}, {}
    i = 0
    while i < len(body):
        x = body[i]
        if i == 0:
            out.append("{" + fill(spec.one("start")) + ("let r__ = {" if spec.get("tail") else ""))
            i += 1
            continue
        m = re.search(r"STEP(\d+)__", x)
        if m:
            out.append(x.replace(m.group(0), fill(spec.one("step" + m.group(1)))))
            i += 1
            continue
        if x == "loop" and MARK.match(body[i + 1]):
            n = int(MARK.match(body[i + 1]).group(2))
            counts, full = autos[n]
            inv = [f"0 <= at{n}__ <= all{n}__.len(), it{n}__.rest() == all{n}__.skip(at{n}__), all{n}__.len() <= usize::MAX"] + counts
            user = fill(spec.one(f"loop{n}")).strip()
            if user:
                inv.append(user)
            ens = [f"{full} ==> at{n}__ == all{n}__.len()"]
            if spec.get(f"loopens{n}"):
                ens.append(fill(spec.one(f"loopens{n}")).strip())
            out.append(fill(spec.one(f"before{n}")))
            out.append("#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] loop\n " + (f"invariant_except_break {full}\n " if full != "true" else "") + "invariant " + ",\n ".join(inv) + "\n ensures " + ",\n ".join(ens) +
                       f"\n decreases all{n}__.len() - at{n}__\n")
            e = rust.match(body, i + 2)
            if spec.get(f"loopend{n}"):
                ends.setdefault(e, []).append(fill(spec.one(f"loopend{n}")))
            if spec.get(f"after{n}"):
                after.setdefault(e, []).append(fill(spec.one(f"after{n}")))
            i += 2
            continue
        if x in ("loop", "while"):
            raise Unsupported(f"{name}: a loop without a contract")
        if i in ends:
            out += ends.pop(i)
        if i == len(body) - 1 and spec.get("tail"):
            out.append("}; " + fill(spec.one("tail")) + " r__")
        out.append(x)
        if x in (";", "{", "}"):
            out.append("\n")
        if i in after:
            out += after.pop(i)
        i += 1
    s = " ".join(out)
    for k in spec.parts:
        m = re.match(r"type(\d+)$", k)
        if m:
            s = s.replace(f"let mut out{m.group(1)}__ = Vec", f"let mut out{m.group(1)}__ : {spec.one(k).strip()} = Vec")
    return re.sub(r"> (?=>)", ">", re.sub(r"< (?=<)", "<", s))


SIZES = dict(u8="1usize", u16="2usize", u32="4usize", u64="8usize", u128="16usize", usize="8usize")
REWRITES = [
    ("FxHashMap :: with_capacity_and_hasher ( $$ , FxBuildHasher )", lambda *a: "FxHashMap::new__()"),
    ("FxHashMap :: default ( )", lambda: "FxHashMap::new__()"),
    ("$ :: from ( $$ )", lambda x, e: ["Into__", "::", "<"] + x + [">", "::", "into__", "("] + e + [")"]),
    (". into_iter ( ) . next ( )", lambda: ". any_entry__()"),
    ("Self :: Item", lambda: "Self :: El"),
    ("Box :: default ( )", lambda: "empty_box__()"),
    ("Vec :: default ( )", lambda: "Vec::new()"),
    ("NamedSource :: new ( $$ , $$ )", lambda *a: "any_source__()"),
    (". extend ( $$ )", lambda e: [".", "extend__", "("] + e + [")"]),
    (". join ( $$ )", lambda e: [".", "join__", "("] + e + [")"]),
    (":: alloc :: boxed :: box_assume_init_into_vec_unsafe ( :: alloc :: intrinsics :: write_box_via_move ( :: alloc :: boxed :: Box :: new_uninit ( ) , $$ ) )",
     lambda e: ["vec_of__", "("] + e + [")"]),
    (". to_string ( )", lambda: ". to_string__()"),
    ("std :: mem :: size_of :: < $ > ( )", lambda x: SIZES[x[0]]),
    (". leading_zeros ( )", lambda: ". leading_zeros__()"),
    (". div_ceil ( $$ )", lambda e: [".", "div_ceil__", "("] + e + [")"]),
    (". max ( )", lambda: ". max_of__ ( )"),
    (". min ( )", lambda: ". min_of__ ( )"),
    (". max ( $$ )", lambda e: [".", "max__", "("] + e + [")"]),
    (". min ( $$ )", lambda e: [".", "min__", "("] + e + [")"]),
    ("iter :: once ( $$ )", lambda e: ["OnceIter", "::", "new__", "("] + e + [")"]),
]


def pre(t):
    for p, f in REWRITES:
        t = extract.replace_all(t, p, f)
    # ::alloc::__export::must_use({ ::alloc::fmt::format(format_args!("..", ..)) })
    i = 0
    while True:
        r = extract.find(t, ":: alloc :: __export :: must_use (".split(), i)
        if r is None:
            break
        a, b, _ = r
        k = rust.match(t, b - 1)
        inner = t[b:k]
        f = inner.index("format_args")
        args = rust.split(inner[f + 3:rust.match(inner, f + 2)])
        m = re.match(r'"(\w*)\{0\}"$', args[0][0]) if len(args) == 2 else None
        new = rust.tokens(f'format_usize__("{m.group(1)}",') + args[1] + [")"] if m else rust.tokens("any_string__()")
        t = t[:a] + new + t[k + 1:]
        i = a + 1
    return t


def signature(f, drop=(), sub=None, spec=None):
    generics = [rust.join(g) for g in f.generics if g[0] not in (sub or {})]
    params = []
    for p in f.params:
        if p[0] in drop:
            params += drop[p[0]]
            continue
        s = " ".join(p)
        m = re.search(r"\bimpl ((?:\w+).*)$", s)
        if m:
            n = f"I{len(generics)}__"
            generics.append(subst(f"{n}: {m.group(1)}"))
            s = s[:m.start()] + n
        params.append(subst(s))
    ret = " ".join((sub or {}).get(x, x) for x in f.ret).replace("Self :: Item", "Self :: El")
    where = [" ".join(w) for w in f.where]
    return (f"fn {f.name}{'<' + ', '.join(generics) + '>' if generics else ''}({', '.join(params)})"
            + (f" -> (res: {subst(ret)})" if ret else "") + (" where " + ", ".join(where) if where else ""))


def clauses(spec, f):
    s = ""
    for c in ("requires", "ensures", "decreases"):
        if spec.get(c):
            s += f"\n  {c} " + spec.one(c)
    return dollars(s, f.params)


class Emit:
    def __init__(self, src, specs):
        self.src, self.specs = src, specs
        self.lifted = {}      # (callee key, closure tokens) -> n

    def equalities(self, t):
        """`a == E::V` -> a match, for an enum E without contents whose `==` is derived."""
        names = {it.name for mod, its in self.src.mods.items() for it in its
                 if it.kind == "enum" and (mod, it.name) in self.src.equal and "(" not in it.toks and it.toks.count("{") == 1}
        i = 1
        while i + 3 < len(t):
            if t[i] in ("==", "!=") and t[i + 1] in names and t[i + 2] == "::":
                s = extract.receiver_start(t, i)
                yes, no = ("true", "false") if t[i] == "==" else ("false", "true")
                t = t[:s] + ["(", "match"] + t[s:i] + ["{"] + t[i + 1:i + 4] + ["=>", yes, ",", "_", "=>", no, ",", "}", ")"] + t[i + 4:]
            i += 1
        return t

    def visitors(self, mod, f, t, extra):
        """`callee(args, &mut |p| B)` for a callee with a @visit contract: closure lifted, callee specialised to it."""
        i = 0
        while i < len(t):
            if t[i] == "(" and re.match(r"[a-z_]\w*$", t[i - 1]):
                key = f"fn {mod}::{t[i - 1]}"
                spec = self.specs.get(key)
                if spec is not None and spec.get("visit"):
                    k = rust.match(t, i)
                    args = rust.split(t[i + 1:k])
                    fn = args[-1]
                    if fn[:2] != ["&", "mut"]:
                        raise Unsupported("visitor is not a closure")
                    fn = fn[2:]
                    caps = [c.split(":", 1) for c in spec.one("visit").split(" ;; ")[0].split(" / ")]
                    caps = [(a.strip(), b.strip()) for a, b in caps]
                    ck = (key, tuple(fn))
                    if ck not in self.lifted:
                        self.lifted[ck] = len([1 for a, _ in self.lifted if a == key])
                        extra.append((key, self.specialise(mod, key, spec, fn, caps, self.lifted[ck])))
                    n = self.lifted[ck]
                    passed = []
                    names = {q[0]: q for q in f.params}
                    for a, b in caps:
                        if b.startswith("&mut") and a not in names:
                            passed.append(["&", "mut", a])
                        else:
                            passed.append([a])
                    new = [f"{t[i - 1]}__{n}", "("]
                    for a in args[:-1] + passed:
                        new += a + [","]
                    t = t[:i - 1] + new + [")"] + t[k + 1:]
            i += 1
        return t

    def specialise(self, mod, key, spec, fn, caps, n):
        _, callee = self.src.index[key]
        types, ret = [s.strip() for s in spec.one("visit").split(" ;; ")[1:3]]
        params, body = desugar.closure(fn)
        types = types.split(" / ")
        if params is None or len(params) != len(types):
            raise Unsupported("visitor closure")
        if body[0] != "{":
            body = ["{"] + body + ["}"]
        # the closure as a function of its parameters and captures
        d = desugar.Desugar()
        b, autos = d.run(pre(body))
        cname = f"{callee.name}_closure__{n}"
        life = "<'a>" if "'a" in spec.one("visit") else ""
        head = f"fn {cname}{life}(" + ", ".join([f"arg{j}__: {ty}" for j, ty in enumerate(types)] + [f"{a}: {ty}" for a, ty in caps]) + ")" + (f" -> (res: {ret})" if ret != "()" else "")
        for c in ("requires", "ensures"):
            if spec.get("closure_" + c):
                head += f"\n  {c} " + spec.one("closure_" + c)
        lets = [x for j, p in enumerate(params) for x in ["let"] + p + ["=", f"arg{j}__", ";"]]
        empty = extract.Spec("")
        if spec.get("closure_start"):
            empty.parts["start"] = spec.get("closure_start")
        text = head + "\n" + annotate(cname, empty, ["{"] + lets + b[1:], autos) + "\n"
        # the visitor with the closure's captures in place of the closure
        visit = callee.params[-1][0]
        vt = list(callee.body)
        vt = extract.replace_all(vt, f"{visit} ( $$ )", lambda a: [cname, "("] + a + [x for c, _ in caps for x in [",", "cap_" + c]] + [")"])
        vt = [f"{callee.name}__{n}" if x == callee.name else x for x in vt]
        out = []
        for j, x in enumerate(vt):
            if x == visit and (vt[j - 1] == "," or vt[j - 1] == "("):
                out += [y for m, (c, _) in enumerate(caps) for y in ([","] if m else []) + ["cap_" + c]]
            else:
                out.append(x)
        sub = dict(s.split("=") for s in spec.one("subst").replace(" ", "").split(",")) if spec.get("subst") else {}
        d = desugar.Desugar()
        vb, autos = d.run(pre(out))
        sig = signature(callee, drop={visit: [f"cap_{c}: {ty}" for c, ty in caps]}, sub=sub)
        sig = sig.replace(f"fn {callee.name}", f"fn {callee.name}__{n}", 1)
        s2 = extract.Spec(key)
        s2.parts = {k: [v.replace("{n}", str(n)) for v in vs] for k, vs in spec.parts.items()}
        return text + sig + clauses(s2, callee) + "\n" + spec.one("attr") + annotate(callee.name, s2, vb, autos, callee.params) + "\n"

    def function(self, mod, key, f, spec, stub, vis="pub "):
        extra = []
        sig = vis + signature(f) + clauses(spec, f)
        if f.body is None:
            return sig + ";\n", extra
        if stub:
            return "#[verifier::external_body]\n" + sig + "\n{ unimplemented!() }\n", extra
        t = self.visitors(mod, f, self.equalities(list(f.body)), extra)
        d = desugar.Desugar(f.ret)
        t, autos = d.run(pre(t))
        t = pre(t)
        return spec.one("attr") + "\n" + sig + "\n" + annotate(f.name, spec, t, autos, f.params) + "\n", extra


def from_impl(it):
    """impl From<A> for B { .. } with `ensures` taken from a body that only wraps its argument, and the Into__ impl that goes with it."""
    head = it.target
    lt = head.index("<")
    a = " ".join(head[lt + 1:rust.angle(head, lt)])
    b = " ".join(head[head.index("for") + 1:])
    return a, b


EMPTY = extract.Spec("")


def build(sources, stubs=(), skip=()):
    parser, compiler, *rest = sources
    return assemble([(parser, "mabo_parser"), (compiler, "")], ["mabo_parser" + ("::" + m if m else "") for m in PARSER_MODULES] + list(COMPILER_MODULES),
                    *rest, stubs=stubs, skip=skip)


def build_meta(sources, stubs=(), skip=()):
    """Unit of mabo-meta: its functions and the types of the simplified syntax tree that they work on."""
    meta, compiler, *rest = sources
    return assemble([(compiler, ""), (meta, "mabo_meta")], ["", "simplify", "mabo_meta"], *rest, stubs=stubs, skip=skip,
                    only={"simplify": ("Type", "ExternalType", "Variant", "Fields", "Field", "FieldKind", "ParserField")}, uses={"simplify": "use crate::*;", "mabo_meta": "use crate::*; use crate::specs::*; use crate::simplify::*;"},
                    base="use crate::*; use crate::simplify::*; use crate::mabo_meta::*;", opaque=("Variant", "Fields", "NamedField", "UnnamedField"))


def assemble(texts, modules, contracts, prelude, specs_text, laws, stubs=(), skip=(), only={}, uses=USES, base=None, opaque=()):
    src = Source()
    for text, prefix in texts:
        src.load(text, prefix)
    specs, raws = extract.load(contracts, {})
    emit = Emit(src, specs)
    u, lost = verus.Unit(), {}
    u.add(verus.HEADER.replace("use std::hash::Hash;\nuse std::string::FromUtf8Error;\n", "use std::path::PathBuf;\nuse std::ops::Range;\n"))
    u.add(prelude)
    if opaque:
        # Types of the parser that are only referred to.
        u.add("pub mod mabo_parser { use vstd::prelude::*; " + " ".join(f"#[verifier::external_body] pub struct {n}<'a> {{ x: &'a () }}" for n in opaque) + " }")
    tree = {}
    done_keys = set()

    def body_of(mod):
        for it in src.mods.get(mod, []):
            key = f"const {mod}::{it.name}"
            if it.kind == "const" and it.toks[2] == ":" and it.toks[3] in SIZES and it.toks[4] == "=" and key not in skip:
                u.add("pub " + " ".join(it.toks), key)
        for it in src.mods.get(mod, []):
            if it.kind in ("struct", "enum") and it.name != "Error__":
                if mod == "mabo_parser::punctuated" and it.name == "Iter" or it.name not in only.get(mod, (it.name,)):
                    continue
                key = f"type {mod}::{it.name}"
                if key in skip:
                    continue
                u.add(type_text(mod, it, src), key)
        for it in src.mods.get(mod, []):
            if it.kind == "trait" and it.name == "Spanned":
                u.add("pub trait Spanned { fn span(&self) -> (res: Span); }")
            if it.kind == "impl" and it.trait == "Spanned" and mod in ("mabo_parser",):
                key = f"impl {mod}::Spanned for {it.type}"
                if key in skip:
                    continue
                u.add(f"impl {subst(' '.join(it.target))} {{ fn span(&self) -> (res: Span) {' '.join(it.fns[0].body)} }}", key)
            if it.kind == "impl" and it.trait == "From" and (mod.startswith(("validate", "resolve")) or mod == "mabo_parser"):
                a, b = from_impl(it)
                key = f"impl {mod}::From<{a.replace(' ', '')}> for {bare(rust.tokens(b))}"
                spec = specs.get(key)
                if key in skip or mod == "mabo_parser" and spec is None:
                    continue
                f = it.fns[0]
                d = desugar.Desugar()
                t, autos = d.run(pre(list(f.body)))
                t = [bare(rust.tokens(b)) if x == "Self" else x for x in t]
                t = extract.replace_all(t, "{ 0 : $ }", lambda x: ["("] + x + [")"])
                ens = spec.one("ensures") if spec else ""
                if not ens:
                    m = extract.match_at(t, 0, "{ $ :: $ ( $ ) }".split())
                    ens = f"res == {m[1][0][0]}::{m[1][1][0]}({m[1][2][0]})" if m else "true"
                gen = ", ".join(rust.join(g) for g in it.generics)
                gen = f"<{gen}>" if gen else ""
                p = rust.join(f.params[0])
                stub = key in stubs
                body = "{ unimplemented!() }" if stub else " ".join(t)
                name = f.params[0][0] if re.match(r"\w+$", f.params[0][0]) else "v__"
                if name == "v__":
                    body = "{ let " + rust.join(desugar.strip_type(f.params[0])) + " = v__; " + body + " }" if not stub else body
                    p = "v__: " + a
                ext = "#[verifier::external_body] " if stub else ""
                u.add(f"impl{gen} Into__<{subst(b)}> for {subst(a)} {{\n open spec fn to__(self, res: {subst(b)}) -> bool {{ {re.sub(r'%s(?=\W|$)' % name, 'self', ens)} }}\n {ext}fn into__(self) -> (res: {subst(b)}) {{ let {name} = self; {body} }}\n}}", key)
        for key, spec in specs.items():
            node = src.index.get(key)
            if key in done_keys or key in skip:
                continue
            if node is None or node[0] != mod:
                continue
            done_keys.add(key)
            if spec.get("visit") or key.startswith("impl ") and "From<" in key:
                continue
            stub = key in stubs
            for attempt in (stub, True):
                try:
                    if key.startswith("impl "):
                        text, extra = impl_text(mod, key, node[1], spec, attempt)
                    else:
                        f = node[1]
                        text, extra = emit.function(mod, key, f, spec, attempt)
                        if spec.get("rename"):
                            text = text.replace(f"fn {f.name}", f"fn {spec.one('rename').strip()}", 1)
                        if f.impl is not None:
                            it = f.impl
                            gen = ", ".join(rust.join(g) for g in it.generics)
                            text = f"impl{'<' + gen + '>' if gen else ''} {' '.join(it.target)} {{\n{text}}}\n"
                    for k, x in extra:
                        if k in skip:
                            raise Unsupported("visitor not accepted")
                        u.add(x, k)
                    u.add(text, key)
                    break
                except (Unsupported, ValueError, IndexError, KeyError) as e:
                    lost.setdefault(key, str(e))
        for r in raws:
            m = re.match(r"\s*// module (\S*)\n", r)
            if m and m.group(1) == (mod or "root"):
                u.add(r)

    def impl_text(mod, key, it, spec, stub):
        gen = ", ".join(rust.join(g) for g in it.generics)
        target = " ".join(it.target)
        if spec.get("as"):
            target = " ".join(it.target[it.target.index("for") + 1:])
            if spec.one("as").strip() != "inherent":
                target = spec.one("as").strip() + " for " + target
        s = f"impl{'<' + gen + '>' if gen else ''} {subst(target)} {{\n{spec.one('items')}\n"
        extra = []
        for f in it.fns:
            name = dict(x.split("=") for x in spec.one("rename").split()).get(f.name, f.name)
            t, ex = emit.function(mod, key, f, spec, stub, vis="pub " if spec.one("as").strip() == "inherent" else "")
            extra += ex
            s += t.replace(f"fn {f.name}", f"fn {name}", 1)
        return s + "}\n", extra

    def emit_mod(mod):
        children = [m for m in modules if m.rsplit("::", 1)[0] == mod and m != mod and "::" in m] if mod else \
            [m for m in modules if "::" not in m and m]
        if mod == "":
            for c in children:
                emit_mod(c)
            u.add("use crate::specs::*;" if base else "use crate::mabo_parser::Spanned; use crate::specs::*;")
            if not base:
                body_of("")
            return
        u.add(f"pub mod {mod.rsplit('::', 1)[-1]} {{ use vstd::prelude::*; {uses.get(mod, DEFAULT_USE)}")
        if mod == "validate":
            u.add("pub use self::ids::*; pub use self::names::*; pub use self::generics::*; pub use self::tuples::*;")
        if mod == "resolve":
            u.add("pub use self::error::*;")
        if mod == "resolve::error":
            u.add("use super::*;")
        for c in children:
            emit_mod(c)
        body_of(mod)
        u.add("}")

    emit_mod("")
    for key in specs:
        if key not in src.index and key not in skip:
            lost[key] = "not found in the source"
    base = base or "use crate::*; use crate::mabo_parser::*; use crate::mabo_parser::punctuated::*;"
    u.add("pub mod specs { use vstd::prelude::*; " + base)
    for key, text in verus.law_items(specs_text):
        u.add(text, key.replace("law ", "spec ", 1) if key else None)
    u.add("}")
    u.add("pub mod laws { use vstd::prelude::*; use crate::specs::*; " + base)
    for key, text in verus.law_items(laws):
        u.add(text, key)
    u.add("}")
    u.add("}\nfn main() {}")
    return u, lost
