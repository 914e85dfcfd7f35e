"""Mechanical extraction: rewrites functions of /repo's source into Verus functions with contracts attached.

The text of a function is taken from the macro-expanded source. What is changed:
  * attributes, visibility and `const` are dropped; `impl Trait` parameters become named type parameters;
  * `x?` on the result of a `varint::` function is written out as the match it stands for (`From::from` included);
  * `for P in E { .. }` becomes a counted loop over the elements of E (in iteration order);
  * `X.iter().map(F).sum::<usize>()` becomes `sum_map(X, F)`, and a few other std calls that the verifier has no specification
    for go to helpers with the same meaning (see REWRITES);
  * contracts, loop invariants, closure contracts and ghost code are added.
A construct that is not understood raises Unsupported: the function is then not decided, never reported as broken.
"""
import re
from . import rust


class Unsupported(Exception):
    pass


# -------------------------------------------------------------------------------------------------- contract files

class Spec:
    def __init__(self, key):
        self.key = key
        self.parts = {}       # directive -> [text]
        self.order = []

    def get(self, name):
        return self.parts.get(name, [])

    def one(self, name, default=""):
        return "\n".join(self.parts.get(name, [])) or default


def load(text, families):
    """Contract file -> {key: Spec}. `@fn path [for FAMILY]`, `@impl Trait for Type [for FAMILY]`, `@raw [for FAMILY]`."""
    out, raws = {}, []
    blocks = re.split(r"^(?=@(?:fn|impl|trait|raw)\b)", text, flags=re.M)
    for b in blocks:
        m = re.match(r"@(fn|impl|trait|raw)([^\n]*)\n", b)
        if not m:
            continue
        kind, head = m.group(1), m.group(2).strip()
        fam = re.search(r"\s+over (\w+)$", " " + head)
        insts = [{}]
        if fam:
            head = (" " + head)[:fam.start()].strip()
            insts = families[fam.group(1)]
        body = b[m.end():]
        for inst in insts:
            def sub(s):
                for k, v in inst.items():
                    s = s.replace("$" + k, str(v))
                return s
            h, bd = sub(head), sub(body)
            if kind == "raw":
                raws.append(bd)
                continue
            key = (kind + " " + h).strip()
            s = Spec(key)
            for part in re.split(r"^(?=@)", bd, flags=re.M):
                pm = re.match(r"@(\w+)(?:[ \t]+(\d+)(?=\s))?[ \t]*(.*)", part, flags=re.S)
                if not pm:
                    continue
                name = pm.group(1) + (pm.group(2) or "")
                s.parts.setdefault(name, []).append(pm.group(3).rstrip())
            if key in out:
                raise ValueError("duplicate contract " + key)
            out[key] = s
    return out, raws


# -------------------------------------------------------------------------------------------------- token rewriting

def find(t, pat, start=0):
    """First position where the token pattern matches; `$` matches one identifier, `...` a balanced run. -> (i, j, captures)"""
    for i in range(start, len(t)):
        r = match_at(t, i, pat)
        if r is not None:
            return i, r[0], r[1]
    return None


def match_at(t, i, pat):
    caps = []
    k = 0
    while k < len(pat):
        p = pat[k]
        if p == "$$":  # balanced run up to the next pattern token
            nxt = pat[k + 1]
            j = i
            while j < len(t) and t[j] != nxt:
                if t[j] in rust.OPEN:
                    j = rust.match(t, j)
                elif t[j] in rust.CLOSE or t[j] in (";",):
                    return None
                j += 1
            if j >= len(t):
                return None
            caps.append(t[i:j])
            i = j
            k += 1
            continue
        if i >= len(t):
            return None
        if p == "$":
            if not re.match(r"[A-Za-z_]\w*$", t[i]):
                return None
            caps.append([t[i]])
        elif p != t[i]:
            return None
        i += 1
        k += 1
    return i, caps


def replace_all(t, pat, fn):
    pat = pat.split()
    i = 0
    while True:
        r = find(t, pat, i)
        if r is None:
            return t
        a, b, caps = r
        new = fn(*caps)
        if isinstance(new, str):
            new = rust.tokens(new)
        t = t[:a] + new + t[b:]
        i = a + 1


def receiver_start(t, i):
    """Start of the postfix expression that ends before t[i] (t[i] is the '.' of a method call)."""
    j = i - 1
    while j >= 0:
        x = t[j]
        if x in rust.CLOSE:
            d = 0
            k = j
            while k >= 0:
                if t[k] in rust.CLOSE:
                    d += 1
                elif t[k] in rust.OPEN:
                    d -= 1
                    if d == 0:
                        break
                k -= 1
            j = k - 1
            # a call or index has something before it
            if j >= 0 and t[k] == "(" and t[j] == ">":   # turbofish
                d = 0
                while j >= 0:
                    if t[j] == ">":
                        d += 1
                    elif t[j] == "<":
                        d -= 1
                        if d == 0:
                            break
                    j -= 1
                j -= 1
            if j >= 0 and (re.match(r"[A-Za-z_]\w*$", t[j]) or t[j] in rust.CLOSE or t[j] in ("::", ".")) and t[j] not in ("return", "in", "if", "while", "match", "else"):
                if t[j] == "::":
                    j -= 1
                continue
            return k
        if re.match(r"""[A-Za-z_]\w*$|\d|b?"|'.'""", x):
            if x in ("return", "in", "if", "while", "match", "else", "let", "mut"):
                return j + 1
            if j > 0 and t[j - 1] in (".", "::"):
                j -= 2
                continue
            return j
        return j + 1
    return 0


MAXES = {"u8": 2, "i8": 2, "u16": 3, "i16": 3, "u32": 5, "i32": 5, "u64": 10, "i64": 10, "u128": 19, "i128": 19}


def rewrite(t):
    t = replace_all(t, "bytes :: buf :: Take", lambda: "Take")
    t = replace_all(t, "varint :: max_size :: < $ > ( )", lambda ty: str(MAXES[ty[0]]))
    t = replace_all(t, "crate :: varint ::", lambda: "varint ::")
    t = replace_all(t, "& $ [ .. $$ ]", lambda x, e: ["slice_to__", "(", "&", x[0], ","] + e + [")"])
    t = replace_all(t, ". map_err ( Into :: into )", lambda: ". map_err(utf8_error__)")
    t = replace_all(t, ". map ( Some )", lambda: ". map(some__)")
    t = replace_all(t, ". map ( Ok )", lambda: ". map(ok__)")
    for n in ("NonZeroU8 NonZeroU16 NonZeroU32 NonZeroU64 NonZeroU128 NonZeroI8 NonZeroI16 NonZeroI32 NonZeroI64 NonZeroI128").split():
        t = replace_all(t, f"std :: num :: {n}", lambda: n)
    t = replace_all(t, "std :: borrow :: Cow :: Owned", lambda: "cow_owned__")
    t = replace_all(t, "Vec :: into_boxed_slice", lambda: "into_boxed_slice__")
    t = replace_all(t, "String :: into_boxed_str", lambda: "into_boxed_str__")
    t = replace_all(t, "$ . try_into ( ) . unwrap ( )", lambda x: f"into_array__({x[0]})")
    # X.iter().map(F).sum::<usize>()
    i = 0
    while True:
        r = find(t, ". iter ( ) . map (".split(), i)
        if r is None:
            break
        a, b, _ = r
        k = rust.match(t, b - 1)
        m = match_at(t, k + 1, ". sum :: < usize > ( )".split())
        if m is None:
            raise Unsupported("iterator chain")
        s = receiver_start(t, a)
        new = rust.tokens("({ let sum_f__ =") + t[b:k] + rust.tokens("; sum_map__(") + t[s:a] + rust.tokens(", sum_f__) })")
        t = t[:s] + new + t[m[0]:]
        i = s + 1
    # varint::f(..)?
    i = 0
    while True:
        r = find(t, "varint :: $ (".split(), i)
        if r is None:
            break
        a, b, _ = r
        k = rust.match(t, b - 1)
        if k + 1 < len(t) and t[k + 1] == "?":
            t = t[:a] + rust.tokens("match") + t[a:k + 1] + rust.tokens(
                "{ Ok(v__) => v__, Err(e__) => return Err(From::from(e__)) }") + t[k + 2:]
        i = a + 2
    # for loops
    n = 0
    i = 0
    while i < len(t):
        if t[i] == "for" and t[i - 1] != "impl" and t[i + 1] != "<":
            j = i + 1
            while t[j] != "in":
                j = rust.match(t, j) + 1 if t[j] in rust.OPEN else j + 1
            pat = t[i + 1:j]
            k = j + 1
            while t[k] != "{":
                k = rust.match(t, k) + 1 if t[k] in rust.OPEN else k + 1
            expr = t[j + 1:k]
            e = rust.match(t, k)
            if any(x in (".", "..") for x in expr) or not expr:
                raise Unsupported("for loop over " + rust.join(expr))
            new = rust.tokens(f"let each{n}__ = ") + expr + rust.tokens(f"; let mut at{n}__ : usize = 0; while at{n}__ < each{n}__.each_len() {{ let ") + pat + \
                rust.tokens(f"= each{n}__.each_at(at{n}__); at{n}__ = at{n}__ + 1;") + t[k + 1:e + 1]
            t = t[:i] + ["{"] + new + ["}"] + t[e + 1:]
            n += 1
        i += 1
    return t


LOOPS = ("while", "loop")


def snapshots(body, i, j):
    """Invariants for locals that hold a buffer's remaining length at the head of the loop at `i` (its block starts at `j`):
    `let mut x = y.remaining();` before the loop and `x = y.remaining();` as the last statement in it."""
    end = rust.match(body, j)
    out = []
    for k in range(i):
        m = body[k:k + 9]
        if len(m) == 9 and m[:2] == ["let", "mut"] and m[3] == "=" and m[5:9] == [".", "remaining", "(", ")"] and body[k + 9] == ";":
            x, y = m[2], m[4]
            if body[end - 8:end] == [x, "=", y, ".", "remaining", "(", ")", ";"] and sum(
                    body[q] == x and body[q + 1] in ("=", "+=", "-=") for q in range(j, end)) == 1:
                out.append(f"{x} as nat == {y}.view().len()")
    return out


def annotate(f, spec, body):
    """Insert the ghost text of `spec` into the token list `body` (with the outer braces)."""
    roles = {}
    for d in spec.get("role"):
        name, pats = d.split("=", 1)
        r = None
        for p in pats.split("|||"):
            r = find(body, rust.tokens(p.replace("$", "ROLE__")) if False else p.split())
            if r is not None:
                break
        if r is None:
            raise Unsupported(f"{f.name}: no local for the role {name.strip()}")
        roles[name.strip()] = r[2][0][0]

    def fill(s):
        for k in sorted(roles, key=len, reverse=True):
            s = s.replace("#" + k, roles[k])
        return s

    out = []
    nloop = nclos = 0
    # tail position: start of the final expression of the body
    tail = None
    if spec.get("tail"):
        depth_stmt = 1
        i = 1
        last = 1
        while i < len(body) - 1:
            if body[i] in rust.OPEN:
                j = rust.match(body, i)
                if body[i] == "{" and j + 1 < len(body) - 1 and body[j + 1] not in (".", "?", "else", ")", ",", ";"):
                    last = j + 1
                i = j + 1
                continue
            if body[i] == ";":
                last = i + 1
            i += 1
        tail = last
    i = 0
    ends, after = {}, {}
    while i < len(body):
        x = body[i]
        if i == tail:
            out.append(fill(spec.one("tail")))
        if i == 0:
            out.append("{")
            out.append(fill(spec.one("start")))
            i += 1
            continue
        if x == "sum_map__":
            out.append(fill(spec.one("sum")))
        if x in LOOPS:
            j = i + 1
            while body[j] != "{":
                j = rust.match(body, j) + 1 if body[j] in rust.OPEN else j + 1
            inv = spec.get(f"loop{nloop}")
            if not inv:
                raise Unsupported(f"{f.name}: loop {nloop} has no invariant")
            out.append(fill(spec.one(f"before{nloop}")))
            out.append("#[verifier::loop_isolation(false)]" + (" #[verifier::allow_complex_invariants]" if "except_break" in inv[0] else ""))
            out += body[i:j]
            text = fill(inv[0]).strip()
            extra = snapshots(body, i, j)
            if extra and text.startswith("invariant "):
                text = "invariant " + ", ".join(extra) + ", " + text[len("invariant "):]
            out.append("\n" + text + "\n{")
            out.append(fill(spec.one(f"loopstart{nloop}")))
            ends.setdefault(rust.match(body, j), []).append(fill(spec.one(f"loopend{nloop}")))
            if spec.get(f"after{nloop}"):
                after.setdefault(rust.match(body, j), []).append(fill(spec.one(f"after{nloop}")))
            nloop += 1
            i = j + 1
            continue
        if x == "|" and body[i - 1] in ("(", ",", "=", "return") or x == "||" and body[i - 1] in ("(", ","):
            j = i
            if x == "|":
                j = i + 1
                while body[j] != "|":
                    j = rust.match(body, j) + 1 if body[j] in rust.OPEN else j + 1
            params = [rust.join(p) for p in rust.split(body[i + 1:j])] if x == "|" else []
            # closure body up to , or ) at depth 0
            k = j + 1
            while body[k] not in (",", ")", ";"):
                k = rust.match(body, k) + 1 if body[k] in rust.OPEN else k + 1
            c = spec.get(f"closure{nclos}")
            if not c:
                raise Unsupported(f"{f.name}: closure {nclos} has no contract")
            text = fill(c[0])
            # `types ;; contract`: parameter types in order, then result and ensures, with $0, $1 for the parameters.
            types, contract = text.split(";;", 1)
            types = [s.strip() for s in types.split(" / ")] if types.strip() else []
            if len(types) != len(params):
                raise Unsupported(f"{f.name}: closure {nclos} has other parameters")
            lets = ""
            names = []
            for n, p in enumerate(params):
                if re.match(r"\w+$", p):
                    names.append(p)
                else:
                    names.append(f"arg{n}__")
                    lets += f"let {p} = arg{n}__;\n"
            for n, p in enumerate(names):
                contract = contract.replace(f"${n}", p)
            hint = fill(spec.one(f"hint{nclos}"))
            if hint:
                out.append(f"{{ let closure{nclos}__ =")
                ends.setdefault(k, []).append(f"}}; {hint} closure{nclos}__ }}")
            else:
                ends.setdefault(k, []).append("}")
            nclos += 1
            out.append("|" + ", ".join(f"{p}: {ty}" for p, ty in zip(names, types)) + "| " + contract + " {" + lets)
            i = j + 1
            # the closure's body is emitted by the main loop; the end marker closes it
            continue
        if i in ends:
            for e in ends.pop(i):
                out.append(e)
        out.append(x)
        if x in (";", "{", "}"):
            out.append("\n")
        if i in after:
            out += after.pop(i)
        i += 1
    for k, v in spec.parts.items():
        m = re.match(r"loop(\d+)$", k)
        if m and int(m.group(1)) >= nloop:
            raise Unsupported(f"{f.name}: expected a loop {m.group(1)}")
        m = re.match(r"closure(\d+)$", k)
        if m and int(m.group(1)) >= nclos:
            raise Unsupported(f"{f.name}: expected a closure {m.group(1)}")
    return re.sub(r"> (?=>)", ">", re.sub(r"< (?=<)", "<", " ".join(out)))


def signature(f, spec, extra_bounds=True):
    generics = [rust.join(g) for g in f.generics]
    params = []
    for p in f.params:
        s = " ".join(p)
        m = re.search(r"\bimpl ((?:\w+)(?: < .* >)?)$", s)
        if m:
            n = {"Buf": "R__", "BufMut": "W__"}.get(m.group(1), "I__")
            generics.append(f"{n}: {m.group(1)}")
            s = s[:m.start()] + n
        elif "impl" in p:
            raise Unsupported(f"{f.name}: parameter {s}")
        if p and p[0] == "_":
            s = "_p" + s[1:]
        params.append(s)
    params = [" ".join(rewrite(rust.tokens(p))) for p in params]
    where = [" ".join(rewrite(w)) for w in f.where]
    if extra_bounds and spec.get("bounds"):
        where += [b.strip() for b in spec.one("bounds").split(",")]
    ret = " ".join(rewrite(f.ret))
    if ret:
        ret = f"-> (res: {ret})"
    g = f"<{', '.join(generics)}>" if generics else ""
    w = ("\nwhere " + ", ".join(where)) if where else ""
    return f"fn {f.name}{g}({', '.join(params)}) {ret}{w}"


def function(f, spec, stub=None, vis="pub "):
    """Verus text of one function. With `stub` the body is dropped and the contract assumed."""
    s = vis + signature(f, spec)
    if spec.get("requires"):
        s += "\n    requires " + spec.one("requires")
    if spec.get("ensures"):
        s += "\n    ensures " + spec.one("ensures")
    if spec.get("decreases"):
        s += "\n    decreases " + spec.one("decreases")
    for n, q in enumerate(f.params):
        s = s.replace(f"${n}", q[0] if q[0] != "mut" else q[1])
    attr = spec.one("attr")
    if spec.get("loop0"):
        attr += " #[verifier::spinoff_prover]"
    if f.body is None:
        return s + ";\n"
    if stub:
        return "#[verifier::external_body]\n" + s + "\n{ unimplemented!() }\n"
    return (attr + "\n" if attr else "") + s + "\n" + annotate(f, spec, rewrite(f.body)) + "\n"
