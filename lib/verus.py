"""Verus stage: contracts on mechanically extracted functions."""
import json, os, pathlib, re, sys, time
from . import extract, rust, util

ENV_TOOLCHAIN = "stable"
VERUS = util.ROOT / "verus"


def expanded(crate="mabo"):
    """Macro-expanded source of a crate of /repo's working tree."""
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=ENV_TOOLCHAIN, RUSTC_BOOTSTRAP="1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=str(util.BUILD / "expand"))
    rc, out = util.run(["cargo", "rustc", "-p", crate, "--lib", "--profile", "check", "--offline", "--locked", "--",
                        "-Zunpretty=expanded"], cwd=util.REPO, env=e, timeout=400, split=True)
    if rc != 0:
        raise RuntimeError("expansion failed: " + out[1][-3000:])
    return out[0]


INTS = []
for _b, _max in ((16, 3), (32, 5), (64, 10), (128, 19)):
    INTS.append(dict(T=f"u{_b}", MAX=_max, BITS=_b, POW=hex(1 << _b) if _b < 128 else "(0x10000000000000000 * 0x10000000000000000)", num="unsigned", val="plain"))
    INTS.append(dict(T=f"i{_b}", MAX=_max, BITS=_b, POW=hex(1 << _b) if _b < 128 else "(0x10000000000000000 * 0x10000000000000000)", num="zig", val="zag"))
for _i in INTS:
    _i["NZ"] = "NonZero" + _i["T"].upper()
BYTES = [dict(T=t, NZ="NonZero" + t.upper()) for t in ("u8", "i8")]
FIXED = [dict(T=t, WIDTH=w) for t, w in (("bool", 1), ("u8", 1), ("i8", 1), ("f32", 4), ("f64", 8))]
FAMILIES = dict(ints=INTS, bytes=BYTES, fixed=FIXED, allints=INTS + BYTES)


class Unit:
    """One generated Verus file."""
    def __init__(self):
        self.lines, self.regions = [], []

    def add(self, text, key=None):
        start = len(self.lines) + 1
        self.lines += text.rstrip("\n").split("\n")
        if key:
            self.regions.append((start, len(self.lines), key))

    def at(self, line):
        for a, b, k in self.regions:
            if a <= line <= b:
                return k
        return None

    def text(self):
        return "\n".join(self.lines) + "\n"


HEADER = """#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unused_braces, unused_assignments)]
use vstd::prelude::*;
use vstd::utf8::*;
use std::fmt::Debug;
use std::hash::Hash;
use std::string::FromUtf8Error;
verus! {
"""


def law_items(text):
    """Split at top-level items: [(key, text)]."""
    out, cur, key = [], [], None
    for line in text.split("\n"):
        m = re.match(r"(?:pub )?(?:broadcast )?(?:proof fn|fn|trait) (\w+)|(impl\b[^{]*)", line)
        if m:
            if cur:
                out.append((key, "\n".join(cur)))
            cur, key = [], "law " + (m.group(1) or m.group(2).strip())
        cur.append(line)
    out.append((key, "\n".join(cur)))
    return out


def source_index(source):
    """{key: Fn | Item} of the extracted crate."""
    idx = {}
    for it in rust.items(rust.tokens(source)):
        mod = "::".join(it.path)
        if it.kind == "fn":
            idx["fn " + (mod + "::" if mod else "") + it.name] = it.fns[0]
        elif it.kind == "impl":
            head = it.head
            generics = []
            if head[0] == "<":
                k = rust.angle(head, 0)
                generics, head = rust.split(head[1:k]), head[k + 1:]
            where = []
            if "where" in head:
                w = head.index("where")
                where, head = rust.split(head[w + 1:]), head[:w]
            it.generics, it.where, it.target = generics, where, head
            if "for" in head:
                idx["impl " + "".join(" for " if x == "for" else x for x in head)] = it
            else:
                for f in it.fns:
                    idx["fn " + "".join(head) + "::" + f.name] = f
        elif it.kind in ("enum", "struct", "trait"):
            idx[it.kind + " " + it.name] = it
        elif it.kind == "type":
            idx["type " + it.name] = it
        elif it.kind == "const" and len(it.toks) > 6:
            t = it.toks[it.toks.index("const"):]
            idx["const " + t[1]] = it
    return idx


def build(source, contracts, prelude, laws, families, stubs=(), skip=()):
    """-> (Unit, lost): the Verus file, and what could not be extracted {key: reason}."""
    idx = source_index(source)
    specs, raws = extract.load(contracts, families)
    u, lost = Unit(), {}
    u.add(HEADER)
    for key in TYPES:
        it = idx.get(key)
        if it is None:
            lost[key] = "not found in the source"
            continue
        u.add(type_text(it), key)
    u.add(prelude)
    for r in raws:
        u.add(r)
    for key, spec in specs.items():
        if key in skip:
            continue
        node = idx.get(key)
        stub = key in stubs
        if node is None:
            lost[key] = "not found in the source"
            continue
        try:
            u.add(text_of(key, node, spec, stub), key)
        except extract.Unsupported as e:
            lost[key] = str(e)
            try:
                u.add(text_of(key, node, spec, True), key)
            except extract.Unsupported:
                pass
    for key, text in law_items(laws):
        u.add(text, key)
    u.add("}\nfn main() {}")
    return u, lost


TYPES = ["struct DecodeIntError", "enum Error", "struct FieldId", "enum FieldEncoding", "struct VariantId", "struct NonZero",
         "type Result", "type NonZeroString", "type NonZeroBytes"]


def type_text(it):
    t = rust.items  # noqa
    toks, out, i = it.toks, [], 0
    while i < len(toks):
        if toks[i] == "#":
            i = rust.match(toks, i + 1) + 1
            continue
        out.append(toks[i])
        i += 1
    s = " ".join(out)
    s = s.replace("std :: string :: FromUtf8Error", "FromUtf8Error").replace("std :: result :: Result", "core::result::Result")
    s = re.sub(r"'static str", "'static str", s)
    derive = {"FieldId": "#[derive(Clone, Copy)]", "FieldEncoding": "#[derive(Clone, Copy)]", "VariantId": "#[derive(Clone, Copy)]"}.get(it.name, "")
    if it.name == "NonZero":
        s = s.replace("( T )", "( pub T )")
    return derive + " pub " + s


def text_of(key, node, spec, stub):
    if key.startswith("impl "):
        gen = ", ".join(rust.join(g) for g in node.generics)
        where = [" ".join(w) for w in node.where]
        if spec.get("implbounds"):
            where += [b.strip() for b in spec.one("implbounds").split(",")]
        head = " ".join(node.target)
        head = head.replace("bytes :: buf :: Take", "Take").replace("std :: borrow :: Cow", "Cow").replace("std :: string :: FromUtf8Error", "FromUtf8Error")
        s = f"impl{'<' + gen + '>' if gen else ''} {head}" + (" where " + ", ".join(where) if where else "") + " {\n"
        s += spec.one("items") + "\n"
        for f in node.fns:
            s += extract.function(f, spec, stub, vis="").replace("std :: string :: FromUtf8Error", "FromUtf8Error")
        return s + "}\n"
    if key.startswith("trait "):
        head = " ".join(node.head).replace("super :: ", "")
        if spec.get("supers"):
            head += (" + " if ":" in head else ": ") + spec.one("supers")
        s = f"pub trait {head} {{\n" + spec.one("items") + "\n"
        for f in node.fns:
            s += extract.function(f, spec, stub, vis="")
        return s + "}\n"
    f = node
    if f.impl is not None:
        it = f.impl
        gen = ", ".join(rust.join(g) for g in it.generics)
        where = [" ".join(w) for w in it.where]
        if spec.get("implbounds"):
            where += [b.strip() for b in spec.one("implbounds").split(",")]
        return (f"impl{'<' + gen + '>' if gen else ''} {' '.join(it.target)}" + (" where " + ", ".join(where) if where else "") + " {\n"
                + extract.function(f, spec, stub) + "}\n")
    return extract.function(f, spec, stub)



# ------------------------------------------------------------------------------------------- running and reading it

FAILED = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
          "possible arithmetic", "decreases not satisfied", "unable to prove", "possible division by zero", "not satisfied",
          "cannot show")
SAFETY = ("precondition not satisfied", "possible arithmetic", "decreases not satisfied", "possible division by zero")
CANARY = """
proof fn canary_1__() { broadcast use {words, blocks, models_push, models_len, models_u8}; float_bytes_len(); assert(false); }
fn canary_2__<R: Buf>(r: &mut R) { proof { laws::<R>(); } let _ = decode_u8(r); let _ = decode_string(r); let _ = decode_u64(r); assert(false); }
fn canary_3__<W: BufMut>(w: &mut W, m: &HashMap<u32, String>) { m.encode(w); let n = m.size(); assert(false); }
"""


def verify(path, timeout, extra=()):
    """-> (results of the verifier | None, diagnostics, stderr)"""
    rc, (out, err) = util.run(["verus", str(path), "--num-threads", "8", "--multiple-errors", "4", "--triggers-mode", "silent",
                               "--output-json", "--time-expanded", "--error-format=json", *extra],
                              cwd=path.parent, timeout=timeout, split=True)
    diags = []
    for line in err.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") == "error" and d.get("spans"):
            diags.append(d)
        elif d.get("level") == "error" and not d["message"].startswith("aborting"):
            diags.append(d)
    try:
        res = json.loads(out[out.index("{"):])
    except ValueError:
        res = None
    return rc, res, diags, err


def classify(unit, diags):
    """-> (failed {key: [(message, text)]}, broken {key: message}, unknown [message])"""
    failed, broken, unknown = {}, {}, []
    for d in diags:
        msg = d["message"]
        spans = d["spans"]
        keys = []
        for s in spans:
            label = s.get("label") or ""
            k = unit.at(s["line_start"]) if s["file_name"].endswith("unit.rs") else None
            if k is None:
                continue
            elsewhere = label.startswith("failed p") or label.startswith("failed this")
            keys.append((k.startswith("trait "), elsewhere, not s["is_primary"], k))
        keys.sort()
        key = keys[0][3] if keys else None
        text = d.get("rendered") or msg
        if "esource limit" in msg or "rlimit" in msg:
            if key:
                broken.setdefault(key, "the solver gave up: " + msg)
            else:
                unknown.append(msg)
        elif any(f in msg for f in FAILED) and d.get("code") is None:
            if key:
                failed.setdefault(key, []).append((msg, text, clause(d)))
            else:
                unknown.append(text[:600])
        else:
            if key and not key.startswith("law"):
                broken.setdefault(key, "not accepted by the verifier: " + msg)
            else:
                unknown.append(text[:600])
    return failed, broken, unknown


def clause(d):
    """Text of the contract clause that failed (empty for anything else)."""
    for s in d["spans"]:
        if (s.get("label") or "").startswith("failed this post") or (s["is_primary"] and "invariant" in d["message"]):
            return " ".join(t["text"][t["highlight_start"] - 1:t["highlight_end"] - 1] for t in s["text"])
    return ""


FN = re.compile(r"((?:#\[[^\]]*\]\s*)*)(?:pub |broadcast |open |closed )*(?:(proof) )?fn (\w+)")


def obligations_of(unit, keys):
    """Number of functions with a body that is verified (each with its own verification conditions) in the regions of `keys`."""
    n = {}
    for a, b, k in unit.regions:
        if k in keys:
            c = 0
            for m in FN.finditer("\n".join(unit.lines[a - 1:b])):
                # Functions of traits without a body end the line with `;`, or with nothing.
                c += "external" not in m.group(1)
            n[k] = max(c, 1)
    return n


def run_unit(kind, sources, deadline, log):
    """Extract and verify; constructs the verifier refuses are stubbed (contract assumed, not counted) and it is run again."""
    stubs, skip, lost = {}, {}, {}
    path = util.BUILD / "verus" / (kind.name + "_unit.rs")
    path.parent.mkdir(parents=True, exist_ok=True)
    for attempt in range(8):
        unit, lost = kind.build(sources, stubs, skip)
        path.write_text(unit.text())
        rc, res, diags, err = verify(path, max(30, min(600, deadline - time.time())), getattr(kind, "args", []))
        if rc is None:
            return unit, None, {}, {}, {**lost, **stubs, **skip}, ["the verifier ran out of time"]
        failed, broken, unknown = classify(unit, diags)
        ran = res is not None and res["verification-results"].get("verified", 0) > 0
        if ran:
            return unit, res, failed, broken, {**lost, **stubs, **skip}, unknown
        if not broken:
            break
        for k, v in broken.items():
            if k in stubs:
                skip[k] = v
            else:
                stubs[k] = v
        log.append("not accepted: " + "; ".join(f"{k}: {v}" for k, v in broken.items())[:600])
    return unit, None, {}, {}, {**lost, **stubs, **skip}, unknown or [err[-1500:]]


class Runtime:
    name = "runtime"

    @staticmethod
    def sources(canary=CANARY):
        return (expanded(), (VERUS / "runtime.vc").read_text(), (VERUS / "prelude.rs").read_text(),
                (VERUS / "laws.rs").read_text() + canary, FAMILIES)

    @staticmethod
    def build(sources, stubs, skip):
        return build(*sources, stubs=stubs, skip=skip)


class Compiler:
    name = "compiler"

    @staticmethod
    def sources():
        return (expanded("mabo-parser"), expanded("mabo-compiler"),
                *((VERUS / n).read_text() for n in ("compiler.vc", "compiler_prelude.rs", "compiler_specs.rs", "compiler_laws.rs")))

    @staticmethod
    def build(sources, stubs, skip):
        from . import vcompiler
        return vcompiler.build(sources, stubs=stubs, skip=skip)


class Meta:
    """Sizes on the wire that mabo-meta reports."""
    name = "meta"

    @staticmethod
    def sources():
        return (expanded("mabo-meta"), expanded("mabo-compiler"),
                *((VERUS / n).read_text() for n in ("meta.vc", "compiler_prelude.rs", "meta_specs.rs", "meta_laws.rs")))

    @staticmethod
    def build(sources, stubs, skip):
        from . import vcompiler
        return vcompiler.build_meta(sources, stubs=stubs, skip=skip)


class Generated:
    """What the generator writes for the schemas of codegen/schemas/std."""
    name = "generated"
    args = [x for m in ("theory", "gen", "m_canary_1", "m_canary_2", "m_canary_3") for x in ("--verify-module", m)]

    @staticmethod
    def sources():
        from . import native, vgenerated
        crate = util.ROOT / "codegen"
        rc, out = util.run(["cargo", "build", "--offline", "--locked", "--message-format=json"], cwd=crate, env=native.env(crate), timeout=500)
        dirs = []
        for line in out.splitlines():
            if line.startswith("{") and '"build-script-executed"' in line:
                d = json.loads(line)
                if "mabo-codegen-contracts" in d["package_id"] or "/codegen" in d["package_id"]:
                    dirs.append(pathlib.Path(d["out_dir"]))
        if rc != 0 or len(dirs) != 1:
            raise RuntimeError("no generated code to verify: " + out[-500:])
        gen = {f.stem: f.read_text() for f in (dirs[0] / "gen" / "std" / "mabo").glob("*.rs")}
        schemas = vgenerated.Schemas(sorted((crate / "schemas" / "std").glob("*.mabo")))
        return (*Runtime.sources(""), (VERUS / "generated_prelude.rs").read_text(), gen, schemas)

    @staticmethod
    def build(sources, stubs, skip):
        from . import vgenerated
        return vgenerated.build(sources, stubs, skip)


TRUSTED = [l.strip() for l in """
Verus, its encoding of Rust and Z3
rustc's macro expansion (-Zunpretty=expanded) and the token rewriting of lib/extract.py (its header lists what it changes)
Buf, BufMut, Take, Bytes of the bytes crate: specified in verus/prelude.rs (read bytes in order, segments nonempty while bytes remain, put appends)
HashMap, HashSet, NonZero integers, String::from_utf8, slices, Option and Result helpers of std: specified in verus/prelude.rs; maps and sets iterate over their entries in some order, insert keeps the last entry of a key
Hash, Eq of keys and elements decide the same as equality of their models
f32, f64: to_be_bytes and from_be_bytes are inverse, of length 4 and 8
usize has 64 bits
varint::{encode,decode,size}: contracts of the integer kernel are assumed here and discharged by Kani on the compiled code (checks of P01, P02, P03, P06)
closures for the elements of maps are Copy (bound added by the extraction; generated code passes function items and non-capturing closures)
std::borrow::Cow is an enum of a reference and a value with Deref to it (for types that are their own owned form); encoders are called for values whose encoding has at most usize::MAX bytes
""".strip().splitlines()]


Runtime.trusted = TRUSTED
Compiler.trusted = [l.strip() for l in """
Verus, its encoding of Rust and Z3
rustc's macro expansion (-Zunpretty=expanded); the token rewriting of lib/vcompiler.py and lib/desugar.py: iterator chains, Option combinators and `?` are written out by their definition in std
std slices and Vec, Option, Result; FxHashMap: a finite map (insert returns the former value, iteration yields some entry)
equality of str is equality of its characters; collections have less than usize::MAX elements
Cow<str> is a string with Deref to it; format!("n{i}") is the prefix and the decimal digits
error values: their text and spans are dropped, From impls derived by thiserror wrap their argument
usize has 64 bits
visit_module_tree's list of path names is only used in error texts; HashMap::values yields every value and no other; error texts and NamedSource values are dropped
""".strip().splitlines()]
Generated.trusted = TRUSTED + [l.strip() for l in """
The contracts of the runtime functions, which are assumed in this unit (the checks of P01 and P03 to P11 discharge them on the runtime's source)
the schemas of codegen/schemas/std stand for all schemas: each of their definitions is proved for all values and all bytes
names of std and runtime items lose their paths; the code of each field is verified as a function of its own (lib/vgenerated.py)
Debug impls are not verified; keys and elements that are user types have Hash and Eq that agree with their models
""".strip().splitlines()]
Meta.trusted = [l.strip() for l in """
Verus, its encoding of Rust and Z3
rustc's macro expansion (-Zunpretty=expanded); the token rewriting of lib/vcompiler.py and lib/desugar.py: iterator chains and Option combinators are written out by their definition in std
std: Vec, Option, leading_zeros, div_ceil, saturating and checked arithmetic
the lengths of encodings (verus/meta_specs.rs) are those that the contracts of the runtime's encoders give (checks of P02, P03)
WireSize::print writes the bounds that were computed (executed by the native contracts, not verified); labels are not specified
usize has 64 bits
""".strip().splitlines()]
UNITS = dict(runtime=Runtime, compiler=Compiler, generated=Generated, meta=Meta)


def check(cfg, deadline, pid):
    """Decide the keys of one property. cfg: dict(own=[regex], uses=[regex]): a failed obligation of `own` is a violation; one of
    `uses` is only if it is about safety (panics, overflow, termination), otherwise the property is left undecided by this stage."""
    kind = UNITS[cfg.get("unit", "runtime")]
    out = dict(cmd=f"verus .build/verus/{kind.name}_unit.rs --num-threads 8 --multiple-errors 4 --triggers-mode silent", trusted=list(kind.trusted),
               functions=[], obligations=0, discharged=0, seconds=0.0, undecided=[], notes=[], failed=[])
    try:
        src = kind.sources()
    except RuntimeError as e:
        out["undecided"].append("extraction: " + str(e)[-800:])
        return out
    log = []
    try:
        unit, res, failed, broken, lost, unknown = run_unit(kind, src, deadline, log)
    except (extract.Unsupported, ValueError, IndexError, KeyError, AttributeError) as e:
        out["undecided"].append("extraction: " + repr(e))
        return out
    out["notes"] += log
    # An entry of `own` is a pattern of keys, or such a pattern and one for the clauses that belong to the property.
    pats = [(p, None) if isinstance(p, str) else p for p in cfg["own"]]
    own = lambda k, c="": any(re.search(p + r"$", k) and (q is None or not c or re.search(q, c)) for p, q in pats)
    uses = lambda k: any(re.search(p + r"$", k) for p in cfg.get("uses", []))
    mine = [k for _, _, k in unit.regions if (own(k) or uses(k)) and "canary" not in k]
    if not mine:
        out["undecided"].append("no function of the property was extracted")
    if res is None:
        out["undecided"] += ["the verifier did not accept the extracted functions: " + str(x)[:600] for x in unknown]
        out["obligations"] = len(mine)
        return out
    mods = res["times-ms"]["smt"]["smt-run-module-times"]
    out["seconds"] = sum(f["time-micros"] for m in mods for f in m["function-breakdown"]) / 1e6
    # The verifier must be able to fail: contradictory assumptions would discharge everything.
    canaries = [k for k in failed if k.startswith(("law canary", "fn canary"))]
    if len(canaries) != 3:
        out["undecided"].append(f"vacuity: only {canaries} of three impossible obligations are refused")
    for k in canaries:
        failed.pop(k)
    slow = [k for k, v in broken.items() if v.startswith("the solver gave up")]
    if failed or slow:
        # A failure counts if it persists with another seed and a larger limit.
        p = util.BUILD / "verus" / (kind.name + "_unit.rs")
        rc, res2, diags2, _ = verify(p, max(30, min(400, deadline - time.time())), getattr(kind, "args", []) + ["--rlimit", "60", "--smt-option", "smt.random_seed=7"])
        if rc is not None and res2 is not None and res2["verification-results"].get("verified", 0) > 0:
            f2, b2, _ = classify(unit, diags2)
            for k in list(failed):
                if k not in f2:
                    out["notes"].append(f"{k}: failed once, accepted with another solver seed")
                    failed.pop(k)
                    if k in b2:
                        broken[k] = b2[k]
            for k in slow:
                if k not in b2 and k not in f2:
                    broken.pop(k)
    counts = obligations_of(unit, set(mine))
    for k in mine:
        out["obligations"] += counts[k]
        if k in lost and lost[k].startswith("known finding"):
            out["obligations"] -= counts[k]
            out["notes"].append(f"{k}: {lost[k]}")
        elif k in lost:
            out["undecided"].append(f"{k}: not extracted: {lost[k]}")
        elif k in failed:
            safe = [f for f in failed[k] if any(x in f[0] for x in SAFETY)]
            mine_ = [f for f in failed[k] if own(k, f[2])]
            if mine_ or safe:
                for msg, text, _ in (mine_ or safe)[:2]:
                    out["failed"].append(dict(name=f"{k}: {msg}", message=f"contract of {k} is not met: {msg}", output=text))
            else:
                out["undecided"].append(f"{k}: its contract is not met ({failed[k][0][0]})")
        elif k in broken:
            out["undecided"].append(f"{k}: {broken[k]}")
        else:
            out["discharged"] += counts[k]
            out["functions"].append("verus " + k)
    for k, v in lost.items():
        if k not in mine and (own(k) or uses(k)):
            out["obligations"] += 1
            out["undecided"].append(f"{k}: not extracted: {v}")
    # Everything outside of the property that is assumed for it and did not verify.
    others = [k for k in list(failed) + list(broken) + list(lost) if k not in mine and not own(k) and not uses(k)]
    if others:
        out["notes"].append("contracts outside of this property that were not discharged: " + ", ".join(others[:10]))
    out["notes"] += ["verus: " + str(x)[:300] for x in unknown]
    return out


