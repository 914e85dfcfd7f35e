"""Iterator chains, Option/Result combinators and `?` of the extracted functions written out as the loops and matches they stand for.

Each rule replaces a std method by its definition:
  SRC.adapters.find_map(|p| B)   loop over SRC, the first B that is Some          (same for any, find, try_for_each, try_fold, collect)
  for P in E { B }               loop over E
  opt.map(|p| B), .map_or(D, F), .or_else(|| B), .ok_or_else(|| B), .err(), .is_some_and(F), .map_err(F), b.then_some(E), b.then(|| E)   match / if
  SRC.adapters.max() / .min()    loop over SRC of integers, the largest / smallest one
  e?                             match e { Ok(v) => v, Err(e) => return Err(e.into()) }
  a.into()                       a.into__()   (trait Into__ of the prelude: identity, Box, and the extracted From impls)
Loops pull the elements with `step` (trait Walk of the prelude); ghost variables all<n>__ and at<n>__ hold the sequence walked over
and the number of elements pulled, for the n-th loop of the function.
"""
import re
from . import rust
from .extract import Unsupported, find, match_at, receiver_start, replace_all

T = rust.tokens
ADAPTERS = ("map", "enumerate", "skip", "filter", "filter_map", "copied", "cloned")
TERMINALS = ("find_map", "try_for_each", "collect", "any", "all", "find", "try_fold", "for_each", "fold", "sum", "max_of__", "min_of__")


def closure(toks, typed=False):
    """`|params| body` or `|| body` -> ([param tokens], body tokens); a path -> (None, tokens)."""
    t = list(toks)
    if t and t[0] == "move":
        t = t[1:]
    if t and t[0] == "||":
        return [], t[1:]
    if t and t[0] == "|":
        j = 1
        while t[j] != "|":
            j = rust.match(t, j) + 1 if t[j] in rust.OPEN else j + 1
        params = [p if typed else strip_type(p) for p in rust.split(t[1:j])]
        return params, t[j + 1:]
    return None, t


def strip_type(p):
    d = 0
    for i, x in enumerate(p):
        if x in rust.OPEN:
            d += 1
        elif x in rust.CLOSE:
            d -= 1
        elif x == ":" and d == 0:
            return p[:i]
    return p


def apply(fn, arg):
    """Tokens of fn(arg) for a closure or path, with the closure's body in place."""
    params, body = closure(fn)
    if params is None:
        return fn + ["("] + arg + [")"]
    if not params:
        return ["{"] + body + ["}"]
    if len(params) != 1:
        raise Unsupported("closure parameters")
    return ["{", "let"] + params[0] + ["="] + arg + [";"] + body + ["}"]


def arguments(t):
    """Arguments of a call; commas between the parameters of a closure do not separate."""
    out, opened = [], False
    for a in rust.split(t):
        if opened:
            out[-1] += [","] + a
        else:
            out.append(list(a))
        d = bars = 0
        head = out[-1][1:] if out[-1][:1] == ["move"] else out[-1]
        for x in head:
            d += (x in rust.OPEN) - (x in rust.CLOSE)
            bars += x == "|" and d == 0
        opened = head[:1] == ["|"] and bars == 1
    return out


def split_and(t):
    """Operands of `&&` at the top level."""
    out, cur, i = [], [], 0
    while i < len(t):
        if t[i] in rust.OPEN:
            k = rust.match(t, i)
            cur += t[i:k + 1]
            i = k + 1
            continue
        if t[i] == "&&":
            out.append(cur)
            cur = []
        else:
            cur.append(t[i])
        i += 1
    return out + [cur]


def let_chains(t):
    """`if A && let P = E { B }` -> `if A { if let P = E { B } }`"""
    i = 0
    while i < len(t):
        if t[i] == "if":
            k = i + 1
            while k < len(t) and t[k] not in ("{", "=>"):
                k = rust.match(t, k) + 1 if t[k] in rust.OPEN else k + 1
            parts = split_and(t[i + 1:k]) if k < len(t) and t[k] == "{" else []
            if len(parts) > 1 and any(p[:1] == ["let"] for p in parts):
                e = rust.match(t, k)
                if e + 1 < len(t) and t[e + 1] == "else":
                    raise Unsupported("let chain with else")
                new = t[k + 1:e]
                for p in reversed(parts):
                    new = ["if"] + p + ["{"] + new + ["}"]
                t = t[:i] + new + t[e + 1:]
        i += 1
    return t


def guards(t):
    """An arm `P | Q if G => B` of a match becomes `P if G => B, Q if G => B`."""
    i = 0
    while i < len(t):
        if t[i] != "match":
            i += 1
            continue
        k = i + 1
        while t[k] != "{":
            k = rust.match(t, k) + 1 if t[k] in rust.OPEN else k + 1
        e = rust.match(t, k)
        out, j = [], k + 1
        while j < e:
            a = j
            while t[a] != "=>":
                a = rust.match(t, a) + 1 if t[a] in rust.OPEN else a + 1
            b = a + 1
            if t[b] == "{" and (rust.match(t, b) + 1 >= e or t[rust.match(t, b) + 1] not in (".", "?")):
                b = rust.match(t, b) + 1
            else:
                while b < e and t[b] != ",":
                    b = rust.match(t, b) + 1 if t[b] in rust.OPEN else b + 1
            pat, body = t[j:a], t[a + 1:b]
            g = None
            d = 0
            for n, x in enumerate(pat):
                d += (x in rust.OPEN) - (x in rust.CLOSE)
                if x == "if" and d == 0:
                    g = n
                    break
            alts = [pat]
            if g is not None:
                ps = rust.split(pat[:g], "|")
                if len([p for p in ps if p]) > 1:
                    alts = [p + pat[g:] for p in ps if p]
            for p in alts:
                out += p + ["=>"] + body + [","]
            j = b + 1 if b < e and t[b] == "," else b
        t = t[:k + 1] + out + t[e:]
        i = k + 1
    return t


def questions_of(body, on_err, good="Ok(v__)", bad="Err(e__)"):
    """`x?` of a closure's body: on_err instead of leaving the function. `return` and `?` of inner closures are not understood."""
    out, i = list(body), 0
    if "return" in out:
        raise Unsupported("return from a closure")
    while i < len(out):
        if out[i] == "(" and any(x[:1] in (["|"], ["||"], ["move"]) and "?" in x for x in arguments(out[i + 1:rust.match(out, i)])):
            raise Unsupported("`?` in a closure in a closure")
        if out[i] == "?":
            s = receiver_start(out, i)
            new = ["match"] + out[s:i] + T("{ " + good + " => v__, " + bad + " =>") + on_err + T(", }")
            out = out[:s] + ["("] + new + [")"] + out[i + 1:]
            i = s
        i += 1
    return out


class Desugar:
    def __init__(self, ret=()):
        self.n = 0
        self.ret = list(ret)

    def fresh(self):
        self.n += 1
        return self.n

    # -- single method calls -----------------------------------------------------------------------------------
    def call(self, t, name, from_=0):
        """Next `.name(args)` (or with a turbofish): (receiver start, dot, args, end, turbofish)."""
        i = from_
        while i < len(t):
            if t[i] == "." and i + 1 < len(t) and t[i + 1] == name:
                j = i + 2
                fish = []
                if j < len(t) and t[j] == "::":
                    k = rust.angle(t, j + 1)
                    fish = t[j + 2:k]
                    j = k + 1
                if j < len(t) and t[j] == "(":
                    k = rust.match(t, j)
                    return receiver_start(t, i), i, arguments(t[j + 1:k]), k + 1, fish
            i += 1
        return None

    def options(self, t):
        def rule(t, name, nargs, f):
            i = 0
            while True:
                r = self.call(t, name, i)
                if r is None:
                    return t
                s, dot, args, e, _ = r
                if len(args) != nargs:
                    raise Unsupported(f".{name} with {len(args)} arguments")
                new = f(t[s:dot], *args)
                if new is None:
                    i = dot + 1
                    continue
                t = t[:s] + ["("] + new + [")"] + t[e:]
                i = s

        v = ["v__"]
        t = rule(t, "map_or", 2, lambda r, d, f: ["match"] + r + T("{ Some(v__) =>") + apply(f, v) + T(", None =>") + d + T(", }"))
        t = rule(t, "map_or_else", 2, lambda r, d, f: ["match"] + r + T("{ Some(v__) =>") + apply(f, v) + T(", None =>") + apply(d, []) + T(", }"))
        t = rule(t, "is_some_and", 1, lambda r, f: ["match"] + r + T("{ Some(v__) =>") + apply(f, v) + T(", None => false, }"))
        t = rule(t, "map", 1, lambda r, f: ["match"] + r + T("{ Some(v__) => Some(") + apply(f, v) + T("), None => None, }"))
        t = rule(t, "and_then", 1, lambda r, f: ["match"] + r + T("{ Some(v__) =>") + apply(f, v) + T(", None => None, }"))
        t = rule(t, "unwrap_or", 1, lambda r, d: ["match"] + r + T("{ Some(v__) => v__, None =>") + d + T(", }"))
        t = rule(t, "or_else", 1, lambda r, f: ["match"] + r + T("{ Some(v__) => Some(v__), None =>") + apply(f, []) + T(", }"))
        t = rule(t, "ok_or_else", 1, lambda r, f: ["match"] + r + T("{ Some(v__) => Ok(v__), None => Err(") + apply(f, []) + T("), }"))
        t = rule(t, "map_err", 1, lambda r, f: ["match"] + r + T("{ Ok(v__) => Ok(v__), Err(v__) => Err(") + apply(f, v) + T("), }"))
        t = rule(t, "err", 0, lambda r: ["match"] + r + T("{ Err(v__) => Some(v__), Ok(_) => None, }"))
        t = rule(t, "then_some", 1, lambda r, x: ["if"] + r + T("{ Some(") + x + T(") } else { None }"))
        t = rule(t, "then", 1, lambda r, f: ["if"] + r + T("{ Some(") + apply(f, []) + T(") } else { None }"))
        t = rule(t, "filter", 1, lambda r, f: ["match"] + r + T("{ Some(v__) => if") + apply(f, ["&", "v__"]) + T("{ Some(v__) } else { None }, None => None, }"))
        t = rule(t, "into", 0, lambda r: r + T(".into__()"))
        t = rule(t, "to_owned", 0, lambda r: r + T(".to_owned__()"))
        t = rule(t, "last", 0, lambda r: r + T(".last__()"))
        t = rule(t, "first", 0, lambda r: r + T(".first__()"))
        t = rule(t, "clone", 0, lambda r: r + T(".clone__()"))
        return t

    # -- loops -------------------------------------------------------------------------------------------------
    def loop(self, src, pat, body, before=(), carried=""):
        k = self.fresh()
        t = T(f"let mut it@{k} =") if False else ["let", "mut", f"it@{k}", "="] + src + [";"]
        t += [f"let ghost all@{k} = it@{k}.rest(); let ghost mut at@{k} : int = 0; proof {{ it@{k}.short(); }}\n"]
        t += list(before)
        t += ["loop", f"AUTO@{k}", "{"]
        t += ["let", f"x@{k}", "=", "match", f"it@{k}", ".", "step", "(", ")"] + T("{ Some(v__) => v__, None => break , }") + [";"]
        t += [f"proof {{ at@{k} = at@{k} + 1; assert(it@{k}.rest() =~= all@{k}.skip(at@{k})); assert(x@{k} == all@{k}[at@{k} - 1]); }} STEP@{k}\n"]
        t += ["let"] + pat + ["=", f"x@{k}", ";"] if pat else []
        return t + body + ["}"]

    def chains(self, t):
        """Innermost last: rewrite the first terminal whose receiver is an iterator chain, then start over."""
        while True:
            best = None
            for name in TERMINALS:
                r = self.call(t, name)
                if r is not None and (best is None or r[1] < best[1][1]):
                    best = (name, r)
            if best is None:
                return t
            name, (s, dot, args, e, fish) = best
            new = self.chain(t[s:dot], name, args, fish, t[e:] == ["}"] and self.ret[:1] == ["Result"])
            t = t[:s] + ["("] + new + [")"] + t[e:]

    def source(self, t):
        """Peel `.iter()` and the like off the end of a chain. -> tokens of an expression of a Walk type"""
        for m in ("iter", "into_iter", "values", "iter_mut"):
            n = [".", m, "(", ")"]
            if t[-4:] == n:
                return t[:-4] + [".", m + "__", "(", ")"] if m != "values" else t
        raise Unsupported("iterator source " + rust.join(t))

    def adapters(self, t):
        """chain -> (source, [(name, args)])"""
        out = []
        while t[-1] == ")":
            # the last call
            d, i = 0, len(t) - 1
            while True:
                if t[i] in rust.CLOSE:
                    d += 1
                elif t[i] in rust.OPEN:
                    d -= 1
                    if d == 0:
                        break
                i -= 1
            if i >= 2 and t[i - 2] == "." and t[i - 1] in ADAPTERS:
                out.insert(0, (t[i - 1], arguments(t[i + 1:-1])))
                t = t[:i - 2]
            else:
                break
        return self.source(t), out

    def chain(self, recv, name, args, fish, tail=False):
        src, adapters = self.adapters(recv)
        before, stages = [], []
        k = self.n + 1  # number that loop() will take
        into_result = name == "collect" and (fish[:1] == ["Result"] or not fish and tail)
        for a, av in adapters + [(name, args)]:
            for fn in av:
                params, body = closure(fn)
                if params is None or "return" not in body and ("?" not in body or a == "find_map"):
                    continue
                if a == "map" and into_result:
                    on = T("{") + [f"res@{k}"] + T("= Some(e__.into__()); break; }")
                elif a == "fold":
                    # an Option: nothing found leaves the accumulator None
                    on = T("{") + [f"acc@{k}"] + T("= None; continue; }")
                    fn[len(fn) - len(body):] = questions_of(body, on, "Some(v__)", "None")
                    continue
                elif a == "try_for_each":
                    on = T("{") + [f"res@{k}"] + T("= Err(e__.into__()); break; }")
                else:
                    raise Unsupported(f"`?` or return in the closure of .{a}")
                fn[len(fn) - len(body):] = questions_of(body, on)
        cur = [f"x@{k}"]
        m = 0
        for a, av in adapters:
            m += 1
            v = f"y{m}@{k}"
            if a == "map":
                stages += ["let", v, "="] + apply(av[0], cur) + [";"]
                cur = [v]
            elif a in ("copied", "cloned"):
                stages += ["let", v, "=", "*"] + cur + [";"]
                cur = [v]
            elif a == "enumerate":
                before += T("let mut") + [f"n{m}@{k}"] + T(": usize = 0;")
                stages += ["let", v, "=", "(", f"n{m}@{k}", ","] + cur + [")", ";", f"n{m}@{k}", "=", f"n{m}@{k}", "+", "1", ";"]
                self.counts = getattr(self, "counts", {})
                self.counts.setdefault(k, []).append(f"n{m}@{k} == at@{k}")
                cur = [v]
            elif a == "skip":
                before += T("let mut") + [f"n{m}@{k}"] + T(": usize =") + av[0] + [";"]
                stages += ["if", f"n{m}@{k}", ">", "0", "{", f"n{m}@{k}", "=", f"n{m}@{k}", "-", "1", ";", "continue", ";", "}"]
            elif a == "filter":
                stages += ["if", "!"] + apply(av[0], ["&"] + cur) + ["{", "continue", ";", "}"]
            elif a == "filter_map":
                stages += ["let", v, "=", "match"] + apply(av[0], cur) + T("{ Some(v__) => v__, None => continue , }") + [";"]
                cur = [v]
        res = f"res@{k}"
        if name == "fold":
            params, body = closure(args[1], typed=True)
            acc = f"acc@{k}"
            before += ["let", "mut", acc, "="] + args[0] + [";"]
            if params is None:
                step = [acc, "="] + body + ["(", acc, ","] + cur + [")", ";"]
            elif len(params) != 2:
                raise Unsupported("fold")
            else:
                step = [acc, "=", "{", "let"] + params[0] + ["=", acc, ";", "let"] + params[1] + ["="] + cur + [";"] + body + ["}", ";"]
            done, full = [acc], "true"
        elif name in ("max_of__", "min_of__"):
            before += ["let", "mut", f"acc@{k}", "=", "None", ";"]
            step = [f"acc@{k}", "=", "match", f"acc@{k}"] + T("{ Some(v__) => if v__") + [">" if name == "max_of__" else "<"] + cur + T("{ Some(v__) } else { Some(") + cur + T(") }, None => Some(") + cur + T("), }") + [";"]
            done, full = [f"acc@{k}"], "true"
        elif name == "sum":
            before += ["let", "mut", f"acc@{k}", "=", "0", ";"]
            step = [f"acc@{k}", "=", f"acc@{k}", "+"] + cur + [";"]
            done, full = [f"acc@{k}"], "true"
        elif name == "find_map":
            body = self.inner(args[0], "None")
            before += ["let", "mut", res, "=", "None", ";"]
            step = [res, "="] + apply(body, cur) + [";", "if", res, ".", "is_some", "(", ")", "{", "break", ";", "}"]
            done, full = [res], f"({res} is None)"
        elif name == "try_for_each":
            before += ["let", "mut", res, "=", "Ok", "(", "(", ")", ")", ";"]
            step = [res, "="] + apply(args[0], cur) + [";", "if", res, ".", "is_err", "(", ")", "{", "break", ";", "}"]
            done, full = [res], f"({res} is Ok)"
        elif name == "for_each":
            step = apply(args[0], cur) + [";"]
            done, full = ["(", ")"], "true"
        elif name == "any":
            before += ["let", "mut", res, "=", "false", ";"]
            step = [res, "="] + apply(args[0], cur) + [";", "if", res, "{", "break", ";", "}"]
            done, full = [res], f"!{res}"
        elif name == "all":
            before += ["let", "mut", res, "=", "true", ";"]
            step = [res, "="] + apply(args[0], cur) + [";", "if", "!", res, "{", "break", ";", "}"]
            done, full = [res], res
        elif name == "find":
            before += ["let", "mut", res, "="] + (["none_of__", "(", "&", f"it@{k}", ")"] if cur == [f"x@{k}"] else ["None"]) + [";"]
            step = ["let", f"hit@{k}", "="] + apply(args[0], ["&"] + cur) + [";", "if", f"hit@{k}", "{", res, "=", "Some", "("] + cur + [")", ";", "break", ";", "}"]
            done, full = [res], f"({res} is None)"
        elif name == "try_fold":
            params, body = closure(args[1])
            if params is None or len(params) != 2:
                raise Unsupported("try_fold")
            before += ["let", "mut", f"acc@{k}", "="] + args[0] + [";", "let", "mut", res, "=", "None", ";"]
            step = ["let"] + params[0] + ["=", f"acc@{k}", ";", "let"] + params[1] + ["="] + cur + [";", "match"] + body + \
                ["{", "Ok", "(", "v__", ")", "=>", f"acc@{k}", "=", "v__", ",", "Err", "(", "e__", ")", "=>", "{", res, "=", "Some", "(", "e__", ")", ";", "break", ";", "}", "}"]
            done = ["match", res, "{", "Some", "(", "e__", ")", "=>", "Err", "(", "e__", ")", ",", "None", "=>", "Ok", "(", f"acc@{k}", ")", "}"]
            full = f"({res} is None)"
        elif name == "collect":
            before += ["let", "mut", f"out@{k}", "=", "Vec", "::", "new", "(", ")", ";"]
            step = ["let", f"elem@{k}", "="] + cur + [";", f"out@{k}", ".", "push", "(", f"elem@{k}", ")", ";"]
            if fish and fish[0] == "FxHashMap":
                step = ["let", f"elem@{k}", "="] + cur + [";", f"out@{k}", ".", "insert", "(", f"elem@{k}", ".", "0", ",", f"elem@{k}", ".", "1", ")", ";"]
                before = before[:-6] + ["FxHashMap", "::", "new__", "(", ")", ";"]
                done = [f"out@{k}"]
            elif into_result:
                before += ["let", "mut", res, "=", "None", ";"]
                step = ["match"] + cur + ["{", "Ok", "(", "v__", ")", "=>", "{", f"out@{k}", ".", "push", "(", "v__", ")", ";", "}", ",",
                                          "Err", "(", "e__", ")", "=>", "{", res, "=", "Some", "(", "e__", ")", ";", "break", ";", "}", "}"]
                done = ["match", res, "{", "Some", "(", "e__", ")", "=>", "Err", "(", "e__", ")", ",", "None", "=>", "Ok", "(", f"out@{k}", ".", "gather__", "(", ")", ")", "}"]
            else:
                done = [f"out@{k}"] if fish[:1] == ["Vec"] else [f"out@{k}", ".", "gather__", "(", ")"]
            full = f"({res} is None)" if into_result else "true"
        else:
            raise Unsupported("." + name)
        self.full = getattr(self, "full", {})
        self.full[k] = full
        return ["{"] + self.loop(src, None, stages + step, before) + done + ["}"]

    def inner(self, fn, none):
        """`x?` on an Option inside of a find_map closure: None is the closure's value, so the loop goes on."""
        params, body = closure(fn)
        if params is None:
            return fn
        out, i = list(body), 0
        while i < len(out):
            if out[i] == "?":
                s = receiver_start(out, i)
                new = ["match"] + out[s:i] + T("{ Some(v__) => v__, None => continue , }")
                out = out[:s] + ["("] + new + [")"] + out[i + 1:]
                i = s
            i += 1
        return fn[:len(fn) - len(body)] + out

    def fors(self, t):
        i = 0
        while i < len(t):
            if t[i] == "for" and (i == 0 or t[i - 1] != "impl") and t[i + 1] != "<":
                j = i + 1
                while t[j] != "in":
                    j = rust.match(t, j) + 1 if t[j] in rust.OPEN else j + 1
                k = j + 1
                while t[k] != "{":
                    k = rust.match(t, k) + 1 if t[k] in rust.OPEN else k + 1
                pat, expr = t[i + 1:j], t[j + 1:k]
                e = rust.match(t, k)
                before, stages = [], []
                n = self.n + 1
                cur = f"x@{n}"
                try:
                    src, ad = self.adapters(expr)
                except Unsupported:
                    src, ad = ["("] + expr + T(").into_walk__()"), []
                for m, (a, av) in enumerate(ad):
                    v = f"y{m}@{n}"
                    if a == "map":
                        stages += ["let", v, "="] + apply(av[0], [cur]) + [";"]
                    elif a == "enumerate":
                        before += T("let mut") + [f"n{m}@{n}"] + T(": usize = 0;")
                        stages += ["let", v, "=", "(", f"n{m}@{n}", ",", cur, ")", ";", f"n{m}@{n}", "=", f"n{m}@{n}", "+", "1", ";"]
                        self.counts = getattr(self, "counts", {})
                        self.counts.setdefault(n, []).append(f"n{m}@{n} == at@{n}")
                    else:
                        raise Unsupported("for loop over ." + a)
                    cur = v
                self.full = getattr(self, "full", {})
                self.full[n] = "true"
                body = t[k + 1:e]
                if "break" in body:
                    raise Unsupported("a for loop that is left early")
                new = ["{"] + self.loop(src, None, stages + ["let"] + pat + ["=", cur, ";"] + body, before) + ["}"]
                t = t[:i] + new + t[e + 1:]
            i += 1
        return t

    def questions(self, t):
        i = 0
        while i < len(t):
            if t[i] == "?" and t[i - 1] in (")", "]", "}"):
                s = receiver_start(t, i)
                new = ["match"] + t[s:i] + T("{ Ok(v__) => v__, Err(e__) => return Err(e__.into__()), }")
                t = t[:s] + ["("] + new + [")"] + t[i + 1:]
                i = s
            i += 1
        return t

    def run(self, t):
        t = self.fors(guards(let_chains(t)))
        t = self.chains(t)
        t = self.options(t)
        t = self.questions(t)
        return self.number(t)

    def number(self, t):
        """Give the loops their final numbers, in the order of the text; -> (tokens, {n: (counts, full)})."""
        order = {}
        for x in t:
            m = re.match(r"AUTO@(\d+)$", x)
            if m:
                order[m.group(1)] = len(order)
        autos = {}
        for k, n in order.items():
            ren = lambda s: re.sub(r"@(\d+)", lambda m: f"{order[m.group(1)]}__", s)
            autos[n] = ([ren(c) for c in getattr(self, "counts", {}).get(int(k), [])], ren(getattr(self, "full", {}).get(int(k), "true")))
        out = []
        for x in t:
            if x.startswith("AUTO@"):
                out.append(f"AUTO{order[x[5:]]}__")
            elif "@" in x and x[0] not in "\"'b@":
                out.append(re.sub(r"@(\d+)", lambda m: f"{order[m.group(1)]}__", x))
            else:
                out.append(x)
        return out, autos
