//! What has to be accepted and refused, stated over the plain data form of a schema.
use std::collections::HashSet;

use crate::model::{Def, Fields, Number, Ty};

/// The numbers of a list of items, if there is one for each of them.
pub fn derived(explicit: &[Number]) -> Option<Vec<u32>> {
    let mut previous = 0u64;
    explicit.iter().map(|n| {
        previous = n.map_or(previous + 1, u64::from);
        u32::try_from(previous).ok()
    }).collect()
}

fn distinct<T: Eq + std::hash::Hash>(v: impl IntoIterator<Item = T>) -> bool {
    let mut seen = HashSet::new();
    v.into_iter().all(|x| seen.insert(x))
}

pub fn numbers_of(f: &Fields) -> Vec<Number> {
    match f {
        Fields::Named(v) => v.iter().map(|f| f.3).collect(),
        Fields::Unnamed(v) => v.iter().map(|f| f.1).collect(),
        Fields::Unit => vec![],
    }
}

fn types_of(f: &Fields) -> Vec<&Ty> {
    match f {
        Fields::Named(v) => v.iter().map(|f| &f.2).collect(),
        Fields::Unnamed(v) => v.iter().map(|f| &f.0).collect(),
        Fields::Unit => vec![],
    }
}

fn names_of(f: &Fields) -> Vec<&String> {
    match f {
        Fields::Named(v) => v.iter().map(|f| &f.1).collect(),
        _ => vec![],
    }
}

/// All field lists of a definition.
fn field_lists(d: &Def) -> Vec<&Fields> {
    match d {
        Def::Struct(_, _, _, f) => vec![f],
        Def::Enum(_, _, _, vs) => vs.iter().map(|v| &v.fields).collect(),
        _ => vec![],
    }
}

/// Every definition, at every level.
pub fn all(defs: &[Def]) -> Vec<&Def> {
    let mut v = vec![];
    for d in defs {
        v.push(d);
        if let Def::Mod(_, _, inner) = d {
            v.extend(all(inner));
        }
    }
    v
}

/// Every part of a type, the type included.
pub fn parts(t: &Ty) -> Vec<&Ty> {
    let inner: Vec<&Ty> = match t {
        Ty::Basic(_) => vec![],
        Ty::Vec(t) | Ty::Set(t) | Ty::Opt(t) | Ty::NonZero(t) | Ty::Array(t, _) => vec![t],
        Ty::Map(kv) => vec![&kv.0, &kv.1],
        Ty::Tuple(v) | Ty::Ext(_, _, v) => v.iter().collect(),
    };
    let mut v = vec![t];
    v.extend(inner.into_iter().flat_map(parts));
    v
}

/// The header of a field holds its number next to the encoding marker in 32 bits, a zero ends the fields.
pub fn field_number(n: u32) -> bool {
    (1..1 << 29).contains(&n)
}

pub fn numbers_fine(defs: &[Def]) -> bool {
    let fine = |n: Vec<Number>| derived(&n).is_some_and(distinct);
    let in_range = |n: Vec<Number>| derived(&n).is_some_and(|v| v.into_iter().all(field_number));
    all(defs).into_iter().all(|d| {
        field_lists(d).into_iter().all(|f| fine(numbers_of(f)) && in_range(numbers_of(f)))
            && match d {
                Def::Enum(_, _, _, vs) => fine(vs.iter().map(|v| v.number).collect()),
                _ => true,
            }
    })
}

fn params(d: &Def) -> &[String] {
    match d {
        Def::Struct(_, _, g, _) | Def::Enum(_, _, g, _) | Def::Alias(_, _, g, _) => g,
        _ => &[],
    }
}

pub fn names_fine(defs: &[Def]) -> bool {
    distinct(defs.iter().map(Def::name))
        && all(defs).into_iter().all(|d| {
            distinct(params(d)) && field_lists(d).into_iter().all(|f| distinct(names_of(f))) && match d {
                Def::Mod(_, _, inner) => distinct(inner.iter().map(Def::name)),
                Def::Enum(_, _, _, vs) => distinct(vs.iter().map(|v| &v.name)),
                _ => true,
            }
        })
}

pub fn params_used(defs: &[Def]) -> bool {
    all(defs).into_iter().all(|d| {
        let mut types = field_lists(d).into_iter().flat_map(types_of).collect::<Vec<_>>();
        if let Def::Alias(_, _, _, ty) = d {
            types.push(ty);
        }
        let parts = types.into_iter().flat_map(parts).collect::<Vec<_>>();
        params(d).iter().all(|p| parts.iter().any(|t| matches!(t, Ty::Ext(path, n, args) if path.is_empty() && args.is_empty() && n == p)))
    })
}

pub fn tuples_fine(defs: &[Def]) -> bool {
    all(defs).into_iter().all(|d| {
        let mut types = field_lists(d).into_iter().flat_map(types_of).collect::<Vec<_>>();
        if let Def::Alias(_, _, _, ty) | Def::Const(_, _, ty, _) = d {
            types.push(ty);
        }
        types.into_iter().flat_map(parts).all(|t| !matches!(t, Ty::Tuple(v) if v.len() < 2 || v.len() > 12))
    })
}

// ---- references ----

fn module<'a, 's>(defs: &'a [Def], path: impl IntoIterator<Item = &'s String>) -> Option<&'a [Def]> {
    let mut here = defs;
    for p in path {
        here = here.iter().find_map(|d| match d {
            Def::Mod(_, n, inner) if n == p => Some(&inner[..]),
            _ => None,
        })?;
    }
    Some(here)
}

/// Number of type parameters of the struct or enum.
fn definition(defs: &[Def], name: &str) -> Option<usize> {
    defs.iter().find_map(|d| match d {
        Def::Struct(_, n, g, _) | Def::Enum(_, n, g, _) if n == name => Some(g.len()),
        _ => None,
    })
}

type Schemas = [(String, Vec<Def>)];

fn import_fine(all: &Schemas, segs: &[String], el: Option<&String>) -> bool {
    let Some((_, root)) = all.iter().find(|s| s.0 == segs[0]) else { return false };
    let Some(m) = module(root, &segs[1..]) else { return false };
    el.is_none_or(|e| definition(m, e).is_some())
}

fn reference_fine(all: &Schemas, root: &[Def], here: &[Def], path: &[String], name: &str, args: usize) -> bool {
    if module(here, path).and_then(|m| definition(m, name)) == Some(args) {
        return true;
    }
    root.iter().any(|d| {
        let Def::Import(segs, el) = d else { return false };
        let Some(m) = all.iter().find(|s| s.0 == segs[0]).and_then(|s| module(&s.1, &segs[1..])) else { return false };
        match (el, path) {
            (Some(e), []) => e == name && definition(m, e) == Some(args),
            (None, [first, rest @ ..]) => {
                segs.last() == Some(first) && module(m, rest).and_then(|m| definition(m, name)) == Some(args)
            }
            _ => false,
        }
    })
}

fn module_fine(all: &Schemas, root: &[Def], here: &[Def]) -> bool {
    here.iter().all(|d| {
        if let Def::Mod(_, _, inner) = d {
            return module_fine(all, root, inner);
        }
        let mut types = field_lists(d).into_iter().flat_map(types_of).collect::<Vec<_>>();
        if let Def::Alias(_, _, _, ty) = d {
            types.push(ty);
        }
        types.into_iter().flat_map(parts).all(|t| match t {
            Ty::Ext(path, n, args) => {
                (path.is_empty() && args.is_empty() && params(d).contains(n)) || reference_fine(all, root, here, path, n, args.len())
            }
            _ => true,
        })
    })
}

pub fn references_fine(all: &Schemas) -> bool {
    all.iter().all(|(_, defs)| {
        defs.iter().all(|d| match d {
            Def::Import(segs, el) => import_fine(all, segs, el.as_ref()),
            _ => true,
        }) && module_fine(all, defs, defs)
    })
}

/// The same definitions, with every number spelled out.
pub fn numbered(defs: &[Def]) -> Vec<Def> {
    let set = |f: &mut Fields| match f {
        Fields::Named(v) => {
            let n = numbers(v.iter().map(|f| f.3).collect());
            v.iter_mut().zip(n).for_each(|(f, n)| f.3 = Some(n));
        }
        Fields::Unnamed(v) => {
            let n = numbers(v.iter().map(|f| f.1).collect());
            v.iter_mut().zip(n).for_each(|(f, n)| f.1 = Some(n));
        }
        Fields::Unit => {}
    };
    defs.iter().cloned().map(|mut d| {
        match &mut d {
            Def::Mod(_, _, inner) => *inner = numbered(inner),
            Def::Struct(_, _, _, f) => set(f),
            Def::Enum(_, _, _, vs) => {
                let n = numbers(vs.iter().map(|v| v.number).collect());
                vs.iter_mut().zip(n).for_each(|(v, n)| {
                    v.number = Some(n);
                    set(&mut v.fields);
                });
            }
            _ => {}
        }
        d
    }).collect()
}

fn numbers(v: Vec<Number>) -> Vec<u32> {
    derived(&v).expect("numbers within range")
}
