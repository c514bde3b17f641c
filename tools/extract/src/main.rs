//! Mechanical extraction of functions from the crate under verification into
//! a single Verus input file, attaching the contracts found in the `.vrs`
//! files. Nothing of a function body is written by hand: bodies are parsed
//! from the source tree on every run and only rewritten by the fixed set of
//! transformations in `xform.rs`.

mod print;
mod spec;
mod xform;

use std::{
    collections::{BTreeMap, HashMap, HashSet},
    fs,
    path::PathBuf,
};

use quote::ToTokens;
use serde_json::json;
use syn::{visit_mut::VisitMut, *};

#[derive(Clone)]
pub struct SrcFn {
    /// `Type::f`, `Type as Trait::f`, or `f`
    pub path: String,
    pub file: String,
    pub line: usize,
    pub generics: Generics,
    /// `None` for free functions
    pub self_ty: Option<Type>,
    pub assoc: HashMap<String, Type>,
    pub sig: Signature,
    pub block: Block,
}

#[derive(Clone)]
pub struct SrcImpl {
    /// `Type as Trait`
    pub path: String,
    pub file: String,
    pub item: ItemImpl,
}

pub fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => {
            if r.mutability.is_some() {
                format!("&mut {}", ty_name(&r.elem))
            } else {
                format!("&{}", ty_name(&r.elem))
            }
        }
        other => other.to_token_stream().to_string(),
    }
}

fn collect(
    items: &[Item],
    file: &str,
    fns: &mut Vec<SrcFn>,
    types: &mut HashMap<String, Item>,
    impls: &mut Vec<SrcImpl>,
) {
    for item in items {
        match item {
            Item::Mod(m) => {
                if m.attrs.iter().any(|a| {
                    a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test")
                }) {
                    continue
                }
                if let Some((_, items)) = &m.content {
                    collect(items, file, fns, types, impls);
                }
            }
            Item::Struct(s) => {
                types.insert(s.ident.to_string(), item.clone());
            }
            Item::Enum(s) => {
                types.insert(s.ident.to_string(), item.clone());
            }
            Item::Fn(f) => fns.push(SrcFn {
                path: f.sig.ident.to_string(),
                file: file.to_owned(),
                line: f.sig.ident.span().start().line,
                generics: Generics::default(),
                self_ty: None,
                assoc: HashMap::new(),
                sig: f.sig.clone(),
                block: (*f.block).clone(),
            }),
            Item::Impl(i) => {
                let mut assoc = HashMap::new();
                for it in &i.items {
                    if let ImplItem::Type(t) = it {
                        assoc.insert(t.ident.to_string(), t.ty.clone());
                    }
                }
                let prefix = match &i.trait_ {
                    None => ty_name(&i.self_ty),
                    Some((_, path, _)) => format!(
                        "{} as {}",
                        ty_name(&i.self_ty),
                        path.segments.last().unwrap().ident
                    ),
                };
                impls.push(SrcImpl {
                    path: prefix.clone(),
                    file: file.to_owned(),
                    item: i.clone(),
                });
                for it in &i.items {
                    if let ImplItem::Fn(f) = it {
                        fns.push(SrcFn {
                            path: format!("{}::{}", prefix, f.sig.ident),
                            file: file.to_owned(),
                            line: f.sig.ident.span().start().line,
                            generics: i.generics.clone(),
                            self_ty: Some((*i.self_ty).clone()),
                            assoc: assoc.clone(),
                            sig: f.sig.clone(),
                            block: f.block.clone(),
                        });
                    }
                }
            }
            _ => (),
        }
    }
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut src = PathBuf::new();
    let mut contracts = vec![];
    let mut out = PathBuf::new();
    let mut report = PathBuf::new();
    // functions to be emitted without their body (used to isolate functions
    // that the verifier front end cannot accept)
    let mut skip: HashSet<String> = HashSet::new();
    let mut extra: HashMap<String, PathBuf> = HashMap::new();
    while let Some(a) = args.next() {
        match a.as_str() {
            "--src" => src = args.next().unwrap().into(),
            "--contract" => contracts.push(PathBuf::from(args.next().unwrap())),
            "--out" => out = args.next().unwrap().into(),
            "--report" => report = args.next().unwrap().into(),
            // a file outside of the source directory, `NAME=PATH`
            "--file" => {
                let a = args.next().unwrap();
                let (n, p) = a.split_once('=').unwrap();
                extra.insert(n.to_owned(), PathBuf::from(p));
            }
            "--skip" => {
                skip.insert(args.next().unwrap());
            }
            _ => panic!("unknown argument {a}"),
        }
    }

    let mut text = String::new();
    let mut fn_report = vec![];
    let mut lost = vec![];
    let mut drops: BTreeMap<String, usize> = BTreeMap::new();

    // first pass: which paths are under contract in every module
    let specs: Vec<spec::SpecFile> = contracts.iter().map(|p| spec::parse(p)).collect();

    // method names that have a contract (or an assumed one in verbatim text)
    let mut known: HashSet<String> = HashSet::new();
    for s in &specs {
        for m in &s.modules {
            for it in &m.items {
                match it {
                    spec::SpecItem::Fn(f) => {
                        known.insert(f.name().to_owned());
                    }
                    spec::SpecItem::Text(t, _) => {
                        for w in t.split("fn ").skip(1) {
                            let n: String = w
                                .chars()
                                .take_while(|c| c.is_alphanumeric() || *c == '_')
                                .collect();
                            known.insert(n);
                        }
                    }
                    _ => (),
                }
            }
        }
    }

    let mut world = xform::World {
        fns: vec![],
        types: HashMap::new(),
    };
    let mut seen: HashSet<&String> = HashSet::new();
    for f in specs.iter().flat_map(|s| &s.modules).flat_map(|m| &m.files) {
        if f.starts_with('!') || !seen.insert(f) {
            continue
        }
        if let Some(parsed) = fs::read_to_string(src.join(f)).ok().and_then(|t| parse_file(&t).ok()) {
            collect(&parsed.items, f, &mut world.fns, &mut world.types, &mut vec![]);
        }
    }

    for s in &specs {
        for m in &s.modules {
            let mut fns = vec![];
            let mut types = HashMap::new();
            let mut impls = vec![];
            for f in &m.files {
                let path = match f.strip_prefix('!') {
                    Some(n) => extra.get(n).cloned().unwrap_or_default(),
                    None => src.join(f),
                };
                match fs::read_to_string(&path) {
                    Ok(txt) => match parse_file(&txt) {
                        Ok(parsed) => collect(&parsed.items, f, &mut fns, &mut types, &mut impls),
                        Err(e) => lost.push(json!({"what": f, "why": format!("parse error: {e}")})),
                    },
                    Err(e) => lost.push(json!({"what": f, "why": format!("{e}")})),
                }
            }
            // `IndexMut` has the associated type of `Index`
            let index: HashMap<String, _> = fns
                .iter()
                .filter(|f| f.path.ends_with(" as Index::index"))
                .map(|f| (f.path.replace("Index::index", "IndexMut::index_mut"), f.assoc.clone()))
                .collect();
            for f in fns.iter_mut() {
                if let Some(a) = index.get(&f.path) {
                    f.assoc.extend(a.clone());
                }
            }
            if let Some(name) = &m.name {
                text.push_str(&format!("pub mod {name} {{\nuse super::*;\n"));
            }
            for it in &m.items {
                match it {
                    spec::SpecItem::Text(t, lemma_props) => {
                        let start = text.lines().count() + 1;
                        text.push_str(t);
                        text.push('\n');
                        let end = text.lines().count();
                        fn_report.push(json!({
                            "path": format!("lemmas of {}", m.name.clone().unwrap_or_default()),
                            "kind": "text", "start": start, "end": end,
                            "props": lemma_props,
                        }));
                    }
                    spec::SpecItem::Type(name, attrs, ghost) => match types.get(name) {
                        Some(item) => {
                            let mut item = item.clone();
                            xform::clean_item(&mut item);
                            if let (Item::Struct(s), Some(g)) = (&mut item, ghost) {
                                xform::ghost_field(s, g);
                                *drops.entry("ghost field added to a type".to_owned()).or_default() += 1;
                            }
                            text.push_str(attrs);
                            text.push('\n');
                            text.push_str(&print::print(item.to_token_stream()));
                            text.push('\n');
                        }
                        None => lost.push(json!({"what": name, "why": "type not found"})),
                    },
                    spec::SpecItem::Impl(s) => {
                        let Some(i) = impls.iter().find(|x| x.path == s.path) else {
                            lost.push(json!({"what": s.path, "module": m.name, "props": s.props, "why": "implementation not found"}));
                            continue
                        };
                        text.push_str(&xform::impl_head(i));
                        text.push_str(&s.ghost);
                        for it in &i.item.items {
                            let ImplItem::Fn(f) = it else { continue };
                            let name = f.sig.ident.to_string();
                            if !s.only.as_ref().map(|o| o.contains(&name)).unwrap_or(true) {
                                continue
                            }
                            let path = format!("{}::{}", s.path, name);
                            let Some(srcfn) = fns.iter().find(|x| x.path == path) else {
                                continue
                            };
                            let none = spec::FnSpec::default();
                            let given = s.fns.get(&name).unwrap_or(&none);
                            let fs = spec::FnSpec {
                                path: path.clone(),
                                in_impl: true,
                                attrs: given.attrs.clone(),
                                subs: given.subs.clone(),
                                contract: given.subs.get("contract").cloned().unwrap_or_default(),
                                ..Default::default()
                            };
                            let full = format!("{}::{}", m.name.clone().unwrap_or_default(), path);
                            let skipped = skip.contains(&full);
                            let start = text.lines().count() + 1;
                            let (body, notes) = xform::emit(srcfn, &fs, &fns, &known, &world, skipped);
                            for n in &notes {
                                *drops.entry(n.clone()).or_default() += 1;
                            }
                            text.push_str(&body);
                            text.push('\n');
                            let end = text.lines().count();
                            fn_report.push(json!({
                                "path": full, "kind": "fn", "start": start, "end": end,
                                "props": s.props, "file": srcfn.file, "line": srcfn.line,
                                "trusted": skipped, "skipped": skipped, "notes": notes,
                            }));
                        }
                        text.push_str("}\n");
                    }
                    spec::SpecItem::Fn(f) => {
                        let cands: Vec<&SrcFn> = fns.iter().filter(|x| x.path == f.path).collect();
                        if cands.is_empty() {
                            lost.push(json!({"what": f.path, "module": m.name, "props": f.props, "why": "function not found"}));
                            continue
                        }
                        let mut srcfn = cands[0];
                        let mut full = format!("{}::{}", m.name.clone().unwrap_or_default(), f.path);
                        let lifted;
                        if f.lift.is_some() {
                            full = format!("{full}#{}", f.lift.unwrap());
                            match xform::lifted(srcfn, f) {
                                Some(x) => lifted = x,
                                None => {
                                    lost.push(json!({"what": full, "module": m.name, "props": f.props, "why": "closure not found"}));
                                    continue
                                }
                            }
                            srcfn = &lifted;
                        }
                        let skipped = skip.contains(&full);
                        let start = text.lines().count() + 1;
                        let (body, notes) = xform::emit(srcfn, f, &fns, &known, &world, skipped);
                        for n in &notes {
                            *drops.entry(n.clone()).or_default() += 1;
                        }
                        text.push_str(&body);
                        text.push('\n');
                        let end = text.lines().count();
                        fn_report.push(json!({
                            "path": full, "kind": "fn", "start": start, "end": end,
                            "props": f.props, "file": srcfn.file, "line": srcfn.line,
                            "trusted": f.trusted || skipped, "skipped": skipped,
                            "notes": notes,
                        }));
                    }
                }
            }
            if m.name.is_some() {
                text.push_str("}\n");
            }
        }
    }
    fs::write(&out, text).unwrap();
    fs::write(
        &report,
        serde_json::to_string_pretty(&json!({
            "functions": fn_report, "lost": lost, "transformations": drops,
        }))
        .unwrap(),
    )
    .unwrap();
}

#[allow(unused)]
fn _unused(_: &mut dyn VisitMut) {}
