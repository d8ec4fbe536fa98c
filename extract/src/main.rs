//! Mechanical extraction of /repo/src into one Verus file.
//! usage: vx-extract <repo-src-dir> <contracts-dir> <out.rs> <out.json> [--baseline FILE] [--probe] [--skip KEY]...
//! Rules are listed in /verif/DESIGN.md (R1..R12) and in `RULES` below.
mod inline;
mod overlay;
mod print;
mod rewrite;

use overlay::{squash, Overlay};
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use rewrite::{Ctx, FnInfo};
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: vx-extract SRC CONTRACTS OUT.rs OUT.json [--baseline FILE] [--probe] [--skip KEY]...");
        std::process::exit(2);
    }
    let src = PathBuf::from(&args[1]);
    let contracts = PathBuf::from(&args[2]);
    let mut baseline: Option<serde_json::Value> = None;
    let mut probe = false;
    let mut skip = std::collections::BTreeSet::new();
    let mut i = 5;
    while i < args.len() {
        match args[i].as_str() {
            "--baseline" => {
                let t = std::fs::read_to_string(&args[i + 1]).unwrap();
                baseline = Some(serde_json::from_str(&t).unwrap());
                i += 2;
            }
            "--probe" => {
                probe = true;
                i += 1;
            }
            "--skip" => {
                skip.insert(args[i + 1].clone());
                i += 2;
            }
            a => panic!("unknown argument {}", a),
        }
    }
    let mut ov = Overlay::default();
    let mut files: Vec<PathBuf> = std::fs::read_dir(&contracts)
        .expect("contracts dir")
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |e| e == "vc"))
        .collect();
    files.sort();
    for f in &files {
        let t = std::fs::read_to_string(f).unwrap();
        overlay::parse(&t, &f.display().to_string(), &mut ov);
    }
    let mut shims = String::new();
    let mut rsfiles: Vec<PathBuf> = std::fs::read_dir(&contracts)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map_or(false, |e| e == "rs"))
        .collect();
    rsfiles.sort();

    let mut ctx = Ctx::new(ov, probe, baseline);
    ctx.skip = skip;
    let mut top = load_module(&src.join("lib.rs"), &src, "", true);
    // names of methods the crate defines (renamed like the std ones where they collide)
    let mut pr = print::Printer::new(ctx.raws.clone());
    pr.raw("// GENERATED by /verif/extract from /repo/src; do not edit\n");
    pr.raw("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unreachable_code, unused_assignments, non_shorthand_field_patterns, unused_must_use)]\n");
    pr.raw("use vstd::prelude::*;\n");
    for f in &rsfiles {
        shims.push_str(&format!("// ---- {}\n", f.file_name().unwrap().to_string_lossy()));
        shims.push_str(&std::fs::read_to_string(f).unwrap());
    }
    let shim_start = pr.line;
    pr.raw(&shims);
    let shim_end = pr.line;
    if !ctx.ov.top.is_empty() {
        let t = ctx.ov.top.clone();
        pr.raw(&t);
    }
    inline::run(&mut top, &mut ctx);
    let mut o = rewrite::Options { yes: Default::default(), no: Default::default() };
    options(&top, &mut o);
    ctx.options = o.yes.difference(&o.no).cloned().collect();
    emit_module(&mut top, &mut ctx, &mut pr);
    pr.raw("fn main() {}\n");
    let mut text = std::mem::take(&mut pr.out);
    if !text.ends_with('\n') {
        text.push('\n');
    }
    std::fs::write(&args[3], &text).expect("write out");
    let mut fns = vec![];
    for (k, f) in ctx.fns.iter().enumerate() {
        let (a, b) = pr.marks.get(&k).copied().unwrap_or((0, 0));
        let bind = f.bindings.clone();
        fns.push(serde_json::json!({
            "key": f.key, "file": f.file, "line": f.line, "begin": a, "end": b,
            "contract": f.contract, "props": f.props, "loops": f.loops, "kinds": f.kinds, "closures": f.closures,
            "bindings": bind, "external": f.external, "rules": f.rules.iter().collect::<Vec<_>>(),
            "sig": f.sig, "trait_impl": f.trait_impl,
        }));
    }
    let unused: Vec<String> = ctx.ov.fns.values().filter(|f| !f.used).map(|f| f.key.clone()).collect();
    let j = serde_json::json!({
        "functions": fns,
        "lost_functions": unused,
        "lost_anchors": ctx.lost,
        "inlined": ctx.inlined,
        "notes": ctx.notes,
        "skipped": ctx.skip.iter().collect::<Vec<_>>(),
        "shim_lines": [shim_start, shim_end],
    });
    std::fs::write(&args[4], serde_json::to_string_pretty(&j).unwrap()).expect("write json");
}

pub struct Module {
    pub path: String,
    pub name: String,
    pub file: String,
    pub items: Vec<syn::Item>,
    pub children: Vec<Module>,
}

fn options(m: &Module, o: &mut rewrite::Options) {
    for i in &m.items {
        syn::visit::Visit::visit_item(o, i);
    }
    for c in &m.children {
        options(c, o);
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = squash(&a.to_token_stream().to_string());
        t == "#[cfg(test)]" || t == "#[test]"
    })
}

fn load_module(file: &Path, root: &Path, path: &str, is_root: bool) -> Module {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| fail(&format!("read {}: {}", file.display(), e)));
    let f = syn::parse_file(&text).unwrap_or_else(|e| fail(&format!("parse {}: {}", file.display(), e)));
    let dir = if is_root || file.file_name().map_or(false, |n| n == "mod.rs") {
        file.parent().unwrap().to_path_buf()
    } else {
        file.with_extension("")
    };
    let name = path.rsplit("::").next().unwrap_or("").to_string();
    let mut m = Module {
        path: path.to_string(),
        name,
        file: file.strip_prefix(root).unwrap().display().to_string(),
        items: vec![],
        children: vec![],
    };
    split_items(f.items, &mut m, &dir, root);
    m
}

fn split_items(items: Vec<syn::Item>, m: &mut Module, dir: &Path, root: &Path) {
    for it in items {
        match it {
            syn::Item::Mod(md) => {
                if is_test(&md.attrs) {
                    continue;
                }
                let n = md.ident.to_string();
                let p = if m.path.is_empty() { n.clone() } else { format!("{}::{}", m.path, n) };
                if let Some((_, its)) = md.content {
                    let mut c =
                        Module { path: p, name: n.clone(), file: m.file.clone(), items: vec![], children: vec![] };
                    split_items(its, &mut c, &dir.join(&n), root);
                    m.children.push(c);
                } else {
                    let a = dir.join(format!("{}.rs", n));
                    let b = dir.join(&n).join("mod.rs");
                    let f = if a.exists() { a } else { b };
                    m.children.push(load_module(&f, root, &p, false));
                }
            }
            other => m.items.push(other),
        }
    }
}

pub fn fail(msg: &str) -> ! {
    eprintln!("EXTRACT-FAIL: {}", msg);
    std::process::exit(3);
}

fn emit_module(m: &mut Module, ctx: &mut Ctx, pr: &mut print::Printer) {
    let root = m.path.is_empty();
    if !root {
        pr.raw(&format!("pub mod {} {{\n", m.name));
    }
    let mut uses = TokenStream::new();
    let mut body: Vec<TokenStream> = vec![];
    for it in std::mem::take(&mut m.items) {
        match it {
            syn::Item::Use(u) => {
                if is_test(&u.attrs) {
                    continue;
                }
                let t = squash(&u.tree.to_token_stream().to_string());
                if t.starts_with("std::convert::") || t.starts_with("std::cmp::") || t.starts_with("std::iter::") {
                    ctx.note(&format!("{}: dropped `use {}`", m.file, t));
                    continue;
                }
                let tree = &u.tree;
                uses.extend(quote!(pub use #tree;));
            }
            it => body.push(emit_item(it, &m.path, &m.file, ctx)),
        }
    }
    if !root {
        pr.raw("#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vx::*;\n#[allow(unused_imports)] use crate::th::*;\n");
    }
    pr.tokens(uses, false);
    let prelude = ctx.ov.prelude.get(&m.path).cloned().unwrap_or_default();
    if !body.is_empty() || !prelude.is_empty() {
        pr.raw("verus! {\n");
        if !prelude.is_empty() {
            pr.raw(&prelude);
        }
        for b in body {
            pr.tokens(b, false);
            pr.raw("");
        }
        pr.raw("} // verus!\n");
    }
    for c in m.children.iter_mut() {
        emit_module(c, ctx, pr);
    }
    if !root {
        pr.raw("}\n");
    }
}

fn keep_derives(attrs: &[syn::Attribute]) -> TokenStream {
    let mut names: Vec<String> = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                names.push(m.path.to_token_stream().to_string());
                Ok(())
            });
        }
    }
    let keep: Vec<syn::Ident> = names
        .iter()
        .filter(|n| matches!(n.as_str(), "Debug" | "Clone" | "Copy"))
        .map(|n| syn::Ident::new(n, proc_macro2::Span::call_site()))
        .collect();
    if keep.is_empty() {
        quote!()
    } else {
        quote!(#[derive(#(#keep),*)])
    }
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => squash(&t.to_token_stream().to_string()),
    }
}

fn emit_item(it: syn::Item, module: &str, file: &str, ctx: &mut Ctx) -> TokenStream {
    let attr_of = |name: &str, ctx: &mut Ctx| -> TokenStream {
        match ctx.ov.item_attr.get(&format!("{}::{}", module, name)).cloned() {
            Some(t) => ctx.raw(&t),
            None => quote!(),
        }
    };
    match it {
        syn::Item::Struct(mut s) => {
            if is_test(&s.attrs) {
                return quote!();
            }
            let d = keep_derives(&s.attrs);
            let oa = attr_of(&s.ident.to_string(), ctx);
            s.attrs.clear();
            s.vis = syn::parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.vis = syn::parse_quote!(pub);
                f.attrs.clear();
            }
            rewrite::TypeRw { rules: Default::default() }.visit_item_struct_mut(&mut s);
            quote!(#oa #d #s)
        }
        syn::Item::Enum(mut s) => {
            if is_test(&s.attrs) {
                return quote!();
            }
            let mut d = keep_derives(&s.attrs);
            if squash(&s.attrs.iter().map(|a| a.to_token_stream().to_string()).collect::<String>()).contains("PartialEq") {
                // derived equality on an enum is structural equality
                d.extend(quote!(#[derive(PartialEq, Eq, Structural)]));
            }
            let oa = attr_of(&s.ident.to_string(), ctx);
            s.attrs.clear();
            s.vis = syn::parse_quote!(pub);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
            }
            rewrite::TypeRw { rules: Default::default() }.visit_item_enum_mut(&mut s);
            quote!(#oa #d #s)
        }
        syn::Item::Fn(f) => {
            if is_test(&f.attrs) {
                return quote!();
            }
            let key = format!("{}::{}", module, f.sig.ident);
            let info = FnInfo::new(key, file, f.sig.ident.span().start().line);
            ctx.emit_fn(f.sig, Some(*f.block), info, true)
        }
        syn::Item::Trait(mut t) => {
            let name = t.ident.to_string();
            let inj = match ctx.ov.inject.get(&format!("{}::{}", module, name)).cloned() {
                Some(x) => ctx.raw(&x),
                None => quote!(),
            };
            let items = std::mem::take(&mut t.items);
            let mut out = TokenStream::new();
            for i in items {
                match i {
                    syn::TraitItem::Fn(f) => {
                        let key = format!("{}::{}::{}", module, name, f.sig.ident);
                        let info = FnInfo::new(key, file, f.sig.ident.span().start().line);
                        out.extend(ctx.emit_fn(f.sig, f.default, info, false));
                    }
                    o => out.extend(o.to_token_stream()),
                }
            }
            let id = &t.ident;
            let (g, w) = (&t.generics, &t.generics.where_clause);
            let sup = &t.supertraits;
            let colon = if sup.is_empty() { quote!() } else { quote!(: #sup) };
            quote!(pub trait #id #g #colon #w { #inj #out })
        }
        syn::Item::Impl(mut im) => {
            if is_test(&im.attrs) {
                return quote!();
            }
            let ty = type_name(&im.self_ty);
            let mut trait_name = None;
            let mut key_prefix = ty.clone();
            if let Some((_, path, _)) = &im.trait_ {
                let full = squash(&path.to_token_stream().to_string());
                let last = path.segments.last().unwrap().ident.to_string();
                trait_name = Some(last.clone());
                if last != "Iterator" && last != "PartialEq" {
                    key_prefix = format!("{}for{}", full, ty);
                }
            }
            let inherent = matches!(trait_name.as_deref(), None | Some("Iterator") | Some("PartialEq"));
            let mut header_trait = quote!();
            let mut assoc = TokenStream::new();
            let mut item_ty: Option<syn::Type> = None;
            if let Some((_, path, _)) = &im.trait_ {
                match trait_name.as_deref() {
                    Some("Iterator") => {
                        for i in &im.items {
                            if let syn::ImplItem::Type(t) = i {
                                if t.ident == "Item" {
                                    item_ty = Some(t.ty.clone());
                                }
                            }
                        }
                    }
                    Some("PartialEq") => {}
                    Some("TryFrom") => {
                        let args = &path.segments.last().unwrap().arguments;
                        header_trait = quote!(VxTryFrom #args for);
                    }
                    _ => header_trait = quote!(#path for),
                }
            }
            let inj = match ctx.ov.inject.get(&format!("{}::{}", module, key_prefix)).cloned() {
                // inherent injections only once per type: keyed by first inherent impl
                Some(x) => {
                    if inherent {
                        ctx.ov.inject.remove(&format!("{}::{}", module, key_prefix));
                    }
                    ctx.raw(&x)
                }
                None => quote!(),
            };
            let mut out = TokenStream::new();
            for i in std::mem::take(&mut im.items) {
                match i {
                    syn::ImplItem::Fn(mut f) => {
                        if is_test(&f.attrs) {
                            continue;
                        }
                        let key = format!("{}::{}::{}", module, key_prefix, f.sig.ident);
                        let mut info = FnInfo::new(key, file, f.sig.ident.span().start().line);
                        info.trait_impl = !inherent;
                        if let Some(t) = &item_ty {
                            rewrite::SelfItem { ty: t.clone() }.visit_impl_item_fn_mut(&mut f);
                        }
                        out.extend(ctx.emit_fn(f.sig, Some(f.block), info, inherent));
                    }
                    syn::ImplItem::Type(t) => {
                        if !inherent {
                            let (id, ty) = (&t.ident, &t.ty);
                            assoc.extend(quote!(type #id = #ty;));
                        }
                    }
                    o => out.extend(o.to_token_stream()),
                }
            }
            let mut st = (*im.self_ty).clone();
            rewrite::TypeRw { rules: Default::default() }.visit_type_mut(&mut st);
            let g = &im.generics;
            let w = &im.generics.where_clause;
            let mut extra = TokenStream::new();
            if trait_name.as_deref() == Some("Iterator") {
                // identity conversion used by desugared `for` loops (std: impl<I: Iterator> IntoIterator for I)
                extra = quote!(impl #g VxInto for #st #w {
                    type Out = Self;
                    open spec fn vx_into_spec(self, o: Self) -> bool { o == self }
                    fn vx_into_iter(self) -> Self { self }
                });
            }
            quote!(impl #g #header_trait #st #w { #assoc #inj #out } #extra)
        }
        syn::Item::Const(mut c) => {
            c.vis = syn::parse_quote!(pub);
            c.attrs.clear();
            quote!(#c)
        }
        syn::Item::Type(mut c) => {
            c.vis = syn::parse_quote!(pub);
            c.attrs.clear();
            rewrite::TypeRw { rules: Default::default() }.visit_item_type_mut(&mut c);
            quote!(#c)
        }
        other => {
            ctx.note(&format!("{}: item kept verbatim: {}", file, squash(&other.to_token_stream().to_string()).chars().take(60).collect::<String>()));
            other.to_token_stream()
        }
    }
}
