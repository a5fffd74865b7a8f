//! Mechanical extraction of functions and types from /repo into one Verus file.
//!
//! usage: vextract <unit.vu> <repo root> <out.rs> <out.json>
//!
//! A unit file is Verus text in which `//@` directives are replaced by code taken from
//! the repository's current sources. Everything this program does to that code is listed
//! in DESIGN.md ("What the extraction changes").
mod print;
mod rewrite;
mod serde;

use rewrite::{Annot, Ctx, Rw};
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit_mut::VisitMut;

struct Source {
  ast: syn::File,
  /// constants of numbers and truth values: (name, definition)
  consts: Vec<(String, String)>,
}

/// Constants: inside a function they become `let`s; those of a file are put in place of
/// their names, except numbers and truth values, which are declared where they are used.
struct Consts {
  inline: HashMap<String, syn::Expr>,
}
impl VisitMut for Consts {
  fn visit_block_mut(&mut self, b: &mut syn::Block) {
    for s in b.stmts.iter_mut() {
      if let syn::Stmt::Item(syn::Item::Const(c)) = s {
        let (i, t, e) = (&c.ident, &c.ty, &c.expr);
        *s = syn::parse_quote!(let #i: #t = #e;);
      }
    }
    syn::visit_mut::visit_block_mut(self, b);
  }
  fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
    if let syn::Expr::Path(p) = e {
      if p.qself.is_none() {
        if let Some(v) = p.path.get_ident().and_then(|i| self.inline.get(&i.to_string())) {
          let v = v.clone();
          *e = match v {
            syn::Expr::Lit(_) => v,
            _ => syn::parse_quote!((#v)),
          };
          return;
        }
      }
    }
    syn::visit_mut::visit_expr_mut(self, e);
  }
}
fn simple_type(t: &syn::Type) -> bool {
  ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "bool", "char"].contains(&last_ident(t).as_str())
}
fn has_word(text: &str, w: &str) -> bool {
  let id = |c: char| c.is_alphanumeric() || c == '_';
  text.match_indices(w).any(|(i, _)| !text[..i].chars().next_back().is_some_and(id) && !text[i + w.len()..].chars().next().is_some_and(id))
}
fn constants(ast: &mut syn::File) -> Vec<(String, String)> {
  let mut all = vec![];
  items(&ast.items, &mut all);
  let mut declared = vec![];
  let mut inline = HashMap::new();
  for it in all {
    if let syn::Item::Const(c) = it {
      let (i, t, e) = (&c.ident, &c.ty, &c.expr);
      if simple_type(t) {
        declared.push((i.to_string(), print::tokens(&quote::quote!(pub const #i: #t = #e;))));
      } else {
        inline.insert(i.to_string(), (*c.expr).clone());
      }
    }
  }
  Consts { inline }.visit_file_mut(ast);
  declared
}

pub struct Report {
  items: Vec<String>,
  errors: Vec<String>,
  soft: Vec<String>,
}

fn jstr(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 32 => {}
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn norm(s: &str) -> String {
  s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn last_ident(ty: &syn::Type) -> String {
  match ty {
    syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
    syn::Type::Reference(r) => last_ident(&r.elem),
    _ => String::new(),
  }
}

/// All modules' items that are compiled outside of tests.
fn items<'a>(list: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
  for it in list {
    let attrs: &[syn::Attribute] = match it {
      syn::Item::Mod(m) => &m.attrs,
      syn::Item::Fn(m) => &m.attrs,
      syn::Item::Impl(m) => &m.attrs,
      syn::Item::Struct(m) => &m.attrs,
      syn::Item::Enum(m) => &m.attrs,
      _ => &[],
    };
    if !rewrite::cfg_on(attrs) {
      continue;
    }
    if let syn::Item::Mod(m) = it {
      if let Some((_, l)) = &m.content {
        items(l, out);
      }
      continue;
    }
    out.push(it);
  }
}

struct Found {
  generics: Option<syn::Generics>,
  self_ty: Option<syn::Type>,
  sig: syn::Signature,
  block: syn::Block,
  lines: (usize, usize),
  /// the associated types of the impl
  assoc: Vec<(String, syn::Type)>,
}

/// `Self::X` is replaced by the type the impl gives to X
struct Assoc<'a>(&'a [(String, syn::Type)]);
impl<'a> VisitMut for Assoc<'a> {
  fn visit_type_mut(&mut self, t: &mut syn::Type) {
    if let syn::Type::Path(p) = &*t {
      if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
        if let Some((_, y)) = self.0.iter().find(|(n, _)| p.path.segments[1].ident == n) {
          *t = y.clone();
        }
      }
    }
    syn::visit_mut::visit_type_mut(self, t);
  }
}

fn find_fn(src: &Source, sel: &str) -> Result<Found, String> {
  let mut all = vec![];
  items(&src.ast.items, &mut all);
  // "Trait for Type::method" | "Type::method" | "function"
  let (tr, rest) = match sel.split_once(" for ") {
    Some((t, r)) => (Some(norm(t)), r.trim()),
    None => (None, sel.trim()),
  };
  let mut res = vec![];
  match rest.rsplit_once("::") {
    None => {
      for it in &all {
        if let syn::Item::Fn(f) = it {
          if f.sig.ident == rest {
            res.push(Found {
              generics: None,
              self_ty: None,
              sig: f.sig.clone(),
              block: (*f.block).clone(),
              lines: (f.span().start().line, f.span().end().line),
              assoc: vec![],
            });
          }
        }
      }
    }
    Some((ty, m)) => {
      // "default for Trait::method": the body that implementations get which leave the method out;
      // its self type is written `TraitDefaults`
      if tr.as_deref() == Some("default") {
        for it in &all {
          if let syn::Item::Trait(t) = it {
            for x in &t.items {
              if let syn::TraitItem::Fn(f) = x {
                if t.ident == ty && f.sig.ident == m {
                  let Some(b) = &f.default else { continue };
                  let name = syn::Ident::new(&format!("{}Defaults", ty), t.ident.span());
                  res.push(Found {
                    generics: Some(t.generics.clone()),
                    self_ty: Some(syn::parse_quote!(#name)),
                    sig: f.sig.clone(),
                    block: b.clone(),
                    lines: (f.span().start().line, f.span().end().line),
                    assoc: vec![],
                  });
                }
              }
            }
          }
        }
      }
      for it in &all {
        if let syn::Item::Impl(im) = it {
          if last_ident(&im.self_ty) != ty {
            continue;
          }
          if let Some(t) = &tr {
            let have = match &im.trait_ {
              Some((_, p, _)) => {
                let last = p.segments.last().unwrap();
                norm(&quote::quote!(#last).to_string())
              }
              // "inherent for Type::method"
              None => "inherent".to_string(),
            };
            if &have != t {
              continue;
            }
          }
          for x in &im.items {
            if let syn::ImplItem::Fn(f) = x {
              if f.sig.ident == m && rewrite::cfg_on(&f.attrs) {
                res.push(Found {
                  generics: Some(im.generics.clone()),
                  self_ty: Some((*im.self_ty).clone()),
                  sig: f.sig.clone(),
                  block: f.block.clone(),
                  lines: (f.span().start().line, f.span().end().line),
                  assoc: im.items.iter().filter_map(|x| match x { syn::ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())), _ => None }).collect(),
                });
              }
            }
          }
        }
      }
    }
  }
  match res.len() {
    1 => Ok(res.pop().unwrap()),
    0 => Err(format!("lost anchor: function `{}` not found", sel)),
    n => Err(format!("lost anchor: function `{}` found {} times", sel, n)),
  }
}

/// Functions of the same file that may be inlined when a contracted function calls them.
fn helpers(src: &Source) -> Vec<(Option<String>, syn::Signature, syn::Block)> {
  let mut all = vec![];
  items(&src.ast.items, &mut all);
  let mut out = vec![];
  for it in &all {
    match it {
      syn::Item::Fn(f) => out.push((None, f.sig.clone(), (*f.block).clone())),
      syn::Item::Impl(im) => {
        for x in &im.items {
          if let syn::ImplItem::Fn(f) = x {
            if rewrite::cfg_on(&f.attrs) {
              out.push((Some(last_ident(&im.self_ty)), f.sig.clone(), f.block.clone()))
            }
          }
        }
      }
      _ => {}
    }
  }
  out
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
  let mut v = vec![];
  for a in attrs {
    if a.path().is_ident("derive") {
      let _ = a.parse_nested_meta(|m| {
        v.push(m.path.segments.last().unwrap().ident.to_string());
        Ok(())
      });
    }
  }
  v
}

struct Gen {
  repo: PathBuf,
  dir: PathBuf,
  files: BTreeMap<String, String>,
  sources: HashMap<String, Source>,
  ctx: Ctx,
  async_fns: HashMap<String, std::collections::HashSet<String>>,
  out: String,
  report: Report,
  external: Vec<String>,
  probe: bool,
  unit: String,
  keys: serde::Keys,
}

/// The contract with its postcondition replaced by `false`.
fn falsified(c: &str) -> String {
  let mut o = String::new();
  for l in c.lines() {
    if l.trim_start().starts_with("ensures") {
      break;
    }
    o.push_str(l);
    o.push('\n');
  }
  let t = o.trim_end().to_string();
  if t.is_empty() || t.ends_with(',') { format!("{}\n  ensures false", t) } else { format!("{},\n  ensures false", t) }
}

/// The names under which the repository defines async functions and no other ones.
fn async_names(repo: &Path, krate: &str) -> std::collections::HashSet<String> {
  struct V(std::collections::HashSet<String>, std::collections::HashSet<String>);
  impl<'a> syn::visit::Visit<'a> for V {
    fn visit_signature(&mut self, s: &'a syn::Signature) {
      // a builder method that is given away as well has no effect
      let own = matches!(s.inputs.first(), Some(syn::FnArg::Receiver(r)) if r.reference.is_none()) && matches!(&s.output, syn::ReturnType::Type(_, t) if quote::quote!(#t).to_string() == "Self");
      if own {
        return;
      }
      if s.asyncness.is_some() { self.0.insert(s.ident.to_string()) } else { self.1.insert(s.ident.to_string()) };
    }
  }
  let mut v = V(Default::default(), Default::default());
  let mut dirs: Vec<PathBuf> = fs::read_dir(repo.join("crates")).into_iter().flatten().flatten().map(|d| d.path().join("src")).collect();
  // the core crate depends on none of the others
  if krate == "astro-run" {
    dirs = vec![repo.join("crates/astro-run/src")];
  }
  while let Some(d) = dirs.pop() {
    for e in fs::read_dir(d).into_iter().flatten().flatten() {
      let p = e.path();
      if p.is_dir() {
        dirs.push(p);
      } else if p.extension().is_some_and(|x| x == "rs") {
        if let Some(f) = fs::read_to_string(&p).ok().and_then(|t| syn::parse_file(&t).ok()) {
          syn::visit::Visit::visit_file(&mut v, &f);
        }
      }
    }
  }
  &v.0 - &v.1
}

impl Gen {
  fn source(&mut self, f: &str) -> Result<(String, &Source), String> {
    let path = self.files.get(f).cloned().unwrap_or(f.to_string());
    if !self.sources.contains_key(&path) {
      let text = fs::read_to_string(self.repo.join(&path))
        .map_err(|_| format!("lost anchor: file {} cannot be read", path))?;
      let mut ast = syn::parse_file(&text).map_err(|e| format!("{} does not parse: {}", path, e))?;
      let consts = constants(&mut ast);
      self.sources.insert(path.clone(), Source { ast, consts });
    }
    Ok((path.clone(), self.sources.get(&path).unwrap()))
  }

  fn emit_type(&mut self, f: &str, name: &str, flags: &[&str]) -> Result<(), String> {
    let (path, src) = self.source(f)?;
    let mut all = vec![];
    items(&src.ast.items, &mut all);
    for it in all {
      let (mut item, ders, generics, id) = match it {
        syn::Item::Struct(s) if s.ident == name => (it.clone(), derives(&s.attrs), s.generics.clone(), s.ident.to_string()),
        syn::Item::Enum(s) if s.ident == name => (it.clone(), derives(&s.attrs), s.generics.clone(), s.ident.to_string()),
        syn::Item::Type(s) if s.ident == name => (it.clone(), vec![], s.generics.clone(), s.ident.to_string()),
        _ => continue,
      };
      let lines = (it.span().start().line, it.span().end().line);
      rewrite::clean_item(&mut item);
      rewrite::TypeRw(&self.ctx).visit_item_mut(&mut item);
      let has = |d: &str| ders.iter().any(|x| x == d);
      self.out.push_str(&format!("//#BEGIN type {} {}:{}-{}\n", id, path, lines.0, lines.1));
      let copy = has("Copy");
      if copy {
        self.out.push_str("#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n");
      }
      for fl in flags {
        if let Some(p) = fl.strip_prefix("reject=") {
          self.out.push_str(&format!("#[verifier::reject_recursive_types({})]\n", p));
        }
      }
      let stored = print::tokens(&quote::quote!(#item));
      self.out.push_str(&stored);
      self.out.push('\n');
      let noclone = flags.contains(&"noclone");
      let (ig, tg, wc) = generics.split_for_impl();
      let (igs, tgs, wcs) = (quote::quote!(#ig).to_string(), quote::quote!(#tg).to_string(), quote::quote!(#wc).to_string());
      if !copy && has("Clone") && !noclone {
        self.out.push_str(&format!(
          "impl{igs} Clone for {id}{tgs} {wcs} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"
        ));
      }
      if !copy && has("PartialEq") && !flags.contains(&"noeq") {
        self.out.push_str(&format!(
          "impl{igs} vstd::std_specs::cmp::PartialEqSpecImpl for {id}{tgs} {wcs} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{id}{tgs}) -> bool {{ *self == *o }} }}\n\
           impl{igs} PartialEq for {id}{tgs} {wcs} {{ #[verifier::external_body] fn eq(&self, o: &{id}{tgs}) -> (r: bool) {{ unimplemented!() }} }}\n"
        ));
      }
      // the derived `default()`: every field has the default of its type
      if has("Default") && flags.contains(&"default") {
        if let syn::Item::Struct(st) = &item {
          let mut e = vec![];
          for fd in &st.fields {
            let Some(n) = &fd.ident else { continue };
            match last_ident(&fd.ty).as_str() {
              "Option" => e.push(format!("r.{} is None", n)),
              "Vec" => e.push(format!("r.{}@.len() == 0", n)),
              "HashMap" => e.push(format!("r.{}@ == Map::empty()", n)),
              "bool" => e.push(format!("!r.{}", n)),
              _ => {}
            }
          }
          let ens = if e.is_empty() { String::new() } else { format!(" ensures {}", e.join(", ")) };
          self.out.push_str(&format!("impl{igs} {id}{tgs} {wcs} {{ #[verifier::external_body] pub fn default() -> (r: Self){ens} {{ unimplemented!() }} }}\n"));
        }
      }
      self.out.push_str(&format!("//#END type {}\n", id));
      self.report.items.push(format!(
        "{{\"kind\":\"type\",\"name\":{},\"file\":{},\"lines\":[{},{}]}}",
        jstr(&id), jstr(&path), lines.0, lines.1
      ));
      return Ok(());
    }
    Err(format!("lost anchor: type `{}` not found in {}", name, path))
  }

  /// the JSON form of a type whose Serialize and Deserialize are derived
  fn emit_serde(&mut self, f: &str, name: &str, except: &[String]) -> Result<(), String> {
    let sel = format!("derive({})", name);
    let external = self.external.iter().any(|x| *x == sel);
    let (path, src) = self.source(f)?;
    let mut all = vec![];
    items(&src.ast.items, &mut all);
    let mut found = None;
    for it in all {
      match it {
        syn::Item::Struct(s) if s.ident == name => found = Some((it.clone(), derives(&s.attrs))),
        syn::Item::Enum(s) if s.ident == name => found = Some((it.clone(), derives(&s.attrs))),
        _ => {}
      }
    }
    let (it, ders) = found.ok_or(format!("lost anchor: type `{}` not found in {}", name, path))?;
    let lines = (it.span().start().line, it.span().end().line);
    self.report.items.push(format!(
      "{{\"kind\":\"fn\",\"name\":{},\"file\":{},\"lines\":[{},{}],\"loops\":0,\"kinds\":\"\",\"dropped_macros\":0,\"inlined\":[],\"tasks\":0,\"bindings\":[],\"params\":[]}}",
      jstr(&sel), jstr(&path), lines.0, lines.1
    ));
    let o = serde::emit(&self.ctx, &mut self.keys, &it, &ders, except, external).map_err(|e| format!("{}: {}", sel, e))?;
    self.out.push_str(&format!("//#BEGIN fn {} {}:{}-{}\n{}//#END fn {}\n", sel, path, o.lines.0, o.lines.1, o.text, sel));
    Ok(())
  }

  fn emit_about(&mut self, what: &str, f: &str, name: &str, body: &[String]) -> Result<(), String> {
    let sel = format!("{}({})", what, name);
    let (path, src) = self.source(f)?;
    let mut all = vec![];
    items(&src.ast.items, &mut all);
    let lines = all
      .iter()
      .find_map(|it| match it {
        syn::Item::Struct(s) if s.ident == name => Some((it.span().start().line, it.span().end().line)),
        syn::Item::Enum(s) if s.ident == name => Some((it.span().start().line, it.span().end().line)),
        _ => None,
      })
      .ok_or(format!("lost anchor: type `{}` not found in {}", name, path))?;
    let external = self.external.iter().any(|x| *x == sel || *x == format!("derive({})", name));
    let mut text = String::new();
    for l in body {
      if external && l.trim_start().starts_with("proof fn") {
        text.push_str("#[verifier::external_body]\n");
      }
      text.push_str(l);
      text.push('\n');
    }
    self.out.push_str(&format!("//#BEGIN fn {} {}:{}-{}\n{}//#END fn {}\n", sel, path, lines.0, lines.1, text, sel));
    self.report.items.push(format!(
      "{{\"kind\":\"fn\",\"name\":{},\"file\":{},\"lines\":[{},{}],\"loops\":0,\"kinds\":\"\",\"dropped_macros\":0,\"inlined\":[],\"tasks\":0,\"bindings\":[],\"params\":[]}}",
      jstr(&sel), jstr(&path), lines.0, lines.1
    ));
    Ok(())
  }

  fn emit_fn(&mut self, args: &str, body: &[String]) -> Result<(), String> {
    let (f, rest) = args.split_once(' ').ok_or("bad //@fn")?;
    let mut sel = vec![];
    let mut tr = false;
    let mut rename = None;
    let mut selfkind = None;
    let mut probe = self.probe;
    for w in rest.split_whitespace() {
      if w == "tr" {
        tr = true
      } else if w == "noprobe" {
        probe = false
      } else if let Some(n) = w.strip_prefix("name=") {
        rename = Some(n.to_string())
      } else if let Some(n) = w.strip_prefix("self=") {
        selfkind = Some(n.to_string())
      } else {
        sel.push(w)
      }
    }
    let sel = sel.join(" ");
    let krate = self.files.get(f).cloned().unwrap_or(f.to_string()).split('/').nth(1).unwrap_or("").to_string();
    if !self.async_fns.contains_key(&krate) {
      let names = async_names(&self.repo, &krate);
      self.async_fns.insert(krate.clone(), names);
    }
    self.ctx.async_fns = self.async_fns[&krate].clone();
    let (path, src) = self.source(f)?;
    let found = find_fn(src, &sel)?;
    let hs = helpers(src);
    let annot = Annot::parse(body)?;
    let mut contract = annot.contract.clone();
    let fname = rename.clone().unwrap_or(found.sig.ident.to_string());
    let ty = found.self_ty.as_ref().map(last_ident);
    let mut rw = Rw::new(&self.ctx, annot, tr, fname.clone(), ty.clone(), hs);
    let mut sig = found.sig.clone();
    let mut block = found.block.clone();
    Assoc(&found.assoc).visit_signature_mut(&mut sig);
    Assoc(&found.assoc).visit_block_mut(&mut block);
    let external = self.external.iter().any(|x| norm(x) == norm(&sel));
    let here: Vec<String> = sig
      .inputs
      .iter()
      .filter_map(|p| match p {
        syn::FnArg::Typed(t) => Some(match &*t.pat {
          syn::Pat::Ident(i) => i.ident.to_string(),
          _ => "_".to_string(),
        }),
        _ => None,
      })
      .collect();
    rw.params = here.clone();
    rw.base = self.ctx.names.get(&format!("{} {}", self.unit, sel)).cloned();
    if let Some(b) = &rw.base {
      contract = rewrite::rename(&contract, &rewrite::align(&b.0, &here));
    }
    if external {
      block = syn::parse_quote!({ unimplemented!() });
      rw.clear_sections();
    } else {
      rewrite::own_params(&mut sig, &mut block);
    }
    rw.run(&mut block);
    let mut errors = rw.errors.clone();
    let bindings = rw.names.clone();
    let mut raws = rw.raws.clone();
    let tasks = rw.tasks.clone();
    let dropped = rw.dropped.clone();
    let inlined = rw.inlined.clone();
    let loops = rw.loops_seen;
    let kinds = rw.loop_kinds.clone();
    // signature
    rewrite::TypeRw(&self.ctx).visit_signature_mut(&mut sig);
    let mut params = vec![];
    for p in &sig.inputs {
      match p {
        syn::FnArg::Receiver(r) => {
          let s = match selfkind.as_deref() {
            Some("ref") => "&self".to_string(),
            Some("mut") => "&mut self".to_string(),
            Some("own") => "self".to_string(),
            _ => {
              if r.colon_token.is_some() {
                // self: Pin<&mut Self> and the like
                let t = norm(&{ let t = &r.ty; quote::quote!(#t).to_string() });
                if t.contains("&mutSelf") { "&mut self".into() } else if t.contains("&Self") { "&self".into() } else { "self".into() }
              } else {
                quote::quote!(#r).to_string()
              }
            }
          };
          params.push(s);
        }
        syn::FnArg::Typed(t) => params.push(print::tokens(&quote::quote!(#t))),
      }
    }
    if tr {
      params.push("Tracked(tr): Tracked<&mut Tr>".into());
    }
    let ret = match &sig.output {
      syn::ReturnType::Default => String::new(),
      syn::ReturnType::Type(_, t) => format!(" -> (r: {})", print::tokens(&quote::quote!(#t))),
    };
    let gen = {
      let g = &sig.generics;
      let (ig, _, w) = g.split_for_impl();
      let g1 = print::tokens(&quote::quote!(#ig));
      let w1 = print::tokens(&quote::quote!(#w));
      (g1, w1)
    };
    let mut text = print::tokens(&quote::quote!(#block));
    text = rewrite::substitute(&text, &mut raws);
    let mut todo: Vec<String> = vec![text.clone(), contract.clone()];
    while let Some(t) = todo.pop() {
      for (n, def) in self.sources[&path].consts.clone() {
        if has_word(&t, &n) && !has_word(&self.out, &format!("const {}", n)) {
          self.out.push_str(&def);
          self.out.push('\n');
          todo.push(def);
        }
      }
    }
    self.out.push_str(&format!("//#BEGIN fn {} {}:{}-{}\n", sel, path, found.lines.0, found.lines.1));
    let (open, close) = match (&found.self_ty, &found.generics) {
      (Some(t), Some(g)) => {
        let mut t = t.clone();
        rewrite::TypeRw(&self.ctx).visit_type_mut(&mut t);
        let mut g = g.clone();
        rewrite::TypeRw(&self.ctx).visit_generics_mut(&mut g);
        let (ig, _, w) = g.split_for_impl();
        (
          format!("impl{} {} {} {{\n", print::tokens(&quote::quote!(#ig)), print::tokens(&quote::quote!(#t)), print::tokens(&quote::quote!(#w))),
          "}\n".to_string(),
        )
      }
      _ => (String::new(), String::new()),
    };
    if contract.trim().is_empty() {
      contract = String::new();
    }
    let attr = if external { "#[verifier::external_body]" } else { "#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]" };
    if external {
      text = "{ unimplemented!() }".into();
    }
    self.out.push_str(&format!(
      "{open}{attr}\npub fn {fname}{}({}){ret} {}\n{contract}\n{text}\n{close}",
      gen.0, params.join(", "), gen.1
    ));
    if probe && !external {
      self.out.push_str(&format!("//#END fn {}\n//#BEGIN fn {}/probe {}:{}-{}\n", sel, sel, path, found.lines.0, found.lines.1));
      self.out.push_str(&format!(
        "{open}{attr}\npub fn {fname}__probe{}({}){ret} {}\n{}\n{text}\n{close}",
        gen.0, params.join(", "), gen.1, falsified(&contract)
      ));
    }
    self.out.push_str(&format!("//#END fn {}\n", sel));
    if external {
      self.report.items.push(format!("{{\"kind\":\"external\",\"name\":{},\"file\":{}}}", jstr(&sel), jstr(&path)));
      return Ok(());
    }
    for t in &tasks {
      let mut b = print::tokens(&{ let b = &t.block; quote::quote!(#b) });
      b = rewrite::substitute(&b, &mut raws);
      self.out.push_str(&format!("//#BEGIN fn {}/task:{} {}:{}-{}\n", sel, t.name, path, found.lines.0, found.lines.1));
      self.out.push_str(&format!(
        "{open}#[verifier::exec_allows_no_decreases_clause]\n#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\npub fn {}\n{}\n{b}\n{close}",
        t.header, t.contract
      ));
      self.out.push_str(&format!("//#END fn {}/task:{}\n", sel, t.name));
    }
    for e in rw.soft.iter() {
      self.report.soft.push(format!("{}: {}", sel, e));
    }
    for e in errors.drain(..) {
      self.report.errors.push(format!("{}: {}", sel, e));
    }
    self.report.items.push(format!(
      "{{\"kind\":\"fn\",\"name\":{},\"file\":{},\"lines\":[{},{}],\"loops\":{},\"kinds\":{},\"dropped_macros\":{},\"inlined\":[{}],\"tasks\":{},\"bindings\":[{}],\"params\":[{}]}}",
      jstr(&sel), jstr(&path), found.lines.0, found.lines.1, loops, jstr(&kinds), dropped.len(),
      inlined.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","), tasks.len(),
      bindings.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
      here.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
    ));
    Ok(())
  }

  fn run(&mut self, text: &str) -> Result<(), String> {
    let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
    let mut i = 0;
    while i < lines.len() {
      let l = lines[i].trim_start().to_string();
      i += 1;
      let d = match l.strip_prefix("//@") {
        Some(d) => d.trim().to_string(),
        None => {
          self.out.push_str(&lines[i - 1]);
          self.out.push('\n');
          continue;
        }
      };
      let (cmd, args) = match d.split_once(' ') {
        Some((a, b)) => (a.to_string(), b.trim().to_string()),
        None => (d.clone(), String::new()),
      };
      match cmd.as_str() {
        "include" => {
          let t = fs::read_to_string(self.dir.join(&args)).map_err(|e| format!("{}: {}", args, e))?;
          self.run(&t)?;
        }
        "file" => {
          let (a, b) = args.split_once(' ').ok_or("bad //@file")?;
          self.files.insert(a.into(), b.trim().into());
        }
        "rename-method" => {
          let v: Vec<&str> = args.split_whitespace().collect();
          self.ctx.rename_method.insert(v[0].into(), v[1].into());
        }
        "rename-path" => {
          let v: Vec<&str> = args.split_whitespace().collect();
          self.ctx.rename_path.insert(v[0].into(), v[1].into());
        }
        "type-subst" => {
          let v: Vec<&str> = args.split('`').collect();
          self.ctx.type_subst.push((norm(v[1]), v[3].to_string()));
        }
        "trace-method" => {
          for a in args.split_whitespace() {
            self.ctx.trace_methods.insert(a.into());
          }
        }
        "trace-fn" => {
          for a in args.split_whitespace() {
            self.ctx.trace_fns.insert(a.into());
          }
        }
        "offer" => {
          for a in args.split_whitespace() {
            self.ctx.offers.insert(a.into());
            self.ctx.trace_methods.insert(format!("v_offer_{}", a));
          }
        }
        "known-fn" => {
          for a in args.split_whitespace() {
            self.ctx.known_fns.insert(a.into());
          }
        }
        "result-hint" => {
          self.ctx.result_hints.push(norm(&args));
        }
        "iter-hint" => {
          self.ctx.iter_hints.push(norm(&args));
        }
        "type" => {
          let v: Vec<&str> = args.split_whitespace().collect();
          if let Err(e) = self.emit_type(v[0], v[1], &v[2..]) {
            self.report.errors.push(e);
          }
        }
        "serde" => {
          let v: Vec<&str> = args.split_whitespace().collect();
          let except: Vec<String> = v[2..].iter().filter_map(|x| x.strip_prefix("except=")).map(|x| x.to_string()).collect();
          if let Err(e) = self.emit_serde(v[0], v[1], &except) {
            self.report.errors.push(e);
          }
        }
        // names of fields as texts: `//@keys depends_on=depends-on`
        "keys" => {
          for a in args.split_whitespace() {
            let (n, t) = a.split_once('=').unwrap_or((a, a));
            let k = self.keys.key(t);
            self.out.push_str(&format!("pub open spec fn k_{}() -> Seq<char> {{ {} }}\n", n, k));
          }
        }
        // an obligation about the derived code of a type: stated only where that code was extracted
        "about" => {
          let mut body = vec![];
          while i < lines.len() && lines[i].trim() != "//@end" {
            body.push(lines[i].clone());
            i += 1;
          }
          i += 1;
          let v: Vec<&str> = args.split_whitespace().collect();
          if let Err(e) = self.emit_about(v[0], v[1], v[2], &body) {
            self.report.errors.push(e);
          }
        }
        "fn" => {
          let mut body = vec![];
          while i < lines.len() && lines[i].trim() != "//@end" {
            body.push(lines[i].clone());
            i += 1;
          }
          i += 1;
          if let Err(e) = self.emit_fn(&args, &body) {
            self.report.errors.push(e);
          }
        }
        _ => return Err(format!("unknown directive {}", cmd)),
      }
    }
    Ok(())
  }
}

fn main() {
  let a: Vec<String> = std::env::args().collect();
  let unit = Path::new(&a[1]);
  let text = fs::read_to_string(unit).unwrap();
  let mut g = Gen {
    repo: PathBuf::from(&a[2]),
    dir: unit.parent().unwrap().to_path_buf(),
    files: BTreeMap::new(),
    sources: HashMap::new(),
    ctx: Ctx::default(),
    async_fns: HashMap::new(),
    out: String::new(),
    report: Report { items: vec![], errors: vec![], soft: vec![] },
    external: a[5..].iter().filter(|x| x.as_str() != "--probe").cloned().collect(),
    probe: a[5..].iter().any(|x| x == "--probe"),
    keys: serde::Keys::new(),
    unit: unit.file_stem().map(|s| s.to_string_lossy().to_string()).unwrap_or_default(),
  };
  // units/names.tsv: unit, function, parameters, local variables, loops
  if let Ok(t) = fs::read_to_string(g.dir.join("names.tsv")) {
    for l in t.lines() {
      let w: Vec<&str> = l.split('\t').collect();
      if w.len() == 5 {
        let list = |s: &str| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect::<Vec<_>>();
        g.ctx.names.insert(format!("{} {}", w[0], w[1]), (list(w[2]), list(w[3])));
      }
    }
  }
  // functions the unit takes itself are never inlined
  for l in text.lines() {
    if let Some(d) = l.trim_start().strip_prefix("//@fn ") {
      let w: Vec<&str> = d.split_whitespace().filter(|w| *w != "tr" && *w != "noprobe" && !w.contains('=')).collect();
      if let Some(s) = w.last() {
        g.ctx.unit_fns.insert(s.to_string());
      }
    }
  }
  if let Err(e) = g.run(&text) {
    g.report.errors.push(e);
  }
  // what happens when a value goes out of scope is in no contract
  for (path, src) in &g.sources {
    let mut all = vec![];
    items(&src.ast.items, &mut all);
    for it in all {
      if let syn::Item::Impl(im) = it {
        let of = im.trait_.as_ref().and_then(|t| t.1.segments.last()).map(|s| s.ident.to_string()).unwrap_or_default();
        let ty = last_ident(&im.self_ty);
        if of == "Drop" {
          g.report.errors.push(format!("{}: the destructor of {} is not part of any contract", path, ty));
        }
        // the contracts take the derived ones
        if ["PartialEq", "Hash", "Clone"].contains(&of.as_str()) && !["Error", "ContextPayload"].contains(&ty.as_str()) {
          g.report.errors.push(format!("{}: {} has its own {}, which is not part of any contract", path, ty, of));
        }
      }
    }
  }
  fs::write(&a[3], &g.out).unwrap();
  let j = format!(
    "{{\"items\":[{}],\"errors\":[{}],\"soft\":[{}]}}",
    g.report.items.join(","),
    g.report.errors.iter().map(|e| jstr(e)).collect::<Vec<_>>().join(","),
    g.report.soft.iter().map(|e| jstr(e)).collect::<Vec<_>>().join(",")
  );
  fs::write(&a[4], j).unwrap();
}
