//! The rewriting rules. See DESIGN.md, "What the extraction changes".
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::parse::{Parse, ParseStream, Parser};
use syn::punctuated::Punctuated;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Pat, Stmt, Token};

#[derive(Default)]
pub struct Ctx {
  pub rename_method: HashMap<String, String>,
  pub rename_path: HashMap<String, String>,
  pub type_subst: Vec<(String, String)>,
  pub trace_methods: HashSet<String>,
  pub trace_fns: HashSet<String>,
  /// methods whose use in a `select!` arm is announced to the contract of `v_select`
  pub offers: HashSet<String>,
  pub unit_fns: HashSet<String>,
  pub known_fns: HashSet<String>,
  /// names that stand for async functions wherever the repository defines them
  pub async_fns: HashSet<String>,
  pub result_hints: Vec<String>,
  pub iter_hints: Vec<String>,
  /// unit function -> (parameters, local variables) at the time its annotations were written
  pub names: HashMap<String, (Vec<String>, Vec<String>)>,
}

/// Pairs the names of the annotations' baseline with the current ones; `mut x` is a mutable variable.
pub fn align(old: &[String], new: &[String]) -> HashMap<String, String> {
  let plain = |s: &String| s.trim_start_matches("mut ").to_string();
  let (n, m) = (old.len(), new.len());
  let mut l = vec![vec![0usize; m + 1]; n + 1];
  for i in (0..n).rev() {
    for j in (0..m).rev() {
      l[i][j] = if plain(&old[i]) == plain(&new[j]) { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) };
    }
  }
  let mut pairs: Vec<(String, String)> = vec![];
  let (mut i, mut j) = (0, 0);
  let (mut go, mut gn): (Vec<String>, Vec<String>) = (vec![], vec![]);
  loop {
    let end = i >= n && j >= m;
    if end || (i < n && j < m && plain(&old[i]) == plain(&new[j])) {
      let is_mut = |s: &&String| s.starts_with("mut ");
      if go.len() == gn.len() {
        pairs.extend(go.iter().map(plain).zip(gn.iter().map(plain)));
      } else {
        let (a, b): (Vec<_>, Vec<_>) = (go.iter().filter(is_mut).collect(), gn.iter().filter(is_mut).collect());
        if a.len() == b.len() {
          pairs.extend(a.into_iter().map(plain).zip(b.into_iter().map(plain)));
        }
      }
      go.clear();
      gn.clear();
      if end {
        break;
      }
      pairs.push((plain(&old[i]), plain(&new[j])));
      i += 1;
      j += 1;
    } else if i < n && (j >= m || l[i + 1][j] >= l[i][j + 1]) {
      go.push(old[i].clone());
      i += 1;
    } else {
      gn.push(new[j].clone());
      j += 1;
    }
  }
  let mut map: HashMap<String, String> = HashMap::new();
  let mut clash = HashSet::new();
  for (a, b) in pairs {
    if let Some(x) = map.get(&a) {
      if x != &b {
        clash.insert(a.clone());
      }
    }
    map.insert(a, b);
  }
  map.retain(|a, b| a != b && !clash.contains(a));
  map
}

pub fn rename(text: &str, map: &HashMap<String, String>) -> String {
  if map.is_empty() {
    return text.to_string();
  }
  let c: Vec<char> = text.chars().collect();
  let word = |x: char| x.is_alphanumeric() || x == '_';
  let mut o = String::new();
  let mut i = 0;
  while i < c.len() {
    if !word(c[i]) {
      o.push(c[i]);
      i += 1;
      continue;
    }
    let s = i;
    while i < c.len() && word(c[i]) {
      i += 1;
    }
    let w: String = c[s..i].iter().collect();
    let field = s > 0 && c[s - 1] == '.' && !(s > 1 && c[s - 2] == '.');
    let path = s > 1 && c[s - 1] == ':' && c[s - 2] == ':';
    let label = i < c.len() && c[i] == ':' && c.get(i + 1) != Some(&':');
    match map.get(&w) {
      Some(r) if !field && !path && !label => o.push_str(r),
      _ => o.push_str(&w),
    }
  }
  o
}

fn norm(s: &str) -> String {
  s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn txt<T: ToTokens>(t: &T) -> String {
  norm(&t.to_token_stream().to_string())
}

// ---------------------------------------------------------------- cfg

pub fn cfg_on(attrs: &[syn::Attribute]) -> bool {
  attrs.iter().all(|a| {
    if !a.path().is_ident("cfg") {
      return true;
    }
    match &a.meta {
      syn::Meta::List(l) => cfg_eval(&norm(&l.tokens.to_string())),
      _ => true,
    }
  })
}

/// The configuration in which the code is verified: unix, no tests, no coverage tool.
fn cfg_eval(s: &str) -> bool {
  if let Some(x) = s.strip_prefix("not(").and_then(|x| x.strip_suffix(')')) {
    return !cfg_eval(x);
  }
  match s {
    "test" | "verif" | "tarpaulin_include" | "windows" | "target_os=\"windows\"" => false,
    _ => true,
  }
}

pub fn clean_item(it: &mut syn::Item) {
  struct C;
  impl VisitMut for C {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
      a.clear();
    }
    fn visit_field_mut(&mut self, f: &mut syn::Field) {
      f.attrs.clear();
      f.vis = parse_quote!(pub);
      visit_mut::visit_field_mut(self, f);
    }
    fn visit_variant_mut(&mut self, v: &mut syn::Variant) {
      v.attrs.clear();
      for f in v.fields.iter_mut() {
        f.attrs.clear();
        f.vis = syn::Visibility::Inherited;
      }
    }
  }
  C.visit_item_mut(it);
  match it {
    syn::Item::Struct(s) => {
      s.attrs.clear();
      s.vis = parse_quote!(pub);
    }
    syn::Item::Enum(s) => {
      s.attrs.clear();
      s.vis = parse_quote!(pub);
    }
    syn::Item::Type(s) => {
      s.attrs.clear();
      s.vis = parse_quote!(pub);
    }
    _ => {}
  }
}

/// `mut self` and `mut x: T` parameters: the body starts with `let mut x = x;`.
pub fn own_params(sig: &mut syn::Signature, block: &mut syn::Block) {
  fn map(t: TokenStream) -> TokenStream {
    t.into_iter()
      .map(|x| match x {
        proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(Ident::new("v_self", i.span())),
        proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), map(g.stream()))),
        x => x,
      })
      .collect()
  }
  let mut pre: Vec<Stmt> = vec![];
  for p in sig.inputs.iter_mut() {
    match p {
      syn::FnArg::Receiver(r) if r.reference.is_none() && r.mutability.is_some() => {
        r.mutability = None;
        let t = map(block.to_token_stream());
        *block = syn::parse2(t).unwrap();
        pre.push(parse_quote!(let mut v_self = self;));
      }
      syn::FnArg::Typed(t) => {
        if let Pat::Ident(i) = &mut *t.pat {
          if i.mutability.is_some() && i.by_ref.is_none() {
            i.mutability = None;
            let n = i.ident.clone();
            pre.push(parse_quote!(let mut #n = #n;));
          }
        }
      }
      _ => {}
    }
  }
  pre.extend(block.stmts.drain(..));
  block.stmts = pre;
}

// ---------------------------------------------------------------- paths and types

fn lower(s: &str) -> bool {
  s.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false)
}

/// `a::b::Type`, `a::b::Type::f` -> `Type`, `Type::f`; `crate::f` -> `f`; other module paths of
/// functions are kept.
fn strip_path(p: &mut syn::Path) {
  p.leading_colon = None;
  let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
  let k = names.iter().position(|n| !lower(n) || n == "Self");
  let cut = match k {
    Some(k) => k,
    None => names
      .iter()
      .take(names.len() - 1)
      .take_while(|n| ["crate", "self", "super", "astro_run", "astro_run_protocol", "tokio", "std"].contains(&n.as_str()))
      .count(),
  };
  if cut > 0 && cut < p.segments.len() {
    let segs: Punctuated<syn::PathSegment, Token![::]> = p.segments.iter().skip(cut).cloned().collect();
    p.segments = segs;
  }
}

pub struct TypeRw<'a>(pub &'a Ctx);

impl<'a> VisitMut for TypeRw<'a> {
  fn visit_type_mut(&mut self, t: &mut syn::Type) {
    let s = txt(t);
    for (a, b) in &self.0.type_subst {
      if &s == a {
        *t = syn::parse_str(b).unwrap();
        return;
      }
    }
    visit_mut::visit_type_mut(self, t);
    let s = txt(t);
    for (a, b) in &self.0.type_subst {
      if &s == a {
        *t = syn::parse_str(b).unwrap();
        return;
      }
    }
  }
  fn visit_path_mut(&mut self, p: &mut syn::Path) {
    strip_path(p);
    visit_mut::visit_path_mut(self, p);
  }
  fn visit_type_param_bound_mut(&mut self, b: &mut syn::TypeParamBound) {
    let s = txt(b);
    for (x, y) in &self.0.type_subst {
      if &s == x {
        *b = syn::parse_str(y).unwrap();
        return;
      }
    }
    visit_mut::visit_type_param_bound_mut(self, b);
  }
  fn visit_where_clause_mut(&mut self, w: &mut syn::WhereClause) {
    let keep: Punctuated<syn::WherePredicate, Token![,]> = w
      .predicates
      .iter()
      .filter(|p| !txt(p).starts_with("Self:"))
      .cloned()
      .collect();
    w.predicates = keep;
    visit_mut::visit_where_clause_mut(self, w);
  }
  fn visit_generics_mut(&mut self, g: &mut syn::Generics) {
    visit_mut::visit_generics_mut(self, g);
    fn drop_auto(b: &mut Punctuated<syn::TypeParamBound, Token![+]>) {
      let keep: Punctuated<syn::TypeParamBound, Token![+]> = b
        .iter()
        .filter(|x| {
          let s = txt(*x);
          s != "Send" && s != "Sync" && s != "'static"
        })
        .cloned()
        .collect();
      *b = keep;
    }
    for p in g.params.iter_mut() {
      if let syn::GenericParam::Type(t) = p {
        drop_auto(&mut t.bounds);
      }
    }
    if let Some(w) = &mut g.where_clause {
      for p in w.predicates.iter_mut() {
        if let syn::WherePredicate::Type(t) = p {
          drop_auto(&mut t.bounds);
        }
      }
    }
  }
}

// ---------------------------------------------------------------- annotations

#[derive(Default, Clone)]
pub struct Annot {
  pub contract: String,
  pub sections: BTreeMap<String, String>,
}

impl Annot {
  pub fn parse(lines: &[String]) -> Result<Annot, String> {
    let mut a = Annot::default();
    let mut cur: Option<String> = None;
    for l in lines {
      if let Some(d) = l.trim_start().strip_prefix("//@") {
        cur = Some(d.trim().to_string());
        a.sections.insert(d.trim().to_string(), String::new());
        continue;
      }
      match &cur {
        None => {
          a.contract.push_str(l);
          a.contract.push('\n');
        }
        Some(c) => {
          let e = a.sections.get_mut(c).unwrap();
          e.push_str(l);
          e.push('\n');
        }
      }
    }
    Ok(a)
  }
  fn get(&self, k: &str) -> Option<&String> {
    self.sections.get(k)
  }
}

#[derive(Clone)]
pub struct Task {
  pub name: String,
  pub header: String,
  pub contract: String,
  pub block: syn::Block,
}

pub fn substitute(text: &str, raws: &mut Vec<String>) -> String {
  let mut t = text.to_string();
  for _ in 0..6 {
    if !t.contains("__v") {
      break;
    }
    for (k, r) in raws.iter().enumerate() {
      // loop headers: `{ __vinv_K!();` -> `INV {`
      for sp in [" ", ""] {
        let pat = format!("__vinv_{} !{}() ;", k, sp);
        if let Some(p) = t.find(&pat) {
          let b = t[..p].rfind('{').unwrap();
          t = format!("{}\n{}\n{{{}", &t[..b], r, &t[p + pat.len()..]);
        }
      }
      for pat in [format!("__vraw_{} ! () ;", k), format!("__vraw_{} ! ()", k), format!("__vraw_{} !() ;", k), format!("__vraw_{} !()", k)] {
        if t.contains(&pat) {
          t = t.replace(&pat, r);
        }
      }
    }
  }
  t
}

// ---------------------------------------------------------------- select!

struct Arm {
  pat: Pat,
  fut: Expr,
  guard: Option<Expr>,
  body: Expr,
}
struct Select {
  arms: Vec<Arm>,
}
impl Parse for Select {
  fn parse(i: ParseStream) -> syn::Result<Self> {
    let mut arms = vec![];
    if i.peek(syn::Ident) && i.peek2(Token![;]) {
      let _: syn::Ident = i.parse()?; // biased
      let _: Token![;] = i.parse()?;
    }
    while !i.is_empty() {
      if i.peek(Token![else]) {
        return Err(i.error("select! with else"));
      }
      let pat = Pat::parse_multi(i)?;
      let _: Token![=] = i.parse()?;
      let fut: Expr = i.parse()?;
      let mut guard = None;
      if i.peek(Token![,]) {
        let _: Token![,] = i.parse()?;
        let _: Token![if] = i.parse()?;
        guard = Some(i.parse()?);
      }
      let _: Token![=>] = i.parse()?;
      let body: Expr = if i.peek(syn::token::Brace) {
        let b: syn::Block = i.parse()?;
        Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b })
      } else {
        i.parse()?
      };
      if i.peek(Token![,]) {
        let _: Token![,] = i.parse()?;
      }
      arms.push(Arm { pat, fut, guard, body });
    }
    Ok(Select { arms })
  }
}

fn irrefutable(p: &Pat) -> bool {
  match p {
    Pat::Wild(_) => true,
    Pat::Ident(x) => x.subpat.is_none() && lower(&x.ident.to_string()),
    Pat::Tuple(t) => t.elems.iter().all(irrefutable),
    Pat::Paren(p) => irrefutable(&p.pat),
    Pat::Type(t) => irrefutable(&t.pat),
    _ => false,
  }
}

// ---------------------------------------------------------------- the rewriter

pub struct Rw<'a> {
  ctx: &'a Ctx,
  annot: Annot,
  tr: bool,
  ty: Option<String>,
  helpers: Vec<(Option<String>, syn::Signature, syn::Block)>,
  pub errors: Vec<String>,
  /// annotations without a place in the current function: its proof may still succeed without them
  pub soft: Vec<String>,
  pub raws: Vec<String>,
  pub tasks: Vec<Task>,
  pub dropped: Vec<String>,
  pub inlined: Vec<String>,
  /// the function is clean already: what is inlined into it must be cleaned by itself
  late: bool,
  pub bindings: Vec<String>,
  pub names: Vec<String>,
  pub params: Vec<String>,
  pub base: Option<(Vec<String>, Vec<String>)>,
  pub loops_seen: usize,
  pub loop_kinds: String,
  closures: usize,
  selects: usize,
  spawns: usize,
  fname: String,
}

const LOGS: [&str; 5] = ["trace", "debug", "info", "warn", "error"];

fn is_log(m: &syn::Macro) -> bool {
  let s: Vec<String> = m.path.segments.iter().map(|x| x.ident.to_string()).collect();
  (s.len() == 2 && s[0] == "log" && LOGS.contains(&s[1].as_str()))
    || (s.len() == 1 && ["println", "eprintln", "debug_assert"].contains(&s[0].as_str()))
}

impl<'a> Rw<'a> {
  pub fn new(ctx: &'a Ctx, annot: Annot, tr: bool, fname: String, ty: Option<String>, helpers: Vec<(Option<String>, syn::Signature, syn::Block)>) -> Self {
    Rw { ctx, annot, tr, ty, helpers, errors: vec![], soft: vec![], raws: vec![], tasks: vec![], dropped: vec![], inlined: vec![], late: false, bindings: vec![], names: vec![], params: vec![], base: None, loops_seen: 0, loop_kinds: String::new(), closures: 0, selects: 0, spawns: 0, fname }
  }

  fn raw_stmt(&mut self, text: &str) -> Stmt {
    let id = format_ident!("__vraw_{}", self.raws.len());
    self.raws.push(text.to_string());
    parse_quote!(#id!();)
  }
  fn raw_expr(&mut self, text: &str) -> Expr {
    let id = format_ident!("__vraw_{}", self.raws.len());
    self.raws.push(text.to_string());
    parse_quote!(#id!())
  }
  fn inv_stmt(&mut self, text: &str) -> Stmt {
    let id = format_ident!("__vinv_{}", self.raws.len());
    self.raws.push(text.to_string());
    parse_quote!(#id!();)
  }
  fn sec(&self, k: &str) -> Option<String> {
    self.annot.get(k).cloned()
  }

  pub fn run(&mut self, b: &mut syn::Block) {
    for _ in 0..4 {
      let mut inl = Inline { rw: self, any: false, under_try: false };
      inl.tail(b);
      if !inl.any {
        break;
      }
    }
    for _ in 0..4 {
      let mut inl = Inline { rw: self, any: false, under_try: false };
      inl.visit_block_mut(b);
      if !inl.any {
        break;
      }
    }
    Clean { rw: self }.visit_block_mut(b);
    // calls of helpers inside of macros come to light only now
    for _ in 0..4 {
      self.late = true;
      let mut inl = Inline { rw: self, any: false, under_try: false };
      inl.visit_block_mut(b);
      if !inl.any {
        break;
      }
    }
    self.late = false;
    let mut bn = Bind { v: vec![] };
    bn.visit_block(b);
    self.bindings = bn.v.iter().map(|s| s.trim_start_matches("mut ").to_string()).collect();
    self.names = bn.v;
    if let Some(base) = self.base.clone() {
      // annotations speak of local variables under the names they had when they were written
      let locals = align(&base.1, &self.names);
      let params = align(&base.0, &self.params);
      for (k, t) in self.annot.sections.iter_mut() {
        let mut map = params.clone();
        if k != "start" {
          for x in base.1.iter().map(|s| s.trim_start_matches("mut ").to_string()) {
            map.remove(&x);
          }
          map.extend(locals.clone());
        }
        *t = rename(t, &map);
      }
    }
    // annotations that surround the body
    self.visit_block_mut(b);
    if let Some(t) = self.sec("tail") {
      let s = self.raw_stmt(&t);
      let n = b.stmts.len();
      let tail_is_expr = matches!(b.stmts.last(), Some(Stmt::Expr(_, None)));
      // the annotation sees the state in which the function returns
      let plain = matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Path(_), None)) | Some(Stmt::Expr(Expr::Lit(_), None)));
      if tail_is_expr && plain {
        b.stmts.insert(n - 1, s)
      } else if tail_is_expr {
        if let Some(Stmt::Expr(x, None)) = b.stmts.pop() {
          b.stmts.push(parse_quote!(let v_tail = #x;));
          b.stmts.push(s);
          b.stmts.push(Stmt::Expr(parse_quote!(v_tail), None));
        }
      } else {
        b.stmts.push(s)
      }
    }
    if let Some(t) = self.sec("start") {
      let s = self.raw_stmt(&t);
      b.stmts.insert(0, s);
    }
    let keys: Vec<String> = self.annot.sections.keys().cloned().collect();
    for k in keys {
      let w: Vec<&str> = k.split_whitespace().collect();
      let n: usize = w.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
      let bad = match w[0] {
        "loop" | "loop-start" | "loop-end" | "before-loop" | "after-loop" => n == 0 || n > self.loops_seen,
        "closure" => n == 0 || n > self.closures,
        "task" => n == 0 || n > self.spawns,
        "start" | "tail" => false,
        _ => true,
      };
      if !["loop", "loop-start", "loop-end", "before-loop", "after-loop", "closure", "task", "start", "tail"].contains(&w[0]) {
        self.errors.push(format!("unknown section `{}`", k));
      } else if bad && w[0] == "task" {
        self.errors.push(format!("annotation `{}` does not fit the function any more (tasks {})", k, self.spawns));
      } else if bad {
        self.soft.push(format!("annotation `{}` does not fit the function any more (loops {}, closures {}, tasks {})", k, self.loops_seen, self.closures, self.spawns));
      }
    }
  }

  pub fn clear_sections(&mut self) {
    self.annot.sections.clear();
  }

  fn trace_arg(&self) -> Expr {
    parse_quote!(Tracked(tr))
  }
}

struct Bind {
  v: Vec<String>,
}
impl<'ast> Visit<'ast> for Bind {
  fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
    if lower(&p.ident.to_string()) {
      let m = if p.mutability.is_some() { "mut " } else { "" };
      self.v.push(format!("{}{}", m, p.ident));
    }
    syn::visit::visit_pat_ident(self, p);
  }
}

// ------------------------------------------------ inlining of helpers without a contract

struct Inline<'r, 'a> {
  rw: &'r mut Rw<'a>,
  any: bool,
  under_try: bool,
}

struct HasReturn {
  ret: bool,
  ret_err_only: bool,
  q: bool,
}
impl<'ast> Visit<'ast> for HasReturn {
  fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
    self.ret = true;
    let ok = match &r.expr {
      Some(e) => txt(e).starts_with("Err("),
      None => false,
    };
    if !ok {
      self.ret_err_only = false;
    }
    syn::visit::visit_expr_return(self, r);
  }
  fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
    self.q = true;
    syn::visit::visit_expr_try(self, t);
  }
  fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
  fn visit_expr_async(&mut self, _: &'ast syn::ExprAsync) {}
  fn visit_item(&mut self, _: &'ast syn::Item) {}
}

fn returns(b: &syn::Block) -> HasReturn {
  let mut h = HasReturn { ret: false, ret_err_only: true, q: false };
  h.visit_block(b);
  h
}

/// `if c { ..; return x; } rest` -> `if c { ..; x } else { rest }`, `return x;` at the end -> `x`.
fn eliminate(b: &syn::Block) -> syn::Block {
  let mut out: Vec<Stmt> = vec![];
  let n = b.stmts.len();
  for (i, s) in b.stmts.iter().enumerate() {
    match s {
      Stmt::Expr(Expr::Return(r), _) => {
        match &r.expr {
          Some(e) => out.push(Stmt::Expr((**e).clone(), None)),
          None => {}
        }
        return syn::Block { brace_token: b.brace_token, stmts: out };
      }
      Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() && ends_in_return(&f.then_branch) => {
        let rest = syn::Block { brace_token: b.brace_token, stmts: b.stmts[i + 1..].to_vec() };
        let rest = eliminate(&rest);
        let then = eliminate(&f.then_branch);
        let c = &f.cond;
        out.push(Stmt::Expr(parse_quote!(if #c #then else #rest), None));
        return syn::Block { brace_token: b.brace_token, stmts: out };
      }
      Stmt::Expr(Expr::If(f), semi) if i + 1 == n => {
        let mut f = f.clone();
        f.then_branch = eliminate(&f.then_branch);
        if let Some((_, e)) = &mut f.else_branch {
          if let Expr::Block(x) = &mut **e {
            x.block = eliminate(&x.block);
          }
        }
        out.push(Stmt::Expr(Expr::If(f), *semi));
      }
      Stmt::Expr(Expr::Match(m), semi) if i + 1 == n => {
        let mut m = m.clone();
        for a in m.arms.iter_mut() {
          if let Expr::Return(r) = &*a.body {
            if let Some(e) = &r.expr {
              a.body = e.clone();
            }
          } else if let Expr::Block(x) = &mut *a.body {
            x.block = eliminate(&x.block);
          }
        }
        out.push(Stmt::Expr(Expr::Match(m), *semi));
      }
      _ => out.push(s.clone()),
    }
  }
  syn::Block { brace_token: b.brace_token, stmts: out }
}

fn ends_in_return(b: &syn::Block) -> bool {
  matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}

impl<'r, 'a> Inline<'r, 'a> {
  /// A helper whose result is the result of the function: its early returns are those of the function.
  fn tail(&mut self, b: &mut syn::Block) {
    if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
      if semi.is_none() || matches!(e, Expr::Return(_)) {
        self.tail_expr(e);
      }
    }
  }
  fn tail_expr(&mut self, e: &mut Expr) {
    match e {
      Expr::Return(r) => {
        if let Some(x) = &mut r.expr {
          self.tail_expr(x);
        }
      }
      Expr::Block(b) if b.label.is_none() => self.tail(&mut b.block),
      Expr::If(f) => {
        self.tail(&mut f.then_branch);
        if let Some((_, x)) = &mut f.else_branch {
          self.tail_expr(x);
        }
      }
      Expr::Match(m) => {
        for a in m.arms.iter_mut() {
          self.tail_expr(&mut a.body);
        }
      }
      Expr::Await(a) => {
        if matches!(&*a.base, Expr::Call(_) | Expr::MethodCall(_)) {
          let mut x = (*a.base).clone();
          let before = self.rw.inlined.len();
          self.tail_expr(&mut x);
          if self.rw.inlined.len() > before {
            *e = x;
          }
        }
      }
      Expr::Call(_) | Expr::MethodCall(_) => {
        if let Some((name, s, body, args)) = self.callee(e) {
          if returns(&eliminate(&body)).ret || returns(&body).q {
            if let Some(n) = self.paste(&name, s, body, args) {
              *e = n;
            }
          }
        }
      }
      _ => {}
    }
  }
  /// The helper of the same file that is called here, with its arguments.
  fn callee(&self, e: &Expr) -> Option<(String, syn::Signature, syn::Block, Vec<Expr>)> {
    let ty = self.rw.ty.clone();
    match e {
      Expr::MethodCall(m) if txt(&m.receiver) == "self" => {
        let (s, b) = self.lookup(Some(&ty?), &m.method.to_string())?;
        Some((m.method.to_string(), s, b, m.args.iter().cloned().collect()))
      }
      Expr::Call(c) => {
        if let Expr::Path(p) = &*c.func {
          let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
          let name = segs.last()?.clone();
          let (s, b) = if segs.len() == 1 {
            self.lookup(None, &name)?
          } else if segs.len() == 2 && (segs[0] == "Self" || Some(&segs[0]) == ty.as_ref()) {
            self.lookup(Some(&ty?), &name)?
          } else if segs.len() == 2 && (segs[0] == "super" || segs[0] == "self") {
            self.lookup(None, &name)?
          } else {
            return None;
          };
          if s.receiver().is_some() {
            return None;
          }
          return Some((name, s, b, c.args.iter().cloned().collect()));
        }
        None
      }
      _ => None,
    }
  }

  fn lookup(&self, ty: Option<&str>, name: &str) -> Option<(syn::Signature, syn::Block)> {
    let full = match ty {
      Some(t) => format!("{}::{}", t, name),
      None => name.to_string(),
    };
    if self.rw.ctx.unit_fns.contains(&full) || self.rw.ctx.known_fns.contains(&full) || name == self.rw.fname {
      return None;
    }
    let c: Vec<_> = self
      .rw
      .helpers
      .iter()
      .filter(|(t, s, _)| t.as_deref() == ty && s.ident == name)
      .collect();
    if c.len() == 1 {
      Some((c[0].1.clone(), c[0].2.clone()))
    } else {
      None
    }
  }

  fn expand(&mut self, name: &str, sig: syn::Signature, body: syn::Block, args: Vec<Expr>) -> Option<Expr> {
    let body = eliminate(&body);
    let h = returns(&body);
    if h.ret && !(self.under_try && h.ret_err_only) {
      self.rw.errors.push(format!("helper `{}` has no contract and cannot be inlined (early return)", name));
      return None;
    }
    if h.q && !self.under_try {
      self.rw.errors.push(format!("helper `{}` has no contract and cannot be inlined (`?`)", name));
      return None;
    }
    self.paste(name, sig, body, args)
  }

  fn paste(&mut self, name: &str, sig: syn::Signature, body: syn::Block, args: Vec<Expr>) -> Option<Expr> {
    let mut pats: Vec<Pat> = vec![];
    for p in &sig.inputs {
      if let syn::FnArg::Typed(t) = p {
        pats.push((*t.pat).clone());
      }
    }
    if pats.len() != args.len() {
      return None;
    }
    self.rw.inlined.push(name.to_string());
    self.any = true;
    let mut body = body;
    if self.rw.late {
      Clean { rw: &mut *self.rw }.visit_block_mut(&mut body);
    }
    let stmts = &body.stmts;
    // `impl Into<String>` parameters keep their argument as it is
    Some(match pats.len() {
      0 => parse_quote!({ #(#stmts)* }),
      1 => {
        let (p, a) = (&pats[0], &args[0]);
        parse_quote!({ let #p = #a; #(#stmts)* })
      }
      _ => parse_quote!({ let (#(#pats),*) = (#(#args),*); #(#stmts)* }),
    })
  }
}

impl<'r, 'a> VisitMut for Inline<'r, 'a> {
  fn visit_expr_try_mut(&mut self, t: &mut syn::ExprTry) {
    let is_call = match &*t.expr {
      Expr::Call(_) | Expr::MethodCall(_) => true,
      Expr::Await(a) => matches!(&*a.base, Expr::Call(_) | Expr::MethodCall(_)),
      _ => false,
    };
    if is_call {
      let old = self.under_try;
      self.under_try = true;
      self.visit_expr_mut(&mut t.expr);
      self.under_try = old;
    } else {
      visit_mut::visit_expr_try_mut(self, t);
    }
  }
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    let ut = self.under_try;
    let mut new = None;
    if let Some((name, s, b, args)) = self.callee(e) {
      new = self.expand(&name, s, b, args);
    }
    if let Some(n) = new {
      *e = n;
      return;
    }
    if ut && !matches!(e, Expr::Await(_)) {
      self.under_try = false;
    }
    match e {
      Expr::Try(t) => self.visit_expr_try_mut(t),
      _ => visit_mut::visit_expr_mut(self, e),
    }
    self.under_try = ut;
  }
}

// ------------------------------------------------ macros, cfg, await, select

struct Clean<'r, 'a> {
  rw: &'r mut Rw<'a>,
}

impl<'r, 'a> Clean<'r, 'a> {
  /// a call of one of the repository's async functions, without `.await`
  fn unawaited(&self, e: &Expr) -> bool {
    let name = match e {
      Expr::MethodCall(m) => m.method.to_string(),
      Expr::Call(c) => match &*c.func {
        Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => return false,
      },
      _ => return false,
    };
    self.rw.ctx.async_fns.contains(&name)
  }

  fn fmt_pieces(&mut self, ts: TokenStream) -> Option<Expr> {
    let args = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(ts).ok()?;
    let mut it = args.into_iter();
    let lit = match it.next() {
      None => return Some(parse_quote!(v_lit(""))),
      Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(),
      _ => return None,
    };
    let rest: Vec<Expr> = it.collect();
    let mut next = 0;
    let mut parts: Vec<Expr> = vec![];
    let mut cur = String::new();
    let cs: Vec<char> = lit.chars().collect();
    let mut i = 0;
    while i < cs.len() {
      match cs[i] {
        '{' if cs.get(i + 1) == Some(&'{') => {
          cur.push('{');
          i += 2;
        }
        '}' => {
          cur.push('}');
          i += 2;
        }
        '{' => {
          let j = (i..cs.len()).find(|j| cs[*j] == '}')?;
          let spec: String = cs[i + 1..j].iter().collect();
          i = j + 1;
          let (name, f) = match spec.split_once(':') {
            Some((n, f)) => (n.to_string(), f.to_string()),
            None => (spec, String::new()),
          };
          let arg: Expr = if name.is_empty() {
            next += 1;
            rest.get(next - 1)?.clone()
          } else if let Ok(k) = name.parse::<usize>() {
            rest.get(k)?.clone()
          } else {
            let mut found = None;
            for r in &rest {
              if let Expr::Assign(a) = r {
                if txt(&a.left) == name {
                  found = Some((*a.right).clone());
                }
              }
            }
            match found {
              Some(e) => e,
              None => {
                let id = Ident::new(&name, Span::call_site());
                parse_quote!(#id)
              }
            }
          };
          if !cur.is_empty() {
            let c = std::mem::take(&mut cur);
            parts.push(parse_quote!(v_lit(#c)));
          }
          // An argument such as `n % 10` binds less tightly than the `&` in
          // front of it.
          let arg: Expr = match arg {
            Expr::Binary(_) | Expr::Cast(_) | Expr::Range(_) | Expr::Closure(_) => {
              parse_quote!((#arg))
            }
            other => other,
          };
          match f.as_str() {
            "" => parts.push(parse_quote!(v_disp(&#arg))),
            "?" | "#?" => parts.push(parse_quote!(v_dbg(&#arg))),
            _ => parts.push(parse_quote!(v_fmt(#f, &#arg))),
          }
        }
        c => {
          cur.push(c);
          i += 1;
        }
      }
    }
    if !cur.is_empty() {
      parts.push(parse_quote!(v_lit(#cur)));
    }
    let mut p = parts.into_iter();
    let first = p.next().unwrap_or(parse_quote!(v_lit("")));
    Some(p.fold(first, |a, b| parse_quote!(v_cat(#a, #b))))
  }

  fn expand_macro(&mut self, m: &syn::Macro) -> Option<Expr> {
    let name = m.path.segments.last().unwrap().ident.to_string();
    if is_log(m) {
      self.rw.dropped.push(m.to_token_stream().to_string());
      return Some(parse_quote!({}));
    }
    match name.as_str() {
      "format" => self.fmt_pieces(m.tokens.clone()),
      "write" => {
        let args = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok()?;
        let f = args.first()?.clone();
        let rest: Punctuated<Expr, Token![,]> = args.into_iter().skip(1).collect();
        let s = self.fmt_pieces(quote!(#rest))?;
        Some(parse_quote!(#f.v_write(#s)))
      }
      "matches" => {
        let (e, p, g) = parse_matches.parse2(m.tokens.clone()).ok()?;
        Some(match g {
          Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
          None => parse_quote!(match #e { #p => true, _ => false }),
        })
      }
      "panic" | "unreachable" | "unimplemented" | "todo" => Some(parse_quote!(v_panic())),
      "select" => {
        let sel: Select = match syn::parse2(m.tokens.clone()) {
          Ok(s) => s,
          Err(e) => {
            self.rw.errors.push(format!("unsupported select!: {}", e));
            return Some(parse_quote!({}));
          }
        };
        self.rw.selects += 1;
        let n = sel.arms.len();
        let var = format_ident!("v_sel{}", self.rw.selects);
        let mut e: Option<Expr> = None;
        let mut offers: Vec<Stmt> = vec![];
        for (k, a) in sel.arms.into_iter().enumerate().rev() {
          let Arm { pat, fut, guard, body } = a;
          let on: Expr = guard.clone().unwrap_or(parse_quote!(true));
          match &fut {
            Expr::MethodCall(m) if self.rw.ctx.offers.contains(&m.method.to_string()) => {
              let r = &m.receiver;
              let f = format_ident!("v_offer_{}", m.method);
              offers.push(parse_quote!(#r.#f(#on);));
            }
            Expr::Reference(r) if self.rw.ctx.trace_fns.contains("v_offer") => {
              let p = &r.expr;
              offers.push(parse_quote!(v_offer(&#p, #on);));
            }
            _ => {}
          }
          let fut: Expr = match &fut {
            Expr::Call(_) | Expr::MethodCall(_) => fut,
            _ => parse_quote!(v_poll(#fut)),
          };
          let g: Vec<Stmt> = match guard {
            Some(g) => vec![parse_quote!(if !(#g) { v_disabled(); })],
            None => vec![],
          };
          let inner: Expr = if irrefutable(&pat) {
            parse_quote!({ #(#g)* let #pat = #fut; #body })
          } else {
            parse_quote!({ #(#g)* match #fut { #pat => #body, _ => v_select_pattern_failed() } })
          };
          e = Some(match e {
            None => inner,
            Some(e) => {
              let k = proc_macro2::Literal::usize_unsuffixed(k);
              parse_quote!(if #var == #k #inner else { #e })
            }
          });
        }
        let e = e?;
        let n = proc_macro2::Literal::usize_unsuffixed(n);
        Some(parse_quote!({ #(#offers)* let #var: usize = v_select(#n); #e }))
      }
      "vec" => {
        // arguments are ordinary expressions
        let args = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok()?;
        if args.is_empty() {
          Some(parse_quote!(Vec::new()))
        } else {
          let args: Vec<Expr> = args.into_iter().collect();
          Some(parse_quote!({ let mut v_v = Vec::new(); #(v_v.push(#args);)* v_v }))
        }
      }
      _ => None,
    }
  }
}

impl<'r, 'a> VisitMut for Clean<'r, 'a> {
  fn visit_block_mut(&mut self, b: &mut syn::Block) {
    let mut out = vec![];
    for s in b.stmts.drain(..) {
      let attrs: Vec<syn::Attribute> = match &s {
        Stmt::Local(l) => l.attrs.clone(),
        Stmt::Expr(e, _) => expr_attrs(e),
        Stmt::Macro(m) => m.attrs.clone(),
        _ => vec![],
      };
      if !cfg_on(&attrs) {
        continue;
      }
      match s {
        Stmt::Macro(m) => {
          let last = m.mac.path.segments.last().unwrap().ident.to_string();
          if is_log(&m.mac) {
            self.rw.dropped.push(m.mac.to_token_stream().to_string());
            continue;
          }
          if last == "pin" {
            // tokio::pin!(x): pinning has no effect on the value
            if let Ok(x) = syn::parse2::<syn::Ident>(m.mac.tokens.clone()) {
              out.push(syn::parse_quote!(let mut #x = #x;));
            }
            continue;
          }
          match self.expand_macro(&m.mac) {
            Some(e) => out.push(Stmt::Expr(e, m.semi_token)),
            None => out.push(Stmt::Macro(m)),
          }
        }
        Stmt::Local(l) if matches!(l.pat, Pat::Wild(_)) && l.init.as_ref().is_some_and(|i| self.unawaited(&i.expr)) => {
          self.rw.dropped.push(format!("never awaited: {}", l.to_token_stream()));
        }
        Stmt::Local(mut l) => {
          l.attrs.clear();
          out.push(Stmt::Local(l));
        }
        Stmt::Item(syn::Item::Use(_)) => {}
        // a future that is dropped without being awaited does nothing
        Stmt::Expr(e, Some(_)) if self.unawaited(&e) => {
          self.rw.dropped.push(format!("never awaited: {}", e.to_token_stream()));
        }
        s => out.push(s),
      }
    }
    b.stmts = out;
    visit_mut::visit_block_mut(self, b);
    // a block under #[cfg(unix)] is an ordinary block statement
  }
  fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
    a.clear();
  }
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    // `drop(x)`: the value ends here
    if let Expr::Call(c) = e {
      if let (Expr::Path(f), Some(Expr::Path(x)), 1) = (&*c.func, c.args.first(), c.args.len()) {
        if f.path.segments.last().is_some_and(|s| s.ident == "drop") && x.path.get_ident().is_some() {
          *e = parse_quote!({ let v_dropped = #x; });
          return;
        }
      }
    }
    if let Expr::Macro(m) = e {
      if let Some(n) = self.expand_macro(&m.mac) {
        *e = n;
      }
    }
    if let Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(b), .. }) = e {
      if let Ok(t) = String::from_utf8(b.value()) {
        *e = parse_quote!(v_bytes(#t));
        return;
      }
    }
    // `Ok(()) as Result<()>` only names the type
    if let Expr::Cast(c) = e {
      if txt(&c.ty).starts_with("Result<") {
        *e = (*c.expr).clone();
        self.visit_expr_mut(e);
        return;
      }
    }
    if let Expr::Await(a) = e {
      let base = (*a.base).clone();
      *e = match &base {
        Expr::Path(_) | Expr::Field(_) | Expr::Reference(_) => parse_quote!(v_poll(#base)),
        _ => base,
      };
      self.visit_expr_mut(e);
      return;
    }
    if let Expr::Match(m) = e {
      m.arms.retain(|a| cfg_on(&a.attrs));
      if let Some(n) = match_str(m) {
        *e = n;
      } else if let Some(n) = match_slice(m) {
        *e = n;
      }
    }
    visit_mut::visit_expr_mut(self, e);
  }
}

/// The conditions under which a pattern made of string literals applies to `v`; None: not such a pattern.
fn str_pat(p: &Pat, v: &Expr) -> Option<Expr> {
  match p {
    Pat::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(parse_quote!(v_str_eq(#v, #s))),
    Pat::Paren(p) => str_pat(&p.pat, v),
    Pat::Or(o) => {
      let mut it = o.cases.iter().map(|c| str_pat(c, v));
      let first = it.next()??;
      it.try_fold(first, |a, b| {
        let b = b?;
        Some(parse_quote!(#a || #b))
      })
    }
    Pat::TupleStruct(t) if t.elems.len() == 1 && t.path.is_ident("Some") => {
      let inner: Expr = parse_quote!(v_s);
      let c = str_pat(&t.elems[0], &inner)?;
      Some(parse_quote!(match #v { Some(v_s) => #c, None => false }))
    }
    _ => None,
  }
}

/// `match` on string literals (not supported by the verifier) as a chain of comparisons.
fn match_str(m: &syn::ExprMatch) -> Option<Expr> {
  let v: Expr = parse_quote!(v_m);
  if !m.arms.iter().any(|a| str_pat(&a.pat, &v).is_some()) {
    return None;
  }
  let scrut = &m.expr;
  let mut e: Option<Expr> = None;
  for a in m.arms.iter().rev() {
    let body = &a.body;
    match str_pat(&a.pat, &v) {
      Some(c) => {
        let c: Expr = match &a.guard {
          Some((_, g)) => parse_quote!((#c) && (#g)),
          None => c,
        };
        let rest = e.unwrap_or(parse_quote!(v_panic()));
        e = Some(parse_quote!(if #c { #body } else { #rest }));
      }
      None => {
        let p = &a.pat;
        if irrefutable(p) {
          match &a.guard {
            None => e = Some(parse_quote!({ let #p = v_m; #body })),
            Some((_, g)) => {
              let rest = e.unwrap_or(parse_quote!(v_panic()));
              e = Some(parse_quote!({ let #p = v_m; if #g { #body } else { #rest } }));
            }
          }
        } else {
          let rest = e.unwrap_or(parse_quote!(v_panic()));
          e = Some(parse_quote!(match v_m { #p => #body, _ => #rest }));
        }
      }
    }
  }
  let e = e?;
  Some(parse_quote!({ let v_m = #scrut; #e }))
}

fn parse_matches(i: ParseStream) -> syn::Result<(Expr, Pat, Option<Expr>)> {
  let e: Expr = i.parse()?;
  i.parse::<Token![,]>()?;
  let p = Pat::parse_multi_with_leading_vert(i)?;
  let g = if i.peek(Token![if]) {
    i.parse::<Token![if]>()?;
    Some(i.parse()?)
  } else {
    None
  };
  let _ = i.parse::<Option<Token![,]>>()?;
  Ok((e, p, g))
}

/// `match x.as_slice() { [a, b] => .., _ => .. }` as a comparison of the length.
fn match_slice(m: &syn::ExprMatch) -> Option<Expr> {
  if !m.arms.iter().any(|a| matches!(&a.pat, Pat::Slice(_))) {
    return None;
  }
  let scrut: Expr = match &*m.expr {
    Expr::MethodCall(c) if c.method == "as_slice" && c.args.is_empty() => (*c.receiver).clone(),
    Expr::Index(x) if txt(&x.index) == ".." => (*x.expr).clone(),
    Expr::Reference(r) => match &*r.expr {
      Expr::Index(x) if txt(&x.index) == ".." => (*x.expr).clone(),
      _ => return None,
    },
    _ => return None,
  };
  let mut e: Option<Expr> = None;
  for a in m.arms.iter().rev() {
    let body = &a.body;
    if a.guard.is_some() {
      return None;
    }
    match &a.pat {
      Pat::Slice(sl) => {
        let n = proc_macro2::Literal::usize_unsuffixed(sl.elems.len());
        let mut lets: Vec<Stmt> = vec![];
        for (k, p) in sl.elems.iter().enumerate() {
          let k = proc_macro2::Literal::usize_unsuffixed(k);
          match p {
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => lets.push(parse_quote!(let #p = &v_m[#k];)),
            Pat::Wild(_) => {}
            _ => return None,
          }
        }
        let rest = e.unwrap_or(parse_quote!(v_panic()));
        e = Some(parse_quote!(if v_m.len() == #n { #(#lets)* #body } else { #rest }));
      }
      Pat::Wild(_) => e = Some(parse_quote!({ #body })),
      _ => return None,
    }
  }
  let e = e?;
  Some(parse_quote!({ let v_m = &#scrut; #e }))
}

fn expr_attrs(e: &Expr) -> Vec<syn::Attribute> {
  match e {
    Expr::Block(b) => b.attrs.clone(),
    Expr::If(b) => b.attrs.clone(),
    Expr::Match(b) => b.attrs.clone(),
    Expr::MethodCall(b) => b.attrs.clone(),
    Expr::Call(b) => b.attrs.clone(),
    Expr::Assign(b) => b.attrs.clone(),
    Expr::ForLoop(b) => b.attrs.clone(),
    Expr::Return(b) => b.attrs.clone(),
    Expr::Macro(b) => b.attrs.clone(),
    _ => vec![],
  }
}

// ------------------------------------------------ loops, closures, calls

fn closure_parts(e: &Expr) -> Option<(Vec<Pat>, Expr)> {
  match e {
    Expr::Closure(c) => Some((c.inputs.iter().cloned().collect(), (*c.body).clone())),
    _ => None,
  }
}

fn apply(f: &Expr, var: &Ident) -> Option<(Pat, Expr)> {
  match f {
    Expr::Closure(c) if c.inputs.len() == 1 => {
      let p = match &c.inputs[0] {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
      };
      Some((p, (*c.body).clone()))
    }
    Expr::Path(_) => Some((parse_quote!(#var), parse_quote!(#f(#var)))),
    _ => None,
  }
}

const ITER_ROOTS: [&str; 14] = [
  "iter", "into_iter", "values", "keys", "split", "chars", "iter_mut", "values_mut", "enumerate", "cloned_iter", "filter", "chain", "rev", "lines",
];

fn has_iter_root(e: &Expr) -> bool {
  match e {
    Expr::MethodCall(m) => {
      let n = m.method.to_string();
      ITER_ROOTS.contains(&n.as_str()) || (n != "find" && n != "min_by_key" && n != "next" && has_iter_root(&m.receiver))
    }
    Expr::Paren(p) => has_iter_root(&p.expr),
    _ => false,
  }
}

impl<'a> Rw<'a> {
  fn is_result(&self, e: &Expr) -> bool {
    // what these methods return is a Result whatever they are called on
    if let Expr::MethodCall(m) = e {
      let n = m.method.to_string();
      if n == "map_err" || n == "ok_or" || n == "ok_or_else" {
        return true;
      }
      if (n == "map" || n == "and_then") && self.is_result(&m.receiver) {
        return true;
      }
    }
    let s = txt(e);
    self.ctx.result_hints.iter().any(|h| s.contains(h))
  }

  /// `r.map(f)` and `r.and_then(f)`, where the context says that the value is a Result (`.map_err(g)` follows).
  fn as_result(&self, r: &Expr) -> Expr {
    if let Expr::MethodCall(m) = r {
      let n = m.method.to_string();
      if (n == "map" || n == "and_then") && m.args.len() == 1 && !has_iter_root(&m.receiver) {
        if let Some((p, b)) = apply(&m.args[0], &format_ident!("v_x")) {
          let inner = self.as_result(&m.receiver);
          let b: Expr = if n == "map" { parse_quote!(Ok(#b)) } else { b };
          return parse_quote!(match #inner { Ok(#p) => #b, Err(v_e) => Err(v_e) });
        }
      }
    }
    r.clone()
  }

  /// Option/Result combinators with a closure are written out as `match`.
  fn combinator(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
    let name = m.method.to_string();
    let r = &m.receiver;
    let v = format_ident!("v_x");
    let args: Vec<&Expr> = m.args.iter().collect();
    let f0 = args.first();
    match (name.as_str(), args.len()) {
      ("map", 1) | ("and_then", 1) => {
        if has_iter_root(r) || self.ctx.iter_hints.iter().any(|h| txt(r).contains(h)) {
          return None;
        }
        let (p, b) = apply(f0?, &v)?;
        let is_map = name == "map";
        if self.is_result(r) {
          let b: Expr = if is_map { parse_quote!(Ok(#b)) } else { b };
          Some(parse_quote!(match #r { Ok(#p) => #b, Err(v_e) => Err(v_e) }))
        } else {
          let b: Expr = if is_map { parse_quote!(Some(#b)) } else { b };
          Some(parse_quote!(match #r { Some(#p) => #b, None => None }))
        }
      }
      ("and_modify", 1) => {
        let (p, b) = apply(f0?, &v)?;
        Some(parse_quote!({ let mut v_entry = #r; if let Some(#p) = v_entry.v_get_mut() { #b; } v_entry }))
      }
      ("map_err", 1) => {
        let (p, b) = apply(f0?, &v)?;
        let r = self.as_result(r);
        Some(parse_quote!(match #r { Ok(v_k) => Ok(v_k), Err(#p) => Err(#b) }))
      }
      ("unwrap_or_else", 1) | ("or_else", 1) | ("ok_or_else", 1) => {
        let (ps, b) = match f0? {
          Expr::Closure(_) => closure_parts(f0?)?,
          Expr::Path(p) => (vec![], parse_quote!(#p())),
          _ => return None,
        };
        if ps.len() == 1 {
          let p = &ps[0];
          return Some(match name.as_str() {
            "unwrap_or_else" => parse_quote!(match #r { Ok(v_k) => v_k, Err(#p) => #b }),
            "or_else" => parse_quote!(match #r { Ok(v_k) => Ok(v_k), Err(#p) => #b }),
            _ => return None,
          });
        }
        Some(match name.as_str() {
          "unwrap_or_else" => parse_quote!(match #r { Some(v_k) => v_k, None => #b }),
          "or_else" => parse_quote!(match #r { Some(v_k) => Some(v_k), None => #b }),
          _ => parse_quote!(match #r { Some(v_k) => Ok(v_k), None => Err(#b) }),
        })
      }
      ("map_or", 2) => {
        let (p, b) = apply(args[1], &v)?;
        let d = args[0];
        if self.is_result(r) {
          Some(parse_quote!(match #r { Ok(#p) => #b, Err(_) => #d }))
        } else {
          Some(parse_quote!(match #r { Some(#p) => #b, None => #d }))
        }
      }
      ("get_or_insert_with", 1) | ("get_or_insert", 1) => {
        // (the receiver is a place)
        if !matches!(&**r, Expr::Path(_) | Expr::Field(_)) {
          return None;
        }
        let f0 = f0?;
        let b = match f0 {
          Expr::Closure(_) => closure_parts(f0)?.1,
          Expr::Path(p) if name == "get_or_insert_with" => parse_quote!(#p()),
          x if name == "get_or_insert" => Expr::clone(x),
          _ => return None,
        };
        Some(if name == "get_or_insert" {
          parse_quote!({ let v_n = #b; if #r.is_none() { #r = Some(v_n); } v_opt_mut(&mut #r) })
        } else {
          parse_quote!({ if #r.is_none() { #r = Some(#b); } v_opt_mut(&mut #r) })
        })
      }
      ("filter", 1) => {
        if has_iter_root(r) || self.ctx.iter_hints.iter().any(|h| txt(r).contains(h)) {
          return None;
        }
        let (ps, b) = closure_parts(f0?)?;
        let p = ps.first()?;
        Some(parse_quote!(match #r { Some(v_k) => { let #p = &v_k; if #b { Some(v_k) } else { None } } None => None }))
      }
      ("is_some_and", 1) => {
        let (p, b) = apply(f0?, &v)?;
        Some(parse_quote!(match #r { Some(#p) => #b, None => false }))
      }
      _ => None,
    }
  }

  fn loop_body(&mut self, n: usize, auto_inv: &str, auto_dec: &str, head: Vec<Stmt>, body: &syn::Block) -> syn::Block {
    let mut inv = String::new();
    let user = self.sec(&format!("loop {}", n)).unwrap_or_default();
    // user text: optional `invariant`, `ensures`, `decreases` clauses; the automatic ones are added
    let (mut ui, mut ue, mut ux, mut ud) = (String::new(), String::new(), String::new(), String::new());
    let mut cur = 'i';
    for l in user.lines() {
      let t = l.trim();
      let (c, rest) = if let Some(x) = t.strip_prefix("invariant_except_break") {
        ('x', x)
      } else if let Some(x) = t.strip_prefix("invariant") {
        ('i', x)
      } else if let Some(x) = t.strip_prefix("ensures") {
        ('e', x)
      } else if let Some(x) = t.strip_prefix("decreases") {
        ('d', x)
      } else {
        (cur, t)
      };
      cur = c;
      let d = match c {
        'i' => &mut ui,
        'x' => &mut ux,
        'e' => &mut ue,
        _ => &mut ud,
      };
      d.push_str("    ");
      d.push_str(rest);
      d.push('\n');
    }
    if !ux.is_empty() {
      inv.push_str(&format!("  invariant_except_break\n{}\n", ux));
    }
    if !ui.is_empty() || !auto_inv.is_empty() {
      inv.push_str(&format!("  invariant\n    {}\n{}\n", auto_inv, ui));
    }
    if !ue.is_empty() {
      inv.push_str(&format!("  ensures\n{}\n", ue));
    }
    if !ud.is_empty() {
      inv.push_str(&format!("  decreases\n{}\n", ud));
    } else if !auto_dec.is_empty() {
      inv.push_str(&format!("  decreases {}\n", auto_dec));
    }
    let mut stmts = vec![];
    stmts.push(self.inv_stmt(&inv));
    stmts.extend(head);
    if let Some(t) = self.sec(&format!("loop-start {}", n)) {
      stmts.push(self.raw_stmt(&t));
    }
    let mut b = body.stmts.clone();
    if let Some(Stmt::Expr(e, None)) = b.last().cloned() {
      let k = b.len() - 1;
      b[k] = Stmt::Expr(e, Some(Default::default()));
    }
    stmts.extend(b);
    if let Some(t) = self.sec(&format!("loop-end {}", n)) {
      stmts.push(self.raw_stmt(&t));
    }
    syn::Block { brace_token: body.brace_token, stmts }
  }

  fn around(&mut self, n: usize, e: Expr, mut pre: Vec<Stmt>) -> Expr {
    if let Some(t) = self.sec(&format!("before-loop {}", n)) {
      let s = self.raw_stmt(&t);
      pre.push(s);
    }
    let mut post: Vec<Stmt> = vec![];
    if let Some(t) = self.sec(&format!("after-loop {}", n)) {
      post.push(self.raw_stmt(&t));
    }
    // (always a block: a loop directly before a block is misread by the verifier's parser)
    parse_quote!({ #(#pre)* #e #(#post)* })
  }
}

impl<'a> VisitMut for Rw<'a> {
  fn visit_type_mut(&mut self, t: &mut syn::Type) {
    TypeRw(self.ctx).visit_type_mut(t);
  }
  fn visit_pat_mut(&mut self, p: &mut Pat) {
    if let Pat::TupleStruct(t) = p {
      strip_path(&mut t.path);
    }
    if let Pat::Struct(t) = p {
      strip_path(&mut t.path);
    }
    if let Pat::Path(t) = p {
      strip_path(&mut t.path);
    }
    visit_mut::visit_pat_mut(self, p);
  }
  fn visit_expr_struct_mut(&mut self, s: &mut syn::ExprStruct) {
    strip_path(&mut s.path);
    visit_mut::visit_expr_struct_mut(self, s);
  }
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    match e {
      Expr::ForLoop(f) => {
        self.loops_seen += 1;
        let n = self.loops_seen;
        self.loop_kinds.push('f');
        let mut src = (*f.expr).clone();
        let pat = (*f.pat).clone();
        let mut pat2 = pat.clone();
        self.visit_expr_mut(&mut src);
        self.visit_pat_mut(&mut pat2);
        let mut body = f.body.clone();
        self.visit_block_mut(&mut body);
        let it = format_ident!("it{}", n);
        let ix = format_ident!("i{}", n);
        let head: Vec<Stmt> = vec![
          parse_quote!(let #pat2 = #it.v_get(#ix);),
          parse_quote!(#ix = #ix + 1;),
        ];
        let b = self.loop_body(n, &format!("{ix} <= {it}@.len(),"), &format!("{it}@.len() - {ix}"), head, &body);
        let w: Expr = parse_quote!(while #ix < #it.v_len() #b);
        let pre: Vec<Stmt> = vec![
          parse_quote!(let #it = (#src).v_into_iter();),
          parse_quote!(let mut #ix: usize = 0;),
        ];
        *e = self.around(n, w, pre);
        return;
      }
      Expr::While(w) => {
        self.loops_seen += 1;
        let n = self.loops_seen;
        self.loop_kinds.push(if matches!(&*w.cond, Expr::Let(_)) { 'l' } else { 'w' });
        let mut body = w.body.clone();
        if let Expr::Let(l) = &*w.cond {
          let mut src = (*l.expr).clone();
          let mut pat = (*l.pat).clone();
          self.visit_expr_mut(&mut src);
          self.visit_pat_mut(&mut pat);
          self.visit_block_mut(&mut body);
          let inner = &body.stmts;
          let m: Stmt = parse_quote!(match #src { #pat => { #(#inner)* } _ => { break; } });
          let blk = syn::Block { brace_token: body.brace_token, stmts: vec![m] };
          let b = self.loop_body(n, "", "", vec![], &blk);
          let l: Expr = parse_quote!(loop #b);
          *e = self.around(n, l, vec![]);
          return;
        }
        let mut cond = (*w.cond).clone();
        self.visit_expr_mut(&mut cond);
        self.visit_block_mut(&mut body);
        let b = self.loop_body(n, "", "", vec![], &body);
        let w: Expr = parse_quote!(while #cond #b);
        *e = self.around(n, w, vec![]);
        return;
      }
      Expr::Loop(l) => {
        self.loops_seen += 1;
        let n = self.loops_seen;
        self.loop_kinds.push('l');
        let mut body = l.body.clone();
        self.visit_block_mut(&mut body);
        let b = self.loop_body(n, "", "", vec![], &body);
        let l: Expr = parse_quote!(loop #b);
        *e = self.around(n, l, vec![]);
        return;
      }
      Expr::Async(a) => {
        let mut b = a.block.clone();
        self.visit_block_mut(&mut b);
        *e = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: b });
        return;
      }
      Expr::Call(c) => {
        if let Expr::Path(p) = &mut *c.func {
          let last = p.path.segments.last().unwrap().ident.to_string();
          if last == "spawn" && matches!(c.args.first(), Some(Expr::Async(_))) {
            self.spawns += 1;
            let n = self.spawns;
            let key = self
              .annot
              .sections
              .keys()
              .find(|k| k.starts_with(&format!("task {} ", n)))
              .cloned();
            let blk = match c.args.first() {
              Some(Expr::Async(a)) => a.block.clone(),
              _ => unreachable!(),
            };
            let mut blk = blk;
            self.visit_block_mut(&mut blk);
            match key {
              None => {
                self.errors.push("a spawned task has no contract".into());
                *e = parse_quote!({});
              }
              Some(k) => {
                let text = self.annot.sections[&k].clone();
                let header = k.splitn(3, ' ').nth(2).unwrap().to_string();
                let name = header.split('(').next().unwrap().trim().to_string();
                // parameter names
                let inner = header[header.find('(').unwrap() + 1..].to_string();
                let mut depth = 0;
                let mut ps = vec![];
                let mut cur = String::new();
                for ch in inner.chars() {
                  match ch {
                    '(' | '<' | '[' => depth += 1,
                    ')' if depth == 0 => break,
                    ')' | '>' | ']' => depth -= 1,
                    _ => {}
                  }
                  if ch == ',' && depth == 0 {
                    ps.push(cur.clone());
                    cur.clear();
                  } else {
                    cur.push(ch);
                  }
                }
                ps.push(cur);
                let args: Vec<Expr> = ps
                  .iter()
                  .filter(|p| !p.trim().is_empty())
                  .map(|p| {
                    let t = p.trim();
                    if t.starts_with("Tracked") {
                      parse_quote!(Tracked(tr))
                    } else {
                      let id = Ident::new(t.split(':').next().unwrap().trim().trim_start_matches("mut "), Span::call_site());
                      parse_quote!(#id)
                    }
                  })
                  .collect();
                let sp = format_ident!("{}__spawn", name);
                self.tasks.push(Task { name, header, contract: text, block: blk });
                *e = parse_quote!(#sp(#(#args),*));
              }
            }
            return;
          }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
          if let Expr::Path(p) = &mut *c.func {
            strip_path(&mut p.path);
            let s = txt(&p.path);
            if let Some(n) = self.ctx.rename_path.get(&s) {
              p.path = syn::parse_str(n).unwrap();
            }
            let s = txt(&p.path);
            if self.tr && self.ctx.trace_fns.contains(&s) {
              c.args.push(self.trace_arg());
            }
            // a call of a callback that is held in a local variable
            if self.bindings.contains(&s) {
              let f = p.path.clone();
              let mut args = c.args.clone();
              if self.tr && self.ctx.trace_methods.contains("v_call") {
                args.push(self.trace_arg());
              }
              *e = parse_quote!(#f.v_call(#args));
            }
          }
        }
        return;
      }
      Expr::MethodCall(m) => {
        if let Some(n) = self.combinator(m) {
          *e = n;
          self.visit_expr_mut(e);
          return;
        }
        visit_mut::visit_expr_method_call_mut(self, m);
        let name = m.method.to_string();
        // `replace/2` is the method with two arguments
        let arity = format!("{}/{}", name, m.args.len());
        let new = self
          .ctx
          .rename_method
          .get(&arity)
          .or(self.ctx.rename_method.get(&name))
          .cloned()
          .unwrap_or(name);
        m.method = Ident::new(&new, Span::call_site());
        if self.tr && self.ctx.trace_methods.contains(&new) {
          m.args.push(self.trace_arg());
        }
        return;
      }
      Expr::Closure(c) => {
        self.closures += 1;
        let n = self.closures;
        let mut body = (*c.body).clone();
        self.visit_expr_mut(&mut body);
        match self.sec(&format!("closure {}", n)) {
          Some(h) => {
            let b = crate::print::tokens(&quote!(#body));
            // the header is written in terms of v0, v1, ...; bind the source's patterns to them
            let mut lets = String::new();
            for (k, p) in c.inputs.iter().enumerate() {
              let p = match p {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
              };
              lets.push_str(&format!("let {} = v{}; ", quote!(#p), k));
            }
            let t = format!("{} {{ {} {} }}", h.trim(), lets, b);
            *e = self.raw_expr(&t);
          }
          None => {
            *c.body = body;
          }
        }
        return;
      }
      Expr::Path(p) => {
        strip_path(&mut p.path);
        let s = txt(&p.path);
        if let Some(n) = self.ctx.rename_path.get(&s) {
          p.path = syn::parse_str(n).unwrap();
        }
      }
      _ => {}
    }
    visit_mut::visit_expr_mut(self, e);
  }
}
