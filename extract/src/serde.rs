//! The JSON form that `#[derive(Serialize, Deserialize)]` gives a type, as specification text.
//!
//! From the type's definition and its `serde` attributes this generates the two functions
//! `ser` and `de` (what the derived code does, over JSON trees) and the obligation that `de`
//! undoes `ser`. Attributes it does not know are refused.
use crate::{print, rewrite};
use std::collections::HashMap;
use syn::spanned::Spanned;
use syn::visit_mut::VisitMut;

#[derive(Default, Clone)]
struct Attrs {
  rename_all: Option<(String, String)>,
  rename_all_fields: Option<(String, String)>,
  untagged: bool,
  tag: Option<String>,
  content: Option<String>,
  transparent: bool,
  default: bool,
  rename_ser: Option<String>,
  rename_de: Option<String>,
  skip_ser: bool,
  skip_de: bool,
  skip_if: Option<String>,
}

struct Field {
  ident: String,
  ty: String,
  ser: String,
  de: String,
  a: Attrs,
}

fn parse(attrs: &[syn::Attribute]) -> Result<Attrs, String> {
  let mut a = Attrs::default();
  let mut bad: Option<String> = None;
  for at in attrs {
    if at.path().is_ident("cfg_attr") {
      return Err("cfg_attr".into());
    }
    if !at.path().is_ident("serde") {
      continue;
    }
    let r = at.parse_nested_meta(|m| {
      let n = m.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
      let lit = |m: &syn::meta::ParseNestedMeta| -> syn::Result<String> { Ok(m.value()?.parse::<syn::LitStr>()?.value()) };
      let both = |m: &syn::meta::ParseNestedMeta| -> syn::Result<(Option<String>, Option<String>)> {
        if m.input.peek(syn::Token![=]) {
          let s = m.value()?.parse::<syn::LitStr>()?.value();
          Ok((Some(s.clone()), Some(s)))
        } else {
          let (mut s, mut d) = (None, None);
          m.parse_nested_meta(|x| {
            let v = x.value()?.parse::<syn::LitStr>()?.value();
            if x.path.is_ident("serialize") { s = Some(v) } else { d = Some(v) }
            Ok(())
          })?;
          Ok((s, d))
        }
      };
      match n.as_str() {
        "rename_all" => {
          let (s, d) = both(&m)?;
          a.rename_all = Some((s.unwrap_or_default(), d.unwrap_or_default()));
        }
        "rename_all_fields" => {
          let (s, d) = both(&m)?;
          a.rename_all_fields = Some((s.unwrap_or_default(), d.unwrap_or_default()));
        }
        "rename" => {
          let (s, d) = both(&m)?;
          a.rename_ser = s;
          a.rename_de = d;
        }
        "untagged" => a.untagged = true,
        "transparent" => a.transparent = true,
        "tag" => a.tag = Some(lit(&m)?),
        "content" => a.content = Some(lit(&m)?),
        "skip" => {
          a.skip_ser = true;
          a.skip_de = true;
        }
        "skip_serializing" => a.skip_ser = true,
        "skip_deserializing" => a.skip_de = true,
        "skip_serializing_if" => a.skip_if = Some(lit(&m)?.chars().filter(|c| !c.is_whitespace()).collect()),
        "default" => {
          if m.input.peek(syn::Token![=]) {
            lit(&m)?;
            bad = Some("default = ...".into());
          } else {
            a.default = true
          }
        }
        // accepts more texts, changes nothing in the round trip
        "deny_unknown_fields" => {}
        "alias" => {
          lit(&m)?;
        }
        "rename_type" => {}
        _ => {
          bad = Some(n.clone());
          // consume the value
          if m.input.peek(syn::Token![=]) {
            let _: syn::Expr = m.value()?.parse()?;
          } else if m.input.peek(syn::token::Paren) {
            m.parse_nested_meta(|_| Ok(()))?;
          }
        }
      }
      Ok(())
    });
    if let Err(e) = r {
      return Err(format!("serde attribute: {}", e));
    }
  }
  match bad {
    Some(b) => Err(format!("serde attribute `{}` is not understood", b)),
    None => Ok(a),
  }
}

/// words of a snake_case field or a PascalCase variant
fn words(s: &str, variant: bool) -> Vec<String> {
  if !variant {
    return s.split('_').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
  }
  let mut v: Vec<String> = vec![];
  for c in s.chars() {
    if c.is_uppercase() || v.is_empty() {
      v.push(String::new());
    }
    v.last_mut().unwrap().push(c);
  }
  v.into_iter().map(|x| x.to_lowercase()).collect()
}

fn cap(s: &str) -> String {
  let mut c = s.chars();
  match c.next() {
    Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
    None => String::new(),
  }
}

fn convert(rule: &str, s: &str, variant: bool) -> Result<String, String> {
  let w = words(s, variant);
  Ok(match rule {
    "" => s.to_string(),
    "lowercase" => s.to_lowercase(),
    "UPPERCASE" => s.to_uppercase(),
    "PascalCase" => if variant { s.to_string() } else { w.iter().map(|x| cap(x)).collect() },
    "camelCase" => {
      if variant {
        let mut c = s.chars();
        c.next().map(|f| f.to_lowercase().collect::<String>() + c.as_str()).unwrap_or_default()
      } else {
        w.iter().enumerate().map(|(i, x)| if i == 0 { x.clone() } else { cap(x) }).collect()
      }
    }
    "snake_case" => if variant { w.join("_") } else { s.to_string() },
    "SCREAMING_SNAKE_CASE" => if variant { w.join("_").to_uppercase() } else { s.to_uppercase() },
    "kebab-case" => if variant { w.join("-") } else { s.replace('_', "-") },
    "SCREAMING-KEBAB-CASE" => if variant { w.join("-").to_uppercase() } else { s.to_uppercase().replace('_', "-") },
    r => return Err(format!("rename rule {}", r)),
  })
}

pub struct Keys(HashMap<String, usize>);

impl Keys {
  pub fn new() -> Self {
    Keys(HashMap::new())
  }
  pub fn key(&mut self, s: &str) -> String {
    let n = self.0.len();
    let i = *self.0.entry(s.to_string()).or_insert(n);
    format!("key({} /* {} */)", i, s.replace("*/", ""))
  }
}

struct G<'a> {
  ctx: &'a rewrite::Ctx,
  keys: &'a mut Keys,
}

const EMPTY: &str = "Map::<Seq<char>, Json>::empty()";

impl<'a> G<'a> {
  fn ty(&self, t: &syn::Type) -> String {
    let mut t = t.clone();
    rewrite::TypeRw(self.ctx).visit_type_mut(&mut t);
    print::tokens(&quote::quote!(#t))
  }

  fn fields(&mut self, f: &syn::Fields, rule: &Option<(String, String)>, all_default: bool) -> Result<Vec<Field>, String> {
    let mut v = vec![];
    for (i, f) in f.iter().enumerate() {
      let mut a = parse(&f.attrs)?;
      a.default |= all_default;
      let ident = f.ident.as_ref().map(|x| x.to_string().trim_start_matches("r#").to_string());
      let (rs, rd) = rule.clone().unwrap_or_default();
      let (ser, de) = match &ident {
        Some(n) => (
          a.rename_ser.clone().map(Ok).unwrap_or_else(|| convert(&rs, n, false))?,
          a.rename_de.clone().map(Ok).unwrap_or_else(|| convert(&rd, n, false))?,
        ),
        None => (String::new(), String::new()),
      };
      if ident.is_none() && (a.skip_ser || a.skip_de || a.skip_if.is_some() || a.default) {
        return Err("serde attributes on tuple fields".into());
      }
      v.push(Field { ident: ident.unwrap_or(format!("{}", i)), ty: self.ty(&f.ty), ser, de, a });
    }
    Ok(v)
  }

  /// the object that named fields are written as; `at` gives the place of a field (a reference)
  fn ser_named(&mut self, fs: &[Field], at: &dyn Fn(&str) -> String, start: &str) -> Result<String, String> {
    let mut s = format!("{{ let m = {};", start);
    for f in fs {
      if f.a.skip_ser {
        continue;
      }
      let k = self.keys.key(&f.ser);
      let put = format!("m.insert({}, <{} as Serde>::ser(&{}))", k, f.ty, at(&f.ident));
      let put = match f.a.skip_if.as_deref() {
        None => put,
        Some("Option::is_none") => format!("if {} is None {{ m }} else {{ {} }}", at(&f.ident), put),
        Some("Vec::is_empty") | Some("String::is_empty") => format!("if {}@ == Seq::empty() {{ m }} else {{ {} }}", at(&f.ident), put),
        Some("HashMap::is_empty") => format!("if {}@ == Map::empty() {{ m }} else {{ {} }}", at(&f.ident), put),
        Some(x) => return Err(format!("skip_serializing_if = {}", x)),
      };
      s.push_str(&format!(" let m = {};", put));
    }
    s.push_str(" Json::Obj(m) }");
    Ok(s)
  }

  /// named fields read from the object `m`; `make` builds the value from variables v_<field>
  fn de_named(&mut self, fs: &[Field], make: &str) -> String {
    let mut s = String::new();
    let mut close = String::new();
    for f in fs {
      if f.a.skip_de {
        s.push_str(&format!("{{ let v_{} = <{} as Dflt>::dflt(); ", f.ident, f.ty));
        close.push_str(" }");
        continue;
      }
      let k = self.keys.key(&f.de);
      let d = if f.a.default { format!("Some(<{} as Dflt>::dflt())", f.ty) } else { format!("<{} as Serde>::missing()", f.ty) };
      s.push_str(&format!("match fld::<{}>(m, {}, {}) {{ None => None, Some(v_{}) => ", f.ty, k, d, f.ident));
      close.push_str(" }");
    }
    format!("{}{}{}", s, make, close)
  }

  /// fields read from the array `s`
  fn de_seq(&mut self, fs: &[Field], make: &str) -> String {
    let n = fs.iter().filter(|f| !f.a.skip_de).count();
    let mut s = format!("if s.len() == {} {{ ", n);
    let mut close = String::from(" } else { None }");
    let mut i = 0;
    for f in fs {
      if f.a.skip_de {
        s.push_str(&format!("{{ let v_{} = <{} as Dflt>::dflt(); ", f.ident, f.ty));
      } else {
        s.push_str(&format!("match <{} as Serde>::de(s[{}]) {{ None => None, Some(v_{}) => ", f.ty, i, f.ident));
        i += 1;
      }
      close = format!(" }}{}", close);
    }
    format!("{}{}{}", s, make, close)
  }

  /// content of a struct or a variant: (ser, de of `j`)
  fn content(&mut self, path: &str, kind: &syn::Fields, fs: &[Field], at: &dyn Fn(&str) -> String, transparent: bool) -> Result<(String, String), String> {
    Ok(match kind {
      syn::Fields::Named(_) if transparent && fs.len() == 1 => (
        format!("<{} as Serde>::ser(&{})", fs[0].ty, at(&fs[0].ident)),
        format!("match <{} as Serde>::de(j) {{ Some(x) => Some({} {{ {}: x }}), None => None }}", fs[0].ty, path, fs[0].ident),
      ),
      syn::Fields::Named(_) => {
        let make = format!("Some({} {{ {} }})", path, fs.iter().map(|f| format!("{}: v_{}", f.ident, f.ident)).collect::<Vec<_>>().join(", "));
        let s = self.ser_named(fs, at, EMPTY)?;
        let m = self.de_named(fs, &make);
        let q = self.de_seq(fs, &make);
        (s, format!("match j {{ Json::Obj(m) => {}, Json::Arr(s) => {}, _ => None }}", m, q))
      }
      syn::Fields::Unnamed(_) if fs.len() == 1 => (
        format!("<{} as Serde>::ser(&{})", fs[0].ty, at(&fs[0].ident)),
        format!("match <{} as Serde>::de(j) {{ Some(x) => Some({}(x)), None => None }}", fs[0].ty, path),
      ),
      syn::Fields::Unnamed(_) => {
        let make = format!("Some({}({}))", path, fs.iter().map(|f| format!("v_{}", f.ident)).collect::<Vec<_>>().join(", "));
        let s = format!("Json::Arr(seq![{}])", fs.iter().map(|f| format!("<{} as Serde>::ser(&{})", f.ty, at(&f.ident))).collect::<Vec<_>>().join(", "));
        let q = self.de_seq(fs, &make);
        (s, format!("match j {{ Json::Arr(s) => {}, _ => None }}", q))
      }
      syn::Fields::Unit => ("Json::Null".into(), format!("match j {{ Json::Null => Some({}), _ => None }}", path)),
    })
  }
}

pub struct Out {
  pub text: String,
  pub lines: (usize, usize),
}

/// `except`: fields that are not sent at all; the value read has their default
pub fn emit(ctx: &rewrite::Ctx, keys: &mut Keys, it: &syn::Item, derives: &[String], except: &[String], external: bool) -> Result<Out, String> {
  let (attrs, generics, ident, lines) = match it {
    syn::Item::Struct(s) => (&s.attrs, &s.generics, s.ident.to_string(), (it.span().start().line, it.span().end().line)),
    syn::Item::Enum(s) => (&s.attrs, &s.generics, s.ident.to_string(), (it.span().start().line, it.span().end().line)),
    _ => return Err("not a struct or enum".into()),
  };
  let mut gg = generics.clone();
  rewrite::TypeRw(ctx).visit_generics_mut(&mut gg);
  for p in gg.params.iter_mut() {
    if let syn::GenericParam::Type(t) = p {
      t.bounds.push(syn::parse_quote!(Serde));
    }
  }
  let (ig, tg, wc) = gg.split_for_impl();
  let (ig, tg, wc) = (print::tokens(&quote::quote!(#ig)), print::tokens(&quote::quote!(#tg)), print::tokens(&quote::quote!(#wc)));
  let me = format!("{}{}", ident, tg);
  let mut text = String::new();
  let sent = except.is_empty();
  let tr = if sent { "Serde" } else { "Message" };
  let missing = if sent { "open spec fn missing() -> Option<Self> { None }" } else { "" };
  if sent {
    text.push_str(&format!("impl{ig} Dflt for {me} {wc} {{ uninterp spec fn dflt() -> Self; }}\n"));
  }
  let body = (|| -> Result<(String, String, String), String> {
    if !derives.iter().any(|d| d == "Serialize") || !derives.iter().any(|d| d == "Deserialize") {
      return Err("is not derived: its JSON form is written by hand".into());
    }
    let a = parse(attrs)?;
    let mut g = G { ctx, keys };
    match it {
      syn::Item::Struct(s) => {
        if a.tag.is_some() {
          return Err("serde attribute `tag` on a struct".into());
        }
        let fs = g.fields(&s.fields, &a.rename_all, a.default)?;
        let (se, de) = g.content(&ident, &s.fields, &fs, &|f| format!("self.{}", f), a.transparent)?;
        let mut rt = String::new();
        for f in &fs {
          if !except.contains(&f.ident) {
            rt.push_str(&format!(" self.{}.rt();", f.ident));
          }
        }
        Ok((se, de, rt))
      }
      syn::Item::Enum(e) => {
        let (mut ser, mut rt) = (String::from("match self {"), String::from(" match self {"));
        let mut units = String::new();
        let mut objs = String::new();
        let mut unt = String::new();
        for v in &e.variants {
          let va = parse(&v.attrs)?;
          if va.skip_ser || va.skip_de || va.untagged || va.skip_if.is_some() {
            return Err("serde attributes on a variant".into());
          }
          let n = v.ident.to_string();
          let (rs, rd) = a.rename_all.clone().unwrap_or_default();
          let kser = va.rename_ser.clone().map(Ok).unwrap_or_else(|| convert(&rs, &n, true))?;
          let kde = va.rename_de.clone().map(Ok).unwrap_or_else(|| convert(&rd, &n, true))?;
          let frule = va.rename_all.clone().or(a.rename_all_fields.clone());
          let fs = g.fields(&v.fields, &frule, false)?;
          let path = format!("{}::{}", ident, n);
          let pat = match &v.fields {
            syn::Fields::Named(_) => format!("{} {{ {} }}", path, fs.iter().map(|f| format!("{}: f_{}", f.ident, f.ident)).collect::<Vec<_>>().join(", ")),
            syn::Fields::Unnamed(_) => format!("{}({})", path, fs.iter().map(|f| format!("f_{}", f.ident)).collect::<Vec<_>>().join(", ")),
            syn::Fields::Unit => path.clone(),
          };
          let (cs, cd) = g.content(&path, &v.fields, &fs, &|f| format!("(*f_{})", f), false)?;
          rt.push_str(&format!(" {} => {{ {} }}", pat, fs.iter().map(|f| format!("f_{}.rt();", f.ident)).collect::<Vec<_>>().join(" ")));
          let unit = matches!(v.fields, syn::Fields::Unit);
          if a.untagged {
            ser.push_str(&format!(" {} => {},", pat, cs));
            unt.push_str(&format!("match {{ {} }} {{ Some(x) => Some(x), None => ", cd));
            continue;
          }
          let (ks, kd) = (g.keys.key(&kser), g.keys.key(&kde));
          match (&a.tag, &a.content) {
            (None, None) => {
              if unit {
                ser.push_str(&format!(" {} => Json::Str({}),", pat, ks));
                units.push_str(&format!("if t == {} {{ Some({}) }} else ", kd, path));
              } else {
                ser.push_str(&format!(" {} => Json::Obj({}.insert({}, {})),", pat, EMPTY, ks, cs));
              }
              objs.push_str(&format!("if one(m, {}) {{ let j = m[{}]; {} }} else ", kd, kd, cd));
            }
            (Some(t), Some(c)) => {
              let (t, c) = (g.keys.key(t), g.keys.key(c));
              if unit {
                ser.push_str(&format!(" {} => Json::Obj({}.insert({}, Json::Str({}))),", pat, EMPTY, t, ks));
                objs.push_str(&format!("if has(m, {}, {}) {{ Some({}) }} else ", t, kd, path));
              } else {
                ser.push_str(&format!(" {} => Json::Obj({}.insert({}, Json::Str({})).insert({}, {})),", pat, EMPTY, t, ks, c, cs));
                objs.push_str(&format!("if has(m, {}, {}) && m.contains_key({}) {{ let j = m[{}]; {} }} else ", t, kd, c, c, cd));
              }
            }
            (Some(t), None) => {
              let t = g.keys.key(t);
              match &v.fields {
                syn::Fields::Unit => {
                  ser.push_str(&format!(" {} => Json::Obj({}.insert({}, Json::Str({}))),", pat, EMPTY, t, ks));
                  objs.push_str(&format!("if has(m, {}, {}) {{ Some({}) }} else ", t, kd, path));
                }
                syn::Fields::Named(_) => {
                  let s = g.ser_named(&fs, &|f| format!("(*f_{})", f), &format!("{}.insert({}, Json::Str({}))", EMPTY, t, ks))?;
                  let make = format!("Some({} {{ {} }})", path, fs.iter().map(|f| format!("{}: v_{}", f.ident, f.ident)).collect::<Vec<_>>().join(", "));
                  ser.push_str(&format!(" {} => {},", pat, s));
                  let d = g.de_named(&fs, &make);
                  objs.push_str(&format!("if has(m, {}, {}) {{ {} }} else ", t, kd, d));
                }
                _ => return Err("an internally tagged newtype variant".into()),
              }
            }
            (None, Some(_)) => return Err("`content` without `tag`".into()),
          }
        }
        ser.push_str(" }");
        rt.push_str(" }");
        let de = if a.untagged {
          format!("{} None {}", unt, "}".repeat(e.variants.len()))
        } else {
          format!("match j {{ Json::Str(t) => {} {{ None }}, Json::Obj(m) => {} {{ None }}, _ => None }}", units, objs)
        };
        Ok((ser, de, rt))
      }
      _ => unreachable!(),
    }
  })();
  let ens = if sent { String::new() } else { format!("open spec fn back(&self) -> Self {{ {} {{ {}, ..*self }} }}", ident, except.iter().map(|f| format!("{}: Dflt::dflt()", f)).collect::<Vec<_>>().join(", ")) };
  let (nser, nde, nrt) = if sent { ("ser", "de", "rt") } else { ("text_tree", "from_tree", "arrives") };
  let (se, de, rt, err) = match body {
    Ok((a, b, c)) => (a, b, c, None),
    Err(e) => (String::new(), String::new(), String::new(), Some(e)),
  };
  if let (Some(e), false) = (&err, external) {
    return Err(e.clone());
  }
  if external {
    text.push_str(&format!(
      "impl{ig} {tr} for {me} {wc} {{\n  uninterp spec fn {nser}(&self) -> Json;\n  uninterp spec fn {nde}(j: Json) -> Option<Self>;\n  {missing} {ens}\n  #[verifier::external_body] proof fn {nrt}(&self) {{}}\n}}\n"
    ));
    if sent {
      text.push_str(&format!("impl{ig} Plain for {me} {wc} {{ #[verifier::external_body] proof fn not_null(&self) {{}} }}\n"));
    }
  } else {
    text.push_str(&format!(
      "impl{ig} {tr} for {me} {wc} {{\n  open spec fn {nser}(&self) -> Json {{\n    {se}\n  }}\n  open spec fn {nde}(j: Json) -> Option<Self> {{\n    {de}\n  }}\n  {missing} {ens}\n  proof fn {nrt}(&self) {{ broadcast use json_axioms;{rt} }}\n}}\n"
    ));
    if sent {
      let nn = match it {
        syn::Item::Struct(s) if matches!(s.fields, syn::Fields::Unnamed(_)) && s.fields.len() == 1 => "self.0.not_null();".to_string(),
        syn::Item::Enum(e) if parse(attrs).map(|a| a.untagged).unwrap_or(false) => {
          let mut t = String::from("match self {");
          for v in &e.variants {
            if matches!(v.fields, syn::Fields::Unnamed(_)) && v.fields.len() == 1 {
              t.push_str(&format!(" {}::{}(x) => x.not_null(),", ident, v.ident));
            } else {
              t.push_str(&format!(" {}::{} {{ .. }} => {{}},", ident, v.ident));
            }
          }
          t + " }"
        }
        _ => String::new(),
      };
      text.push_str(&format!("impl{ig} Plain for {me} {wc} {{ proof fn not_null(&self) {{ {nn} }} }}\n"));
    }
  }
  Ok(Out { text, lines })
}
