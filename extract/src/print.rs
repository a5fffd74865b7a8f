//! Token printer with line breaks, so that the verifier's messages have useful lines.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn tokens(ts: &TokenStream) -> String {
  let mut s = String::new();
  go(ts.clone(), &mut s, 0);
  s.trim().to_string()
}

fn nl(s: &mut String, d: usize) {
  while s.ends_with(' ') {
    s.pop();
  }
  s.push('\n');
  for _ in 0..d {
    s.push_str("  ");
  }
}

fn go(ts: TokenStream, s: &mut String, d: usize) {
  let v: Vec<TokenTree> = ts.into_iter().collect();
  for (i, t) in v.iter().enumerate() {
    match t {
      TokenTree::Group(g) => match g.delimiter() {
        Delimiter::Brace => {
          s.push_str("{");
          nl(s, d + 1);
          go(g.stream(), s, d + 1);
          nl(s, d);
          s.push('}');
          // keep `} else`, `}.x()`, `},` together
          match v.get(i + 1) {
            Some(TokenTree::Ident(id)) if id == "else" => s.push(' '),
            Some(TokenTree::Punct(p)) if ",;.?)".contains(p.as_char()) => {}
            Some(_) => nl(s, d),
            None => {}
          }
        }
        Delimiter::Parenthesis => {
          s.push('(');
          go(g.stream(), s, d);
          s.push_str(") ");
        }
        Delimiter::Bracket => {
          s.push('[');
          go(g.stream(), s, d);
          s.push_str("] ");
        }
        Delimiter::None => go(g.stream(), s, d),
      },
      TokenTree::Punct(p) => {
        s.push(p.as_char());
        if p.as_char() == ';' {
          nl(s, d);
        } else if p.spacing() == Spacing::Alone {
          s.push(' ');
        }
      }
      TokenTree::Ident(x) => {
        s.push_str(&x.to_string());
        s.push(' ');
      }
      TokenTree::Literal(x) => {
        s.push_str(&x.to_string());
        s.push(' ');
      }
    }
  }
}
