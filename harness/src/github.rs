//! A stand-in for api.github.com on the loopback network: an HTTPS proxy that answers every
//! connection itself, with a certificate of its own that this process trusts.
use openssl::asn1::Asn1Time;
use openssl::bn::BigNum;
use openssl::hash::MessageDigest;
use openssl::pkey::{PKey, Private};
use openssl::rsa::Rsa;
use openssl::sign::Verifier;
use openssl::ssl::{SslAcceptor, SslMethod};
use openssl::x509::extension::{BasicConstraints, SubjectAlternativeName};
use openssl::x509::{X509Name, X509};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::TcpListener;
use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct World {
  /// (owner, repository, commit) and (owner, repository, pull request): the files they change
  pub commits: HashMap<(String, String, String), Vec<String>>,
  pub pulls: HashMap<(String, String, i64), Vec<String>>,
  pub tokens: Vec<String>,
  /// app id and its public key
  pub app: Option<(u64, PKey<openssl::pkey::Public>)>,
  /// (owner, repository): installation
  pub installs: HashMap<(String, String), i64>,
  /// the first request that fails; those after it fail too
  pub broken: Option<(usize, u8)>,
  pub seen: Vec<String>,
}
pub type Github = Arc<Mutex<World>>;

fn name(cn: &str) -> X509Name {
  let mut b = X509Name::builder().unwrap();
  b.append_entry_by_text("CN", cn).unwrap();
  b.build()
}
fn cert(cn: &str, key: &PKey<Private>, by: Option<(&X509, &PKey<Private>)>) -> X509 {
  let mut b = X509::builder().unwrap();
  b.set_version(2).unwrap();
  b.set_serial_number(&BigNum::from_u32(if by.is_some() { 2 } else { 1 }).unwrap().to_asn1_integer().unwrap()).unwrap();
  b.set_subject_name(&name(cn)).unwrap();
  b.set_not_before(&Asn1Time::from_unix(0).unwrap()).unwrap();
  b.set_not_after(&Asn1Time::from_unix(4_000_000_000).unwrap()).unwrap();
  b.set_pubkey(key).unwrap();
  match by {
    Some((ca, ca_key)) => {
      b.set_issuer_name(ca.subject_name()).unwrap();
      let e = SubjectAlternativeName::new().dns("api.github.com").build(&b.x509v3_context(Some(ca), None)).unwrap();
      b.append_extension(e).unwrap();
      b.sign(ca_key, MessageDigest::sha256()).unwrap();
    }
    None => {
      b.set_issuer_name(&name(cn)).unwrap();
      b.append_extension(BasicConstraints::new().critical().ca().build().unwrap()).unwrap();
      b.sign(key, MessageDigest::sha256()).unwrap();
    }
  }
  b.build()
}
pub fn key() -> PKey<Private> {
  PKey::from_rsa(Rsa::generate(2048).unwrap()).unwrap()
}

/// Starts the stand-in; call it before the first request and before other threads run.
pub fn start(scratch: &std::path::Path) -> Github {
  let (ca_key, leaf_key) = (key(), key());
  let ca = cert("verif", &ca_key, None);
  let leaf = cert("api.github.com", &leaf_key, Some((&ca, &ca_key)));
  let pem = scratch.join("ca.pem");
  std::fs::write(&pem, ca.to_pem().unwrap()).unwrap();
  let l = TcpListener::bind("127.0.0.1:0").unwrap();
  let proxy = format!("http://{}", l.local_addr().unwrap());
  for k in ["NO_PROXY", "no_proxy", "ALL_PROXY", "all_proxy", "https_proxy", "REQUEST_METHOD"] {
    std::env::remove_var(k);
  }
  std::env::set_var("HTTPS_PROXY", &proxy);
  std::env::set_var("SSL_CERT_FILE", &pem);
  std::env::set_var("SSL_CERT_DIR", scratch);
  let mut a = SslAcceptor::mozilla_intermediate(SslMethod::tls()).unwrap();
  a.set_private_key(&leaf_key).unwrap();
  a.set_certificate(&leaf).unwrap();
  let a = Arc::new(a.build());
  let g: Github = Default::default();
  let w = g.clone();
  std::thread::spawn(move || {
    for s in l.incoming().flatten() {
      let (a, w) = (a.clone(), w.clone());
      std::thread::spawn(move || {
        let mut r = BufReader::new(s.try_clone().unwrap());
        let mut line = String::new();
        r.read_line(&mut line).ok();
        if !line.starts_with("CONNECT api.github.com:443") {
          return;
        }
        while line.trim() != "" {
          line.clear();
          if r.read_line(&mut line).unwrap_or(0) == 0 {
            return;
          }
        }
        let mut s = s;
        s.write_all(b"HTTP/1.1 200 OK\r\n\r\n").ok();
        let Ok(t) = a.accept(s) else { return };
        serve(t, w);
      });
    }
  });
  g
}

fn serve<S: Read + Write>(t: S, w: Github) {
  let mut r = BufReader::new(t);
  let mut head = String::new();
  loop {
    let n = head.len();
    if r.read_line(&mut head).unwrap_or(0) == 0 || head[n..].trim().is_empty() {
      break;
    }
  }
  let mut auth = String::new();
  let mut len = 0;
  for l in head.lines().skip(1) {
    let Some((k, v)) = l.split_once(':') else { continue };
    match k.to_ascii_lowercase().as_str() {
      "authorization" => auth = v.trim().to_string(),
      "content-length" => len = v.trim().parse().unwrap_or(0),
      _ => {}
    }
  }
  let mut body = vec![0; len];
  r.read_exact(&mut body).ok();
  let request = head.lines().next().unwrap_or("").to_string();
  let (status, link, body) = answer(&request, &auth, &w);
  let text = format!("HTTP/1.1 {} x\r\nContent-Type: application/json; charset=utf-8\r\n{}Content-Length: {}\r\nConnection: close\r\n\r\n{}", status, link.map_or(String::new(), |l| format!("Link: {}\r\n", l)), body.len(), body);
  r.get_mut().write_all(text.as_bytes()).ok();
  r.get_mut().flush().ok();
}

fn decode(s: &str) -> String {
  let b = s.as_bytes();
  let mut o = vec![];
  let mut i = 0;
  while i < b.len() {
    if b[i] == b'%' && i + 2 < b.len() {
      if let Ok(x) = u8::from_str_radix(&s[i + 1..i + 3], 16) {
        o.push(x);
        i += 3;
        continue;
      }
    }
    o.push(b[i]);
    i += 1;
  }
  String::from_utf8_lossy(&o).into_owned()
}

fn entry(f: &str) -> Value {
  let renamed = f.len() % 5 == 0;
  let mut v = json!({"sha": "bbcd538c8e72b8c175046e27cc8f907076331401", "filename": f, "status": if renamed { "renamed" } else if f.len() % 3 == 0 { "removed" } else { "modified" },
    "additions": 1, "deletions": 2, "changes": 3, "blob_url": format!("https://github.com/o/r/blob/x/{}", f), "raw_url": "https://github.com/o/r/raw/x", "contents_url": "https://api.github.com/x"});
  if renamed {
    v["previous_filename"] = json!(format!("previous/{}", f));
  }
  v
}
fn denied() -> (u16, Option<String>, String) {
  (401, None, json!({"message": "Bad credentials", "documentation_url": "x"}).to_string())
}
fn none() -> (u16, Option<String>, String) {
  (404, None, json!({"message": "Not Found", "documentation_url": "x"}).to_string())
}

fn jwt_ok(auth: &str, app: &Option<(u64, PKey<openssl::pkey::Public>)>) -> bool {
  let Some((id, key)) = app else { return false };
  let Some(t) = auth.strip_prefix("Bearer ") else { return false };
  let p: Vec<&str> = t.split('.').collect();
  if p.len() != 3 {
    return false;
  }
  let d = |s: &str| {
    let mut s = s.replace('-', "+").replace('_', "/");
    while s.len() % 4 != 0 {
      s.push('=');
    }
    openssl::base64::decode_block(&s).unwrap_or_default()
  };
  let mut v = Verifier::new(MessageDigest::sha256(), key).unwrap();
  v.update(format!("{}.{}", p[0], p[1]).as_bytes()).unwrap();
  v.verify(&d(p[2])).unwrap_or(false) && serde_json::from_slice::<Value>(&d(p[1])).map_or(false, |v| v["iss"] == json!(id.to_string()))
}

fn answer(request: &str, auth: &str, w: &Github) -> (u16, Option<String>, String) {
  let mut w = w.lock().unwrap();
  w.seen.push(request.to_string());
  let mut it = request.split(' ');
  let (method, target) = (it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string());
  if let Some((k, how)) = w.broken {
    if w.seen.len() > k {
      return match how {
        0 => (500, None, "{}".into()),
        1 => (200, None, "{\"files\": [".into()),
        2 => (403, None, json!({"message": "API rate limit exceeded", "documentation_url": "x"}).to_string()),
        _ => (200, None, "".into()),
      };
    }
  }
  let (path, query) = target.split_once('?').unwrap_or((&target, ""));
  let path: Vec<String> = path.split('/').skip(1).map(decode).collect();
  let q = |k: &str| query.split('&').filter_map(|x| x.split_once('=')).find(|(a, _)| *a == k).and_then(|(_, v)| v.parse::<usize>().ok());
  let page = q("page").unwrap_or(1).max(1);
  let p: Vec<&str> = path.iter().map(|s| s.as_str()).collect();
  let token_ok = auth.strip_prefix("Bearer ").map_or(false, |t| w.tokens.iter().any(|x| x == t));
  let cut = |all: &Vec<String>, size: usize| {
    let all = &all[..all.len().min(3000)];
    let part: Vec<Value> = all.iter().skip((page - 1) * size).take(size).map(|f| entry(f)).collect();
    let link = if page * size < all.len() { Some(format!("<https://api.github.com/{}?page={}&per_page={}>; rel=\"next\"", p.join("/"), page + 1, size)) } else { None };
    (part, link)
  };
  match (method.as_str(), p.as_slice()) {
    ("GET", ["repos", o, r, "pulls", n, "files"]) => {
      if !token_ok {
        return denied();
      }
      let Some(all) = n.parse().ok().and_then(|n| w.pulls.get(&(o.to_string(), r.to_string(), n))) else { return none() };
      let (part, link) = cut(all, q("per_page").unwrap_or(30).clamp(1, 100));
      (200, link, Value::Array(part).to_string())
    }
    ("GET", ["repos", o, r, "commits", sha]) => {
      if !token_ok {
        return denied();
      }
      let Some(all) = w.commits.get(&(o.to_string(), r.to_string(), sha.to_string())) else { return none() };
      let (part, link) = cut(all, q("per_page").map_or(300, |n| n.clamp(1, 100)));
      let mut c = json!({"comments_url": "x", "html_url": "x", "node_id": "x", "parents": [], "sha": sha, "url": "x",
        "commit": {"comment_count": 0, "message": "m", "tree": {"sha": "x", "url": "x"}, "url": "x"}});
      if !all.is_empty() {
        c["files"] = Value::Array(part);
      }
      (200, link, c.to_string())
    }
    ("GET", ["repos", o, r, "installation"]) => {
      if !jwt_ok(auth, &w.app) {
        return denied();
      }
      let Some(id) = w.installs.get(&(o.to_string(), r.to_string())) else { return none() };
      (200, None, json!({"access_tokens_url": "x", "account": {"avatar_url": "x", "html_url": "x", "id": 1, "name": "x", "node_id": "x", "slug": "x"}, "app_id": 1, "app_slug": "x", "created_at": "x", "events": [],
        "html_url": "x", "id": id, "permissions": {}, "repositories_url": "x", "repository_selection": "all", "target_id": 1, "target_type": "x", "updated_at": "x"}).to_string())
    }
    ("POST", ["app", "installations", n, "access_tokens"]) => {
      if !jwt_ok(auth, &w.app) {
        return denied();
      }
      if !w.installs.values().any(|i| i.to_string() == **n) {
        return none();
      }
      let t = format!("ghs_{}_{}", n, w.seen.len());
      w.tokens.push(t.clone());
      (201, None, json!({"token": t, "expires_at": "2999-01-01T00:00:00Z"}).to_string())
    }
    _ => none(),
  }
}
