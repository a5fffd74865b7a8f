// ---- JSON trees, and what serde's derived code does with them ----
pub mod jax {
use vstd::prelude::*;
use super::HashMap;
/// the names of fields and variants: different numbers stand for different texts (the extraction numbers them)
pub uninterp spec fn key(n: nat) -> Seq<char>;
pub uninterp spec fn unkey(s: Seq<char>) -> nat;
pub uninterp spec fn str_of(s: Seq<char>) -> String;
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub uninterp spec fn map_of<V>(s: Map<String, V>) -> HashMap<String, V>;
pub uninterp spec fn float_of(n: int) -> f64;
#[verifier::external_body]
pub broadcast proof fn ax_key(n: nat) ensures unkey(#[trigger] key(n)) == n {}
#[verifier::external_body]
pub broadcast proof fn ax_str(s: String) ensures str_of(#[trigger] s@) == s {}
#[verifier::external_body]
pub broadcast proof fn ax_vec<T>(v: Vec<T>) ensures vec_of(#[trigger] v@) == v {}
#[verifier::external_body]
pub broadcast proof fn ax_map<V>(m: HashMap<String, V>) ensures map_of(#[trigger] m@) == m {}
pub broadcast group json_axioms { ax_key, ax_str, ax_vec, ax_map }
}
pub use jax::*;
pub enum Json { Null, Bool(bool), Int(int), Num(f64), Str(Seq<char>), Arr(Seq<Json>), Obj(Map<Seq<char>, Json>) }
/// the value a field gets that is not sent
pub trait Dflt: Sized { spec fn dflt() -> Self; }
/// what is written for a value, what is read from a tree, and what a missing field counts as
pub trait Serde: Dflt {
  spec fn ser(&self) -> Json;
  spec fn de(j: Json) -> Option<Self>;
  spec fn missing() -> Option<Self>;
  /// reading undoes writing
  proof fn rt(&self) ensures Self::de(self.ser()) == Some(*self);
}
/// types that are never written as `null`
pub trait Plain: Serde { proof fn not_null(&self) ensures self.ser() != Json::Null; }
/// a message: what arrives is `back`
pub trait Message: Sized {
  spec fn text_tree(&self) -> Json;
  spec fn from_tree(j: Json) -> Option<Self>;
  spec fn back(&self) -> Self;
  proof fn arrives(&self) ensures Self::from_tree(self.text_tree()) == Some(self.back());
}
impl<T: Serde> Message for T {
  open spec fn text_tree(&self) -> Json { self.ser() }
  open spec fn from_tree(j: Json) -> Option<Self> { T::de(j) }
  open spec fn back(&self) -> Self { *self }
  proof fn arrives(&self) { self.rt(); }
}
pub open spec fn fld<T: Serde>(m: Map<Seq<char>, Json>, k: Seq<char>, d: Option<T>) -> Option<T> { if m.contains_key(k) { T::de(m[k]) } else { d } }
/// the object has exactly this key
pub open spec fn one(m: Map<Seq<char>, Json>, k: Seq<char>) -> bool { m.contains_key(k) && m == Map::<Seq<char>, Json>::empty().insert(k, m[k]) }
pub open spec fn has(m: Map<Seq<char>, Json>, k: Seq<char>, v: Seq<char>) -> bool { m.contains_key(k) && m[k] == Json::Str(v) }

impl Dflt for String { open spec fn dflt() -> Self { str_of(Seq::empty()) } }
impl Serde for String {
  open spec fn ser(&self) -> Json { Json::Str(self@) }
  open spec fn de(j: Json) -> Option<Self> { match j { Json::Str(s) => Some(str_of(s)), _ => None } }
  open spec fn missing() -> Option<Self> { None }
  proof fn rt(&self) { broadcast use json_axioms; }
}
impl Plain for String { proof fn not_null(&self) {} }
impl Dflt for bool { open spec fn dflt() -> Self { false } }
impl Serde for bool {
  open spec fn ser(&self) -> Json { Json::Bool(*self) }
  open spec fn de(j: Json) -> Option<Self> { match j { Json::Bool(s) => Some(s), _ => None } }
  open spec fn missing() -> Option<Self> { None }
  proof fn rt(&self) {}
}
impl Plain for bool { proof fn not_null(&self) {} }
impl Dflt for i32 { open spec fn dflt() -> Self { 0 } }
impl Serde for i32 {
  open spec fn ser(&self) -> Json { Json::Int(*self as int) }
  open spec fn de(j: Json) -> Option<Self> { match j { Json::Int(s) => if i32::MIN <= s <= i32::MAX { Some(s as i32) } else { None }, _ => None } }
  open spec fn missing() -> Option<Self> { None }
  proof fn rt(&self) {}
}
impl Plain for i32 { proof fn not_null(&self) {} }
impl Dflt for i64 { open spec fn dflt() -> Self { 0 } }
impl Serde for i64 {
  open spec fn ser(&self) -> Json { Json::Int(*self as int) }
  open spec fn de(j: Json) -> Option<Self> { match j { Json::Int(s) => if i64::MIN <= s <= i64::MAX { Some(s as i64) } else { None }, _ => None } }
  open spec fn missing() -> Option<Self> { None }
  proof fn rt(&self) {}
}
impl Plain for i64 { proof fn not_null(&self) {} }
impl Dflt for u32 { open spec fn dflt() -> Self { 0 } }
impl Serde for u32 {
  open spec fn ser(&self) -> Json { Json::Int(*self as int) }
  open spec fn de(j: Json) -> Option<Self> { match j { Json::Int(s) => if u32::MIN <= s <= u32::MAX { Some(s as u32) } else { None }, _ => None } }
  open spec fn missing() -> Option<Self> { None }
  proof fn rt(&self) {}
}
impl Plain for u32 { proof fn not_null(&self) {} }
impl Dflt for u64 { open spec fn dflt() -> Self { 0 } }
impl Serde for u64 {
  open spec fn ser(&self) -> Json { Json::Int(*self as int) }
  open spec fn de(j: Json) -> Option<Self> { match j { Json::Int(s) => if u64::MIN <= s <= u64::MAX { Some(s as u64) } else { None }, _ => None } }
  open spec fn missing() -> Option<Self> { None }
  proof fn rt(&self) {}
}
impl Plain for u64 { proof fn not_null(&self) {} }
impl Dflt for usize { open spec fn dflt() -> Self { 0 } }
impl Serde for usize {
  open spec fn ser(&self) -> Json { Json::Int(*self as int) }
  open spec fn de(j: Json) -> Option<Self> { match j { Json::Int(s) => if usize::MIN <= s <= usize::MAX { Some(s as usize) } else { None }, _ => None } }
  open spec fn missing() -> Option<Self> { None }
  proof fn rt(&self) {}
}
impl Plain for usize { proof fn not_null(&self) {} }
impl Dflt for u8 { open spec fn dflt() -> Self { 0 } }
impl Serde for u8 {
  open spec fn ser(&self) -> Json { Json::Int(*self as int) }
  open spec fn de(j: Json) -> Option<Self> { match j { Json::Int(s) => if u8::MIN <= s <= u8::MAX { Some(s as u8) } else { None }, _ => None } }
  open spec fn missing() -> Option<Self> { None }
  proof fn rt(&self) {}
}
impl Plain for u8 { proof fn not_null(&self) {} }
impl Dflt for u16 { open spec fn dflt() -> Self { 0 } }
impl Serde for u16 {
  open spec fn ser(&self) -> Json { Json::Int(*self as int) }
  open spec fn de(j: Json) -> Option<Self> { match j { Json::Int(s) => if u16::MIN <= s <= u16::MAX { Some(s as u16) } else { None }, _ => None } }
  open spec fn missing() -> Option<Self> { None }
  proof fn rt(&self) {}
}
impl Plain for u16 { proof fn not_null(&self) {} }
impl Dflt for i8 { open spec fn dflt() -> Self { 0 } }
impl Serde for i8 {
  open spec fn ser(&self) -> Json { Json::Int(*self as int) }
  open spec fn de(j: Json) -> Option<Self> { match j { Json::Int(s) => if i8::MIN <= s <= i8::MAX { Some(s as i8) } else { None }, _ => None } }
  open spec fn missing() -> Option<Self> { None }
  proof fn rt(&self) {}
}
impl Plain for i8 { proof fn not_null(&self) {} }
impl Dflt for i16 { open spec fn dflt() -> Self { 0 } }
impl Serde for i16 {
  open spec fn ser(&self) -> Json { Json::Int(*self as int) }
  open spec fn de(j: Json) -> Option<Self> { match j { Json::Int(s) => if i16::MIN <= s <= i16::MAX { Some(s as i16) } else { None }, _ => None } }
  open spec fn missing() -> Option<Self> { None }
  proof fn rt(&self) {}
}
impl Plain for i16 { proof fn not_null(&self) {} }
impl Dflt for f64 { uninterp spec fn dflt() -> Self; }
impl Serde for f64 {
  open spec fn ser(&self) -> Json { Json::Num(*self) }
  open spec fn de(j: Json) -> Option<Self> { match j { Json::Num(s) => Some(s), Json::Int(n) => Some(float_of(n)), _ => None } }
  open spec fn missing() -> Option<Self> { None }
  proof fn rt(&self) {}
}
impl Plain for f64 { proof fn not_null(&self) {} }
impl<T: Plain> Dflt for Option<T> { open spec fn dflt() -> Self { None } }
impl<T: Plain> Serde for Option<T> {
  open spec fn ser(&self) -> Json { match self { None => Json::Null, Some(x) => x.ser() } }
  open spec fn de(j: Json) -> Option<Self> { match j { Json::Null => Some(None), _ => match T::de(j) { Some(x) => Some(Some(x)), None => None } } }
  open spec fn missing() -> Option<Self> { Some(None) }
  proof fn rt(&self) { if let Some(x) = self { x.rt(); x.not_null(); } }
}
impl<T: Serde> Dflt for Vec<T> { open spec fn dflt() -> Self { vec_of(Seq::empty()) } }
impl<T: Serde> Serde for Vec<T> {
  open spec fn ser(&self) -> Json { Json::Arr(Seq::new(self@.len(), |i: int| self@[i].ser())) }
  open spec fn de(j: Json) -> Option<Self> {
    match j {
      Json::Arr(s) => if forall|i: int| 0 <= i < s.len() ==> T::de(#[trigger] s[i]) is Some { Some(vec_of(Seq::new(s.len(), |i: int| T::de(s[i]).unwrap()))) } else { None },
      _ => None,
    }
  }
  open spec fn missing() -> Option<Self> { None }
  proof fn rt(&self) {
    broadcast use json_axioms;
    let s = Seq::new(self@.len(), |i: int| self@[i].ser());
    assert forall|i: int| 0 <= i < s.len() implies T::de(#[trigger] s[i]) == Some(self@[i]) by { self@[i].rt(); }
    assert(Seq::new(s.len(), |i: int| T::de(s[i]).unwrap()) =~= self@);
  }
}
impl<T: Serde> Plain for Vec<T> { proof fn not_null(&self) {} }
pub open spec fn obj_of<T: Serde>(m: Map<String, T>) -> Map<Seq<char>, Json> { Map::new(m.dom().map(|k: String| k@), |k: Seq<char>| m[str_of(k)].ser()) }
pub open spec fn obj_back<T: Serde>(m: Map<Seq<char>, Json>) -> Map<String, T> { Map::new(m.dom().map(|k: Seq<char>| str_of(k)), |k: String| T::de(m[k@]).unwrap()) }
impl<T: Serde> Dflt for HashMap<String, T> { open spec fn dflt() -> Self { map_of(Map::empty()) } }
impl<T: Serde> Serde for HashMap<String, T> {
  open spec fn ser(&self) -> Json { Json::Obj(obj_of(self@)) }
  open spec fn de(j: Json) -> Option<Self> {
    match j {
      Json::Obj(m) => if forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> T::de(m[k]) is Some { Some(map_of(obj_back::<T>(m))) } else { None },
      _ => None,
    }
  }
  open spec fn missing() -> Option<Self> { None }
  proof fn rt(&self) {
    broadcast use json_axioms;
    let m = obj_of(self@);
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies T::de(m[k]) == Some(self@[str_of(k)]) by { self@[str_of(k)].rt(); }
    let b = obj_back::<T>(m);
    assert forall|k: String| b.contains_key(k) <==> #[trigger] self@.contains_key(k) by {
      if self@.contains_key(k) { assert(m.contains_key(k@)); assert(m.dom().contains(k@) && str_of(k@) == k); }
      if b.contains_key(k) {
        let c = choose|c: Seq<char>| #[trigger] m.dom().contains(c) && str_of(c) == k;
        assert(m.contains_key(c));
        let d = choose|d: String| #[trigger] self@.dom().contains(d) && d@ == c;
        assert(self@.contains_key(d));
      }
    }
    assert(b =~= self@);
  }
}
impl<T: Serde> Plain for HashMap<String, T> { proof fn not_null(&self) {} }
/// assumed: points in time are written in RFC 3339 with all their digits
pub uninterp spec fn time_ser(x: Time) -> Json;
pub uninterp spec fn time_de(j: Json) -> Option<Time>;
impl Dflt for Time { uninterp spec fn dflt() -> Self; }
impl Serde for Time {
  open spec fn ser(&self) -> Json { time_ser(*self) }
  open spec fn de(j: Json) -> Option<Self> { time_de(j) }
  open spec fn missing() -> Option<Self> { None }
  #[verifier::external_body]
  proof fn rt(&self) {}
}
impl Plain for Time { #[verifier::external_body] proof fn not_null(&self) {} }
/// assumed: a whole number of seconds and of nanoseconds
pub uninterp spec fn duration_ser(x: Duration) -> Json;
pub uninterp spec fn duration_de(j: Json) -> Option<Duration>;
impl Dflt for Duration { uninterp spec fn dflt() -> Self; }
impl Serde for Duration {
  open spec fn ser(&self) -> Json { duration_ser(*self) }
  open spec fn de(j: Json) -> Option<Self> { duration_de(j) }
  open spec fn missing() -> Option<Self> { None }
  #[verifier::external_body]
  proof fn rt(&self) {}
}
impl Plain for Duration { #[verifier::external_body] proof fn not_null(&self) {} }
