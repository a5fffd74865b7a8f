// ---- text: splitting and numbers ----
/// the parts of `s` between occurrences of `c` (str::split)
pub open spec fn split_on(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
  if s.len() == 0 { seq![Seq::<char>::empty()] } else {
    let r = split_on(s.drop_last(), c);
    if s.last() == c { r.push(Seq::<char>::empty()) }
    else { r.update(r.len() - 1, r.last().push(s.last())) }
  }
}
pub open spec fn no_char(s: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != c }
pub proof fn lemma_split_len(s: Seq<char>, c: char)
  ensures split_on(s, c).len() >= 1
  decreases s.len()
{ if s.len() > 0 { lemma_split_len(s.drop_last(), c); } }
pub proof fn lemma_split_none(s: Seq<char>, c: char)
  requires no_char(s, c)
  ensures split_on(s, c) =~= seq![s]
  decreases s.len()
{
  if s.len() > 0 {
    lemma_split_none(s.drop_last(), c);
    assert(s.drop_last().push(s.last()) =~= s);
  } else { assert(s =~= Seq::<char>::empty()); }
}
pub proof fn lemma_split_cat(a: Seq<char>, b: Seq<char>, c: char)
  requires no_char(b, c)
  ensures split_on(a + seq![c] + b, c) =~= split_on(a, c).push(b)
  decreases b.len()
{
  let s = a + seq![c] + b;
  lemma_split_len(a, c);
  if b.len() == 0 {
    assert(s =~= a.push(c));
    assert(s.drop_last() =~= a);
    assert(b =~= Seq::<char>::empty());
  } else {
    assert(s.drop_last() =~= a + seq![c] + b.drop_last());
    assert forall|i: int| 0 <= i < b.drop_last().len() implies b.drop_last()[i] != c by { assert(b.drop_last()[i] == b[i]); }
    lemma_split_cat(a, b.drop_last(), c);
    assert(b.drop_last().push(b.last()) =~= b);
  }
}
pub trait VStr {
  spec fn sv(&self) -> Seq<char>;
  fn v_split(&self, c: char) -> (r: VIt<&str>)
    ensures r@.len() == split_on(self.sv(), c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_on(self.sv(), c)[i];
  fn v_parse<F: VFromStr>(&self) -> (r: core::result::Result<F, ParseErr>)
    ensures r == (match F::from_text(self.sv()) { Some(v) => Ok::<F, ParseErr>(v), None => Err(parse_err()) });
}
#[verifier::external_body]
pub struct ParseErr { e: u8 }
pub uninterp spec fn parse_err() -> ParseErr;
pub trait VFromStr: Sized { spec fn from_text(s: Seq<char>) -> Option<Self>; }
impl VFromStr for usize { uninterp spec fn from_text(s: Seq<char>) -> Option<usize>; }
impl VFromStr for u8 { uninterp spec fn from_text(s: Seq<char>) -> Option<u8>; }
impl VFromStr for u16 { uninterp spec fn from_text(s: Seq<char>) -> Option<u16>; }
impl VFromStr for u32 { uninterp spec fn from_text(s: Seq<char>) -> Option<u32>; }
impl VFromStr for u64 { uninterp spec fn from_text(s: Seq<char>) -> Option<u64>; }
impl VFromStr for i32 { uninterp spec fn from_text(s: Seq<char>) -> Option<i32>; }
impl VFromStr for i64 { uninterp spec fn from_text(s: Seq<char>) -> Option<i64>; }
impl VFromStr for isize { uninterp spec fn from_text(s: Seq<char>) -> Option<isize>; }
impl VStr for str {
  open spec fn sv(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn v_split(&self, c: char) -> (r: VIt<&str>) { unimplemented!() }
  #[verifier::external_body]
  fn v_parse<F: VFromStr>(&self) -> (r: core::result::Result<F, ParseErr>) { unimplemented!() }
}
/// printing a number and reading it back (core's Display/FromStr for usize)
#[verifier::external_body]
pub proof fn axiom_dec(n: usize)
  ensures no_char(dec(n as nat), '/'), usize::from_text(dec(n as nat)) == Some(n)
{ }
//@rename-method split v_split
//@rename-method parse v_parse
