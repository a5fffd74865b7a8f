// ---- text: prefixes, suffixes ----
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.is_prefix_of(s) }
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { p.is_suffix_of(s) }
pub trait VPat {
  spec fn at_start(&self, s: Seq<char>) -> bool;
  spec fn at_end(&self, s: Seq<char>) -> bool;
  spec fn cut_start(&self, s: Seq<char>) -> Seq<char>;
  spec fn cut_end(&self, s: Seq<char>) -> Seq<char>;
  spec fn pat(&self) -> Seq<char>;
}
impl VPat for char {
  open spec fn at_start(&self, s: Seq<char>) -> bool { s.len() > 0 && s[0] == *self }
  open spec fn at_end(&self, s: Seq<char>) -> bool { s.len() > 0 && s.last() == *self }
  open spec fn cut_start(&self, s: Seq<char>) -> Seq<char> { s.skip(1) }
  open spec fn cut_end(&self, s: Seq<char>) -> Seq<char> { s.take(s.len() - 1) }
  open spec fn pat(&self) -> Seq<char> { seq![*self] }
}
impl VPat for str {
  open spec fn at_start(&self, s: Seq<char>) -> bool { starts(s, self@) }
  open spec fn at_end(&self, s: Seq<char>) -> bool { ends(s, self@) }
  open spec fn cut_start(&self, s: Seq<char>) -> Seq<char> { s.skip(self@.len() as int) }
  open spec fn cut_end(&self, s: Seq<char>) -> Seq<char> { s.take(s.len() - self@.len()) }
  open spec fn pat(&self) -> Seq<char> { self@ }
}
impl VPat for String {
  open spec fn at_start(&self, s: Seq<char>) -> bool { starts(s, self@) }
  open spec fn at_end(&self, s: Seq<char>) -> bool { ends(s, self@) }
  open spec fn cut_start(&self, s: Seq<char>) -> Seq<char> { s.skip(self@.len() as int) }
  open spec fn cut_end(&self, s: Seq<char>) -> Seq<char> { s.take(s.len() - self@.len()) }
  open spec fn pat(&self) -> Seq<char> { self@ }
}
impl<T: VPat + ?Sized> VPat for &T {
  open spec fn at_start(&self, s: Seq<char>) -> bool { (**self).at_start(s) }
  open spec fn at_end(&self, s: Seq<char>) -> bool { (**self).at_end(s) }
  open spec fn cut_start(&self, s: Seq<char>) -> Seq<char> { (**self).cut_start(s) }
  open spec fn cut_end(&self, s: Seq<char>) -> Seq<char> { (**self).cut_end(s) }
  open spec fn pat(&self) -> Seq<char> { (**self).pat() }
}
/// some text that depends on `s` only (str::trim and the like)
pub uninterp spec fn text_fn(name: Seq<char>, s: Seq<char>) -> Seq<char>;
/// str::replace
pub uninterp spec fn text_rep(s: Seq<char>, pat: Seq<char>, to: Seq<char>) -> Seq<char>;
pub trait VText {
  spec fn tv(&self) -> Seq<char>;
  fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == p.at_start(self.tv());
  fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == p.at_end(self.tv());
  fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>)
    ensures r matches Some(x) ==> p.at_start(self.tv()) && x@ == p.cut_start(self.tv()), r is None ==> !p.at_start(self.tv());
  fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>)
    ensures r matches Some(x) ==> p.at_end(self.tv()) && x@ == p.cut_end(self.tv()), r is None ==> !p.at_end(self.tv());
  fn v_trim(&self) -> (r: &str) ensures r@ == text_fn("trim"@, self.tv());
  fn v_trim_start(&self) -> (r: &str) ensures r@ == text_fn("trim_start"@, self.tv());
  fn v_trim_end(&self) -> (r: &str) ensures r@ == text_fn("trim_end"@, self.tv());
  fn v_lower(&self) -> (r: String) ensures r@ == text_fn("lower"@, self.tv());
  fn v_upper(&self) -> (r: String) ensures r@ == text_fn("upper"@, self.tv());
  fn v_ascii_lower(&self) -> (r: String) ensures r@ == text_fn("ascii_lower"@, self.tv());
  fn v_ascii_upper(&self) -> (r: String) ensures r@ == text_fn("ascii_upper"@, self.tv());
  fn v_replace<P: VPat>(&self, p: P, to: &str) -> (r: String) ensures r@ == text_rep(self.tv(), p.pat(), to@);
  fn eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (text_fn("ascii_lower"@, self.tv()) == text_fn("ascii_lower"@, o@));
}
impl VText for str {
  open spec fn tv(&self) -> Seq<char> { self@ }
  #[verifier::external_body]
  fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
  #[verifier::external_body]
  fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
  #[verifier::external_body]
  fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
  #[verifier::external_body]
  fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
  #[verifier::external_body]
  fn v_trim(&self) -> (r: &str) { unimplemented!() }
  #[verifier::external_body]
  fn v_trim_start(&self) -> (r: &str) { unimplemented!() }
  #[verifier::external_body]
  fn v_trim_end(&self) -> (r: &str) { unimplemented!() }
  #[verifier::external_body]
  fn v_lower(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body]
  fn v_upper(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body]
  fn v_ascii_lower(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body]
  fn v_ascii_upper(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body]
  fn v_replace<P: VPat>(&self, p: P, to: &str) -> (r: String) { unimplemented!() }
  #[verifier::external_body]
  fn eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
}
//@rename-method starts_with v_starts_with
//@rename-method ends_with v_ends_with
//@rename-method strip_prefix v_strip_prefix
//@rename-method strip_suffix v_strip_suffix
//@rename-method trim v_trim
//@rename-method trim_start v_trim_start
//@rename-method trim_end v_trim_end
//@rename-method to_lowercase v_lower
//@rename-method to_uppercase v_upper
//@rename-method to_ascii_lowercase v_ascii_lower
//@rename-method to_ascii_uppercase v_ascii_upper
//@rename-method replace/2 v_replace
