// ---- text
pub open spec fn trim_end(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && s.last() == c { trim_end(s.drop_last(), c) } else { s } }
pub open spec fn trim_start(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && s[0] == c { trim_start(s.drop_first(), c) } else { s } }
pub proof fn lemma_trim_end(s: Seq<char>, c: char)
    ensures
        trim_end(s, c).len() <= s.len(),
        trim_end(s, c) == s.subrange(0, trim_end(s, c).len() as int),
        trim_end(s, c).len() > 0 ==> trim_end(s, c).last() != c,
    decreases s.len()
{
    if s.len() > 0 && s.last() == c {
        lemma_trim_end(s.drop_last(), c);
        let n = trim_end(s, c).len() as int;
        assert(s.drop_last().subrange(0, n) =~= s.subrange(0, n));
    } else { assert(s.subrange(0, s.len() as int) =~= s); }
}
pub trait ZvText {
    spec fn text(&self) -> Seq<char>;
    fn zv_trim_end_matches(&self, c: char) -> (r: &str) ensures r@ == trim_end(self.text(), c);
    fn zv_trim_start_matches(&self, c: char) -> (r: &str) ensures r@ == trim_start(self.text(), c);
    fn zv_trim_matches(&self, c: char) -> (r: &str) ensures r@ == trim_end(trim_start(self.text(), c), c);
    fn zv_ends_with(&self, c: char) -> (r: bool) ensures r == (self.text().len() > 0 && self.text().last() == c);
    fn zv_starts_with(&self, c: char) -> (r: bool) ensures r == (self.text().len() > 0 && self.text()[0] == c);
}
impl ZvText for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn zv_trim_end_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn zv_trim_start_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn zv_trim_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn zv_ends_with(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn zv_starts_with(&self, c: char) -> (r: bool) { unimplemented!() }
}
impl ZvText for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn zv_trim_end_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn zv_trim_start_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn zv_trim_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn zv_ends_with(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn zv_starts_with(&self, c: char) -> (r: bool) { unimplemented!() }
}
/// the first k characters
pub open spec fn head(s: Seq<char>, k: nat) -> Seq<char> { s.subrange(0, k as int) }
pub trait ZvTruncate {
    spec fn ttext(&self) -> Seq<char>;
    fn zv_truncate(&mut self, n: usize)
        requires n < encode_utf8(old(self).ttext()).len() ==> exists|k: nat| k <= old(self).ttext().len() && n == encode_utf8(#[trigger] head(old(self).ttext(), k)).len()
        ensures
            n > encode_utf8(old(self).ttext()).len() ==> final(self).ttext() == old(self).ttext(),
            forall|k: nat| k <= old(self).ttext().len() && n == encode_utf8(#[trigger] head(old(self).ttext(), k)).len() ==> final(self).ttext() == head(old(self).ttext(), k);
}
impl ZvTruncate for String {
    open spec fn ttext(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn zv_truncate(&mut self, n: usize) { unimplemented!() }
}
pub trait ZvDeref { spec fn dtext(&self) -> Option<Seq<char>>; fn zv_as_deref(&self) -> (r: Option<&str>) ensures match self.dtext() { Some(s) => r is Some && r->Some_0@ == s, None => r is None }; }
impl ZvDeref for Option<String> {
    open spec fn dtext(&self) -> Option<Seq<char>> { match *self { Some(s) => Some(s@), None => None } }
    #[verifier::external_body]
    fn zv_as_deref(&self) -> (r: Option<&str>) { self.as_deref() }
}
