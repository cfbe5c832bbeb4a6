// ---------------------------------------------------------------------------
// Texts and lists, as std treats them
// ---------------------------------------------------------------------------
//@rewrite method chars => .m_chars
//@rewrite method rev => .m_rev
//@rewrite method next => .m_next
//@rewrite method into_iter => .m_into_iter
//@rewrite path strslices => on
//@rewrite path iterparams => on
//@rewrite method lines => .m_lines
//@rewrite method replace => .m_replace
//@rewrite method extend => .m_extend
//@rewrite method len_utf8 => m_len_utf8
//@rewrite method last_mut => .m_last_mut
//@rewrite call String::new => m_string_new
// --- characters and texts ---
pub open spec fn utf8_len(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
#[verifier::external_body]
pub fn m_len_utf8(c: char) -> (r: usize) ensures r == utf8_len(c) { c.len_utf8() }
/// number of bytes of a text
pub open spec fn bytes(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { bytes(s.drop_last()) + utf8_len(s.last()) } }
/// does a character end after `n` bytes?
pub open spec fn boundary(s: Seq<char>, n: nat) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] bytes(s.take(k)) == n }
pub open spec fn is_before(s: Seq<char>, n: nat, r: Seq<char>) -> bool { forall|k: int| 0 <= k <= s.len() && #[trigger] bytes(s.take(k)) == n ==> r == s.take(k) }
pub open spec fn is_after(s: Seq<char>, n: nat, r: Seq<char>) -> bool { forall|k: int| 0 <= k <= s.len() && #[trigger] bytes(s.take(k)) == n ==> r == s.skip(k) }
/// every `a` (not empty), from the left, replaced by `b`
pub open spec fn sp_replace(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if a.len() == 0 || s.len() < a.len() { s }
    else if s.take(a.len() as int) == a { b + sp_replace(s.skip(a.len() as int), a, b) }
    else { seq![s[0]] + sp_replace(s.skip(1), a, b) }
}
/// how many line breaks (LF, CRLF or CR) a text has
pub open spec fn breaks(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 }
    else if s.len() > 1 && s[0] == '\r' && s[1] == '\n' { 1 + breaks(s.skip(2)) }
    else if s[0] == '\r' || s[0] == '\n' { 1 + breaks(s.skip(1)) }
    else { breaks(s.skip(1)) }
}
/// the lines of a text that consists of line feeds only
pub trait TextShim {
    spec fn tv(&self) -> Seq<char>;
    fn m_chars(&self) -> (r: Vec<char>) ensures r@ == self.tv();
    fn m_lines(&self) -> (r: Vec<&str>) ensures (forall|i: int| 0 <= i < self.tv().len() ==> #[trigger] self.tv()[i] == '\n') ==> r@.len() == self.tv().len();
    fn m_replace(&self, a: &str, b: &str) -> (r: String) ensures a@.len() > 0 ==> r@ == sp_replace(self.tv(), a@, b@);
    /// the first `n` bytes / what follows them (slicing on a character boundary)
    fn m_slice_to(&self, n: usize) -> (r: &str)
        requires boundary(self.tv(), n as nat)
        ensures is_before(self.tv(), n as nat, r@);
    fn m_slice_from(&self, n: usize) -> (r: &str)
        requires boundary(self.tv(), n as nat)
        ensures is_after(self.tv(), n as nat, r@);
}
impl TextShim for str {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn m_chars(&self) -> (r: Vec<char>) { unimplemented!() }
    #[verifier::external_body]
    fn m_lines(&self) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn m_replace(&self, a: &str, b: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn m_slice_to(&self, n: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn m_slice_from(&self, n: usize) -> (r: &str) { unimplemented!() }
}
#[verifier::external_body]
pub fn m_string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
/// lists, and iterators that own what they still yield
pub trait ListShim<T> {
    spec fn lv(&self) -> Seq<T>;
    fn m_into_iter(self) -> (r: Vec<T>) where Self: Sized ensures r@ == self.lv();
    fn m_next(&mut self) -> (r: Option<T>)
        ensures
            old(self).lv().len() == 0 ==> r is None && final(self).lv() == old(self).lv(),
            old(self).lv().len() > 0 ==> r == Some(old(self).lv()[0]) && final(self).lv() == old(self).lv().skip(1);
    fn m_rev(self) -> (r: Vec<T>) where Self: Sized ensures r@ == self.lv().reverse();
    fn m_extend<L: AsList<T>>(&mut self, o: L) ensures final(self).lv() == old(self).lv() + o.al();
    /// a mutable reference to the last element
    fn m_last_mut(&mut self) -> (r: Option<&mut T>)
        ensures
            old(self).lv().len() == 0 ==> r is None && final(self).lv() == old(self).lv(),
            old(self).lv().len() > 0 ==> r is Some && *r->Some_0 == old(self).lv().last() && final(self).lv() == old(self).lv().drop_last().push(*final(r->Some_0));
}
impl<T> ListShim<T> for Vec<T> {
    open spec fn lv(&self) -> Seq<T> { self@ }
    fn m_into_iter(self) -> (r: Vec<T>) { self }
    #[verifier::external_body]
    fn m_next(&mut self) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body]
    fn m_rev(self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn m_extend<L: AsList<T>>(&mut self, o: L) { unimplemented!() }
    #[verifier::external_body]
    fn m_last_mut(&mut self) -> (r: Option<&mut T>) { unimplemented!() }
}
