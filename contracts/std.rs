// ---------------------------------------------------------------- what the extraction's names stand for
/// an iterator over the remaining elements of a sequence
pub struct Cursor<T> { pub v: Vec<T> }
#[verifier::external_body]
pub fn cursor<T>(v: Vec<T>) -> (r: Cursor<T>) ensures r.v@ == v@ { unimplemented!() }
impl<T> Cursor<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self).v@.len() == 0 ==> r is None && final(self).v@ == old(self).v@,
            old(self).v@.len() > 0 ==> r == Some(old(self).v@[0]) && final(self).v@ == old(self).v@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&T>)
        ensures
            self.v@.len() == 0 ==> r is None,
            self.v@.len() > 0 ==> (r matches Some(x) && *x == self.v@[0]),
    { unimplemented!() }
}
/// iterator adaptors on the eager form
pub trait Adaptors<T>: Sized {
    spec fn elems(&self) -> Seq<T>;
    fn peekable(self) -> (r: Cursor<T>) ensures r.v@ == self.elems();
}
impl<T> Adaptors<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    fn peekable(self) -> (r: Cursor<T>) { cursor(self) }
}
impl<T> Adaptors<T> for Cursor<T> {
    open spec fn elems(&self) -> Seq<T> { self.v@ }
    fn peekable(self) -> (r: Cursor<T>) { self }
}
#[verifier::external_body]
pub fn chars_vec<'a, S: AsText + ?Sized>(s: &'a S) -> (r: Vec<char>) ensures r@ == s.text() { unimplemented!() }
pub trait AsText { spec fn text(&self) -> Seq<char>; }
impl AsText for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl AsText for str { open spec fn text(&self) -> Seq<char> { self@ } }
impl<T: AsText + ?Sized> AsText for &T { open spec fn text(&self) -> Seq<char> { (**self).text() } }

// overflow as a panic
#[verifier::external_body]
pub fn v_add(a: usize, b: usize) -> (r: usize) ensures r == a + b { a + b }
#[verifier::external_body]
pub fn v_sub(a: usize, b: usize) -> (r: usize) ensures r == a - b { a - b }
#[verifier::external_body]
pub fn v_mul(a: usize, b: usize) -> (r: usize) ensures r == a * b { a * b }
#[verifier::external_body]
pub fn str_eq<S: AsText + ?Sized, U: AsText + ?Sized>(s: &S, u: &U) -> (r: bool) ensures r == (s.text() == u.text()) { unimplemented!() }
