// ---------------------------------------------------------------- what the extraction's text macros mean
// format!/write! of `{}` append the argument's text; the text of a type with
// its own Display implementation is what that implementation writes.
// the text of a line starts from nothing
pub open spec fn o0() -> Seq<char> { Seq::empty() }
pub trait Disp {
    spec fn shown(&self) -> Seq<char>;
    fn disp(&self, o: &mut String)
        ensures final(o)@ == old(o)@ + self.shown();
}
impl Disp for String {
    open spec fn shown(&self) -> Seq<char> { self@ }
    fn disp(&self, o: &mut String) { o.push_str(self.as_str()); }
}
impl Disp for str {
    open spec fn shown(&self) -> Seq<char> { self@ }
    fn disp(&self, o: &mut String) { o.push_str(self); }
}
impl<T: Disp + ?Sized> Disp for &T {
    open spec fn shown(&self) -> Seq<char> { (**self).shown() }
    fn disp(&self, o: &mut String) { (**self).disp(o); }
}
impl Disp for char {
    open spec fn shown(&self) -> Seq<char> { seq![*self] }
    fn disp(&self, o: &mut String) { o.push(*self); }
}
/// the decimal digits of a number
pub open spec fn digit(n: nat) -> char { ((48 + n) as u8) as char }
pub open spec fn digits(n: nat) -> Seq<char>
    decreases n
{ if n < 10 { seq![digit(n)] } else { digits(n / 10).push(digit(n % 10)) } }
impl Disp for usize {
    open spec fn shown(&self) -> Seq<char> { digits(*self as nat) }
    #[verifier::external_body]
    fn disp(&self, o: &mut String) { o.push_str(&self.to_string()); }
}
impl Disp for u32 {
    open spec fn shown(&self) -> Seq<char> { digits(*self as nat) }
    #[verifier::external_body]
    fn disp(&self, o: &mut String) { o.push_str(&self.to_string()); }
}
pub fn shown_string<T: Disp + ?Sized>(x: &T) -> (r: String)
    ensures r@ == x.shown()
{ let mut o = String::new(); x.disp(&mut o); proof { assert(seq![] + x.shown() =~= x.shown()); } o }
pub fn disp<T: Disp + ?Sized>(x: &T, o: &mut String)
    ensures final(o)@ == old(o)@ + x.shown()
{ x.disp(o); }

pub mod fmt {
    use super::*;
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    /// a formatter that writes to a String (as format! and to_string do)
    pub struct Formatter { pub out: String }
    impl Formatter {
        pub fn write_str(&mut self, s: &str) -> (r: Result)
            ensures r is Ok, final(self).out@ == old(self).out@ + s@
        { self.out.push_str(s); Ok(()) }
        pub fn put_text(&mut self, t: String) -> (r: Result)
            ensures r is Ok, final(self).out@ == old(self).out@ + t@
        { self.out.push_str(t.as_str()); Ok(()) }
    }
}
