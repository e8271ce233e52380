// ---------------------------------------------------------------- the output, by the text it has accepted
pub mod io {
    use super::*;
    pub struct Error;
    pub enum ErrorKind { InvalidInput, InvalidData, NotFound, Other }
    impl ErrorKind {
        #[verifier::external_body]
        pub fn into(self) -> Error { unimplemented!() }
    }
    pub type Result<T> = core::result::Result<T, Error>;
    pub trait Write {
        spec fn text(&self) -> Seq<char>;
        /// some write to it has failed
        spec fn failed(&self) -> bool;
        fn put_text(&mut self, t: String) -> (r: Result<()>)
            ensures
                r is Ok ==> final(self).text() == old(self).text() + t@ && final(self).failed() == old(self).failed(),
                r is Err ==> final(self).failed();
    }
}
use io::Write;
// so that it does not matter how the text is divided into writes
pub mod assoc {
use super::*;
pub broadcast proof fn pieces(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] (a + (b + c)) == (a + b) + c
{ assert(a + (b + c) =~= (a + b) + c); }
pub broadcast proof fn first_piece(a: Seq<char>)
    ensures #[trigger] (a + Seq::empty()) == a
{ assert(a + Seq::empty() =~= a); }
pub broadcast proof fn no_piece(a: Seq<char>)
    ensures #[trigger] (Seq::empty() + a) == a
{ assert(Seq::empty() + a =~= a); }
}
broadcast use {assoc::pieces, assoc::first_piece, assoc::no_piece};
//@pieces
    ensures
        r is Ok ==> final(w).text() == old(w).text() + ($text) && final(w).failed() == old(w).failed(),
        r is Err ==> final(w).failed(),
//@end
