// ---------------------------------------------------------------- gen/flat.rs: a path, character by character
//@type gen/flat.rs Charlike : Clone PartialEq Eq PartialOrd Ord
impl Clone for Charlike { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn seg_chars(s: PathSegment) -> Seq<Charlike> {
    match s {
        PathSegment::Static(t) => t@.map_values(|c: char| Charlike::Static(c)).push(Charlike::Separator),
        PathSegment::Dynamic(p) => seq![Charlike::Dynamic(p.name), Charlike::Separator],
    }
}
/// each segment's text, or its parameter, followed by a separator
pub open spec fn path_chars(path: Seq<PathSegment>) -> Seq<Charlike>
    decreases path.len()
{ if path.len() == 0 { seq![] } else { path_chars(path.drop_last()) + seg_chars(path.last()) } }

// ---- iterators by their elements
pub enum Either<A, B> { Left(A), Right(B) }
pub trait Many<T>: Sized { spec fn many(&self) -> Seq<T>; fn to_vec(self) -> (r: Vec<T>) ensures r@ == self.many(); }
impl<T> Many<T> for Vec<T> { open spec fn many(&self) -> Seq<T> { self@ } fn to_vec(self) -> (r: Vec<T>) { self } }
impl<T, A: Many<T>, B: Many<T>> Many<T> for Either<A, B> {
    open spec fn many(&self) -> Seq<T> { match *self { Either::Left(a) => a.many(), Either::Right(b) => b.many() } }
    fn to_vec(self) -> (r: Vec<T>) { match self { Either::Left(a) => a.to_vec(), Either::Right(b) => b.to_vec() } }
}
pub fn vec_append<T, M: Many<T>>(o: &mut Vec<T>, m: M) ensures final(o)@ == old(o)@ + m.many() { let mut v = m.to_vec(); o.append(&mut v); }
pub fn vec_chain<T, A: Many<T>, B: Many<T>>(a: A, b: B) -> (r: Vec<T>) ensures r@ == a.many() + b.many() { let mut x = a.to_vec(); let mut y = b.to_vec(); x.append(&mut y); x }
pub fn vec_once<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); proof { assert(v@ =~= seq![x]); } v }

impl FlattenedPath {
//@fn gen/flat.rs FlattenedPath::iter -> r
    ensures r@ == path_chars($self.segments@),
//@loop 1
    invariant $v1@ == $self.segments@, $k1 <= $v1@.len(), seq_of::<Charlike>($o1) == path_chars($self.segments@.take($k1 as int)),
    decreases $v1@.len() - $k1
//@before 1
    proof { assert(seq_of::<Charlike>($o1) =~= path_chars($self.segments@.take(0))); }
//@head 1
    let ghost i = $k1 as int;
    proof { assert($self.segments@.take(i + 1).drop_last() =~= $self.segments@.take(i)); }
//@loop 2
    invariant $k2 <= $v2@.len(), seq_of::<Charlike>($o2) =~= $v2@.take($k2 as int).map_values(|c: char| Charlike::Static(c)),
    decreases $v2@.len() - $k2
//@after 2
    proof {
        assert($v2@.take($v2@.len() as int) =~= $v2@);
        assert($v2@.map_values(|c: char| Charlike::Static(c)).push(Charlike::Separator) =~= $v2@.map_values(|c: char| Charlike::Static(c)) + seq![Charlike::Separator]);
    }
//@tail 1
    proof {
        if $self.segments@[i] is Dynamic { assert(seq_of::<Charlike>($o1) =~= path_chars($self.segments@.take(i)) + seg_chars($self.segments@[i])); }
        assert(seq_of::<Charlike>($o1) =~= path_chars($self.segments@.take(i + 1)));
    }
//@after 1
    proof { assert($self.segments@.take($self.segments@.len() as int) =~= $self.segments@); }
//@end
}
