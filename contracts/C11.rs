#![allow(unused_imports)]
use vstd::prelude::*;
verus! {
//@include prelude.rs
//@include core_types.rs

// ---- conversions taken from std, by their meaning
pub trait AsRef<T: ?Sized> {
    spec fn text(&self) -> Seq<char>;
    fn as_ref(&self) -> (r: &str) ensures r@ == self.text();
}
pub trait Into<T>: Sized {
    spec fn into_is(self, r: T) -> bool;
    fn into(self) -> (r: T) ensures self.into_is(r);
}
// std: impl<T, U: From<T>> Into<U> for T
impl<S: AsRef<str>> Into<PathSegment> for S {
    open spec fn into_is(self, r: PathSegment) -> bool { r matches PathSegment::Static(t) && t@ == self.text() }
    fn into(self) -> (r: PathSegment) { PathSegment::from(self) }
}
impl PathSegment {
//@fn core/mod.rs <From<T> for PathSegment>::from -> r
//@hoist
    ensures r matches PathSegment::Static(t) && t@ == $1.text(),
//@end
}

impl NestedRoutes {
//@fn core/mod.rs NestedRoutes::new -> r
    ensures $1.into_is(r.path_segment), r.routes == $2,
//@end
}

/// each element once, in order of first occurrence
pub open spec fn uniq(s: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { s }
    else if s.drop_last().contains(s.last()) { uniq(s.drop_last()) }
    else { uniq(s.drop_last()).push(s.last()) }
}
pub open spec fn texts(s: Seq<Header>) -> Seq<Seq<char>> { s.map_values(|h: Header| h.text@) }
#[verifier::external_body]
fn vec_extend<T>(v: &mut Vec<T>, w: Vec<T>)
    ensures final(v)@ == old(v)@ + w@
{ v.extend(w.into_iter()) }
// itertools::unique; Header's Eq and Hash are derived
#[verifier::external_body]
fn vec_unique(v: Vec<Header>) -> (r: Vec<Header>)
    ensures texts(r@) == uniq(texts(v@))
{ unimplemented!() }

impl RouteConfig {
//@fn core/mod.rs RouteConfig::mount -> r
    ensures
        // the host's routes, then the mounted ones under that segment
        r.routes.routes@.len() == $self.routes.routes@.len() + 1,
        r.routes.routes@.drop_last() == $self.routes.routes@,
        r.routes.routes@.last().path_segment matches PathSegment::Static(t) && t@ == $1.text(),
        r.routes.routes@.last().routes == $2.routes,
        r.routes.resources == $self.routes.resources,
        r.routes.query_parameters == $self.routes.query_parameters,
        texts(r.headers@) == uniq(texts($self.headers@) + texts($2.headers@)),
//@start
proof { assert(texts(self.headers@ + $2.headers@) =~= texts(self.headers@) + texts($2.headers@)); }
//@end
}

// what uniq means: every text once, and in order of first occurrence
pub proof fn uniq_is(s: Seq<Seq<char>>)
    ensures
        uniq(s).no_duplicates(),
        forall|h: Seq<char>| #[trigger] uniq(s).contains(h) <==> s.contains(h),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        let l = s.last();
        uniq_is(t);
        assert(s =~= t.push(l));
        assert(t.contains(l) <==> uniq(t).contains(l));
        assert forall|h: Seq<char>| #[trigger] uniq(s).contains(h) <==> s.contains(h) by {
            assert(s.contains(h) <==> t.contains(h) || h == l) by {
                if t.contains(h) { let i = choose|i: int| 0 <= i < t.len() && t[i] == h; assert(s[i] == h); }
                if h == l { assert(s[s.len() - 1] == h); }
            }
            if !t.contains(l) {
                let u = uniq(t);
                assert(uniq(s) == u.push(l));
                if u.contains(h) { let i = choose|i: int| 0 <= i < u.len() && u[i] == h; assert(u.push(l)[i] == h); }
                if h == l { assert(u.push(l)[u.len() as int] == h); }
            }
            assert(uniq(t).contains(h) <==> t.contains(h));
        }
    }
}
pub open spec fn before(s: Seq<Seq<char>>, a: Seq<char>, b: Seq<char>) -> bool {
    exists|i: int, j: int| 0 <= i < j < s.len() && s[i] == a && s[j] == b && !s.take(j).contains(b)
}
pub proof fn uniq_order(s: Seq<Seq<char>>, i: int, j: int)
    requires 0 <= i < j < uniq(s).len(),
    ensures before(s, uniq(s)[i], uniq(s)[j]),
    decreases s.len()
{
    let t = s.drop_last();
    let l = s.last();
    uniq_is(t);
    if t.contains(l) || j < uniq(t).len() {
        uniq_order(t, i, j);
        let (a, b) = (uniq(s)[i], uniq(s)[j]);
        let (x, y) = choose|x: int, y: int| 0 <= x < y < t.len() && t[x] == a && t[y] == b && !t.take(y).contains(b);
        assert(s[x] == a && s[y] == b);
        assert(s.take(y) =~= t.take(y));
    } else {
        let a = uniq(t)[i];
        assert(uniq(t).contains(a));
        assert(t.contains(a));
        let x = choose|x: int| 0 <= x < t.len() && t[x] == a;
        assert(s[x] == a && s[s.len() - 1] == l);
        assert(s.take(s.len() - 1) =~= t);
    }
}
}
