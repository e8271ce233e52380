// ---------------------------------------------------------------- gen/trie.rs, at the one pair of types it is used with
//@type gen/flat.rs FlattenedRoute : Clone
//@type gen/flat.rs FlattenedRoutes
//@type gen/trie.rs Trie
impl Clone for FlattenedRoute { #[verifier::external_body] fn clone(&self) -> (r: FlattenedRoute) ensures r == *self { unimplemented!() } }
pub type K = Charlike;
pub type V = FlattenedRoute;
pub type T = Trie<Charlike, FlattenedRoute>;
/// a place of the route tree: the segments leading to it, what is declared
/// there, and the query parameters of the routes around it and its own
pub ghost struct Place { pub path: Seq<PathSegment>, pub res: Seq<Resource>, pub query: Seq<Param> }
pub open spec fn place_of(f: FlattenedRoute) -> Place { Place { path: f.path.segments@, res: f.resources@, query: f.query_parameters@ } }
/// a step along a path, by its contents
pub ghost enum CK { Static(char), Dynamic(Seq<char>), Separator }
pub open spec fn ck(c: Charlike) -> CK {
    match c { Charlike::Static(x) => CK::Static(x), Charlike::Dynamic(s) => CK::Dynamic(s@), Charlike::Separator => CK::Separator }
}
pub open spec fn cks(p: Seq<Charlike>) -> Seq<CK> { p.map_values(|c: Charlike| ck(c)) }

// derive(PartialEq, Eq, PartialOrd, Ord) on Charlike: a strict total order
pub uninterp spec fn clt(a: CK, b: CK) -> bool;
#[verifier::external_body]
pub proof fn ord_is_total(a: CK, b: CK) ensures a == b ==> !clt(a, b), a != b ==> clt(a, b) != clt(b, a) {}
#[verifier::external_body]
pub proof fn ord_is_transitive(a: CK, b: CK, c: CK) requires clt(a, b), clt(b, c) ensures clt(a, c) {}
impl PartialEq for Charlike { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (ck(*self) == ck(*o)) { unimplemented!() } }
pub open spec fn ascending(s: Seq<CK>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> clt(#[trigger] s[i], #[trigger] s[j]) }
/// where k belongs
pub open spec fn fits(s: Seq<CK>, k: CK, i: int) -> bool { 0 <= i <= s.len() && (forall|j: int| 0 <= j < i ==> clt(#[trigger] s[j], k)) && (forall|j: int| i <= j < s.len() ==> clt(k, #[trigger] s[j])) }
/// std's binary search among keys
#[verifier::external_body]
pub fn search_keys(ks: &Vec<Charlike>, c: &Charlike) -> (r: core::result::Result<usize, usize>)
    ensures
        r matches Ok(i) ==> i < ks@.len() && cks(ks@)[i as int] == ck(*c),
        r matches Err(i) ==> i <= ks@.len(),
        ascending(cks(ks@)) ==> (r matches Err(i) ==> fits(cks(ks@), ck(*c), i as int)),
{ unimplemented!() }
/// what gives its elements one by one
pub trait IntoIterator: Sized {
    type Item;
    spec fn given_items(&self) -> Seq<Self::Item>;
    fn into_iter(self) -> (r: Cursor<Self::Item>) ensures r.v@ == self.given_items();
}
impl<X> IntoIterator for Vec<X> { type Item = X; open spec fn given_items(&self) -> Seq<X> { self@ } fn into_iter(self) -> (r: Cursor<X>) { cursor(self) } }
impl<X> IntoIterator for Cursor<X> { type Item = X; open spec fn given_items(&self) -> Seq<X> { self.v@ } fn into_iter(self) -> (r: Cursor<X>) { self } }

// ---- what a trie holds
pub open spec fn keys(t: T) -> Seq<CK> { t.children@.map_values(|c: (Charlike, T)| ck(c.0)) }
pub open spec fn place(t: T, k: CK, i: int) -> bool { 0 <= i < t.children@.len() && ck(t.children@[i].0) == k }
pub open spec fn kid(t: T, k: CK) -> Option<T> {
    if exists|i: int| place(t, k, i) { Some(t.children@[choose|i: int| place(t, k, i)].1) } else { None }
}
pub open spec fn tget(t: T, p: Seq<CK>) -> Option<V>
    decreases p.len()
{ if p.len() == 0 { t.data } else { match kid(t, p[0]) { Some(c) => tget(c, p.skip(1)), None => None } } }
pub open spec fn thas(t: T, p: Seq<CK>) -> bool
    decreases p.len()
{ p.len() == 0 || (kid(t, p[0]) matches Some(c) && thas(c, p.skip(1))) }
pub open spec fn tsorted(t: T) -> bool
    decreases t
{ ascending(keys(t)) && forall|i: int| 0 <= i < t.children@.len() ==> tsorted(#[trigger] t.children@[i].1) }
pub open spec fn leads(p: Seq<CK>, q: Seq<CK>) -> bool { p.len() <= q.len() && q.take(p.len() as int) =~= p }

pub proof fn one_place(t: T, k: CK, i: int, j: int)
    requires ascending(keys(t)), place(t, k, i), place(t, k, j)
    ensures i == j
{
    assert(keys(t)[i] == k && keys(t)[j] == k);
    ord_is_total(k, k);
    if i < j { assert(clt(keys(t)[i], keys(t)[j])); }
    if j < i { assert(clt(keys(t)[j], keys(t)[i])); }
}
pub proof fn kid_at(t: T, k: CK, i: int)
    requires ascending(keys(t)), place(t, k, i)
    ensures kid(t, k) == Some(t.children@[i].1)
{ one_place(t, k, i, choose|i: int| place(t, k, i)); }
pub proof fn has_key(t: T, k: CK)
    ensures keys(t).contains(k) <==> thas(t, seq![k])
{
    let p = seq![k];
    assert(p[0] == k);
    match kid(t, k) { Some(c) => { assert(thas(c, p.skip(1))); } None => {} }
    if keys(t).contains(k) { let i = choose|i: int| 0 <= i < keys(t).len() && keys(t)[i] == k; assert(place(t, k, i)); }
    if thas(t, p) { let i = choose|i: int| place(t, k, i); assert(keys(t)[i] == k); }
}
/// replacing or adding one child
pub open spec fn with_kid(t: T, k: CK, c: T, u: T) -> bool {
    &&& u.data == t.data
    &&& tsorted(u)
    &&& forall|x: CK| #[trigger] kid(u, x) == if x == k { Some(c) } else { kid(t, x) }
}
pub proof fn replaced(t: T, i: int, key: Charlike, c: T, u: T)
    requires tsorted(t), tsorted(c), place(t, ck(key), i), u.data == t.data, u.children@ == t.children@.remove(i).insert(i, (key, c)),
    ensures with_kid(t, ck(key), c, u)
{
    let k = ck(key);
    assert(u.children@ =~= t.children@.update(i, (key, c)));
    assert(keys(u) =~= keys(t));
    assert forall|j: int| 0 <= j < u.children@.len() implies tsorted(#[trigger] u.children@[j].1) by { assert(j == i || u.children@[j] == t.children@[j]); }
    assert forall|x: CK| #[trigger] kid(u, x) == if x == k { Some(c) } else { kid(t, x) } by {
        if x == k { assert(place(u, k, i)); kid_at(u, k, i); }
        else {
            if exists|j: int| place(t, x, j) { let j = choose|j: int| place(t, x, j); assert(keys(u)[j] == keys(t)[j]); assert(place(u, x, j)); kid_at(u, x, j); kid_at(t, x, j); }
            if exists|j: int| place(u, x, j) { let j = choose|j: int| place(u, x, j); assert(keys(u)[j] == keys(t)[j]); assert(place(t, x, j)); }
        }
    }
}
pub proof fn misses(t: T, k: CK, i: int)
    requires fits(keys(t), k, i)
    ensures kid(t, k) is None
{ if exists|j: int| place(t, k, j) { let j = choose|j: int| place(t, k, j); assert(keys(t)[j] == k); ord_is_total(k, k); assert(clt(keys(t)[j], k) || clt(k, keys(t)[j])); } }
pub proof fn inserted(t: T, i: int, key: Charlike, c: T, u: T)
    requires
        tsorted(t), tsorted(c), fits(keys(t), ck(key), i), u.data == t.data, u.children@ == t.children@.insert(i, (key, c)),
    ensures with_kid(t, ck(key), c, u), kid(t, ck(key)) is None
{
    let k = ck(key);
    assert(keys(u) =~= keys(t).insert(i, k));
    assert forall|a: int, b: int| 0 <= a < b < keys(u).len() implies clt(#[trigger] keys(u)[a], #[trigger] keys(u)[b]) by {
        let (x, y) = (if a < i { a } else { a - 1 }, if b < i { b } else { b - 1 });
        if a != i { assert(keys(u)[a] == keys(t)[x]); }
        if b != i { assert(keys(u)[b] == keys(t)[y]); }
    }
    assert forall|j: int| 0 <= j < u.children@.len() implies tsorted(#[trigger] u.children@[j].1) by {
        if j < i { assert(u.children@[j] == t.children@[j]); } else if j > i { assert(u.children@[j] == t.children@[j - 1]); }
    }
    misses(t, k, i);
    assert forall|x: CK| #[trigger] kid(u, x) == if x == k { Some(c) } else { kid(t, x) } by {
        if x == k { assert(place(u, k, i)); kid_at(u, k, i); }
        else {
            if exists|j: int| place(t, x, j) {
                let j = choose|j: int| place(t, x, j);
                let l = if j < i { j } else { j + 1 };
                assert(u.children@[l] == t.children@[j]);
                assert(place(u, x, l)); kid_at(u, x, l); kid_at(t, x, j);
            }
            if exists|l: int| place(u, x, l) {
                let l = choose|l: int| place(u, x, l);
                let j = if l < i { l } else { l - 1 };
                assert(l != i);
                assert(u.children@[l] == t.children@[j]);
                assert(place(t, x, j));
            }
        }
    }
}
pub open spec fn with_data(t: T, p: Seq<CK>, v: V, u: T) -> bool {
    &&& tsorted(u)
    &&& forall|q: Seq<CK>| #[trigger] tget(u, q) == if q == p { Some(v) } else { tget(t, q) }
    &&& forall|q: Seq<CK>| #[trigger] thas(u, q) == (thas(t, q) || leads(q, p))
}
pub open spec fn bare(t: T) -> bool { t.data is None && t.children@.len() == 0 }
pub proof fn deeper(t: T, p: Seq<CK>, v: V, c0: T, c: T, u: T)
    requires
        p.len() > 0, with_kid(t, p[0], c, u), with_data(c0, p.skip(1), v, c),
        match kid(t, p[0]) { Some(x) => x == c0, None => bare(c0) },
    ensures with_data(t, p, v, u)
{
    let p1 = p.skip(1);
    if bare(c0) {
        assert forall|x: CK| (#[trigger] kid(c0, x)) is None by {}
    }
    assert forall|q: Seq<CK>| #[trigger] tget(u, q) == if q == p { Some(v) } else { tget(t, q) } by {
        if q.len() > 0 {
            assert(kid(u, q[0]) == if q[0] == p[0] { Some(c) } else { kid(t, q[0]) });
            if q[0] == p[0] {
                assert(tget(c, q.skip(1)) == if q.skip(1) == p1 { Some(v) } else { tget(c0, q.skip(1)) });
                if q.skip(1) == p1 { assert(q =~= seq![q[0]] + q.skip(1)); assert(p =~= seq![p[0]] + p1); }
            }
        }
    }
    assert forall|q: Seq<CK>| #[trigger] thas(u, q) == (thas(t, q) || leads(q, p)) by {
        if q.len() > 0 {
            assert(kid(u, q[0]) == if q[0] == p[0] { Some(c) } else { kid(t, q[0]) });
            if q[0] == p[0] {
                let q1 = q.skip(1);
                assert(thas(c, q1) == (thas(c0, q1) || leads(q1, p1)));
                if leads(q1, p1) { assert(p.take(q.len() as int) =~= seq![p[0]] + p1.take(q1.len() as int)); assert(q =~= seq![q[0]] + q1); }
                if leads(q, p) { assert(p1.take(q1.len() as int) =~= p.take(q.len() as int).skip(1)); }
                if bare(c0) && kid(t, p[0]) is None && thas(c0, q1) { assert(q1.len() == 0); assert(leads(q1, p1)); }
            } else if leads(q, p) { assert(p.take(q.len() as int)[0] == p[0]); }
        } else { assert(leads(q, p)); }
    }
}
pub proof fn here(t: T, v: V, u: T)
    requires tsorted(t), u.data == Some(v), u.children@ == t.children@
    ensures with_data(t, seq![], v, u)
{
    assert(keys(u) =~= keys(t));
    assert forall|x: CK| #[trigger] kid(u, x) == kid(t, x) by {
        assert forall|i: int| place(u, x, i) == place(t, x, i) by {}
        if exists|i: int| place(t, x, i) { let i = choose|i: int| place(t, x, i); assert(place(u, x, i)); kid_at(t, x, i); kid_at(u, x, i); }
        else if exists|i: int| place(u, x, i) { let i = choose|i: int| place(u, x, i); assert(place(t, x, i)); }
    }
    assert forall|q: Seq<CK>| #[trigger] thas(u, q) == (thas(t, q) || leads(q, seq![])) by { if q.len() == 0 { assert(leads(q, seq![])); } else { assert(kid(u, q[0]) == kid(t, q[0])); } }
    assert forall|q: Seq<CK>| #[trigger] tget(u, q) == if q == Seq::<CK>::empty() { Some(v) } else { tget(t, q) } by { if q.len() > 0 { assert(kid(u, q[0]) == kid(t, q[0])); } else { assert(q =~= seq![]); } }
}
impl Trie<K, V> {
//@fn gen/trie.rs Trie::new -> r
    ensures bare(r), tsorted(r),
//@end
//@fn gen/trie.rs Trie::add -> r
    requires tsorted($self),
    ensures
        r is Err <==> tget($self, cks($1.given_items())) is Some,
        r matches Ok(t) ==> with_data($self, cks($1.given_items()), $2, t),
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::exec_allows_no_decreases_clause]
//@start
    let ghost me = $self;
    let ghost full = path.given_items();
    let ghost pk = cks(full);
    let ghost p1 = pk.skip(1);
    proof {
        assert(full.len() > 0 ==> pk[0] == ck(full[0]) && cks(full.skip(1)) =~= p1);
        assert(full.len() == 0 ==> pk =~= seq![]);
        assert forall|u: T| u.data == Some(data) && u.children@ == me.children@ implies #[trigger] with_data(me, seq![], data, u) by { here(me, data, u); }
        if full.len() > 0 {
            assert forall|c0: T| bare(c0) implies (#[trigger] tget(c0, p1)) is None by {}
            assert forall|i: int, key: Charlike, c0: T, c: T, u: T| ck(key) == pk[0] && place(me, pk[0], i) && c0 == me.children@[i].1 && #[trigger] with_data(c0, p1, data, c) && u.data == me.data && u.children@ == #[trigger] me.children@.remove(i).insert(i, (key, c)) implies #[trigger] with_data(me, pk, data, u) by { replaced(me, i, key, c, u); kid_at(me, pk[0], i); deeper(me, pk, data, c0, c, u); }
            assert forall|i: int, key: Charlike, c0: T, c: T, u: T| ck(key) == pk[0] && fits(keys(me), pk[0], i) && bare(c0) && #[trigger] with_data(c0, p1, data, c) && u.data == me.data && u.children@ == #[trigger] me.children@.insert(i, (key, c)) implies #[trigger] with_data(me, pk, data, u) by { inserted(me, i, key, c, u); deeper(me, pk, data, c0, c, u); }
        }
    }
//@loop 1
    invariant $v1@ == me.children@, $k1 <= $v1@.len(), cks($o1@) =~= keys(me).take($k1 as int),
    decreases $v1@.len() - $k1
//@after 1
    proof {
        assert(cks($o1@) =~= keys(me));
        assert forall|i: int| 0 <= i < cks($o1@).len() && #[trigger] cks($o1@)[i] == pk[0] implies place(me, pk[0], i) && kid(me, pk[0]) == Some(me.children@[i].1) by { assert(keys(me)[i] == pk[0]); kid_at(me, pk[0], i); }
        assert forall|i: int| #[trigger] fits(cks($o1@), pk[0], i) implies kid(me, pk[0]) is None by { misses(me, pk[0], i); }
    }
//@end
}
