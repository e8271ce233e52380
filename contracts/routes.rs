// ---------------------------------------------------------------- gen/flat.rs: the routes, one entry for each place of the tree
pub open spec fn is_place(f: FlattenedRoute, e: Place) -> bool { f.path.segments@ == e.path && f.resources@ == e.res && f.query_parameters@ == e.query }
pub open spec fn places(r: Routes, path: Seq<PathSegment>, outer: Seq<Param>) -> Multiset<Place>
    decreases r, r.routes@.len() + 1
{
    let query = outer + r.query_parameters@;
    inside(r, r.routes@.len(), path, query).insert(Place { path, res: r.resources@, query })
}
pub open spec fn inside(r: Routes, n: nat, path: Seq<PathSegment>, query: Seq<Param>) -> Multiset<Place>
    decreases r, n
{
    if n == 0 || n > r.routes@.len() { Multiset::empty() }
    else { inside(r, (n - 1) as nat, path, query).add(places(r.routes@[n - 1].routes, path.push(r.routes@[n - 1].path_segment), query)) }
}
pub open spec fn bag(s: Seq<FlattenedRoute>) -> Multiset<Place>
    decreases s.len()
{ if s.len() == 0 { Multiset::empty() } else { bag(s.drop_last()).insert(place_of(s.last())) } }
pub proof fn bag_add(a: Seq<FlattenedRoute>, b: Seq<FlattenedRoute>)
    ensures bag(a + b) =~= bag(a).add(bag(b))
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); bag_add(a, b.drop_last()); }
}
pub proof fn bag_has(s: Seq<FlattenedRoute>, e: Place)
    ensures bag(s).contains(e) <==> exists|i: int| 0 <= i < s.len() && place_of(#[trigger] s[i]) == e
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        bag_has(t, e);
        assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i]);
        if bag(s).contains(e) { if e == place_of(s.last()) { assert(place_of(s[s.len() - 1]) == e); } else { assert(bag(t).contains(e)); let i = choose|i: int| 0 <= i < t.len() && place_of(#[trigger] t[i]) == e; assert(s[i] == t[i]); } }
        if exists|i: int| 0 <= i < s.len() && place_of(#[trigger] s[i]) == e { let i = choose|i: int| 0 <= i < s.len() && place_of(#[trigger] s[i]) == e; if i < t.len() { assert(t[i] == s[i]); assert(bag(t).contains(e)); } }
    }
}
/// a path by what can be seen of it: literals and parameter names
pub open spec fn key(e: Place) -> Seq<CK> { cks(path_chars(e.path)) }
/// no two places have the same path
pub open spec fn apart(all: Multiset<Place>) -> bool {
    &&& forall|e: Place| #[trigger] all.contains(e) ==> all.count(e) == 1
    &&& forall|e: Place, f: Place| #[trigger] all.contains(e) && #[trigger] all.contains(f) && key(e) == key(f) ==> e == f
}
/// the trie of these places: each is at its path, and nothing else is there
pub open spec fn trie_of(t: T, all: Multiset<Place>) -> bool {
    &&& tsorted(t)
    &&& forall|e: Place| #[trigger] all.contains(e) ==> (tget(t, key(e)) matches Some(f) && is_place(f, e))
    &&& forall|p: Seq<CK>| (#[trigger] tget(t, p)) is Some ==> exists|e: Place| #[trigger] all.contains(e) && key(e) == p
    &&& forall|p: Seq<CK>| #[trigger] thas(t, p) <==> p.len() == 0 || exists|e: Place| #[trigger] all.contains(e) && leads(p, key(e))
}
pub proof fn one_more(t: T, all: Multiset<Place>, f: V, u: T)
    requires trie_of(t, all), apart(all), with_data(t, key(place_of(f)), f, u), tget(t, key(place_of(f))) is None,
    ensures trie_of(u, all.insert(place_of(f))), apart(all.insert(place_of(f))),
{
    let e = place_of(f);
    let more = all.insert(e);
    assert(!all.contains(e));
    assert forall|g: Place| #[trigger] more.contains(g) <==> all.contains(g) || g == e by {}
    assert forall|g: Place| #[trigger] more.contains(g) implies (tget(u, key(g)) matches Some(x) && is_place(x, g)) by { if g != e { assert(all.contains(g)); } }
    assert forall|p: Seq<CK>| (#[trigger] tget(u, p)) is Some implies exists|g: Place| #[trigger] more.contains(g) && key(g) == p by {
        if p == key(e) { assert(more.contains(e)); } else { let g = choose|g: Place| #[trigger] all.contains(g) && key(g) == p; assert(more.contains(g)); }
    }
    assert forall|p: Seq<CK>| #[trigger] thas(u, p) <==> p.len() == 0 || exists|g: Place| #[trigger] more.contains(g) && leads(p, key(g)) by {
        if thas(t, p) && p.len() > 0 { let g = choose|g: Place| #[trigger] all.contains(g) && leads(p, key(g)); assert(more.contains(g)); }
        if leads(p, key(e)) { assert(more.contains(e)); }
        if exists|g: Place| #[trigger] more.contains(g) && leads(p, key(g)) { let g = choose|g: Place| #[trigger] more.contains(g) && leads(p, key(g)); if g != e { assert(all.contains(g)); } }
    }
    assert forall|g: Place| #[trigger] more.contains(g) implies more.count(g) == 1 by { if g != e { assert(all.contains(g)); } }
    assert forall|g: Place, h: Place| #[trigger] more.contains(g) && #[trigger] more.contains(h) && key(g) == key(h) implies g == h by {
        if g != e { assert(all.contains(g)); }
        if h != e { assert(all.contains(h)); }
    }
}
pub proof fn taken(t: T, done: Multiset<Place>, f: V, rest: Multiset<Place>, all: Multiset<Place>)
    requires trie_of(t, done), tget(t, key(place_of(f))) is Some, done.insert(place_of(f)).add(rest) == all,
    ensures !apart(all)
{
    let e = place_of(f);
    let g = choose|g: Place| #[trigger] done.contains(g) && key(g) == key(e);
    assert(done.contains(g));
    assert(all.contains(g) && all.contains(e));
    if apart(all) { assert(g == e); assert(all.count(e) >= 2); }
}
impl FlattenedRoutes {
//@fn gen/flat.rs FlattenedRoutes::flatten -> r
    ensures bag(r@) == places(*$1, $2@, $3@),
    decreases *$1
//@attr #[verifier::loop_isolation(false)]
//@start
    let ghost r0 = *$1;
    let ghost (p0, q0) = (path@, query_parameters@);
    let ghost qq = q0 + r0.query_parameters@;
//@loop 1
    invariant $v1@ == r0.query_parameters@, $k1 <= $v1@.len(), query_parameters@ == q0 + r0.query_parameters@.take($k1 as int),
    decreases $v1@.len() - $k1
//@tail 1
    proof { assert(query_parameters@ =~= q0 + r0.query_parameters@.take($k1 as int)); }
//@after 1
    proof { assert(r0.query_parameters@.take(r0.query_parameters@.len() as int) =~= r0.query_parameters@); }
//@before 2
    let ghost me = Place { path: p0, res: r0.resources@, query: qq };
    proof {
        let s = flattened@;
        assert(s.len() == 1);
        assert(s.drop_last() =~= seq![]);
        assert(bag(s.drop_last()) =~= Multiset::empty());
        assert(place_of(s.last()).path =~= p0);
        assert(place_of(s.last()).res =~= r0.resources@);
        assert(place_of(s.last()).query =~= qq);
        assert(place_of(s.last()) == me);
        assert(bag(s) =~= inside(r0, 0, p0, qq).insert(me));
    }
//@loop 2
    invariant $v2@ == r0.routes@, $k2 <= $v2@.len(), query_parameters@ == qq, path@ == p0, bag(flattened@) == inside(r0, $k2 as nat, p0, qq).insert(me),
    decreases $v2@.len() - $k2
//@head 2
    let ghost f0 = flattened@;
//@tail 2
    proof {
        let new = flattened@.skip(f0.len() as int);
        assert(flattened@ =~= f0 + new);
        bag_add(f0, new);
        let (rt, sg) = (r0.routes@[$k2 - 1].routes, r0.routes@[$k2 - 1].path_segment);
        assert forall|p: Seq<PathSegment>, q: Seq<Param>| p =~= p0.push(sg) && q =~= qq implies #[trigger] places(rt, p, q) == places(rt, p0.push(sg), qq) by {}
        assert forall|x: Seq<FlattenedRoute>| x.len() == new.len() && (forall|i: int| 0 <= i < x.len() ==> x[i] == flattened@[i + f0.len()]) implies #[trigger] bag(x) == bag(new) by { assert(x =~= new); }
    }
//@end
}
impl FlattenedRoutes {
//@fn gen/flat.rs <From<&'a Routes> for FlattenedRoutes>::from -> r
    ensures bag(r.routes@) == places(*$1, seq![], seq![]),
//@end
//@fn gen/flat.rs FlattenedRoutes::to_trie -> r
    requires places_given(bag($self.routes@)),
    ensures
        trie_of(r, bag($self.routes@)),
        // two routes with the same path never get this far
        apart(bag($self.routes@)),
//@attr #[verifier::loop_isolation(false)]
//@before 1
    let ghost rs = $self.routes@;
    proof {
        assert(rs.take(0) =~= seq![]);
        assert(bag(rs.take(0)) =~= Multiset::empty());
        assert forall|p: Seq<CK>| (#[trigger] tget(t, p)) is None by {}
        assert(trie_of(t, bag(rs.take(0))));
    }
//@loop 1
    invariant $v1@ == rs, $k1 <= $v1@.len(), trie_of(t, bag(rs.take($k1 as int))), apart(bag(rs.take($k1 as int))),
    decreases $v1@.len() - $k1
//@head 1
    let ghost t0 = t;
    let ghost f = rs[$k1 as int];
    let ghost done = bag(rs.take($k1 as int));
    proof {
        assert(rs.take($k1 + 1).drop_last() =~= rs.take($k1 as int));
        assert(bag(rs.take($k1 + 1)) =~= done.insert(place_of(f)));
        assert(rs =~= rs.take($k1 + 1) + rs.skip($k1 + 1));
        bag_add(rs.take($k1 + 1), rs.skip($k1 + 1));
        if tget(t0, key(place_of(f))) is Some { taken(t0, done, f, bag(rs.skip($k1 + 1)), bag(rs)); }
    }
//@tail 1
    proof { one_more(t0, done, f, t); }
//@after 1
    proof { assert(rs.take(rs.len() as int) =~= rs); }
//@end
}
// ---- paths are the same exactly if their segments are
pub ghost enum Seg { Lit(Seq<char>), Par(Seq<char>) }
pub open spec fn seg(s: PathSegment) -> Seg { match s { PathSegment::Static(t) => Seg::Lit(t@), PathSegment::Dynamic(p) => Seg::Par(p.name@) } }
pub open spec fn segs(p: Seq<PathSegment>) -> Seq<Seg> { p.map_values(|s: PathSegment| seg(s)) }
pub open spec fn lit_keys(s: Seq<char>) -> Seq<CK> { s.map_values(|c: char| CK::Static(c)) }
pub open spec fn seg_keys(s: Seg) -> Seq<CK> { match s { Seg::Lit(t) => lit_keys(t), Seg::Par(n) => seq![CK::Dynamic(n)] } }
/// each segment's characters, or its parameter, then a separator
pub open spec fn keys_of(p: Seq<Seg>) -> Seq<CK>
    decreases p.len()
{ if p.len() == 0 { seq![] } else { (seg_keys(p[0]).push(CK::Separator)) + keys_of(p.skip(1)) } }
pub proof fn keys_add(p: Seq<Seg>, q: Seq<Seg>)
    ensures keys_of(p + q) =~= keys_of(p) + keys_of(q)
    decreases p.len()
{
    if p.len() == 0 { assert(p + q =~= q); }
    else { assert((p + q).skip(1) =~= p.skip(1) + q); keys_add(p.skip(1), q); assert((p + q)[0] == p[0]); }
}
pub proof fn path_keys(p: Seq<PathSegment>)
    ensures cks(path_chars(p)) =~= keys_of(segs(p))
    decreases p.len()
{
    if p.len() > 0 {
        path_keys(p.drop_last());
        let l = segs(p).last();
        assert(segs(p) =~= segs(p.drop_last()) + seq![l]);
        keys_add(segs(p.drop_last()), seq![l]);
        assert(keys_of(seq![l].skip(1)) =~= seq![]);
        assert(keys_of(seq![l]) =~= seg_keys(l).push(CK::Separator));
        assert(cks(seg_chars(p.last())) =~= seg_keys(l).push(CK::Separator));
        assert(cks(path_chars(p)) =~= cks(path_chars(p.drop_last())) + cks(seg_chars(p.last())));
    }
}
pub proof fn keys_injective(p: Seq<Seg>, q: Seq<Seg>)
    requires keys_of(p) == keys_of(q)
    ensures p =~= q
    decreases p.len()
{
    let (a, b) = (keys_of(p), keys_of(q));
    if p.len() == 0 { if q.len() > 0 { assert(b.len() > 0); } }
    else if q.len() == 0 { assert(a.len() > 0); }
    else {
        let (x, y) = (seg_keys(p[0]), seg_keys(q[0]));
        assert(forall|i: int| 0 <= i < x.len() ==> a[i] == x[i]);
        assert(forall|i: int| 0 <= i < y.len() ==> b[i] == y[i]);
        assert(forall|i: int| 0 <= i < x.len() ==> !(x[i] is Separator));
        assert(forall|i: int| 0 <= i < y.len() ==> !(y[i] is Separator));
        assert(a[x.len() as int] is Separator);
        assert(b[y.len() as int] is Separator);
        if x.len() < y.len() { assert(b[x.len() as int] == y[x.len() as int]); }
        if y.len() < x.len() { assert(a[y.len() as int] == x[y.len() as int]); }
        assert(x =~= y);
        match (p[0], q[0]) {
            (Seg::Lit(s), Seg::Lit(t)) => { assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { assert(lit_keys(s)[i] == lit_keys(t)[i]); } assert(s.len() == lit_keys(s).len()); assert(s =~= t); }
            (Seg::Par(_), Seg::Lit(_)) => { assert(x[0] == y[0]); }
            (Seg::Lit(_), Seg::Par(_)) => { assert(x[0] == y[0]); }
            (Seg::Par(_), Seg::Par(_)) => { assert(x[0] == y[0]); }
        }
        assert(keys_of(p.skip(1)) =~= a.skip(x.len() as int + 1));
        assert(keys_of(q.skip(1)) =~= b.skip(y.len() as int + 1));
        keys_injective(p.skip(1), q.skip(1));
        assert(p =~= seq![p[0]] + p.skip(1));
        assert(q =~= seq![q[0]] + q.skip(1));
    }
}
pub proof fn same_path(e: Place, f: Place)
    ensures key(e) == key(f) <==> segs(e.path) == segs(f.path)
{
    path_keys(e.path);
    path_keys(f.path);
    if key(e) == key(f) { keys_injective(segs(e.path), segs(f.path)); }
}
