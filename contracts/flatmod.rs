// ---------------------------------------------------------------- gen/flat.rs: the module tree
//@type gen/flat.rs FlattenedPath : Clone
//@type gen/flat.rs FlattenedAction
//@type gen/flat.rs FlattenedModule
//@type gen/flat.rs FlattenedModules
impl Clone for FlattenedPath { #[verifier::external_body] fn clone(&self) -> (r: FlattenedPath) ensures r == *self { unimplemented!() } }

/// the action generated for a resource
pub open spec fn is_action(a: FlattenedAction, e: Item) -> bool {
    &&& a.name@ == name(e)
    &&& a.method == e.res.method
    &&& a.path.segments@ == e.path
    &&& a.route_parameters@ == params(e.path)
    &&& a.query_parameters@ == e.query + e.res.query_parameters@
}

// ---- std, by its meaning
pub trait Conv<T>: Sized { spec fn conv_is(self, r: T) -> bool; fn conv_to(self) -> (r: T) ensures self.conv_is(r); }
impl Conv<String> for &str { open spec fn conv_is(self, r: String) -> bool { r@ == self@ } fn conv_to(self) -> (r: String) { shown_string(&self) } }
pub fn conv<S: Conv<T>, T>(s: S) -> (r: T) ensures s.conv_is(r) { s.conv_to() }
pub trait Cloned<T>: Sized { spec fn refs(&self) -> Seq<&T>; fn cloned(self) -> (r: Vec<T>) ensures r@.len() == self.refs().len(), forall|i: int| 0 <= i < r@.len() ==> r@[i] == *self.refs()[i]; }
impl<T> Cloned<T> for Vec<&T> { open spec fn refs(&self) -> Seq<&T> { self@ } #[verifier::external_body] fn cloned(self) -> (r: Vec<T>) { unimplemented!() } }
pub trait Collect: Sized { fn collect(self) -> (r: Self) ensures r == self; }
impl<T> Collect for Vec<T> { fn collect(self) -> (r: Self) { self } }

pub open spec fn derefs<T>(o: Vec<&T>) -> Seq<T> { o@.map_values(|x: &T| *x) }
impl FlattenedPath {
//@fn gen/flat.rs FlattenedPath::dynamics -> r
    ensures derefs(r) == params($self.segments@),
//@loop 1
    invariant $v1@ == $self.segments@, $k1 <= $v1@.len(),
        derefs::<Param>($o1) == params($self.segments@.take($k1 as int)),
    decreases $v1@.len() - $k1
//@before 1
    proof { assert(derefs::<Param>($o1) =~= params($self.segments@.take(0))); }
//@head 1
    let ghost o0 = $o1;
    proof { assert($self.segments@.take($k1 as int + 1).drop_last() =~= $self.segments@.take($k1 as int)); }
//@tail 1
    proof {
        let s = $self.segments@[$k1 - 1];
        if s is Dynamic { assert(derefs::<Param>($o1) =~= derefs::<Param>(o0).push(s->Dynamic_0)); }
    }
//@after 1
    proof { assert($self.segments@.take($self.segments@.len() as int) =~= $self.segments@); }
//@end
}

pub open spec fn seq_of<T>(v: Vec<T>) -> Seq<T> { v@ }
pub mod helper {
use super::*;
//@type gen/flat.rs helper::Module : Default
//@type gen/flat.rs helper::ModuleMap : Default
//@type gen/flat.rs helper::ActionMap : Default

/// std's HashMap with String keys, by its meaning
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
#[verifier::reject_recursive_types(K)]
pub struct Entry<'a, K, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
impl<V> HashMap<String, V> {
    pub uninterp spec fn map(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.map() == Map::<Seq<char>, V>::empty() { unimplemented!() }
    pub fn entry<'a>(&'a mut self, k: String) -> (e: Entry<'a, String, V>)
        ensures *e.m == *old(self), *final(self) == *final(e.m), e.k == k
    { Entry { m: self, k } }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures
            final(self).map() == old(self).map().insert(k@, v),
            r is Some <==> old(self).map().contains_key(k@),
            r matches Some(x) ==> x == old(self).map()[k@],
    { unimplemented!() }
}
impl<'a, V> Entry<'a, String, V> {
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures
            *r == if old(self.m).map().contains_key(self.k@) { old(self.m).map()[self.k@] } else { v },
            final(self.m).map() == old(self.m).map().insert(self.k@, *final(r)),
    { unimplemented!() }
}
/// a map's values are smaller than the map (Rust values are finite)
pub broadcast axiom fn map_is_smaller<V>(h: HashMap<String, V>, k: Seq<char>)
    requires h.map().contains_key(k)
    ensures #[trigger] decreases_to!(h => h.map()[k]);

/// the contents of a map in some order; the map is left empty
#[verifier::external_body]
pub fn map_drain<V>(m: &mut HashMap<String, V>) -> (r: Vec<(String, V)>)
    ensures
        final(m).map() == Map::<Seq<char>, V>::empty(),
        forall|i: int| 0 <= i < r@.len() ==> old(m).map().contains_key((#[trigger] r@[i]).0@) && old(m).map()[r@[i].0@] == r@[i].1,
        forall|k: Seq<char>| #[trigger] old(m).map().contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == k,
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0@ != (#[trigger] r@[j]).0@,
{ unimplemented!() }

impl Module {
    // derive(Default)
    pub fn default() -> (r: Module) ensures is_nil(r) { Module(ModuleMap(HashMap::new()), ActionMap(HashMap::new())) }
    pub open spec fn sub(&self) -> Map<Seq<char>, Module> { (self.0).0.map() }
    pub open spec fn acts(&self) -> Map<Seq<char>, FlattenedAction> { (self.1).0.map() }
}
pub open spec fn is_nil(m: Module) -> bool { m.sub() == Map::<Seq<char>, Module>::empty() && m.acts() == Map::<Seq<char>, FlattenedAction>::empty() }

/// is there a module at this path
pub open spec fn has(m: Module, p: Seq<Seq<char>>) -> bool
    decreases p.len()
{ p.len() == 0 || (m.sub().contains_key(p[0]) && has(m.sub()[p[0]], p.skip(1))) }
/// the action of this name in the module at this path
pub open spec fn act(m: Module, p: Seq<Seq<char>>, n: Seq<char>) -> Option<FlattenedAction>
    decreases p.len()
{
    if p.len() == 0 { if m.acts().contains_key(n) { Some(m.acts()[n]) } else { None } }
    else if m.sub().contains_key(p[0]) { act(m.sub()[p[0]], p.skip(1), n) }
    else { None }
}
/// every action is kept under its own name
pub open spec fn named(m: Module) -> bool { forall|p: Seq<Seq<char>>, n: Seq<char>| (#[trigger] act(m, p, n)) matches Some(a) ==> a.name@ == n }


// ---- sorting
/// std's sort_by_key / sort_unstable_by_key, given the keys
pub open spec fn is_order(p: Seq<int>, n: nat) -> bool {
    &&& p.len() == n
    &&& p.no_duplicates()
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
    &&& forall|k: int| 0 <= k < n ==> #[trigger] p.contains(k)
}
pub open spec fn sorted_as<T>(a: Seq<T>, keys: Seq<String>, b: Seq<T>, p: Seq<int>) -> bool {
    &&& is_order(p, a.len())
    &&& b.len() == a.len()
    &&& forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[p[i]]
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> le(keys[#[trigger] p[i]]@, keys[#[trigger] p[j]]@)
}
#[verifier::external_body]
pub fn sort_with_keys<T>(v: &mut Vec<T>, keys: Vec<String>)
    requires keys@.len() == old(v)@.len()
    ensures sorted_from(old(v)@, keys@, final(v)@)
{ unimplemented!() }
pub open spec fn sorted_from<T>(a: Seq<T>, keys: Seq<String>, b: Seq<T>) -> bool { exists|p: Seq<int>| sorted_as(a, keys, b, p) }

/// s is the actions of m, each once
pub open spec fn acts_of(m: Module, s: Seq<FlattenedAction>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.acts().contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name@ == k
    &&& forall|i: int| 0 <= i < s.len() ==> m.acts().contains_key((#[trigger] s[i]).name@) && m.acts()[s[i].name@] == s[i]
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).name@ != (#[trigger] s[j]).name@
}
/// s is the submodules of m, finished, each once
pub open spec fn subs_of(m: Module, s: Seq<FlattenedModule>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.sub().contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name@ == k
    &&& forall|i: int| 0 <= i < s.len() ==> m.sub().contains_key((#[trigger] s[i]).name@) && is_final(m.sub()[s[i].name@], s[i].name@, s[i])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).name@ != (#[trigger] s[j]).name@
}
pub open spec fn names_a(s: Seq<FlattenedAction>) -> Seq<Seq<char>> { s.map_values(|a: FlattenedAction| a.name@) }
pub open spec fn names_m(s: Seq<FlattenedModule>) -> Seq<Seq<char>> { s.map_values(|m: FlattenedModule| m.name@) }
pub proof fn sorted_acts(m: Module, a: Seq<FlattenedAction>, keys: Seq<String>, b: Seq<FlattenedAction>)
    requires acts_of(m, a), sorted_from(a, keys, b), texts(keys) == names_a(a),
    ensures acts_of(m, b), strictly(names_a(b)),
{
    let p = choose|p: Seq<int>| sorted_as(a, keys, b, p);
    assert forall|k: Seq<char>| #[trigger] m.acts().contains_key(k) implies exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).name@ == k by {
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).name@ == k;
        assert(p.contains(i));
        let j = choose|j: int| 0 <= j < p.len() && p[j] == i;
        assert(b[j].name@ == k);
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).name@ != (#[trigger] b[j]).name@ && lt(b[i].name@, b[j].name@) by {
        assert(p[i] != p[j]);
        let (x, y) = (p[i], p[j]);
        assert(0 <= x < a.len() && 0 <= y < a.len());
        assert(texts(keys).len() == names_a(a).len());
        assert(texts(keys).len() == keys.len() && names_a(a).len() == a.len());
        assert(texts(keys)[x] == keys[x]@ && texts(keys)[y] == keys[y]@);
        assert(names_a(a)[x] == a[x].name@ && names_a(a)[y] == a[y].name@);
        assert(texts(keys)[x] == names_a(a)[x] && texts(keys)[y] == names_a(a)[y]);
        assert(keys[x]@ == a[x].name@ && keys[y]@ == a[y].name@);
        assert(b[i] == a[x] && b[j] == a[y]);
        assert(le(keys[p[i]]@, keys[p[j]]@));
        if x < y { assert(a[x].name@ != a[y].name@); } else { assert(a[y].name@ != a[x].name@); }
    }
}
pub proof fn sorted_subs(m: Module, a: Seq<FlattenedModule>, keys: Seq<String>, b: Seq<FlattenedModule>)
    requires subs_of(m, a), sorted_from(a, keys, b), texts(keys) == names_m(a),
    ensures subs_of(m, b), strictly(names_m(b)),
{
    let p = choose|p: Seq<int>| sorted_as(a, keys, b, p);
    assert forall|k: Seq<char>| #[trigger] m.sub().contains_key(k) implies exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).name@ == k by {
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).name@ == k;
        assert(p.contains(i));
        let j = choose|j: int| 0 <= j < p.len() && p[j] == i;
        assert(b[j].name@ == k);
    }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).name@ != (#[trigger] b[j]).name@ && lt(b[i].name@, b[j].name@) by {
        assert(p[i] != p[j]);
        let (x, y) = (p[i], p[j]);
        assert(0 <= x < a.len() && 0 <= y < a.len());
        assert(texts(keys).len() == names_m(a).len());
        assert(texts(keys).len() == keys.len() && names_m(a).len() == a.len());
        assert(texts(keys)[x] == keys[x]@ && texts(keys)[y] == keys[y]@);
        assert(names_m(a)[x] == a[x].name@ && names_m(a)[y] == a[y].name@);
        assert(texts(keys)[x] == names_m(a)[x] && texts(keys)[y] == names_m(a)[y]);
        assert(keys[x]@ == a[x].name@ && keys[y]@ == a[y].name@);
        assert(b[i] == a[x] && b[j] == a[y]);
        assert(le(keys[p[i]]@, keys[p[j]]@));
        if x < y { assert(a[x].name@ != a[y].name@); } else { assert(a[y].name@ != a[x].name@); }
    }
}

impl Module {
//@fn gen/flat.rs helper::Module::entry -> e
//@pub
    ensures *e.m == (old($self).0).0, (final($self).0).0 == *final(e.m), final($self).1 == old($self).1, e.k@ == $1@,
//@end
//@fn gen/flat.rs helper::Module::insert -> r
//@pub
    ensures
        final($self).0 == old($self).0,
        final($self).acts() == old($self).acts().insert($1@, $2),
        r is Some <==> old($self).acts().contains_key($1@),
//@end
//@fn gen/flat.rs helper::Module::finalize -> r
//@pub
    requires named($self),
    ensures is_final($self, $1@, r),
    decreases $self
//@start
    let ghost m0 = $self;
    let ghost nm = $1@;
    proof {
        assert forall|n: Seq<char>| #[trigger] m0.acts().contains_key(n) implies m0.acts()[n].name@ == n by { assert(act(m0, seq![], n) == Some(m0.acts()[n])); }
        assert forall|k: Seq<char>| #[trigger] m0.sub().contains_key(k) implies named(m0.sub()[k]) && decreases_to!(m0 => m0.sub()[k]) by {
            map_is_smaller(m0.0.0, k);
            assert forall|p: Seq<Seq<char>>, n: Seq<char>| (#[trigger] act(m0.sub()[k], p, n)) matches Some(a) implies act(m0.sub()[k], p, n)->Some_0.name@ == n by {
                let q = seq![k] + p;
                assert(q.skip(1) =~= p);
                assert(act(m0, q, n) == act(m0.sub()[k], p, n));
            }
        }
    }
    proof {
        assert forall|a: Seq<FlattenedAction>, keys: Seq<String>, b: Seq<FlattenedAction>| acts_of(m0, a) && #[trigger] sorted_from(a, keys, b) && texts(keys) == names_a(a) implies acts_of(m0, b) && strictly(names_a(b)) by { sorted_acts(m0, a, keys, b); }
        assert forall|a: Seq<FlattenedModule>, keys: Seq<String>, b: Seq<FlattenedModule>| subs_of(m0, a) && #[trigger] sorted_from(a, keys, b) && texts(keys) == names_m(a) implies subs_of(m0, b) && strictly(names_m(b)) by { sorted_subs(m0, a, keys, b); }
    }
//@before 1
    let ghost d1 = $v1@;
//@loop 1
    invariant
        seq_of::<FlattenedAction>($o1).len() + $v1@.len() == d1.len(), $v1@ == d1.skip($o1@.len() as int),
        forall|i: int| 0 <= i < $o1@.len() ==> #[trigger] $o1@[i] == d1[i].1,
    decreases $v1@.len()
//@tail 1
    proof { assert($v1@ =~= d1.skip($o1@.len() as int)); }
//@after 1
    proof {
        assert(d1 == d1.skip(0));
        assert forall|k: Seq<char>| #[trigger] m0.acts().contains_key(k) implies exists|i: int| 0 <= i < $o1@.len() && (#[trigger] $o1@[i]).name@ == k by {
            let i = choose|i: int| 0 <= i < d1.len() && (#[trigger] d1[i]).0@ == k;
            assert($o1@[i].name@ == k);
        }
        assert forall|i: int| 0 <= i < $o1@.len() implies m0.acts().contains_key((#[trigger] $o1@[i]).name@) && m0.acts()[$o1@[i].name@] == $o1@[i] by { assert(d1[i].0@ == $o1@[i].name@); }
        assert forall|i: int, j: int| 0 <= i < j < $o1@.len() implies (#[trigger] $o1@[i]).name@ != (#[trigger] $o1@[j]).name@ by { assert(d1[i].0@ != d1[j].0@); }
        assert(acts_of(m0, $o1@));
    }
//@loop 2
    invariant
        $k2 <= $v2@.len(), seq_of::<String>($o2).len() == $k2,
        forall|i: int| 0 <= i < seq_of::<String>($o2).len() ==> #[trigger] seq_of::<String>($o2)[i]@ == $v2@[i].name@,
    decreases $v2@.len() - $k2
//@after 2
    proof { assert(texts($o2@) =~= names_a($v2@)); }
//@before 3
    let ghost d3 = $v3@;
//@loop 3
    invariant
        seq_of::<FlattenedModule>($o3).len() + $v3@.len() == d3.len(), $v3@ == d3.skip($o3@.len() as int),
        forall|i: int| 0 <= i < d3.len() ==> m0.sub().contains_key((#[trigger] d3[i]).0@) && m0.sub()[d3[i].0@] == d3[i].1,
        forall|i: int| 0 <= i < $o3@.len() ==> is_final(d3[i].1, d3[i].0@, #[trigger] $o3@[i]),
        forall|k: Seq<char>| #[trigger] m0.sub().contains_key(k) ==> named(m0.sub()[k]) && decreases_to!(m0 => m0.sub()[k]),
        m0 == $self,
    decreases $v3@.len()
//@head 3
    proof { assert($v3@[0] == d3[$o3@.len() as int]); }
//@tail 3
    proof { assert($v3@ =~= d3.skip($o3@.len() as int)); }
//@after 3
    proof {
        assert forall|i: int| 0 <= i < $o3@.len() implies m0.sub().contains_key((#[trigger] $o3@[i]).name@) && is_final(m0.sub()[$o3@[i].name@], $o3@[i].name@, $o3@[i]) by { assert(is_final(d3[i].1, d3[i].0@, $o3@[i])); assert(d3[i].0@ == $o3@[i].name@); }
        assert forall|k: Seq<char>| #[trigger] m0.sub().contains_key(k) implies exists|i: int| 0 <= i < $o3@.len() && (#[trigger] $o3@[i]).name@ == k by {
            let i = choose|i: int| 0 <= i < d3.len() && (#[trigger] d3[i]).0@ == k;
            assert($o3@[i].name@ == k);
        }
        assert forall|i: int, j: int| 0 <= i < j < $o3@.len() implies (#[trigger] $o3@[i]).name@ != (#[trigger] $o3@[j]).name@ by { assert(d3[i].0@ != d3[j].0@); }
        assert(subs_of(m0, $o3@));
    }
//@loop 4
    invariant
        $k4 <= $v4@.len(), seq_of::<String>($o4).len() == $k4,
        forall|i: int| 0 <= i < seq_of::<String>($o4).len() ==> #[trigger] seq_of::<String>($o4)[i]@ == $v4@[i].name@,
    decreases $v4@.len() - $k4
//@after 4
    proof { assert(texts($o4@) =~= names_m($v4@)); }
//@end
}
}

pub open spec fn lt(a: Seq<char>, b: Seq<char>) -> bool
    decreases a.len()
{ b.len() > 0 && (a.len() == 0 || (a[0] as u32) < (b[0] as u32) || (a[0] == b[0] && lt(a.skip(1), b.skip(1)))) }
pub open spec fn le(a: Seq<char>, b: Seq<char>) -> bool { a == b || lt(a, b) }
pub open spec fn action_names(r: FlattenedModule) -> Seq<Seq<char>> { r.actions@.map_values(|a: FlattenedAction| a.name@) }
pub open spec fn module_names(r: FlattenedModule) -> Seq<Seq<char>> { r.modules@.map_values(|m: FlattenedModule| m.name@) }
pub open spec fn strictly(s: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lt(#[trigger] s[i], #[trigger] s[j]) }
/// the finished module has the map's actions and submodules, each once, sorted by name
pub open spec fn is_final(m: helper::Module, n: Seq<char>, r: FlattenedModule) -> bool
    decreases r
{
    &&& r.name@ == n
    &&& strictly(action_names(r))
    &&& forall|k: Seq<char>| #[trigger] m.acts().contains_key(k) ==> exists|i: int| 0 <= i < r.actions@.len() && (#[trigger] r.actions@[i]).name@ == k
    &&& forall|i: int| 0 <= i < r.actions@.len() ==> m.acts().contains_key((#[trigger] r.actions@[i]).name@) && m.acts()[r.actions@[i].name@] == r.actions@[i]
    &&& strictly(module_names(r))
    &&& forall|k: Seq<char>| #[trigger] m.sub().contains_key(k) ==> exists|i: int| 0 <= i < r.modules@.len() && (#[trigger] r.modules@[i]).name@ == k
    &&& forall|i: int| 0 <= i < r.modules@.len() ==> m.sub().contains_key((#[trigger] r.modules@[i]).name@) && is_final(m.sub()[r.modules@[i].name@], r.modules@[i].name@, r.modules@[i])
}
