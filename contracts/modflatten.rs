pub open spec fn prefix(p: Seq<Seq<char>>, q: Seq<Seq<char>>) -> bool { p.len() <= q.len() && q.take(p.len() as int) =~= p }
/// m holds the actions of these resources and no others
pub open spec fn repr(m: helper::Module, done: Multiset<Item>) -> bool {
    &&& forall|e: Item| #[trigger] done.contains(e) ==> (helper::act(m, mods(e), name(e)) matches Some(a) && is_action(a, e))
    &&& forall|p: Seq<Seq<char>>, n: Seq<char>| (#[trigger] helper::act(m, p, n)) is Some ==> exists|e: Item| #[trigger] done.contains(e) && mods(e) == p && name(e) == n
    &&& forall|p: Seq<Seq<char>>| #[trigger] helper::has(m, p) <==> p.len() == 0 || exists|e: Item| #[trigger] done.contains(e) && prefix(p, mods(e))
    &&& distinct(done)
}
/// what is left to do
pub open spec fn pending(s: Seq<(&Routes, Vec<PathSegment>, Vec<Param>)>) -> Multiset<Item>
    decreases s.len()
{ if s.len() == 0 { Multiset::empty() } else { pending(s.drop_last()).add(items(*s.last().0, s.last().1@, s.last().2@)) } }
pub open spec fn total(s: Seq<(&Routes, Vec<PathSegment>, Vec<Param>)>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { total(s.drop_last()) + size(*s.last().0) } }

/// cur is the module of m0 at pre (an empty one if it has none)
pub open spec fn reached(m0: helper::Module, pre: Seq<Seq<char>>, cur: helper::Module) -> bool {
    &&& forall|p: Seq<Seq<char>>, n: Seq<char>| #[trigger] helper::act(cur, p, n) == helper::act(m0, pre + p, n)
    &&& forall|p: Seq<Seq<char>>| #[trigger] helper::has(cur, p) == (p.len() == 0 || helper::has(m0, pre + p))
}
/// m1 is m0 with the module at pre replaced
pub open spec fn set_at(m0: helper::Module, pre: Seq<Seq<char>>, new: helper::Module, m1: helper::Module) -> bool {
    &&& forall|q: Seq<Seq<char>>, n: Seq<char>| #[trigger] helper::act(m1, q, n) == if prefix(pre, q) { helper::act(new, q.skip(pre.len() as int), n) } else { helper::act(m0, q, n) }
    &&& forall|q: Seq<Seq<char>>| #[trigger] helper::has(m1, q) == if prefix(pre, q) { helper::has(new, q.skip(pre.len() as int)) } else { helper::has(m0, q) || prefix(q, pre) }
}
pub proof fn at_root(m: helper::Module, f: helper::Module)
    ensures reached(m, seq![], m), set_at(m, seq![], f, f),
{
    let e = Seq::<Seq<char>>::empty();
    assert forall|p: Seq<Seq<char>>| #[trigger] helper::has(m, p) == (p.len() == 0 || helper::has(m, e + p)) by { assert(e + p =~= p); }
    assert forall|p: Seq<Seq<char>>, n: Seq<char>| #[trigger] helper::act(m, p, n) == helper::act(m, e + p, n) by { assert(e + p =~= p); }
    assert forall|q: Seq<Seq<char>>| #[trigger] helper::has(f, q) == helper::has(f, q.skip(0)) && prefix(e, q) by { assert(q.skip(0) =~= q); assert(q.take(0) =~= e); }
    assert forall|q: Seq<Seq<char>>, n: Seq<char>| #[trigger] helper::act(f, q, n) == helper::act(f, q.skip(0), n) && prefix(e, q) by { assert(q.skip(0) =~= q); assert(q.take(0) =~= e); }
}
pub proof fn one_down(m0: helper::Module, fut: helper::Module, pre: Seq<Seq<char>>, k: Seq<char>, cur: helper::Module, curf: helper::Module, nx: helper::Module, nxf: helper::Module)
    requires
        reached(m0, pre, cur), set_at(m0, pre, curf, fut),
        if cur.sub().contains_key(k) { nx == cur.sub()[k] } else { helper::is_nil(nx) },
        curf.sub() == cur.sub().insert(k, nxf), curf.1 == cur.1,
    ensures reached(m0, pre.push(k), nx), set_at(m0, pre.push(k), nxf, fut),
{
    let pk = pre.push(k);
    assert forall|p: Seq<Seq<char>>, n: Seq<char>| #[trigger] helper::act(nx, p, n) == helper::act(m0, pk + p, n) by {
        let q = seq![k] + p;
        assert(pk + p =~= pre + q);
        assert(q.skip(1) =~= p);
        assert(helper::act(cur, q, n) == helper::act(m0, pre + q, n));
    }
    assert forall|p: Seq<Seq<char>>| #[trigger] helper::has(nx, p) == (p.len() == 0 || helper::has(m0, pk + p)) by {
        let q = seq![k] + p;
        assert(pk + p =~= pre + q);
        assert(q.skip(1) =~= p);
        assert(helper::has(cur, q) == helper::has(m0, pre + q));
    }
    assert forall|q: Seq<Seq<char>>, n: Seq<char>| #[trigger] helper::act(fut, q, n) == if prefix(pk, q) { helper::act(nxf, q.skip(pk.len() as int), n) } else { helper::act(m0, q, n) } by {
        if prefix(pk, q) {
            assert(q.take(pre.len() as int) =~= q.take(pk.len() as int).take(pre.len() as int));
            assert(pk.take(pre.len() as int) =~= pre);
            let t = q.skip(pre.len() as int);
            assert(t[0] == q.take(pk.len() as int)[pre.len() as int]);
            assert(t.skip(1) =~= q.skip(pk.len() as int));
        } else if prefix(pre, q) {
            let t = q.skip(pre.len() as int);
            assert(pre + t =~= q);
            assert(helper::act(cur, t, n) == helper::act(m0, q, n));
            if t.len() > 0 {
                if t[0] == k { assert(q.take(pk.len() as int) =~= pk); }
                assert(helper::act(curf, t, n) == helper::act(cur, t, n));
            } else {
                assert(helper::act(curf, t, n) == helper::act(cur, t, n));
            }
        }
    }
    assert forall|q: Seq<Seq<char>>| #[trigger] helper::has(fut, q) == if prefix(pk, q) { helper::has(nxf, q.skip(pk.len() as int)) } else { helper::has(m0, q) || prefix(q, pk) } by {
        if prefix(pk, q) {
            assert(q.take(pre.len() as int) =~= q.take(pk.len() as int).take(pre.len() as int));
            assert(pk.take(pre.len() as int) =~= pre);
            let t = q.skip(pre.len() as int);
            assert(t[0] == q.take(pk.len() as int)[pre.len() as int]);
            assert(t.skip(1) =~= q.skip(pk.len() as int));
        } else if prefix(pre, q) {
            let t = q.skip(pre.len() as int);
            assert(pre + t =~= q);
            assert(helper::has(cur, t) == (t.len() == 0 || helper::has(m0, q)));
            if t.len() > 0 {
                if t[0] == k { assert(q.take(pk.len() as int) =~= pk); }
                assert(helper::has(curf, t) == helper::has(cur, t));
                if prefix(q, pk) { assert(q.len() == pk.len()); assert(pk.take(q.len() as int) =~= pk); }
            } else {
                assert(q =~= pre);
                assert(pk.take(q.len() as int) =~= pre);
            }
        } else {
            if q.len() <= pre.len() { assert(pk.take(q.len() as int) =~= pre.take(q.len() as int)); }
            else if prefix(q, pk) { assert(q =~= pk); assert(pk.take(pre.len() as int) =~= pre); }
        }
    }
}
/// putting one action at pre
pub open spec fn with_one(m0: helper::Module, pre: Seq<Seq<char>>, n: Seq<char>, a: FlattenedAction, m1: helper::Module) -> bool {
    &&& forall|q: Seq<Seq<char>>, x: Seq<char>| #[trigger] helper::act(m1, q, x) == if q == pre && x == n { Some(a) } else { helper::act(m0, q, x) }
    &&& forall|q: Seq<Seq<char>>| #[trigger] helper::has(m1, q) == (helper::has(m0, q) || prefix(q, pre))
}
pub proof fn put(m0: helper::Module, fut: helper::Module, pre: Seq<Seq<char>>, n: Seq<char>, a: FlattenedAction, cur: helper::Module, curf: helper::Module)
    requires reached(m0, pre, cur), set_at(m0, pre, curf, fut), curf.0 == cur.0, curf.acts() == cur.acts().insert(n, a),
    ensures with_one(m0, pre, n, a, fut), cur.acts().contains_key(n) <==> helper::act(m0, pre, n) is Some,
{
    assert(pre + seq![] =~= pre);
    assert(helper::act(cur, seq![], n) == helper::act(m0, pre, n));
    assert forall|q: Seq<Seq<char>>, x: Seq<char>| #[trigger] helper::act(fut, q, x) == if q == pre && x == n { Some(a) } else { helper::act(m0, q, x) } by {
        if prefix(pre, q) {
            let t = q.skip(pre.len() as int);
            assert(pre + t =~= q);
            assert(helper::act(cur, t, x) == helper::act(m0, q, x));
            if t.len() == 0 { assert(q =~= pre); }
        } else { assert(pre.take(pre.len() as int) =~= pre); }
    }
    assert forall|q: Seq<Seq<char>>| #[trigger] helper::has(fut, q) == (helper::has(m0, q) || prefix(q, pre)) by {
        if prefix(pre, q) {
            let t = q.skip(pre.len() as int);
            assert(pre + t =~= q);
            assert(helper::has(cur, t) == (t.len() == 0 || helper::has(m0, q)));
            if t.len() == 0 { assert(q =~= pre); assert(pre.take(q.len() as int) =~= q); }
            else if prefix(q, pre) { assert(q.len() <= pre.len()); }
        }
    }
}
pub proof fn add_one(m0: helper::Module, done: Multiset<Item>, m1: helper::Module, e: Item, a: FlattenedAction)
    requires repr(m0, done), with_one(m0, mods(e), name(e), a, m1), is_action(a, e), helper::act(m0, mods(e), name(e)) is None,
    ensures repr(m1, done.insert(e)),
{
    let d1 = done.insert(e);
    assert(!done.contains(e));
    assert forall|f: Item| #[trigger] d1.contains(f) <==> done.contains(f) || f == e by {}
    assert forall|f: Item| #[trigger] d1.contains(f) implies (helper::act(m1, mods(f), name(f)) matches Some(b) && is_action(b, f)) by {
        if f != e { assert(done.contains(f)); }
    }
    assert forall|p: Seq<Seq<char>>, n: Seq<char>| (#[trigger] helper::act(m1, p, n)) is Some implies exists|f: Item| #[trigger] d1.contains(f) && mods(f) == p && name(f) == n by {
        if p == mods(e) && n == name(e) { assert(d1.contains(e)); }
        else { let f = choose|f: Item| #[trigger] done.contains(f) && mods(f) == p && name(f) == n; assert(d1.contains(f)); }
    }
    assert forall|p: Seq<Seq<char>>| #[trigger] helper::has(m1, p) <==> p.len() == 0 || exists|f: Item| #[trigger] d1.contains(f) && prefix(p, mods(f)) by {
        if helper::has(m0, p) && p.len() > 0 { let f = choose|f: Item| #[trigger] done.contains(f) && prefix(p, mods(f)); assert(d1.contains(f)); }
        if prefix(p, mods(e)) { assert(d1.contains(e)); }
        if exists|f: Item| #[trigger] d1.contains(f) && prefix(p, mods(f)) {
            let f = choose|f: Item| #[trigger] d1.contains(f) && prefix(p, mods(f));
            if f != e { assert(done.contains(f)); }
        }
    }
    assert(distinct(d1)) by {
        assert forall|f: Item| #[trigger] d1.contains(f) implies d1.count(f) == 1 by { if f != e { assert(done.contains(f)); } }
        assert forall|f: Item, g: Item| #[trigger] d1.contains(f) && #[trigger] d1.contains(g) && mods(f) == mods(g) && name(f) == name(g) implies f == g by {
            if f != e { assert(done.contains(f)); }
            if g != e { assert(done.contains(g)); }
        }
    }
}
/// a second resource with the handler of an earlier one
pub proof fn clash(m0: helper::Module, done: Multiset<Item>, e: Item, rest: Multiset<Item>, all: Multiset<Item>)
    requires repr(m0, done), helper::act(m0, mods(e), name(e)) is Some, done.add(rest) == all, rest.contains(e),
    ensures !distinct(all),
{
    let f = choose|f: Item| #[trigger] done.contains(f) && mods(f) == mods(e) && name(f) == name(e);
    assert(done.contains(f));
    assert(all.contains(f) && all.contains(e));
    if distinct(all) { assert(f == e); assert(all.count(e) >= 2); }
}

// ---- the finished tree
pub open spec fn fhas(r: FlattenedModule, p: Seq<Seq<char>>) -> bool
    decreases p.len()
{ p.len() == 0 || exists|i: int| 0 <= i < r.modules@.len() && (#[trigger] r.modules@[i]).name@ == p[0] && fhas(r.modules@[i], p.skip(1)) }
pub open spec fn fact(r: FlattenedModule, p: Seq<Seq<char>>, n: Seq<char>, a: FlattenedAction) -> bool
    decreases p.len()
{
    if p.len() == 0 { exists|i: int| 0 <= i < r.actions@.len() && (#[trigger] r.actions@[i]).name@ == n && r.actions@[i] == a }
    else { exists|i: int| 0 <= i < r.modules@.len() && (#[trigger] r.modules@[i]).name@ == p[0] && fact(r.modules@[i], p.skip(1), n, a) }
}
pub open spec fn sorted_tree(r: FlattenedModule) -> bool
    decreases r
{ strictly(action_names(r)) && strictly(module_names(r)) && forall|i: int| 0 <= i < r.modules@.len() ==> sorted_tree(#[trigger] r.modules@[i]) }
/// the module tree of a set of resources: each has its action in its module,
/// and there is nothing else; everything is sorted by name
pub open spec fn tree(r: FlattenedModule, all: Multiset<Item>) -> bool {
    &&& sorted_tree(r)
    &&& all_there(r, all)
    &&& nothing_else(r, all)
    &&& forall|p: Seq<Seq<char>>| #[trigger] fhas(r, p) <==> p.len() == 0 || exists|e: Item| #[trigger] all.contains(e) && prefix(p, mods(e))
}
#[verifier::opaque]
pub open spec fn all_there(r: FlattenedModule, all: Multiset<Item>) -> bool {
    forall|e: Item| #[trigger] all.contains(e) ==> exists|a: FlattenedAction| #[trigger] fact(r, mods(e), name(e), a) && is_action(a, e)
}
#[verifier::opaque]
pub open spec fn nothing_else(r: FlattenedModule, all: Multiset<Item>) -> bool {
    forall|p: Seq<Seq<char>>, n: Seq<char>, a: FlattenedAction| #[trigger] fact(r, p, n, a) ==> exists|e: Item| #[trigger] all.contains(e) && mods(e) == p && name(e) == n && is_action(a, e)
}
pub proof fn final_sorted(m: helper::Module, n: Seq<char>, r: FlattenedModule)
    requires is_final(m, n, r)
    ensures sorted_tree(r)
    decreases r
{
    assert forall|i: int| 0 <= i < r.modules@.len() implies sorted_tree(#[trigger] r.modules@[i]) by {
        final_sorted(m.sub()[r.modules@[i].name@], r.modules@[i].name@, r.modules@[i]);
    }
}
pub proof fn final_view(m: helper::Module, nm: Seq<char>, r: FlattenedModule, p: Seq<Seq<char>>)
    requires is_final(m, nm, r)
    ensures
        fhas(r, p) == helper::has(m, p),
        forall|n: Seq<char>, a: FlattenedAction| #[trigger] fact(r, p, n, a) ==> helper::act(m, p, n) == Some(a),
        forall|n: Seq<char>| (#[trigger] helper::act(m, p, n)) matches Some(a) ==> a.name@ != n || fact(r, p, n, a),
    decreases p.len()
{
    if p.len() > 0 {
        let k = p[0];
        assert forall|i: int| 0 <= i < r.modules@.len() && (#[trigger] r.modules@[i]).name@ == k implies
            (fhas(r.modules@[i], p.skip(1)) == helper::has(m.sub()[k], p.skip(1))) && m.sub().contains_key(k)
            && (forall|n: Seq<char>, a: FlattenedAction| #[trigger] fact(r.modules@[i], p.skip(1), n, a) ==> helper::act(m.sub()[k], p.skip(1), n) == Some(a))
            && (forall|n: Seq<char>| (#[trigger] helper::act(m.sub()[k], p.skip(1), n)) matches Some(a) ==> a.name@ != n || fact(r.modules@[i], p.skip(1), n, a)) by {
            final_view(m.sub()[k], k, r.modules@[i], p.skip(1));
        }
        assert forall|n: Seq<char>, a: FlattenedAction| #[trigger] fact(r, p, n, a) implies helper::act(m, p, n) == Some(a) by {
            let i = choose|i: int| 0 <= i < r.modules@.len() && (#[trigger] r.modules@[i]).name@ == p[0] && fact(r.modules@[i], p.skip(1), n, a);
            assert(r.modules@[i].name@ == k);
            assert(helper::act(m.sub()[k], p.skip(1), n) == Some(a));
        }
        assert forall|n: Seq<char>| (#[trigger] helper::act(m, p, n)) matches Some(a) implies helper::act(m, p, n)->Some_0.name@ != n || fact(r, p, n, helper::act(m, p, n)->Some_0) by {
            assert(m.sub().contains_key(k));
            let i = choose|i: int| 0 <= i < r.modules@.len() && (#[trigger] r.modules@[i]).name@ == k;
            let a = helper::act(m, p, n)->Some_0;
            assert(helper::act(m.sub()[k], p.skip(1), n) == Some(a));
            if a.name@ == n { assert(fact(r.modules@[i], p.skip(1), n, a)); }
        }
    } else {
        assert forall|n: Seq<char>, a: FlattenedAction| #[trigger] fact(r, p, n, a) implies helper::act(m, p, n) == Some(a) by {
            let i = choose|i: int| 0 <= i < r.actions@.len() && (#[trigger] r.actions@[i]).name@ == n && r.actions@[i] == a;
            assert(r.actions@[i].name@ == n);
        }
        assert forall|n: Seq<char>| (#[trigger] helper::act(m, p, n)) matches Some(a) implies helper::act(m, p, n)->Some_0.name@ != n || fact(r, p, n, helper::act(m, p, n)->Some_0) by {
            let a = helper::act(m, p, n)->Some_0;
            if a.name@ == n {
                assert(m.acts().contains_key(n));
                let i = choose|i: int| 0 <= i < r.actions@.len() && (#[trigger] r.actions@[i]).name@ == n;
                assert(r.actions@[i] == a);
            }
        }
    }
}
pub proof fn final_tree(m: helper::Module, nm: Seq<char>, r: FlattenedModule, all: Multiset<Item>)
    requires is_final(m, nm, r), repr(m, all)
    ensures tree(r, all)
{
    final_sorted(m, nm, r);
    reveal(all_there);
    reveal(nothing_else);
    assert forall|e: Item| #[trigger] all.contains(e) implies exists|a: FlattenedAction| #[trigger] fact(r, mods(e), name(e), a) && is_action(a, e) by {
        final_view(m, nm, r, mods(e));
        let a = helper::act(m, mods(e), name(e))->Some_0;
        assert(fact(r, mods(e), name(e), a));
    }
    assert forall|p: Seq<Seq<char>>, n: Seq<char>, a: FlattenedAction| #[trigger] fact(r, p, n, a) implies exists|e: Item| #[trigger] all.contains(e) && mods(e) == p && name(e) == n && is_action(a, e) by {
        final_view(m, nm, r, p);
        assert(helper::act(m, p, n) == Some(a));
    }
    assert forall|p: Seq<Seq<char>>| #[trigger] fhas(r, p) <==> p.len() == 0 || exists|e: Item| #[trigger] all.contains(e) && prefix(p, mods(e)) by {
        final_view(m, nm, r, p);
    }
}

impl FlattenedModules {
//@fn gen/flat.rs FlattenedModules::flatten -> r
    requires given(items(*$1, $2@, $3@)),
    ensures
        tree(r, items(*$1, $2@, $3@)),
        // two resources with the same handler never get this far
        distinct(items(*$1, $2@, $3@)),
        r.name@ == "routes"@,
//@start
    let ghost all = items(*$1, $2@, $3@);
    let ghost mut done: Multiset<Item> = Multiset::empty();
//@before 1
    proof {
        assert(routes_to_process@.drop_last() =~= seq![]);
        assert(pending(routes_to_process@.drop_last()) =~= Multiset::empty());
        assert(routes_to_process@.last() == routes_to_process@[0]);
        assert(pending(routes_to_process@) =~= items(*routes_to_process@[0].0, routes_to_process@[0].1@, routes_to_process@[0].2@));
        assert(all =~= pending(routes_to_process@));
        assert(forall|p: Seq<Seq<char>>, n: Seq<char>| helper::act(accum, p, n) is None);
        assert(done.add(pending(routes_to_process@)) =~= all);
    }
//@loop 1
    invariant repr(accum, done), done.add(pending(routes_to_process@)) == all, given(all),
    ensures repr(accum, all),
    decreases total(routes_to_process@)
//@head 1
    let ghost st = routes_to_process@;
    proof { if st.len() == 0 { assert(done =~= all); } }
//@before 2
    let ghost s0 = routes_to_process@;
    let ghost q0 = query_parameters@;
    let ghost d0 = done;
    let ghost r0 = *routes;
    let ghost qq = q0 + routes.query_parameters@;
    let ghost rest = kids(r0, r0.routes@.len(), path@, qq).add(pending(s0));
    proof {
        assert(s0 =~= st.drop_last());
        assert(d0.add(own(r0.resources@, r0.resources@.len(), path@, qq)).add(rest) =~= all);
    }
//@loop 2
    invariant $v2@ == r0.query_parameters@, $k2 <= $v2@.len(), query_parameters@ == q0 + r0.query_parameters@.take($k2 as int),
    decreases $v2@.len() - $k2
//@tail 2
    proof { assert(query_parameters@ =~= q0 + r0.query_parameters@.take($k2 as int)); }
//@before 3
    proof {
        assert(r0.query_parameters@.take(r0.query_parameters@.len() as int) =~= r0.query_parameters@);
        assert(flat_path.segments@ =~= path@);
        assert(done =~= d0.add(own(r0.resources@, 0, path@, qq)));
    }
//@loop 3
    invariant
        $v3@ == r0.resources@, $k3 <= $v3@.len(), query_parameters@ == qq, flat_path.segments@ == path@,
        repr(accum, done), done == d0.add(own(r0.resources@, $k3 as nat, path@, qq)),
        d0.add(own(r0.resources@, r0.resources@.len(), path@, qq)).add(rest) == all, given(all),
    decreases $v3@.len() - $k3
//@head 3
    let ghost acc0 = accum;
    let ghost e = Item { path: path@, res: r0.resources@[$k3 as int], query: qq };
    let ghost left = own_from(r0.resources@, $k3 as nat, path@, qq).add(rest);
    proof {
        own_split(r0.resources@, $k3 as nat, path@, qq);
        assert(done.add(left) =~= all);
        if !e.res.is_redirect { assert(left.contains(e)); assert(done.insert(e) =~= d0.add(own(r0.resources@, $k3 as nat + 1, path@, qq))); }
    }
//@before 4
    let ghost fut = *final(entry);
    proof { at_root(acc0, fut); assert(texts($v4@).take(0) =~= seq![]); }
//@loop 4
    invariant $v4@ == e.res.modules@, $k4 <= $v4@.len(), reached(acc0, texts($v4@).take($k4 as int), *entry), set_at(acc0, texts($v4@).take($k4 as int), *final(entry), fut),
    decreases $v4@.len() - $k4
//@head 4
    let ghost e0 = *entry;
    let ghost f0 = *final(entry);
    let ghost k0 = $k4 as int;
    proof { assert(texts($v4@)[k0] == $v4@[k0]@); }
//@tail 4
    proof {
        assert(texts($v4@).take(k0).push(texts($v4@)[k0]) =~= texts($v4@).take(k0 + 1));
        one_down(acc0, fut, texts($v4@).take(k0), texts($v4@)[k0], e0, f0, *entry, *final(entry));
    }
//@after 4
    let ghost e1 = *entry;
    let ghost f1 = *final(entry);
    proof {
        assert(texts($v4@).take($v4@.len() as int) =~= mods(e));
        assert(mods(e) + Seq::<Seq<char>>::empty() =~= mods(e));
        assert(helper::act(e1, seq![], name(e)) == helper::act(acc0, mods(e), name(e)));
        if e1.acts().contains_key(name(e)) { clash(acc0, done, e, left, all); }
    }
//@tail 3
    proof {
        assert(accum == fut);
        let a = f1.acts()[name(e)];
        put(acc0, accum, mods(e), name(e), a, e1, f1);
        assert(a.query_parameters@ =~= qq + e.res.query_parameters@);
        assert(a.route_parameters@ =~= params(path@));
        add_one(acc0, done, accum, e, a);
        done = done.insert(e);
    }
//@before 5
    proof { assert(pending(routes_to_process@) =~= pending(s0).add(kids(r0, 0, path@, qq))); }
//@loop 5
    invariant
        $v5@ == r0.routes@, $k5 <= $v5@.len(), query_parameters@ == qq,
        pending(routes_to_process@) == pending(s0).add(kids(r0, $k5 as nat, path@, qq)),
        total(routes_to_process@) == total(s0) + sizes(r0, $k5 as nat),
    decreases $v5@.len() - $k5
//@head 5
    let ghost s5 = routes_to_process@;
//@tail 5
    proof {
        let l = routes_to_process@.last();
        assert(routes_to_process@.drop_last() =~= s5);
        assert(l.1@ =~= path@.push(r0.routes@[$k5 - 1].path_segment));
        assert(l.2@ =~= qq);
        assert(pending(routes_to_process@) =~= pending(s0).add(kids(r0, $k5 as nat, path@, qq)));
    }
//@after 5
    proof { assert(done.add(pending(routes_to_process@)) =~= all); }
//@after 1
    proof {
        assert(helper::named(accum)) by {
            assert forall|p: Seq<Seq<char>>, n: Seq<char>| (#[trigger] helper::act(accum, p, n)) matches Some(a) implies helper::act(accum, p, n)->Some_0.name@ == n by {
                let e = choose|e: Item| #[trigger] all.contains(e) && mods(e) == p && name(e) == n;
                assert(all.contains(e));
            }
        }
        assert forall|r: FlattenedModule| #[trigger] is_final(accum, "routes"@, r) implies tree(r, all) by { final_tree(accum, "routes"@, r, all); }
    }
//@end
}
pub open spec fn own_from(res: Seq<Resource>, n: nat, path: Seq<PathSegment>, query: Seq<Param>) -> Multiset<Item>
    decreases res.len() - n
{
    if n >= res.len() { Multiset::empty() }
    else {
        let rest = own_from(res, n + 1, path, query);
        if res[n as int].is_redirect { rest } else { rest.insert(Item { path, res: res[n as int], query }) }
    }
}
pub proof fn own_split(res: Seq<Resource>, n: nat, path: Seq<PathSegment>, query: Seq<Param>)
    requires n <= res.len()
    ensures own(res, n, path, query).add(own_from(res, n, path, query)) =~= own(res, res.len(), path, query)
    decreases res.len() - n
{ if n < res.len() { own_split(res, n + 1, path, query); } }
impl FlattenedModules {
//@fn gen/flat.rs <From<&'a Routes> for FlattenedModules>::from -> r
    requires given(items(*$1, seq![], seq![])),
    ensures tree(r.root, items(*$1, seq![], seq![])), distinct(items(*$1, seq![], seq![])), r.root.name@ == "routes"@,
//@end
}
