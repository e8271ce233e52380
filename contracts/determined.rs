// ---------------------------------------------------------------- the module tree is determined by the configuration
pub open spec fn same_action(a: FlattenedAction, b: FlattenedAction) -> bool {
    a.name@ == b.name@ && a.method == b.method && a.path.segments@ == b.path.segments@ && a.route_parameters@ == b.route_parameters@ && a.query_parameters@ == b.query_parameters@
}
pub open spec fn same_tree(r: FlattenedModule, s: FlattenedModule) -> bool
    decreases r
{
    &&& r.name@ == s.name@
    &&& r.actions@.len() == s.actions@.len()
    &&& forall|i: int| 0 <= i < r.actions@.len() ==> same_action(#[trigger] r.actions@[i], s.actions@[i])
    &&& r.modules@.len() == s.modules@.len()
    &&& forall|i: int| 0 <= i < r.modules@.len() ==> same_tree(#[trigger] r.modules@[i], s.modules@[i])
}
pub proof fn lt_one_way(a: Seq<char>, b: Seq<char>)
    ensures !(lt(a, b) && lt(b, a))
    decreases a.len()
{ if a.len() > 0 && b.len() > 0 { lt_one_way(a.skip(1), b.skip(1)); } }
/// a strictly sorted sequence is determined by its elements
pub proof fn strict_unique(s: Seq<Seq<char>>, t: Seq<Seq<char>>)
    requires strictly(s), strictly(t), forall|x: Seq<char>| #[trigger] s.contains(x) <==> t.contains(x),
    ensures s =~= t
    decreases s.len()
{
    if s.len() == 0 {
        if t.len() > 0 { assert(t.contains(t[0])); assert(s.contains(t[0])); }
    } else {
        assert(s.contains(s[0])); assert(t.contains(s[0]));
        assert(t.contains(t[0])); assert(s.contains(t[0]));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == t[0];
        let j = choose|j: int| 0 <= j < t.len() && t[j] == s[0];
        if i > 0 && j > 0 { assert(lt(s[0], s[i])); assert(lt(t[0], t[j])); lt_one_way(s[0], t[0]); }
        assert(s[0] == t[0]);
        let (u, v) = (s.skip(1), t.skip(1));
        assert forall|x: Seq<char>| #[trigger] u.contains(x) <==> v.contains(x) by {
            if u.contains(x) {
                let k = choose|k: int| 0 <= k < u.len() && u[k] == x;
                assert(s[k + 1] == x); assert(s.contains(x)); assert(t.contains(x));
                let l = choose|l: int| 0 <= l < t.len() && t[l] == x;
                assert(lt(s[0], s[k + 1])); lt_one_way(x, x);
                assert(v[l - 1] == x);
            }
            if v.contains(x) {
                let k = choose|k: int| 0 <= k < v.len() && v[k] == x;
                assert(t[k + 1] == x); assert(t.contains(x)); assert(s.contains(x));
                let l = choose|l: int| 0 <= l < s.len() && s[l] == x;
                assert(lt(t[0], t[k + 1])); lt_one_way(x, x);
                assert(u[l - 1] == x);
            }
        }
        assert(strictly(u)) by { assert forall|i: int, j: int| 0 <= i < j < u.len() implies lt(#[trigger] u[i], #[trigger] u[j]) by { assert(lt(s[i + 1], s[j + 1])); } }
        assert(strictly(v)) by { assert forall|i: int, j: int| 0 <= i < j < v.len() implies lt(#[trigger] v[i], #[trigger] v[j]) by { assert(lt(t[i + 1], t[j + 1])); } }
        strict_unique(u, v);
        assert(s =~= seq![s[0]] + u);
        assert(t =~= seq![t[0]] + v);
    }
}
/// the same modules and actions at the same places
pub open spec fn alike(r: FlattenedModule, s: FlattenedModule) -> bool {
    &&& forall|p: Seq<Seq<char>>| #[trigger] fhas(r, p) == fhas(s, p)
    &&& forall|p: Seq<Seq<char>>, n: Seq<char>, a: FlattenedAction| #[trigger] fact(r, p, n, a) ==> exists|b: FlattenedAction| #[trigger] fact(s, p, n, b) && same_action(a, b)
    &&& forall|p: Seq<Seq<char>>, n: Seq<char>, b: FlattenedAction| #[trigger] fact(s, p, n, b) ==> exists|a: FlattenedAction| #[trigger] fact(r, p, n, a) && same_action(a, b)
}
pub proof fn at_index(r: FlattenedModule, i: int)
    requires sorted_tree(r), 0 <= i < r.modules@.len()
    ensures
        forall|p: Seq<Seq<char>>| #[trigger] fhas(r, seq![r.modules@[i].name@] + p) == fhas(r.modules@[i], p),
        forall|p: Seq<Seq<char>>, n: Seq<char>, a: FlattenedAction| #[trigger] fact(r, seq![r.modules@[i].name@] + p, n, a) == fact(r.modules@[i], p, n, a),
{
    let k = r.modules@[i].name@;
    assert forall|j: int| 0 <= j < r.modules@.len() && (#[trigger] r.modules@[j]).name@ == k implies j == i by {
        assert(module_names(r)[i] == module_names(r)[j]);
        lt_one_way(k, k);
        if j < i { assert(lt(module_names(r)[j], module_names(r)[i])); }
        if i < j { assert(lt(module_names(r)[i], module_names(r)[j])); }
    }
    assert forall|p: Seq<Seq<char>>| #[trigger] fhas(r, seq![k] + p) == fhas(r.modules@[i], p) by { assert((seq![k] + p).skip(1) =~= p); }
    assert forall|p: Seq<Seq<char>>, n: Seq<char>, a: FlattenedAction| #[trigger] fact(r, seq![k] + p, n, a) == fact(r.modules@[i], p, n, a) by { assert((seq![k] + p).skip(1) =~= p); }
}
pub proof fn has_name(r: FlattenedModule, n: Seq<char>)
    ensures
        module_names(r).contains(n) <==> fhas(r, seq![n]),
        action_names(r).contains(n) <==> exists|a: FlattenedAction| #[trigger] fact(r, seq![], n, a),
{
    assert(seq![n].skip(1) =~= seq![]);
    if module_names(r).contains(n) { let i = choose|i: int| 0 <= i < module_names(r).len() && module_names(r)[i] == n; assert(r.modules@[i].name@ == n); assert(fhas(r.modules@[i], seq![])); }
    if fhas(r, seq![n]) { let i = choose|i: int| 0 <= i < r.modules@.len() && (#[trigger] r.modules@[i]).name@ == seq![n][0] && fhas(r.modules@[i], seq![n].skip(1)); assert(module_names(r)[i] == n); }
    if action_names(r).contains(n) { let i = choose|i: int| 0 <= i < action_names(r).len() && action_names(r)[i] == n; assert(r.actions@[i].name@ == n); assert(fact(r, seq![], n, r.actions@[i])); }
    if exists|a: FlattenedAction| #[trigger] fact(r, seq![], n, a) {
        let a = choose|a: FlattenedAction| #[trigger] fact(r, seq![], n, a);
        let i = choose|i: int| 0 <= i < r.actions@.len() && (#[trigger] r.actions@[i]).name@ == n && r.actions@[i] == a;
        assert(action_names(r)[i] == n);
    }
}
pub proof fn alike_same(r: FlattenedModule, s: FlattenedModule)
    requires sorted_tree(r), sorted_tree(s), alike(r, s), r.name@ == s.name@
    ensures same_tree(r, s)
    decreases r
{
    let e = Seq::<Seq<char>>::empty();
    assert forall|n: Seq<char>| #[trigger] action_names(r).contains(n) <==> action_names(s).contains(n) by {
        has_name(r, n); has_name(s, n);
        if action_names(r).contains(n) { let a = choose|a: FlattenedAction| #[trigger] fact(r, e, n, a); assert(fact(r, e, n, a)); }
        if action_names(s).contains(n) { let a = choose|a: FlattenedAction| #[trigger] fact(s, e, n, a); assert(fact(s, e, n, a)); }
    }
    strict_unique(action_names(r), action_names(s));
    assert(action_names(r).len() == r.actions@.len() && action_names(s).len() == s.actions@.len());
    assert forall|i: int| 0 <= i < r.actions@.len() implies same_action(#[trigger] r.actions@[i], s.actions@[i]) by {
        let (a, n) = (r.actions@[i], r.actions@[i].name@);
        assert(fact(r, e, n, a));
        let b = choose|b: FlattenedAction| #[trigger] fact(s, e, n, b) && same_action(a, b);
        let j = choose|j: int| 0 <= j < s.actions@.len() && (#[trigger] s.actions@[j]).name@ == n && s.actions@[j] == b;
        assert(action_names(s)[j] == n && action_names(r)[i] == n && action_names(s)[i] == n);
        lt_one_way(n, n);
        if j < i { assert(lt(action_names(s)[j], action_names(s)[i])); }
        if i < j { assert(lt(action_names(s)[i], action_names(s)[j])); }
    }
    assert forall|n: Seq<char>| #[trigger] module_names(r).contains(n) <==> module_names(s).contains(n) by { has_name(r, n); has_name(s, n); }
    strict_unique(module_names(r), module_names(s));
    assert(module_names(r).len() == r.modules@.len() && module_names(s).len() == s.modules@.len());
    assert forall|i: int| 0 <= i < r.modules@.len() implies same_tree(#[trigger] r.modules@[i], s.modules@[i]) by {
        let (x, y) = (r.modules@[i], s.modules@[i]);
        assert(module_names(r)[i] == x.name@ && module_names(s)[i] == y.name@);
        at_index(r, i); at_index(s, i);
        let k = x.name@;
        assert forall|p: Seq<Seq<char>>| #[trigger] fhas(x, p) == fhas(y, p) by { assert(fhas(r, seq![k] + p) == fhas(s, seq![k] + p)); }
        assert forall|p: Seq<Seq<char>>, n: Seq<char>, a: FlattenedAction| #[trigger] fact(x, p, n, a) implies exists|b: FlattenedAction| #[trigger] fact(y, p, n, b) && same_action(a, b) by {
            assert(fact(r, seq![k] + p, n, a));
            let b = choose|b: FlattenedAction| #[trigger] fact(s, seq![k] + p, n, b) && same_action(a, b);
            assert(fact(y, p, n, b));
        }
        assert forall|p: Seq<Seq<char>>, n: Seq<char>, b: FlattenedAction| #[trigger] fact(y, p, n, b) implies exists|a: FlattenedAction| #[trigger] fact(x, p, n, a) && same_action(a, b) by {
            assert(fact(s, seq![k] + p, n, b));
            let a = choose|a: FlattenedAction| #[trigger] fact(r, seq![k] + p, n, a) && same_action(a, b);
            assert(fact(x, p, n, a));
        }
        alike_same(x, y);
    }
}
/// the resource an action is there for
pub proof fn item_of(r: FlattenedModule, all: Multiset<Item>, p: Seq<Seq<char>>, n: Seq<char>, a: FlattenedAction) -> (e: Item)
    requires nothing_else(r, all), fact(r, p, n, a)
    ensures all.contains(e), mods(e) == p, name(e) == n, is_action(a, e)
{ reveal(nothing_else); choose|e: Item| #[trigger] all.contains(e) && mods(e) == p && name(e) == n && is_action(a, e) }
/// the action there for a resource
pub proof fn action_of(r: FlattenedModule, all: Multiset<Item>, e: Item) -> (a: FlattenedAction)
    requires all_there(r, all), all.contains(e)
    ensures fact(r, mods(e), name(e), a), is_action(a, e)
{ reveal(all_there); choose|a: FlattenedAction| #[trigger] fact(r, mods(e), name(e), a) && is_action(a, e) }
/// whatever order the maps were walked in, equal configurations give the same tree
pub proof fn tree_is_determined(r: FlattenedModule, s: FlattenedModule, all: Multiset<Item>)
    requires tree(r, all), tree(s, all), r.name@ == s.name@
    ensures same_tree(r, s)
{
    assert forall|p: Seq<Seq<char>>, n: Seq<char>, a: FlattenedAction| #[trigger] fact(r, p, n, a) implies exists|b: FlattenedAction| #[trigger] fact(s, p, n, b) && same_action(a, b) by {
        let e = item_of(r, all, p, n, a);
        let b = action_of(s, all, e);
        assert(fact(s, p, n, b));
    }
    assert forall|p: Seq<Seq<char>>, n: Seq<char>, b: FlattenedAction| #[trigger] fact(s, p, n, b) implies exists|a: FlattenedAction| #[trigger] fact(r, p, n, a) && same_action(a, b) by {
        let e = item_of(s, all, p, n, b);
        let a = action_of(r, all, e);
        assert(fact(r, p, n, a));
    }
    alike_same(r, s);
}
