// ---------------------------------------------------------------- the code is determined by the configuration
pub proof fn sorted_keys_unique(s: Seq<CK>, t: Seq<CK>)
    requires ascending(s), ascending(t), forall|x: CK| #[trigger] s.contains(x) <==> t.contains(x),
    ensures s =~= t
    decreases s.len()
{
    if s.len() == 0 {
        if t.len() > 0 { assert(t.contains(t[0])); assert(s.contains(t[0])); }
    } else {
        assert(s.contains(s[0])); assert(t.contains(s[0]));
        assert(t.contains(t[0])); assert(s.contains(t[0]));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == t[0];
        let j = choose|j: int| 0 <= j < t.len() && t[j] == s[0];
        ord_is_total(s[0], t[0]);
        ord_is_total(s[0], s[0]);
        if i > 0 && j > 0 { assert(clt(s[0], s[i])); assert(clt(t[0], t[j])); }
        assert(s[0] == t[0]);
        let (u, v) = (s.skip(1), t.skip(1));
        assert forall|x: CK| #[trigger] u.contains(x) <==> v.contains(x) by {
            ord_is_total(x, x);
            if u.contains(x) {
                let k = choose|k: int| 0 <= k < u.len() && u[k] == x;
                assert(s[k + 1] == x); assert(s.contains(x)); assert(t.contains(x));
                let l = choose|l: int| 0 <= l < t.len() && t[l] == x;
                assert(clt(s[0], s[k + 1]));
                assert(v[l - 1] == x);
            }
            if v.contains(x) {
                let k = choose|k: int| 0 <= k < v.len() && v[k] == x;
                assert(t[k + 1] == x); assert(t.contains(x)); assert(s.contains(x));
                let l = choose|l: int| 0 <= l < s.len() && s[l] == x;
                assert(clt(t[0], t[k + 1]));
                assert(u[l - 1] == x);
            }
        }
        assert(ascending(u)) by { assert forall|a: int, b: int| 0 <= a < b < u.len() implies clt(#[trigger] u[a], #[trigger] u[b]) by { assert(clt(s[a + 1], s[b + 1])); } }
        assert(ascending(v)) by { assert forall|a: int, b: int| 0 <= a < b < v.len() implies clt(#[trigger] v[a], #[trigger] v[b]) by { assert(clt(t[a + 1], t[b + 1])); } }
        sorted_keys_unique(u, v);
        assert(s =~= seq![s[0]] + u);
        assert(t =~= seq![t[0]] + v);
    }
}
pub open spec fn shown_at(t: T, p: Seq<CK>) -> Option<Place> { match tget(t, p) { Some(f) => Some(place_of(f)), None => None } }
/// the same places along the same paths
pub open spec fn agree(t: T, u: T) -> bool {
    &&& forall|p: Seq<CK>| #[trigger] thas(t, p) == thas(u, p)
    &&& forall|p: Seq<CK>| #[trigger] shown_at(t, p) == shown_at(u, p)
}
pub proof fn agree_same(t: T, u: T)
    requires tsorted(t), tsorted(u), agree(t, u)
    ensures tv(t) == tv(u)
    decreases t
{
    assert forall|k: CK| #[trigger] keys(t).contains(k) <==> keys(u).contains(k) by { has_key(t, k); has_key(u, k); assert(thas(t, seq![k]) == thas(u, seq![k])); }
    sorted_keys_unique(keys(t), keys(u));
    assert(keys(t).len() == t.children@.len() && keys(u).len() == u.children@.len());
    tv_is(t); tv_is(u);
    assert(tv(t).data == tv(u).data) by { assert(shown_at(t, seq![]) == shown_at(u, seq![])); }
    assert forall|i: int| 0 <= i < t.children@.len() implies #[trigger] tv(t).kids[i] == tv(u).kids[i] by {
        let (x, y, k) = (t.children@[i].1, u.children@[i].1, keys(t)[i]);
        assert(keys(u)[i] == k);
        assert(place(t, k, i) && place(u, k, i));
        kid_at(t, k, i); kid_at(u, k, i);
        assert forall|p: Seq<CK>| #[trigger] thas(x, p) == thas(y, p) by { let q = seq![k] + p; assert(q.skip(1) =~= p); assert(thas(t, q) == thas(u, q)); }
        assert forall|p: Seq<CK>| #[trigger] shown_at(x, p) == shown_at(y, p) by { let q = seq![k] + p; assert(q.skip(1) =~= p); assert(shown_at(t, q) == shown_at(u, q)); }
        agree_same(x, y);
    }
    assert(tv(t).kids =~= tv(u).kids);
}
/// the trie of some places is determined by them
pub proof fn trie_is_determined(t: T, u: T, all: Multiset<Place>)
    requires trie_of(t, all), trie_of(u, all)
    ensures tv(t) == tv(u)
{
    assert forall|p: Seq<CK>| #[trigger] shown_at(t, p) == shown_at(u, p) by {
        if tget(t, p) is Some { let e = choose|e: Place| #[trigger] all.contains(e) && key(e) == p; assert(tget(u, key(e)) is Some); }
        if tget(u, p) is Some { let e = choose|e: Place| #[trigger] all.contains(e) && key(e) == p; assert(tget(t, key(e)) is Some); }
    }
    assert forall|p: Seq<CK>| #[trigger] thas(t, p) == thas(u, p) by {
        if thas(t, p) && p.len() > 0 { let e = choose|e: Place| #[trigger] all.contains(e) && leads(p, key(e)); assert(thas(u, p)); }
        if thas(u, p) && p.len() > 0 { let e = choose|e: Place| #[trigger] all.contains(e) && leads(p, key(e)); assert(thas(t, p)); }
    }
    agree_same(t, u);
}

// ---- modules that are the same have the same text
pub open spec fn same_actions(x: Seq<FlattenedAction>, y: Seq<FlattenedAction>) -> bool { x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> same_action(#[trigger] x[i], y[i]) }
pub open spec fn same_names(x: Seq<FlattenedModule>, y: Seq<FlattenedModule>) -> bool { x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]).name@ == y[i].name@ }
pub proof fn actions_text(o: Seq<char>, x: Seq<FlattenedAction>, y: Seq<FlattenedAction>, ind: Seq<char>, n: int)
    requires same_actions(x, y), n <= x.len()
    ensures action_types(o, x, ind, n) == action_types(o, y, ind, n), action_variants(o, x, ind, n) == action_variants(o, y, ind, n), action_arms(o, x, ind, n) == action_arms(o, y, ind, n)
    decreases n
{
    if n > 0 {
        actions_text(o, x, y, ind, n - 1);
        let (a, b) = (x[n - 1], y[n - 1]);
        assert(same_action(a, b));
        let t = action_types(o, x, ind, n - 1);
        assert(struct_text(t, a, ind) == struct_text(t, b, ind));
        let t = struct_text(t, a, ind) + (o0() + "\n"@);
        assert(path_fn(t, a, ind) == path_fn(t, b, ind));
    }
}
pub proof fn names_text(o: Seq<char>, x: Seq<FlattenedModule>, y: Seq<FlattenedModule>, ind: Seq<char>, n: int)
    requires same_names(x, y), n <= x.len()
    ensures module_variants(o, x, ind, n) == module_variants(o, y, ind, n), module_arms(o, x, ind, n) == module_arms(o, y, ind, n)
    decreases n
{ if n > 0 { names_text(o, x, y, ind, n - 1); assert(x[n - 1].name@ == y[n - 1].name@); } }
pub proof fn submodules_same(o: Seq<char>, r: FlattenedModule, s: FlattenedModule, hs: Seq<Header>, ind: Seq<char>, n: int)
    requires same_tree(r, s), n <= r.modules@.len()
    ensures submodules(o, r, hs, ind, n) == submodules(o, s, hs, ind, n)
    decreases r, n
{
    if n > 0 {
        submodules_same(o, r, s, hs, ind, n - 1);
        let (x, y) = (r.modules@[n - 1], s.modules@[n - 1]);
        assert(same_tree(x, y));
        let t = submodules(o, r, hs, ind, n - 1) + (o0() + ind + "pub mod "@ + snake(x.name@) + " {\n"@);
        module_same(t, x, y, hs, o0() + ind + "    "@);
    }
}
pub proof fn module_same(o: Seq<char>, r: FlattenedModule, s: FlattenedModule, hs: Seq<Header>, ind: Seq<char>)
    requires same_tree(r, s)
    ensures module_text(o, r, hs, ind) == module_text(o, s, hs, ind)
    decreases r, r.modules@.len() + 1
{
    let t = header_lines(o, hs, ind, hs.len() as int);
    let t = if hs.len() > 0 { t + (o0() + "\n"@) } else { t };
    actions_text(t, r.actions@, s.actions@, ind, r.actions@.len() as int);
    let t = action_types(t, r.actions@, ind, r.actions@.len() as int);
    submodules_same(t, r, s, hs, ind, r.modules@.len() as int);
    let t = submodules(t, r, hs, ind, r.modules@.len() as int);
    let t = if ind == "    "@ { t + (o0() + ind + "/// An active route in the application -- match against this.\n"@) }
        else { t + (o0() + ind + "/// Parameters for requests to the "@ + snake(r.name@) + " controller.\n"@) };
    let t = t + (o0() + ind + "#[derive(Debug, PartialEq, Eq)]\n"@) + (o0() + ind + "pub enum Route {\n"@);
    assert forall|i: int| 0 <= i < r.modules@.len() implies (#[trigger] r.modules@[i]).name@ == s.modules@[i].name@ by { assert(same_tree(r.modules@[i], s.modules@[i])); }
    assert(same_names(r.modules@, s.modules@));
    actions_text(t, r.actions@, s.actions@, ind, r.actions@.len() as int);
    names_text(action_variants(t, r.actions@, ind, r.actions@.len() as int), r.modules@, s.modules@, ind, r.modules@.len() as int);
    let t = module_variants(action_variants(t, r.actions@, ind, r.actions@.len() as int), r.modules@, ind, r.modules@.len() as int);
    let t = t + (o0() + ind + "}\n"@) + (o0() + "\n"@) + (o0() + ind + "impl Route {\n"@);
    let t = t + (o0() + ind + "    /// Make a path to this route with the given parameters.\n"@) + (o0() + ind + "    pub fn to_path(&self) -> String {\n"@) + (o0() + ind + "        match self {\n"@);
    actions_text(t, r.actions@, s.actions@, ind, r.actions@.len() as int);
    names_text(action_arms(t, r.actions@, ind, r.actions@.len() as int), r.modules@, s.modules@, ind, r.modules@.len() as int);
}
/// two runs of the generator on one configuration write the same text
pub proof fn code_is_determined(o: Seq<char>, n: Seq<char>, m: Seq<char>, c: RouteConfig)
    requires generated(o, n, c), generated(o, m, c)
    ensures n == m
{
    let (all, at) = (items(c.routes, seq![], seq![]), places(c.routes, seq![], seq![]));
    let (r, t) = choose|root: FlattenedModule, t: T| #![trigger tree(root, items(c.routes, seq![], seq![])), trie_of(t, places(c.routes, seq![], seq![]))]
        root_of(root, c) && paths_of(t, c) && sound(prog(tv(t))) && n == code_text(o, c, root, t);
    let (s, u) = choose|root: FlattenedModule, t: T| #![trigger tree(root, items(c.routes, seq![], seq![])), trie_of(t, places(c.routes, seq![], seq![]))]
        root_of(root, c) && paths_of(t, c) && sound(prog(tv(t))) && m == code_text(o, c, root, t);
    tree_is_determined(r, s, all);
    trie_is_determined(t, u, at);
    module_same(allows(opening(o) + "    //! "@ + shown_config(c)), r, s, c.headers@, "    "@);
}
