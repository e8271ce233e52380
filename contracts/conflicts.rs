// ---------------------------------------------------------------- when a matcher can be written: no two names for one parameter
// ---- the tries that come from paths
pub ghost enum Mode { Start, Inner, Par }
pub open spec fn mode(k: CK) -> Mode { match k { CK::Static(_) => Mode::Inner, CK::Dynamic(_) => Mode::Par, CK::Separator => Mode::Start } }
pub open spec fn allowed(m: Mode, k: CK) -> bool { match m { Mode::Start => !(k is Separator), Mode::Inner => !(k is Dynamic), Mode::Par => k is Separator } }
/// at the start of a segment a character or a parameter, within one no parameter, after a parameter the segment's end
pub open spec fn shaped(g: G, m: Mode) -> bool
    decreases g
{
    &&& forall|i: int| 0 <= i < g.kids.len() ==> allowed(m, (#[trigger] g.kids[i]).0) && shaped(g.kids[i].1, mode(g.kids[i].0))
    &&& m is Par ==> g.kids.len() == 1
}
/// nowhere two parameters
pub open spec fn clean(g: G) -> bool
    decreases g
{ dyns(g, g.kids.len()).len() <= 1 && forall|i: int| 0 <= i < g.kids.len() ==> clean((#[trigger] g.kids[i]).1) }
pub open spec fn clean_chars(g: G, n: int) -> bool { forall|i: int| 0 <= i < n && (#[trigger] g.kids[i]).0 is Static ==> clean(g.kids[i].1) }
pub open spec fn all_clean(s: Seq<(Seq<char>, G)>) -> bool { forall|i: int| 0 <= i < s.len() ==> clean((#[trigger] s[i]).1) }
pub open spec fn all_inner(s: Seq<(Seq<char>, G)>) -> bool { forall|i: int| 0 <= i < s.len() ==> shaped((#[trigger] s[i]).1, Mode::Inner) }
/// the parameters and the characters among the children
pub proof fn dyn_from(g: G, n: nat, j: int) -> (i: int)
    requires n <= g.kids.len(), 0 <= j < dyns(g, n).len()
    ensures 0 <= i < n, g.kids[i] == dyns(g, n)[j], g.kids[i].0 is Dynamic
    decreases n
{ if j < dyns(g, (n - 1) as nat).len() { dyn_from(g, (n - 1) as nat, j) } else { n - 1 } }
pub proof fn dyn_to(g: G, n: nat, i: int) -> (j: int)
    requires n <= g.kids.len(), 0 <= i < n, g.kids[i].0 is Dynamic
    ensures 0 <= j < dyns(g, n).len(), dyns(g, n)[j] == g.kids[i]
    decreases n
{ if i < n - 1 { dyn_to(g, (n - 1) as nat, i) } else { dyns(g, (n - 1) as nat).len() as int } }
pub proof fn opt_from(g: G, n: nat, j: int) -> (i: int)
    requires n <= g.kids.len(), 0 <= j < opts(g, n).len()
    ensures 0 <= i < n, g.kids[i].0 is Static, g.kids[i].1 == opts(g, n)[j].1
    decreases n
{ if j < opts(g, (n - 1) as nat).len() { opt_from(g, (n - 1) as nat, j) } else { n - 1 } }
pub proof fn opt_to(g: G, n: nat, i: int) -> (j: int)
    requires n <= g.kids.len(), 0 <= i < n, g.kids[i].0 is Static
    ensures 0 <= j < opts(g, n).len(), opts(g, n)[j].1 == g.kids[i].1
    decreases n
{ if i < n - 1 { opt_to(g, (n - 1) as nat, i) } else { opts(g, (n - 1) as nat).len() as int } }
pub proof fn two_dyns(g: G, n: nat, i: int, j: int)
    requires 0 <= i < j < n <= g.kids.len(), g.kids[i].0 is Dynamic, g.kids[j].0 is Dynamic
    ensures dyns(g, n).len() > 1
    decreases n
{
    if j < n - 1 { two_dyns(g, (n - 1) as nat, i, j); } else { let k = dyn_to(g, (n - 1) as nat, i); }
}
pub proof fn from_two(g: G, n: nat) -> (r: (int, int))
    requires n <= g.kids.len(), dyns(g, n).len() > 1
    ensures 0 <= r.0 < r.1 < n, g.kids[r.0].0 is Dynamic, g.kids[r.1].0 is Dynamic
    decreases n
{
    let m = (n - 1) as nat;
    if dyns(g, m).len() > 1 { from_two(g, m) }
    else { (dyn_from(g, m, 0), n - 1) }
}
/// without a parameter among them
pub proof fn clean_kids(g: G)
    requires forall|i: int| 0 <= i < g.kids.len() ==> !((#[trigger] g.kids[i]).0 is Dynamic)
    ensures clean(g) <==> forall|i: int| 0 <= i < g.kids.len() ==> clean((#[trigger] g.kids[i]).1), dyns(g, g.kids.len()).len() == 0
{ if dyns(g, g.kids.len()).len() > 0 { let i = dyn_from(g, g.kids.len(), 0); } }
pub proof fn clean_inner(g: G)
    requires shaped(g, Mode::Inner), !has_sep(g)
    ensures clean(g) <==> clean_chars(g, g.kids.len() as int)
{
    clean_kids(g);
    assert forall|i: int| 0 <= i < g.kids.len() implies (#[trigger] g.kids[i]).0 is Static by { assert(!(g.kids[i].0 is Separator)); }
}
pub proof fn clean_some(g: G)
    requires shaped(g, Mode::Inner), clean(g)
    ensures clean_chars(g, g.kids.len() as int)
{}
pub proof fn chain_clean(g: G)
    requires shaped(g, Mode::Inner)
    ensures shaped(chain_end(g), Mode::Inner), clean(g) <==> clean(chain_end(g))
    decreases g
{ if single(g) { clean_kids(g); chain_clean(g.kids[0].1); } }
pub proof fn amb_clean(g: G, m: Mode)
    requires shaped(g, m), !(m is Par)
    ensures
        amb(g).s.len() > 0 ==> shaped(amb(g).t, Mode::Inner) && (clean_chars(g, g.kids.len() as int) <==> clean(amb(g).t)),
        amb(g).s.len() == 0 ==> amb(g).t == g,
    decreases height(g)
{
    let n = g.kids.len();
    let o = opts(g, n);
    opts_low(g, n);
    if !has_sep(g) && o.len() == 1 {
        let i = opt_from(g, n, 0);
        let x = o[0].1;
        assert(shaped(x, Mode::Inner));
        assert(clean_chars(g, n as int) <==> clean(x)) by {
            assert forall|l: int| 0 <= l < n && (#[trigger] g.kids[l]).0 is Static implies g.kids[l].1 == x by { let j = opt_to(g, n, l); }
        }
        amb_clean(x, Mode::Inner);
        if amb(x).s.len() > 0 { assert(!has_sep(x)); clean_inner(x); }
    }
}
pub proof fn lits_clean(g: G, m: Mode, n: nat)
    requires shaped(g, m), n <= g.kids.len()
    ensures all_inner(lits_to(g, n)), all_clean(lits_to(g, n)) <==> clean_chars(g, n as int)
    decreases g, n
{
    if n > 0 {
        let (r, k) = (lits_to(g, (n - 1) as nat), g.kids[n - 1].1);
        lits_clean(g, m, (n - 1) as nat);
        if let CK::Static(c) = g.kids[n - 1].0 {
            assert(shaped(k, Mode::Inner));
            lits_clean(k, Mode::Inner, k.kids.len());
            let (b, a) = (lits(k), lits_to(g, n));
            let r1 = if has_sep(k) { r.push((seq![c], k)) } else { r };
            assert(a == r1 + longer(c, b));
            assert forall|i: int| 0 <= i < a.len() implies shaped((#[trigger] a[i]).1, Mode::Inner) by {
                if i < r.len() { assert(a[i] == r[i]); } else if i >= r1.len() { assert(a[i].1 == b[i - r1.len()].1); }
            }
            if has_sep(k) { if clean(k) { clean_some(k); } } else { clean_inner(k); }
            if all_clean(a) {
                assert forall|i: int| 0 <= i < r.len() implies clean((#[trigger] r[i]).1) by { assert(a[i] == r[i]); }
                assert forall|i: int| 0 <= i < b.len() implies clean((#[trigger] b[i]).1) by { assert(a[r1.len() + i] == longer(c, b)[i]); }
                if has_sep(k) { assert(a[r.len() as int] == (seq![c], k)); }
                assert(clean(k));
                assert(clean_chars(g, n as int));
            }
            if clean_chars(g, n as int) {
                assert(clean(k)) by { assert(g.kids[n - 1].0 is Static); }
                clean_some(k);
                assert(all_clean(b));
                assert(clean_chars(g, n - 1));
                assert forall|i: int| 0 <= i < a.len() implies clean((#[trigger] a[i]).1) by {
                    if i < r.len() { assert(a[i] == r[i]); } else if i >= r1.len() { assert(a[i].1 == b[i - r1.len()].1); }
                }
            }
        } else {
            assert(clean_chars(g, n as int) <==> clean_chars(g, n - 1));
        }
    }
}
/// a matcher can be written exactly if nowhere two parameters are at one place
pub proof fn sound_clean(g: G, m: Mode)
    requires shaped(g, m)
    ensures sound(prog(g)) <==> clean(g)
    decreases height(g)
{
    hide(prog); hide(sound); hide(height);
    let n = g.kids.len();
    let d = dyns(g, n);
    step_sound(g);
    kids_low(g); opts_low(g, n); amb_low(g); lits_low(g, n);
    if n == 1 {
        let (k, x) = g.kids[0];
        assert(height(g.kids[0].1) < height(g));
        assert(clean(g) <==> clean(x)) by { if k is Dynamic {} else { clean_kids(g); } }
        match k {
            CK::Separator => { sound_clean(x, Mode::Start); }
            CK::Static(c) => { chain_low(x); chain_clean(x); sound_clean(chain_end(x), Mode::Inner); }
            CK::Dynamic(p) => { assert(shaped(g.kids[0].1, Mode::Par)); assert(allowed(Mode::Par, x.kids[0].0)); sound_clean(x, Mode::Par); }
        }
    } else if n > 1 && d.len() == 1 {
        let i = dyn_from(g, n, 0);
        assert(m is Start);
        let x = d[0].1;
        assert(shaped(x, Mode::Par));
        assert(x.kids[0].0 is Separator);
        sound_clean(x, Mode::Par);
        assert(clean(g) <==> clean(x) && clean_chars(g, n as int)) by {
            assert forall|l: int| 0 <= l < n implies (#[trigger] g.kids[l]).0 is Static || g.kids[l].1 == x by { if g.kids[l].0 is Dynamic { let j = dyn_to(g, n, l); } else { assert(allowed(m, g.kids[l].0)); } }
        }
        if amb(g).s.len() > 0 { amb_clean(g, m); sound_clean(amb(g).t, Mode::Inner); }
        else {
            lits_clean(g, m, n);
            assert(lits(g) == lits_to(g, n));
            assert(segments_in(g));
            sounds_of(seg_codes(g));
            assert forall|k: int| 0 <= k < lits(g).len() implies (sound((#[trigger] seg_codes(g)[k]).1) <==> clean(lits(g)[k].1)) by { seg_fact(g, k); sound_clean(lits(g)[k].1, Mode::Inner); }
            if all_clean(lits(g)) { assert forall|k: int| 0 <= k < seg_codes(g).len() implies sound((#[trigger] seg_codes(g)[k]).1) by { assert(clean(lits(g)[k].1)); } }
            if sounds(seg_codes(g)) { assert forall|k: int| 0 <= k < lits(g).len() implies clean((#[trigger] lits(g)[k]).1) by { assert(sound(seg_codes(g)[k].1)); } }
        }
    } else if n > 1 && d.len() == 0 {
        assert(arms_in(g));
        clean_kids(g);
        sound_arms_of(next_codes(g));
        assert forall|k: int| 0 <= k < n implies (sound((#[trigger] next_codes(g)[k]).1) <==> clean(g.kids[k].1)) by { next_fact(g, k); assert(height(g.kids[k].1) < height(g)); sound_clean(g.kids[k].1, mode(g.kids[k].0)); }
        if clean(g) { assert forall|k: int| 0 <= k < next_codes(g).len() implies sound((#[trigger] next_codes(g)[k]).1) by { assert(clean(g.kids[k].1)); } }
        if sound_arms(next_codes(g)) { assert forall|k: int| 0 <= k < n implies clean((#[trigger] g.kids[k]).1) by { assert(sound(next_codes(g)[k].1)); } }
    }
}

// ---- and by the paths
/// what may follow what in a path
pub open spec fn next_ok(p: Seq<CK>, k: CK) -> bool { allowed(if p.len() == 0 { Mode::Start } else { mode(p.last()) }, k) }
pub open spec fn path_like(q: Seq<CK>) -> bool {
    &&& forall|i: int| 0 <= i < q.len() ==> next_ok(q.take(i), #[trigger] q[i])
    &&& q.len() > 0 ==> q.last() is Separator
}
pub open spec fn worded(s: Seg) -> bool { match s { Seg::Lit(t) => t.len() > 0, Seg::Par(_) => true } }
pub proof fn paths_are(p: Seq<Seg>)
    requires forall|i: int| 0 <= i < p.len() ==> worded(#[trigger] p[i])
    ensures path_like(keys_of(p))
    decreases p.len()
{
    if p.len() > 0 {
        let (x, y, q) = (seg_keys(p[0]), keys_of(p.skip(1)), keys_of(p));
        assert forall|i: int| 0 <= i < p.skip(1).len() implies worded(#[trigger] p.skip(1)[i]) by { assert(p.skip(1)[i] == p[i + 1]); }
        paths_are(p.skip(1));
        assert(q == x.push(CK::Separator) + y);
        assert(worded(p[0]));
        assert forall|i: int| 0 <= i < q.len() implies next_ok(q.take(i), #[trigger] q[i]) by {
            if i <= x.len() {
                assert(q[i] == x.push(CK::Separator)[i]);
                if i > 0 { assert(q.take(i).last() == x[i - 1]); }
            } else {
                let j = i - x.len() - 1;
                assert(next_ok(y.take(j), y[j]));
                if j > 0 { assert(q.take(i).last() == y.take(j).last()); } else { assert(q.take(i).last() == q[x.len() as int]); }
            }
        }
    }
}
/// the trie below a prefix holds what follows it
pub open spec fn below(t: T, p: Seq<CK>, all: Multiset<Place>) -> bool {
    forall|q: Seq<CK>| #[trigger] thas(t, q) <==> q.len() == 0 || exists|e: Place| #[trigger] all.contains(e) && leads(p + q, key(e))
}
pub open spec fn all_worded(all: Multiset<Place>) -> bool { forall|e: Place| #[trigger] all.contains(e) ==> path_like(key(e)) }
pub proof fn kid_has(t: T, i: int, q: Seq<CK>)
    requires ascending(keys(t)), 0 <= i < t.children@.len()
    ensures thas(t, seq![keys(t)[i]] + q) == thas(t.children@[i].1, q)
{ let k = keys(t)[i]; assert(place(t, k, i)); kid_at(t, k, i); let s = seq![k] + q; assert(s.skip(1) =~= q); assert(s[0] == k); }
pub proof fn trie_shaped(t: T, p: Seq<CK>, all: Multiset<Place>)
    requires tsorted(t), below(t, p, all), all_worded(all), p.len() > 0 ==> exists|e: Place| #[trigger] all.contains(e) && leads(p, key(e))
    ensures shaped(tv(t), if p.len() == 0 { Mode::Start } else { mode(p.last()) })
    decreases t
{
    tv_is(t);
    let m = if p.len() == 0 { Mode::Start } else { mode(p.last()) };
    assert forall|i: int| 0 <= i < t.children@.len() implies allowed(m, (#[trigger] tv(t).kids[i]).0) && shaped(tv(t).kids[i].1, mode(tv(t).kids[i].0)) by {
        let (k, c, pk) = (keys(t)[i], t.children@[i].1, p.push(keys(t)[i]));
        kid_has(t, i, seq![]);
        assert(seq![k] + Seq::<CK>::empty() =~= seq![k]);
        assert(thas(t, seq![k]));
        assert(p + seq![k] =~= pk);
        let e = choose|e: Place| #[trigger] all.contains(e) && leads(pk, key(e));
        assert(key(e)[p.len() as int] == pk.last());
        assert(key(e).take(p.len() as int) =~= p);
        assert(next_ok(key(e).take(p.len() as int), key(e)[p.len() as int]));
        assert(below(c, pk, all)) by {
            assert forall|q: Seq<CK>| #[trigger] thas(c, q) <==> q.len() == 0 || exists|e: Place| #[trigger] all.contains(e) && leads(pk + q, key(e)) by {
                kid_has(t, i, q);
                assert(p + (seq![k] + q) =~= pk + q);
                assert(thas(t, seq![k] + q) <==> thas(c, q));
            }
        }
        trie_shaped(c, pk, all);
    }
    if m is Par {
        let e = choose|e: Place| #[trigger] all.contains(e) && leads(p, key(e));
        let q = key(e);
        assert(p.last() == q[p.len() - 1]);
        assert(q.len() > p.len()) by { if q.len() == p.len() { assert(q.last() is Separator); } }
        let k = q[p.len() as int];
        assert(leads(p + seq![k], q)) by { assert(q.take(p.len() as int + 1) =~= p + seq![k]); }
        assert(thas(t, seq![k]));
        has_key(t, k);
        assert(t.children@.len() > 0) by { assert(keys(t).contains(k)); }
        if t.children@.len() > 1 {
            assert(tv(t).kids[0].0 is Separator && tv(t).kids[1].0 is Separator);
            assert(keys(t)[0] == keys(t)[1]);
            ord_is_total(keys(t)[0], keys(t)[1]);
            assert(clt(keys(t)[0], keys(t)[1]));
        }
    }
}
/// two parameters at one place
pub open spec fn two_names(t: T, p: Seq<CK>, a: Seq<char>, b: Seq<char>) -> bool { a != b && thas(t, p.push(CK::Dynamic(a))) && thas(t, p.push(CK::Dynamic(b))) }
pub proof fn clean_has_one(t: T, p: Seq<CK>, a: Seq<char>, b: Seq<char>)
    requires tsorted(t), clean(tv(t)), two_names(t, p, a, b)
    ensures false
    decreases p.len()
{
    tv_is(t);
    let (x, y) = (p.push(CK::Dynamic(a)), p.push(CK::Dynamic(b)));
    let (i, j) = (choose|i: int| place(t, x[0], i), choose|i: int| place(t, y[0], i));
    assert(place(t, x[0], i) && place(t, y[0], j));
    let (k, l) = (tv(t).kids[i], tv(t).kids[j]);
    if p.len() == 0 {
        if i < j { two_dyns(tv(t), t.children@.len(), i, j); } else { assert(i != j); two_dyns(tv(t), t.children@.len(), j, i); }
    } else {
        assert(x[0] == p[0] && y[0] == p[0]);
        one_place(t, p[0], i, j);
        let c = t.children@[i].1;
        kid_at(t, p[0], i);
        assert(x.skip(1) =~= p.skip(1).push(CK::Dynamic(a)));
        assert(y.skip(1) =~= p.skip(1).push(CK::Dynamic(b)));
        assert(clean(k.1));
        clean_has_one(c, p.skip(1), a, b);
    }
}
pub proof fn unclean_has_two(t: T) -> (r: (Seq<CK>, Seq<char>, Seq<char>))
    requires tsorted(t), !clean(tv(t))
    ensures two_names(t, r.0, r.1, r.2)
    decreases t
{
    tv_is(t);
    let g = tv(t);
    let n = t.children@.len();
    if dyns(g, n).len() > 1 {
        let (i, j) = from_two(g, n);
        assert(keys(t)[i] == g.kids[i].0 && keys(t)[j] == g.kids[j].0);
        let (a, b) = (keys(t)[i]->Dynamic_0, keys(t)[j]->Dynamic_0);
        ord_is_total(keys(t)[i], keys(t)[j]);
        assert(clt(keys(t)[i], keys(t)[j]));
        has_key(t, keys(t)[i]);
        has_key(t, keys(t)[j]);
        let p = Seq::<CK>::empty();
        assert(p.push(CK::Dynamic(a)) =~= seq![keys(t)[i]]);
        assert(p.push(CK::Dynamic(b)) =~= seq![keys(t)[j]]);
        (p, a, b)
    } else {
        let i = choose|i: int| 0 <= i < n && !clean((#[trigger] g.kids[i]).1);
        let c = t.children@[i].1;
        assert(g.kids[i].1 == tv(c));
        let (p, a, b) = unclean_has_two(c);
        let (k, q) = (keys(t)[i], seq![keys(t)[i]] + p);
        kid_has(t, i, p.push(CK::Dynamic(a)));
        kid_has(t, i, p.push(CK::Dynamic(b)));
        assert(q.push(CK::Dynamic(a)) =~= seq![k] + p.push(CK::Dynamic(a)));
        assert(q.push(CK::Dynamic(b)) =~= seq![k] + p.push(CK::Dynamic(b)));
        (q, a, b)
    }
}
/// from some segment on, the paths differ by the name of a parameter
pub open spec fn named_twice(s: Seq<Seg>, u: Seq<Seg>, i: int) -> bool { 0 <= i < s.len() && i < u.len() && s.take(i) == u.take(i) && s[i] is Par && u[i] is Par && s[i] != u[i] }
pub open spec fn clash(all: Multiset<Place>) -> bool { exists|e: Place, f: Place, i: int| #[trigger] all.contains(e) && #[trigger] all.contains(f) && #[trigger] named_twice(segs(e.path), segs(f.path), i) }
pub proof fn first_keys(s: Seq<Seg>, p: Seq<CK>, a: Seq<char>)
    requires leads(p.push(CK::Dynamic(a)), keys_of(s))
    ensures
        s.len() > 0,
        p.len() == 0 ==> s[0] == Seg::Par(a),
        p.len() > 0 ==> p.len() > seg_keys(s[0]).len() && p.take(seg_keys(s[0]).len() as int + 1) == seg_keys(s[0]).push(CK::Separator) && leads(p.skip(seg_keys(s[0]).len() as int + 1).push(CK::Dynamic(a)), keys_of(s.skip(1))),
{
    let (q, k, x) = (p.push(CK::Dynamic(a)), keys_of(s), seg_keys(s[0]));
    assert(k.take(q.len() as int)[p.len() as int] == q[p.len() as int]);
    assert(k[p.len() as int] == CK::Dynamic(a));
    assert(k == x.push(CK::Separator) + keys_of(s.skip(1)));
    if p.len() <= x.len() { assert(k[p.len() as int] == x.push(CK::Separator)[p.len() as int]); }
    if p.len() > 0 {
        let n = x.len() as int + 1;
        assert(p.len() >= n);
        assert forall|i: int| 0 <= i < p.len() implies p[i] == k[i] by { assert(k.take(q.len() as int)[i] == q[i]); }
        assert(p.take(n) =~= x.push(CK::Separator));
        let r = p.skip(n).push(CK::Dynamic(a));
        assert(keys_of(s.skip(1)).take(r.len() as int) =~= r) by {
            assert forall|i: int| 0 <= i < r.len() implies keys_of(s.skip(1))[i] == r[i] by { assert(k[i + n] == keys_of(s.skip(1))[i]); if i < p.len() - n { assert(p[i + n] == k[i + n]); } }
        }
    }
}
pub proof fn same_first(x: Seg, y: Seg, p: Seq<CK>)
    requires p.len() > seg_keys(x).len(), p.len() > seg_keys(y).len(), p.take(seg_keys(x).len() as int + 1) == seg_keys(x).push(CK::Separator), p.take(seg_keys(y).len() as int + 1) == seg_keys(y).push(CK::Separator)
    ensures x == y
{
    let (a, b) = (keys_of(seq![x]), keys_of(seq![y]));
    let (k, l) = (seg_keys(x), seg_keys(y));
    assert(keys_of(seq![x].skip(1)) =~= seq![]); assert(keys_of(seq![y].skip(1)) =~= seq![]);
    assert(a =~= k.push(CK::Separator)); assert(b =~= l.push(CK::Separator));
    assert(p[k.len() as int] is Separator) by { assert(p.take(k.len() as int + 1)[k.len() as int] == a.last()); }
    assert(p[l.len() as int] is Separator) by { assert(p.take(l.len() as int + 1)[l.len() as int] == b.last()); }
    assert forall|i: int| 0 <= i < k.len() implies p[i] == k[i] && !(k[i] is Separator) by { assert(p.take(k.len() as int + 1)[i] == a[i]); }
    assert forall|i: int| 0 <= i < l.len() implies p[i] == l[i] && !(l[i] is Separator) by { assert(p.take(l.len() as int + 1)[i] == b[i]); }
    assert(k.len() == l.len());
    assert(a == b);
    keys_injective(seq![x], seq![y]);
    assert(seq![x][0] == seq![y][0]);
}
pub proof fn names_from_keys(s: Seq<Seg>, u: Seq<Seg>, p: Seq<CK>, a: Seq<char>, b: Seq<char>) -> (r: int)
    requires leads(p.push(CK::Dynamic(a)), keys_of(s)), leads(p.push(CK::Dynamic(b)), keys_of(u)), a != b
    ensures named_twice(s, u, r)
    decreases s.len()
{
    first_keys(s, p, a);
    first_keys(u, p, b);
    if p.len() == 0 { assert(s.take(0) =~= u.take(0)); 0 }
    else {
        same_first(s[0], u[0], p);
        let i = names_from_keys(s.skip(1), u.skip(1), p.skip(seg_keys(s[0]).len() as int + 1), a, b);
        assert(s.take(i + 1) =~= seq![s[0]] + s.skip(1).take(i));
        assert(u.take(i + 1) =~= seq![u[0]] + u.skip(1).take(i));
        assert(s[i + 1] == s.skip(1)[i] && u[i + 1] == u.skip(1)[i]);
        i + 1
    }
}
pub proof fn keys_from_names(s: Seq<Seg>, i: int)
    requires 0 <= i < s.len(), s[i] is Par
    ensures leads(keys_of(s.take(i)).push(CK::Dynamic(s[i]->Par_0)), keys_of(s))
{
    let (h, r) = (s.take(i), s.skip(i));
    assert(s =~= h + r);
    keys_add(h, r);
    let (q, k) = (keys_of(h).push(CK::Dynamic(s[i]->Par_0)), keys_of(s));
    assert(r[0] == s[i]);
    assert(keys_of(r)[0] == CK::Dynamic(s[i]->Par_0)) by { assert(keys_of(r) == seg_keys(r[0]).push(CK::Separator) + keys_of(r.skip(1))); }
    assert(k.take(q.len() as int) =~= q);
}
/// a trie of these places can be matched exactly if no parameter has two names
pub proof fn sound_unless_clash(t: T, all: Multiset<Place>)
    requires trie_of(t, all), all_worded(all)
    ensures sound(prog(tv(t))) <==> !clash(all)
{
    assert(below(t, seq![], all)) by {
        assert forall|q: Seq<CK>| #[trigger] thas(t, q) <==> q.len() == 0 || exists|e: Place| #[trigger] all.contains(e) && leads(Seq::<CK>::empty() + q, key(e)) by { assert(Seq::<CK>::empty() + q =~= q); }
    }
    trie_shaped(t, seq![], all);
    sound_clean(tv(t), Mode::Start);
    if !clean(tv(t)) {
        let (p, a, b) = unclean_has_two(t);
        let (x, y) = (p.push(CK::Dynamic(a)), p.push(CK::Dynamic(b)));
        assert(thas(t, x) && thas(t, y));
        let e = choose|e: Place| #[trigger] all.contains(e) && leads(x, key(e));
        let f = choose|e: Place| #[trigger] all.contains(e) && leads(y, key(e));
        path_keys(e.path); path_keys(f.path);
        let i = names_from_keys(segs(e.path), segs(f.path), p, a, b);
        assert(all.contains(e) && all.contains(f) && named_twice(segs(e.path), segs(f.path), i));
    }
    if clash(all) {
        let (e, f, i) = choose|e: Place, f: Place, i: int| #[trigger] all.contains(e) && #[trigger] all.contains(f) && #[trigger] named_twice(segs(e.path), segs(f.path), i);
        let (s, u) = (segs(e.path), segs(f.path));
        path_keys(e.path); path_keys(f.path);
        keys_from_names(s, i);
        keys_from_names(u, i);
        let (p, a, b) = (keys_of(s.take(i)), s[i]->Par_0, u[i]->Par_0);
        let (x, y) = (p.push(CK::Dynamic(a)), p.push(CK::Dynamic(b)));
        assert(all.contains(e) && leads(x, key(e)));
        assert(all.contains(f) && leads(y, key(f)));
        assert(thas(t, x));
        assert(thas(t, y));
        if clean(tv(t)) { clean_has_one(t, p, a, b); }
    }
}
// ---- the configuration
pub open spec fn words_in(p: Seq<PathSegment>) -> bool { forall|i: int| 0 <= i < p.len() ==> worded(#[trigger] segs(p)[i]) }
pub open spec fn wordy(all: Multiset<Place>) -> bool { forall|e: Place| #[trigger] all.contains(e) ==> words_in(e.path) }
/// sibling parameters of different names, at any two places of the configuration
pub open spec fn two_named(c: RouteConfig) -> bool { clash(places(c.routes, seq![], seq![])) }
pub proof fn success_means_no_clash(o: Seq<char>, n: Seq<char>, c: RouteConfig)
    requires generated(o, n, c), wordy(places(c.routes, seq![], seq![]))
    ensures !two_named(c), apart(places(c.routes, seq![], seq![])), distinct(items(c.routes, seq![], seq![]))
{
    let all = places(c.routes, seq![], seq![]);
    let (r, t) = choose|root: FlattenedModule, t: T| #![trigger tree(root, items(c.routes, seq![], seq![])), trie_of(t, places(c.routes, seq![], seq![]))]
        root_of(root, c) && paths_of(t, c) && sound(prog(tv(t))) && n == code_text(o, c, root, t);
    assert(all_worded(all)) by { assert forall|e: Place| #[trigger] all.contains(e) implies path_like(key(e)) by { path_keys(e.path); paths_are(segs(e.path)); } }
    sound_unless_clash(t, all);
}
pub proof fn refusal_means_clash(c: RouteConfig)
    requires refused(c), wordy(places(c.routes, seq![], seq![]))
    ensures two_named(c)
{
    let all = places(c.routes, seq![], seq![]);
    let t = choose|t: T| (#[trigger] trie_of(t, places(c.routes, seq![], seq![]))) && paths_of(t, c) && !sound(prog(tv(t)));
    assert(all_worded(all)) by { assert forall|e: Place| #[trigger] all.contains(e) implies path_like(key(e)) by { path_keys(e.path); paths_are(segs(e.path)); } }
    sound_unless_clash(t, all);
}
