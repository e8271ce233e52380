// ---------------------------------------------------------------- a trie by its contents
/// what is at a node, and what follows it
pub ghost struct G { pub data: Option<Place>, pub kids: Seq<(CK, G)> }
#[verifier::opaque]
pub open spec fn tv(t: T) -> G
    decreases t, t.children@.len() + 1
{ G { data: match t.data { Some(f) => Some(place_of(f)), None => None }, kids: kidsv(t, t.children@.len()) } }
#[verifier::opaque]
pub open spec fn kidsv(t: T, n: nat) -> Seq<(CK, G)>
    decreases t, n
{ if n == 0 || n > t.children@.len() { seq![] } else { kidsv(t, (n - 1) as nat).push((ck(t.children@[n - 1].0), tv(t.children@[n - 1].1))) } }
pub proof fn kidsv_at(t: T, n: nat)
    requires n <= t.children@.len()
    ensures kidsv(t, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] kidsv(t, n)[i] == (ck(t.children@[i].0), tv(t.children@[i].1))
    decreases n
{ reveal(kidsv); reveal(tv); if n > 0 { kidsv_at(t, (n - 1) as nat); } }
/// node by node
pub proof fn tv_is(t: T)
    ensures
        tv(t).data == (match t.data { Some(f) => Some(place_of(f)), None => None }),
        tv(t).kids.len() == t.children@.len(),
        forall|i: int| 0 <= i < t.children@.len() ==> #[trigger] tv(t).kids[i] == (ck(t.children@[i].0), tv(t.children@[i].1)),
        forall|i: int| 0 <= i < t.children@.len() ==> tv(#[trigger] t.children@[i].1) == tv(t).kids[i].1 && ck(t.children@[i].0) == tv(t).kids[i].0,
{ reveal(tv); reveal(kidsv); kidsv_at(t, t.children@.len()); }
pub proof fn tv_top(t: T)
    ensures
        tv(t).data == (match t.data { Some(f) => Some(place_of(f)), None => None }),
        tv(t).kids.len() == t.children@.len(),
        t.children@.len() > 0 ==> tv(t).kids[0] == (ck(t.children@[0].0), tv(t.children@[0].1)),
{ tv_is(t); }
// ---------------------------------------------------------------- gen/gen.rs: what the matcher for a trie does
// What the matcher written for a trie does, step by step (prog), and the text
// of each such step (show).
pub ghost enum Code {
    /// answer that nothing was found
    NotFound,
    /// at the end of the path, answer by the methods of this route
    AtEnd(Place, Box<Code>),
    /// at the end of the path, answer that nothing was found
    EndNotFound(Box<Code>),
    /// a slash, or nothing is found
    Slash(Box<Code>),
    /// this text, or nothing is found
    Literal(Seq<char>, Box<Code>),
    /// remember where a segment starts; the text has blank lines around it or not
    Start(bool, Box<Code>),
    /// go to the end of the segment and parse it for the parameter of this name
    Param(Seq<char>, Box<Code>),
    /// if the path goes on, over this many bytes, with this text, the first; otherwise the second
    Try(nat, Seq<char>, Box<Code>, Box<Code>),
    /// by the whole segment; otherwise the second
    Segments(Seq<(Seq<char>, Code)>, Box<Code>),
    /// by the next character
    Next(Seq<(char, Code)>),
    /// no matcher can be written
    Clash,
}

// ---- shapes of a trie
pub open spec fn height(t: G) -> nat
    decreases t, t.kids.len() + 1
{ 1 + tallest(t, t.kids.len()) }
pub open spec fn tallest(t: G, n: nat) -> nat
    decreases t, n
{
    if n == 0 || n > t.kids.len() { 0 } else {
        let (a, b) = (tallest(t, (n - 1) as nat), height(t.kids[n - 1].1));
        if a > b { a } else { b }
    }
}
pub open spec fn has_sep(t: G) -> bool { exists|i: int| 0 <= i < t.kids.len() && (#[trigger] t.kids[i]).0 is Separator }
/// a single child that is a character
pub open spec fn single(t: G) -> bool { t.kids.len() == 1 && t.kids[0].0 is Static }
pub open spec fn only_char(t: G) -> char { t.kids[0].0->Static_0 }
/// the characters that follow without a choice
pub open spec fn chain_text(t: G) -> Seq<char>
    decreases t
{ if single(t) { seq![only_char(t)] + chain_text(t.kids[0].1) } else { seq![] } }
pub open spec fn chain_end(t: G) -> G
    decreases t
{ if single(t) { chain_end(t.kids[0].1) } else { t } }
/// the characters that may come next
pub open spec fn opts(t: G, n: nat) -> Seq<(char, G)>
    decreases n
{
    if n == 0 || n > t.kids.len() { seq![] } else {
        match t.kids[n - 1].0 { CK::Static(c) => opts(t, (n - 1) as nat).push((c, t.kids[n - 1].1)), _ => opts(t, (n - 1) as nat) }
    }
}
pub open spec fn dyns(t: G, n: nat) -> Seq<(CK, G)>
    decreases n
{
    if n == 0 || n > t.kids.len() { seq![] } else {
        match t.kids[n - 1].0 { CK::Dynamic(_) => dyns(t, (n - 1) as nat).push(t.kids[n - 1]), _ => dyns(t, (n - 1) as nat) }
    }
}
pub open spec fn first_sep(t: G, n: nat) -> Option<G>
    decreases n
{
    if n == 0 || n > t.kids.len() { None } else {
        match first_sep(t, (n - 1) as nat) {
            Some(x) => Some(x),
            None => match t.kids[n - 1].0 { CK::Separator => Some(t.kids[n - 1].1), _ => None },
        }
    }
}
/// the text that follows without a choice but for parameters, how far that was looked at, and the trie after it
pub ghost struct Amb { pub s: Seq<char>, pub l: nat, pub t: G }
pub open spec fn amb(t: G) -> Amb
    decreases height(t)
{
    let o = opts(t, t.kids.len());
    if has_sep(t) { Amb { s: seq![], l: 0, t } }
    else if o.len() != 1 || height(o[0].1) >= height(t) { Amb { s: seq![], l: 1, t } }
    else { let a = amb(o[0].1); Amb { s: seq![o[0].0] + a.s, l: 1 + a.l, t: a.t } }
}
/// the literal segments that start here, each with the trie at its end
pub open spec fn lits(t: G) -> Seq<(Seq<char>, G)>
    decreases t, t.kids.len() + 1
{ lits_to(t, t.kids.len()) }
pub open spec fn lits_to(t: G, n: nat) -> Seq<(Seq<char>, G)>
    decreases t, n
{
    if n == 0 || n > t.kids.len() { seq![] } else {
        let r = lits_to(t, (n - 1) as nat);
        match t.kids[n - 1].0 { CK::Static(c) => lits_at(r, c, t.kids[n - 1].1, lits(t.kids[n - 1].1)), _ => r }
    }
}
pub open spec fn longer(c: char, ls: Seq<(Seq<char>, G)>) -> Seq<(Seq<char>, G)> { ls.map_values(|x: (Seq<char>, G)| (seq![c] + x.0, x.1)) }
pub open spec fn lits_at(r: Seq<(Seq<char>, G)>, c: char, k: G, ls: Seq<(Seq<char>, G)>) -> Seq<(Seq<char>, G)> {
    (if has_sep(k) { r.push((seq![c], k)) } else { r }) + longer(c, ls)
}

pub proof fn lower_than(t: G, n: nat, i: int)
    requires 0 <= i < n <= t.kids.len()
    ensures height(t.kids[i].1) <= tallest(t, n)
    decreases n
{ if i < n - 1 { lower_than(t, (n - 1) as nat, i); } }
pub proof fn kids_low(t: G)
    ensures forall|i: int| 0 <= i < t.kids.len() ==> height(#[trigger] t.kids[i].1) < height(t)
{ assert forall|i: int| 0 <= i < t.kids.len() implies height(#[trigger] t.kids[i].1) < height(t) by { lower_than(t, t.kids.len(), i); } }
pub proof fn opts_low(t: G, n: nat)
    requires n <= t.kids.len()
    ensures
        forall|i: int| 0 <= i < opts(t, n).len() ==> height((#[trigger] opts(t, n)[i]).1) < height(t),
        forall|i: int| 0 <= i < dyns(t, n).len() ==> (#[trigger] dyns(t, n)[i]).0 is Dynamic && height(dyns(t, n)[i].1) < height(t),
        first_sep(t, n) matches Some(x) ==> height(x) < height(t),
        opts(t, n).len() + dyns(t, n).len() <= n,
        !has_sep(t) ==> opts(t, n).len() + dyns(t, n).len() == n,
        dyns(t, n).len() == 0 ==> forall|i: int| 0 <= i < n ==> !((#[trigger] t.kids[i]).0 is Dynamic),
    decreases n
{ kids_low(t); if n > 0 { opts_low(t, (n - 1) as nat); } }
pub proof fn chain_low(t: G)
    ensures height(chain_end(t)) <= height(t), !single(chain_end(t))
    decreases t
{ if single(t) { kids_low(t); assert(height(t.kids[0].1) < height(t)); chain_low(t.kids[0].1); } }
pub proof fn amb_low(t: G)
    ensures
        height(amb(t).t) <= height(t),
        amb(t).s.len() > 0 ==> height(amb(t).t) < height(t),
        amb(t).s.len() > 0 ==> amb(t).l > 0,
    decreases height(t)
{
    let o = opts(t, t.kids.len());
    opts_low(t, t.kids.len());
    if !has_sep(t) && o.len() == 1 && height(o[0].1) < height(t) { amb_low(o[0].1); }
}
pub proof fn lits_low(t: G, n: nat)
    requires n <= t.kids.len()
    ensures forall|i: int| 0 <= i < lits_to(t, n).len() ==> height((#[trigger] lits_to(t, n)[i]).1) < height(t)
    decreases t, n
{
    kids_low(t);
    if n > 0 {
        lits_low(t, (n - 1) as nat);
        let k = t.kids[n - 1].1;
        assert(height(t.kids[n - 1].1) < height(t));
        lits_low(k, k.kids.len());
        let (a, b, r) = (lits_to(t, n), lits_to(k, k.kids.len()), lits_to(t, (n - 1) as nat));
        assert(lits(k) == b);
        if let CK::Static(c) = t.kids[n - 1].0 {
            let r1 = if has_sep(k) { r.push((seq![c], k)) } else { r };
            assert(a == r1 + longer(c, b));
            assert forall|i: int| 0 <= i < a.len() implies height((#[trigger] a[i]).1) < height(t) by {
                if i < r1.len() { assert(a[i] == r1[i]); if i < r.len() { assert(r1[i] == r[i]); } }
                else { assert(a[i] == longer(c, b)[i - r1.len()]); assert(a[i].1 == b[i - r1.len()].1); }
            }
        }
    }
}
pub proof fn sep_stays(t: G, k: nat, n: nat)
    requires k <= n <= t.kids.len(), first_sep(t, k) is Some
    ensures first_sep(t, n) == first_sep(t, k)
    decreases n
{ if k < n { sep_stays(t, k, (n - 1) as nat); } }

// ---- the matcher for a trie
pub open spec fn answers(d: Option<Place>) -> bool { d matches Some(v) && v.res.len() != 0 }
pub open spec fn sub(t: G, x: G) -> Code
    decreases height(t), 0int
{ if height(x) < height(t) { prog(x) } else { Code::Clash } }
/// a trie without a route, or with one, when the path may end
pub open spec fn ends(d: Option<Place>, next: Code) -> Code { if answers(d) { Code::AtEnd(d->0, Box::new(next)) } else { Code::EndNotFound(Box::new(next)) } }
pub open spec fn param(t: G, k: CK, x: G) -> Code
    decreases height(t), 1int
{
    match k {
        CK::Dynamic(name) => if x.kids.len() == 1 && x.kids[0].0 is Separator { Code::Param(name, Box::new(sub(t, x))) } else { Code::Clash },
        _ => Code::Clash,
    }
}
pub open spec fn key_char(k: CK) -> char { match k { CK::Static(c) => c, _ => '/' } }
pub open spec fn body(t: G) -> Code
    decreases height(t), 2int
{
    let ch = t.kids;
    if ch.len() == 0 { Code::NotFound }
    else if ch.len() == 1 {
        match ch[0].0 {
            CK::Separator => ends(ch[0].1.data, Code::Slash(Box::new(sub(t, ch[0].1)))),
            CK::Static(c) => Code::Literal(seq![c] + chain_text(ch[0].1), Box::new(sub(t, chain_end(ch[0].1)))),
            CK::Dynamic(_) => Code::Start(false, Box::new(param(t, ch[0].0, ch[0].1))),
        }
    } else {
        let d = dyns(t, ch.len());
        if d.len() > 1 { Code::Clash }
        else if d.len() == 1 {
            let a = amb(t);
            let rest = Box::new(param(t, d[0].0, d[0].1));
            Code::Start(true, Box::new(
                if a.s.len() > 0 { Code::Try(a.l, a.s, Box::new(sub(t, a.t)), rest) }
                else { Code::Segments(Seq::new(lits(t).len(), |i: int| (lits(t)[i].0, sub(t, lits(t)[i].1))), rest) }))
        } else {
            ends(match first_sep(t, ch.len()) { Some(x) => x.data, None => None },
                Code::Next(Seq::new(ch.len(), |i: int| (key_char(ch[i].0), sub(t, ch[i].1)))))
        }
    }
}
pub open spec fn prog(t: G) -> Code
    decreases height(t), 3int
{ if answers(t.data) { Code::AtEnd(t.data->0, Box::new(body(t))) } else { body(t) } }
/// a matcher can be written
pub open spec fn sound(c: Code) -> bool
    decreases c, 0int
{
    match c {
        Code::NotFound => true,
        Code::AtEnd(_, x) => sound(*x),
        Code::EndNotFound(x) => sound(*x),
        Code::Slash(x) => sound(*x),
        Code::Literal(_, x) => sound(*x),
        Code::Start(_, x) => sound(*x),
        Code::Param(_, x) => sound(*x),
        Code::Try(_, _, x, y) => sound(*x) && sound(*y),
        Code::Segments(a, y) => sound(*y) && sounds(a),
        Code::Next(a) => sound_arms(a),
        Code::Clash => false,
    }
}
pub open spec fn sounds(a: Seq<(Seq<char>, Code)>) -> bool
    decreases a, 1int
{ forall|i: int| 0 <= i < a.len() ==> sound((#[trigger] a[i]).1) }
pub open spec fn sound_arms(a: Seq<(char, Code)>) -> bool
    decreases a, 1int
{ forall|i: int| 0 <= i < a.len() ==> sound((#[trigger] a[i]).1) }

pub open spec fn separated(t: G) -> bool { t.kids.len() == 1 && t.kids[0].0 is Separator }
pub open spec fn seg_codes(t: G) -> Seq<(Seq<char>, Code)> { Seq::new(lits(t).len(), |i: int| (lits(t)[i].0, sub(t, lits(t)[i].1))) }
pub open spec fn next_codes(t: G) -> Seq<(char, Code)> { Seq::new(t.kids.len(), |i: int| (key_char(t.kids[i].0), sub(t, t.kids[i].1))) }
pub open spec fn sep_data(t: G) -> Option<Place> { match first_sep(t, t.kids.len()) { Some(x) => x.data, None => None } }
pub open spec fn sound_step(t: G) -> bool {
    let ch = t.kids;
    let d = dyns(t, ch.len());
    if ch.len() == 0 { true }
    else if ch.len() == 1 {
        match ch[0].0 {
            CK::Separator => sound(prog(ch[0].1)),
            CK::Static(c) => sound(prog(chain_end(ch[0].1))),
            CK::Dynamic(p) => separated(ch[0].1) && sound(prog(ch[0].1)),
        }
    } else if d.len() > 1 { false }
    else if d.len() == 1 {
        separated(d[0].1) && sound(prog(d[0].1)) && if amb(t).s.len() > 0 { sound(prog(amb(t).t)) } else { sounds(seg_codes(t)) }
    } else { sound_arms(next_codes(t)) }
}
pub open spec fn arms_of(t: G) -> Code { Code::Segments(seg_codes(t), Box::new(param(t, dyns(t, t.kids.len())[0].0, dyns(t, t.kids.len())[0].1))) }
pub open spec fn try_of(t: G) -> Code { Code::Try(amb(t).l, amb(t).s, Box::new(sub(t, amb(t).t)), Box::new(param(t, dyns(t, t.kids.len())[0].0, dyns(t, t.kids.len())[0].1))) }
pub proof fn prog_is(t: G)
    ensures prog(t) == if answers(t.data) { Code::AtEnd(t.data->0, Box::new(body(t))) } else { body(t) }
{}
/// body, case by case
pub proof fn bodies(t: G)
    ensures
        ({
            let ch = t.kids;
            let d = dyns(t, ch.len());
            if ch.len() == 0 { body(t) == Code::NotFound }
            else if ch.len() == 1 {
                &&& sub(t, ch[0].1) == prog(ch[0].1)
                &&& match ch[0].0 {
                    CK::Separator => body(t) == ends(ch[0].1.data, Code::Slash(Box::new(prog(ch[0].1)))),
                    CK::Static(c) => body(t) == Code::Literal(seq![c] + chain_text(ch[0].1), Box::new(prog(chain_end(ch[0].1)))),
                    CK::Dynamic(p) => body(t) == Code::Start(false, Box::new(if separated(ch[0].1) { Code::Param(p, Box::new(prog(ch[0].1))) } else { Code::Clash })),
                }
            } else if d.len() > 1 { body(t) == Code::Clash }
            else if d.len() == 1 {
                &&& body(t) == Code::Start(true, Box::new(if amb(t).s.len() > 0 { try_of(t) } else { arms_of(t) }))
                &&& param(t, d[0].0, d[0].1) == if separated(d[0].1) { Code::Param(d[0].0->Dynamic_0, Box::new(prog(d[0].1))) } else { Code::Clash }
                &&& amb(t).s.len() > 0 ==> sub(t, amb(t).t) == prog(amb(t).t)
            } else { body(t) == ends(sep_data(t), Code::Next(next_codes(t))) }
        }),
        forall|i: int| 0 <= i < lits(t).len() ==> #[trigger] seg_codes(t)[i] == (lits(t)[i].0, prog(lits(t)[i].1)),
        forall|i: int| 0 <= i < t.kids.len() ==> #[trigger] next_codes(t)[i] == (key_char(t.kids[i].0), prog(t.kids[i].1)),
{
    let len = t.kids.len();
    let ch = t.kids;
    let d = dyns(t, len);
    kids_low(t); opts_low(t, len); amb_low(t); lits_low(t, len);
    assert(lits(t) == lits_to(t, len));
    if len > 0 { chain_low(ch[0].1); assert(height(ch[0].1) < height(t)); }
    if d.len() > 0 { assert(d[0].0 is Dynamic && height(d[0].1) < height(t)); }
    assert forall|i: int| 0 <= i < lits(t).len() implies #[trigger] seg_codes(t)[i] == (lits(t)[i].0, prog(lits(t)[i].1)) by { assert(lits_to(t, len)[i] == lits(t)[i]); }
    if len > 1 && d.len() == 1 && amb(t).s.len() == 0 {
        assert((*(body(t)->Start_1))->Segments_0 =~= seg_codes(t));
    }
    if len > 1 && d.len() == 0 {
        if answers(sep_data(t)) { assert((*(body(t)->AtEnd_1))->Next_0 =~= next_codes(t)); }
        else { assert((*(body(t)->EndNotFound_0))->Next_0 =~= next_codes(t)); }
    }
}
pub proof fn ends_sound(d: Option<Place>, c: Code) ensures sound(ends(d, c)) == sound(c) {}
pub proof fn sound_of(c: Code)
    ensures sound(c) == match c {
        Code::NotFound => true,
        Code::AtEnd(_, x) => sound(*x),
        Code::EndNotFound(x) => sound(*x),
        Code::Slash(x) => sound(*x),
        Code::Literal(_, x) => sound(*x),
        Code::Start(_, x) => sound(*x),
        Code::Param(_, x) => sound(*x),
        Code::Try(_, _, x, y) => sound(*x) && sound(*y),
        Code::Segments(a, y) => sound(*y) && sounds(a),
        Code::Next(a) => sound_arms(a),
        Code::Clash => false,
    }
{}
pub proof fn sounds_of(a: Seq<(Seq<char>, Code)>) ensures sounds(a) == (forall|i: int| 0 <= i < a.len() ==> sound((#[trigger] a[i]).1)) {}
pub proof fn sound_arms_of(a: Seq<(char, Code)>) ensures sound_arms(a) == (forall|i: int| 0 <= i < a.len() ==> sound((#[trigger] a[i]).1)) {}
pub proof fn step_sound(t: G)
    ensures sound(prog(t)) == sound_step(t)
{
    hide(prog); hide(body); hide(sub); hide(param); hide(sound); hide(sounds); hide(sound_arms);
    let ch = t.kids;
    let d = dyns(t, ch.len());
    bodies(t);
    prog_is(t);
    sound_of(prog(t));
    sound_of(body(t));
    sound_of(Code::Clash);
    assert(sound(prog(t)) == sound(body(t)));
    if ch.len() == 1 {
        match ch[0].0 {
            CK::Separator => { let x = Code::Slash(Box::new(prog(ch[0].1))); sound_of(x); sound_of(ends(ch[0].1.data, x)); }
            CK::Static(c) => {}
            CK::Dynamic(p) => { sound_of(Code::Param(p, Box::new(prog(ch[0].1)))); }
        }
    } else if ch.len() > 1 && d.len() == 1 {
        sound_of(Code::Param(d[0].0->Dynamic_0, Box::new(prog(d[0].1))));
        if amb(t).s.len() > 0 { sound_of(try_of(t)); } else { sound_of(arms_of(t)); }
    } else if ch.len() > 1 && d.len() == 0 {
        let x = Code::Next(next_codes(t));
        sound_of(x); sound_of(ends(sep_data(t), x));
    }
}
pub open spec fn segments_in(t: G) -> bool { t.kids.len() > 1 && dyns(t, t.kids.len()).len() == 1 && amb(t).s.len() == 0 }
/// the arm of the k-th literal segment
pub proof fn seg_fact(t: G, k: int)
    requires segments_in(t), 0 <= k < lits(t).len()
    ensures
        seg_codes(t).len() == lits(t).len(),
        height(lits(t)[k].1) < height(t),
        seg_codes(t)[k] == (lits(t)[k].0, prog(lits(t)[k].1)),
        sound(prog(t)) ==> sound(seg_codes(t)[k].1),
{
    lits_low(t, t.kids.len());
    bodies(t);
    step_sound(t);
    sounds_of(seg_codes(t));
    assert(lits(t)[k] == lits_to(t, t.kids.len())[k]); let x = seg_codes(t)[k];
}
pub proof fn seg_done(t: G)
    requires segments_in(t), forall|i: int| 0 <= i < lits(t).len() ==> sound((#[trigger] seg_codes(t)[i]).1)
    ensures sounds(seg_codes(t)), seg_codes(t).len() == lits(t).len()
{ sounds_of(seg_codes(t)); }
pub open spec fn arms_in(t: G) -> bool { t.kids.len() > 1 && dyns(t, t.kids.len()).len() == 0 }
/// the arm of the k-th child
pub proof fn next_fact(t: G, k: int)
    requires arms_in(t), 0 <= k < t.kids.len()
    ensures
        next_codes(t).len() == t.kids.len(),
        height(t.kids[k].1) < height(t),
        next_codes(t)[k].0 == key_char(t.kids[k].0),
        next_codes(t)[k].1 == prog(t.kids[k].1),
        sound(prog(t)) ==> sound(next_codes(t)[k].1),
        !(t.kids[k].0 is Dynamic),
{ kids_low(t); bodies(t); step_sound(t); opts_low(t, t.kids.len()); sound_arms_of(next_codes(t)); let x = next_codes(t)[k]; }
