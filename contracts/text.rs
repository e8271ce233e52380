// ---------------------------------------------------------------- text: characters and their UTF-8 offsets
pub open spec fn width(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
pub open spec fn blen(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { blen(s.drop_last()) + width(s.last()) } }
/// n is the offset of character k
pub open spec fn offset(s: Seq<char>, k: int, n: nat) -> bool { 0 <= k <= s.len() && blen(s.take(k)) == n }
pub open spec fn boundary(s: Seq<char>, n: nat) -> bool { exists|k: int| offset(s, k, n) }
pub open spec fn at(s: Seq<char>, n: nat) -> int { choose|k: int| offset(s, k, n) }

pub proof fn blen_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); blen_add(a, b.drop_last()); }
}
pub proof fn blen_bound(s: Seq<char>)
    ensures s.len() <= blen(s) <= 4 * s.len()
    decreases s.len()
{ if s.len() > 0 { blen_bound(s.drop_last()); } }
pub proof fn at_is(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures boundary(s, blen(s.take(k))), at(s, blen(s.take(k))) == k
{
    let n = blen(s.take(k));
    assert(offset(s, k, n));
    let j = at(s, n);
    assert(offset(s, j, n));
    let (x, y) = if j < k { (j, k) } else { (k, j) };
    assert(s.take(y) =~= s.take(x) + s.subrange(x, y));
    blen_add(s.take(x), s.subrange(x, y));
    blen_bound(s.subrange(x, y));
}
pub proof fn blen_split(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures blen(s) == blen(s.take(k)) + blen(s.skip(k))
{ assert(s =~= s.take(k) + s.skip(k)); blen_add(s.take(k), s.skip(k)); }

// blen is the length of the UTF-8 encoding, and a text in memory is at most isize::MAX bytes long
pub proof fn blen_is_utf8(s: Seq<char>)
    ensures vstd::utf8::encode_utf8(s).len() == blen(s)
    decreases s.len()
{
    if s.len() > 0 {
        blen_is_utf8(s.drop_last());
        let t = seq![s.last()];
        assert(s =~= s.drop_last() + t);
        vstd::utf8::encode_utf8_concat(s.drop_last(), t);
        assert(t.drop_first() =~= Seq::<char>::empty());
        reveal_with_fuel(vstd::utf8::encode_utf8, 2);
        assert(vstd::utf8::encode_utf8(t) =~= vstd::utf8::encode_scalar(s.last() as u32));
        assert(vstd::utf8::encode_scalar(s.last() as u32).len() == width(s.last()));
    }
}
#[verifier::external_body]
pub proof fn allocation_small(s: &str) ensures vstd::utf8::encode_utf8(s@).len() <= isize::MAX {}
pub proof fn text_small(s: &str) ensures blen(s@) <= isize::MAX { allocation_small(s); blen_is_utf8(s@); }
pub broadcast proof fn text_len(s: &str)
    ensures #[trigger] s.spec_bytes().len() == blen(s@), s.spec_bytes().len() <= isize::MAX
{ text_small(s); blen_is_utf8(s@); }
pub assume_specification [String::len] (s: &String) -> (r: usize) ensures r == blen(s@), r <= isize::MAX;

#[verifier::external_body]
pub fn slice_range<'a, S: AsText + ?Sized>(s: &'a S, a: usize, b: usize) -> (r: &'a str)
    requires safe(boundary(s.text(), a as nat) && boundary(s.text(), b as nat) && a <= b)
    ensures boundary(s.text(), a as nat), boundary(s.text(), b as nat), a <= b, r@ == s.text().subrange(at(s.text(), a as nat), at(s.text(), b as nat))
{ unimplemented!() }
#[verifier::external_body]
pub fn slice_from<'a, S: AsText + ?Sized>(s: &'a S, a: usize) -> (r: &'a str)
    requires safe(boundary(s.text(), a as nat))
    ensures boundary(s.text(), a as nat), r@ == s.text().skip(at(s.text(), a as nat))
{ unimplemented!() }
#[verifier::external_body]
pub fn slice_to<'a, S: AsText + ?Sized>(s: &'a S, b: usize) -> (r: &'a str)
    requires safe(boundary(s.text(), b as nat))
    ensures boundary(s.text(), b as nat), r@ == s.text().take(at(s.text(), b as nat))
{ unimplemented!() }

/// the last place of c, or -1
pub open spec fn last_of(s: Seq<char>, c: char) -> int
    decreases s.len()
{ if s.len() == 0 { -1 } else if s.last() == c { s.len() - 1 } else { last_of(s.drop_last(), c) } }
/// the first place of c, or -1
pub open spec fn first_of(s: Seq<char>, c: char) -> int
    decreases s.len()
{ if s.len() == 0 { -1 } else { let i = first_of(s.drop_last(), c); if i >= 0 { i } else if s.last() == c { s.len() - 1 } else { -1 } } }
pub open spec fn count_of(s: Seq<char>, c: char) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { count_of(s.drop_last(), c) + if s.last() == c { 1nat } else { 0 } } }
pub proof fn last_is(s: Seq<char>, c: char)
    ensures
        -1 <= last_of(s, c) < s.len(),
        last_of(s, c) >= 0 ==> s[last_of(s, c)] == c,
        forall|i: int| last_of(s, c) < i < s.len() ==> s[i] != c,
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        last_is(t, c);
        assert forall|i: int| last_of(s, c) < i < s.len() implies s[i] != c by { if i < t.len() { assert(t[i] == s[i]); } }
    }
}
pub proof fn first_is(s: Seq<char>, c: char)
    ensures
        -1 <= first_of(s, c) < s.len(),
        first_of(s, c) >= 0 ==> s[first_of(s, c)] == c && forall|i: int| 0 <= i < first_of(s, c) ==> s[i] != c,
        first_of(s, c) < 0 ==> forall|i: int| 0 <= i < s.len() ==> s[i] != c,
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        first_is(t, c);
        assert(forall|i: int| 0 <= i < t.len() ==> t[i] == s[i]);
    }
}
pub proof fn count_bound(s: Seq<char>, c: char)
    ensures count_of(s, c) <= s.len()
    decreases s.len()
{ if s.len() > 0 { count_bound(s.drop_last(), c); } }
pub proof fn count_none(a: Seq<char>, b: Seq<char>, c: char)
    requires forall|i: int| 0 <= i < b.len() ==> b[i] != c
    ensures count_of(a + b, c) == count_of(a, c)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); count_none(a, b.drop_last(), c); }
}
pub open spec fn rsplitn_of(s: Seq<char>, n: nat, c: char) -> Seq<Seq<char>>
    decreases n
{
    if n == 0 { seq![] }
    else if n == 1 || last_of(s, c) < 0 { seq![s] }
    else { seq![s.skip(last_of(s, c) + 1)] + rsplitn_of(s.take(last_of(s, c)), (n - 1) as nat, c) }
}
pub open spec fn splitn_of(s: Seq<char>, n: nat, c: char) -> Seq<Seq<char>>
    decreases n
{
    if n == 0 { seq![] }
    else if n == 1 || first_of(s, c) < 0 { seq![s] }
    else { seq![s.take(first_of(s, c))] + splitn_of(s.skip(first_of(s, c) + 1), (n - 1) as nat, c) }
}
pub open spec fn views(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
#[verifier::external_body]
pub fn str_rsplitn<'a>(s: &'a str, n: usize, c: char) -> (r: Cursor<&'a str>)
    ensures views(r.v@) == rsplitn_of(s@, n as nat, c)
{ unimplemented!() }
#[verifier::external_body]
pub fn str_splitn<'a>(s: &'a str, n: usize, c: char) -> (r: Cursor<&'a str>)
    ensures views(r.v@) == splitn_of(s@, n as nat, c)
{ unimplemented!() }
pub open spec fn copies(s: Seq<char>, n: nat) -> Seq<char>
    decreases n
{ if n == 0 { seq![] } else { copies(s, (n - 1) as nat) + s } }
#[verifier::external_body]
pub fn str_repeat(s: &str, n: usize) -> (r: String) ensures r@ == copies(s@, n as nat) { s.repeat(n) }

// {:>n}
pub open spec fn right(s: Seq<char>, n: nat) -> Seq<char> {
    if s.len() < n { copies(seq![' '], (n - s.len()) as nat) + s } else { s }
}
#[verifier::external_body]
pub fn disp_right<T: Disp + ?Sized>(x: &T, n: usize, o: &mut String)
    ensures final(o)@ == old(o)@ + right(x.shown(), n as nat)
{ unimplemented!() }
pub uninterp spec fn debug_text<T: ?Sized>(x: &T) -> Seq<char>;
/// a reference is shown as what it refers to
#[verifier::external_body]
pub broadcast proof fn debug_ref<T>(x: &&T) ensures #[trigger] debug_text::<&T>(x) == debug_text::<T>(*x) {}
#[verifier::external_body]
pub fn disp_debug<T: ?Sized>(x: &T, o: &mut String)
    ensures final(o)@ == old(o)@ + debug_text(x)
{ unimplemented!() }
