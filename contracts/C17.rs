#![allow(unused_imports)]
use vstd::prelude::*;
use vstd::string::*;
verus! {
//@include prelude.rs
//@include panic_ends.rs
//@include std.rs
//@include text.rs

// ---------------------------------------------------------------- what the code is given
pub mod io {
    use super::*;
    pub struct Error;
    pub type Result<T> = core::result::Result<T, Error>;
    impl core::fmt::Debug for Error { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { unimplemented!() } }
    /// an output that accepts what it is given
    pub trait Write {
        spec fn given(&self) -> Seq<char>;
        fn put_text(&mut self, t: String) -> (r: Result<()>)
            ensures r is Ok, final(self).given() == old(self).given() + t@;
    }
}
use io::Write;
//@pieces
    ensures r is Ok, final(w).given() == old(w).given() + ($text),
//@end
pub trait Debug {}
pub struct CompleteStr<'a>(pub &'a str);
impl<'a> CompleteStr<'a> {
    pub fn len(&self) -> (r: usize) ensures r == blen(self.0@) { proof { text_small(self.0); } broadcast use text_len; self.0.len() }
}
/// nom's error kinds; `Nom` stands for all but `Custom`
pub enum ErrorKind<E = u32> { Custom(E), Nom(u32) }
pub enum Context<I, E = u32> { Code(I, ErrorKind<E>), List(Vec<(I, ErrorKind<E>)>) }
pub enum Err<I, E = u32> { Incomplete(usize), Error(Context<I, E>), Failure(Context<I, E>) }
pub mod nom {
    use super::*;
    pub type IResult<I, O, E = u32> = core::result::Result<(I, O), super::Err<I, E>>;
}
pub type Entries<'a> = Seq<(CompleteStr<'a>, ErrorKind)>;
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();

// ---------------------------------------------------------------- the property
/// the place a remaining text stands at
pub open spec fn place(b: Seq<char>, rest: Seq<char>) -> int { b.len() - rest.len() }
pub open spec fn line_start(b: Seq<char>, k: int) -> int { last_of(b.take(k), '\n') + 1 }
pub open spec fn line_number(b: Seq<char>, k: int) -> nat { 1 + count_of(b.take(k), '\n') }
/// from the start of the line to the next end of line
pub open spec fn line_text(b: Seq<char>, k: int) -> Seq<char> {
    let rest = b.skip(line_start(b, k));
    if first_of(rest, '\n') < 0 { rest } else { rest.take(first_of(rest, '\n')) }
}
/// characters before that one on its line
pub open spec fn column(b: Seq<char>, k: int) -> nat { (k - line_start(b, k)) as nat }
pub open spec fn gutter(b: Seq<char>, k: int) -> Seq<char> { right(digits(line_number(b, k)), 4) }
pub open spec fn report(b: Seq<char>, k: int, msg: Seq<char>, prefix: Seq<char>) -> Seq<char> {
    prefix + gutter(b, k) + ":"@ + line_text(b, k) + "\n"@
    + prefix + copies(" "@, gutter(b, k).len() + 1 + column(b, k)) + "^ "@ + msg + "\n"@
}
pub open spec fn message(e: ErrorKind) -> Seq<char> {
    match e {
        ErrorKind::Custom(n) => match registered(n) { Some(m) => m, None => "Unknown error #"@ + digits(n as nat) },
        _ => debug_text(&e),
    }
}
pub open spec fn reports(b: Seq<char>, v: Entries, prefix: Seq<char>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 { seq![] }
    else { reports(b, v.drop_last(), prefix) + report(b, place(b, v.last().0.0@), message(v.last().1), prefix) }
}
/// a parser's positions are what remains of the text
pub open spec fn remains(b: Seq<char>, i: CompleteStr) -> bool { i.0@.len() <= b.len() && i.0@ == b.skip(place(b, i.0@)) }
pub open spec fn context_ok<E>(b: Seq<char>, c: Context<CompleteStr, E>) -> bool {
    match c { Context::Code(i, _) => remains(b, i), Context::List(v) => forall|j: int| 0 <= j < v@.len() ==> remains(b, #[trigger] v@[j].0) }
}
pub open spec fn result_ok<E>(b: Seq<char>, r: core::result::Result<(CompleteStr, E), Err<CompleteStr, u32>>) -> bool {
    match r { Result::Err(Err::Error(c)) => context_ok(b, c), Result::Err(Err::Failure(c)) => context_ok(b, c), _ => true }
}
/// what is printed: the recorded positions, the outermost first
pub open spec fn shown_for<E>(b: Seq<char>, r: core::result::Result<(CompleteStr, E), Err<CompleteStr, u32>>, prefix: Seq<char>) -> Seq<char> {
    match r {
        Result::Ok(_) => seq![],
        Result::Err(Err::Error(Context::List(v))) => reports(b, v@.reverse(), prefix),
        Result::Err(Err::Failure(Context::List(v))) => reports(b, v@.reverse(), prefix),
        Result::Err(Err::Error(Context::Code(i, e))) => report(b, place(b, i.0@), "error "@ + debug_text(&e), prefix),
        Result::Err(Err::Failure(Context::Code(i, e))) => report(b, place(b, i.0@), "failure "@ + debug_text(&e), prefix),
        Result::Err(_) => report(b, 0, "xyzzy"@, prefix),
    }
}

pub proof fn digits_small(n: nat)
    ensures 0 < digits(n).len() <= n + 1, blen(digits(n)) == digits(n).len()
    decreases n
{
    if n >= 10 {
        digits_small(n / 10);
        assert(digits(n).drop_last() =~= digits(n / 10));
        assert(((((48 + n % 10) as u8) as char) as u32) < 0x80u32);
    } else {
        assert(digits(n) =~= seq![digit(n)]);
        assert(digits(n).drop_last() =~= Seq::<char>::empty());
        assert(((((48 + n) as u8) as char) as u32) < 0x80u32);
        reveal_with_fuel(blen, 2);
    }
}
pub proof fn copies_len(n: nat)
    ensures copies(seq![' '], n).len() == n, blen(copies(seq![' '], n)) == n,
        forall|i: int| 0 <= i < n ==> copies(seq![' '], n)[i] == ' ',
    decreases n
{
    if n > 0 {
        copies_len((n - 1) as nat);
        let c = copies(seq![' '], (n - 1) as nat);
        assert(copies(seq![' '], n).drop_last() =~= c);
    }
}
pub proof fn gutter_small(b: Seq<char>, k: int)
    ensures 4 <= gutter(b, k).len() <= line_number(b, k) + 4, blen(gutter(b, k)) == gutter(b, k).len()
{
    let d = digits(line_number(b, k));
    digits_small(line_number(b, k));
    if d.len() < 4 {
        copies_len((4 - d.len()) as nat);
        blen_add(copies(seq![' '], (4 - d.len()) as nat), d);
    }
}
/// the line of a position, as offsets
pub proof fn line_facts(b: Seq<char>, k: int)
    requires 0 <= k <= b.len()
    ensures
        0 <= line_start(b, k) <= k,
        count_of(b.take(k), '\n') == count_of(b.take(line_start(b, k)), '\n'),
        line_number(b, k) <= line_start(b, k) + 1,
        blen(b.take(line_start(b, k))) <= blen(b.take(k)) <= blen(b),
        line_start(b, k) > 0 ==> blen(b.take(line_start(b, k))) == blen(b.take(line_start(b, k) - 1)) + 1,
        line_start(b, k) == 0 ==> blen(b.take(line_start(b, k))) == 0,
{
    let t = b.take(k);
    let s = line_start(b, k);
    last_is(t, '\n');
    assert(t =~= b.take(s) + b.subrange(s, k));
    blen_add(b.take(s), b.subrange(s, k));
    blen_split(b, k);
    assert forall|i: int| 0 <= i < b.subrange(s, k).len() implies b.subrange(s, k)[i] != '\n' by { assert(t[s + i] != '\n'); }
    count_none(b.take(s), b.subrange(s, k), '\n');
    count_bound(b.take(s), '\n');
    if s > 0 {
        assert(b.take(s).drop_last() =~= b.take(s - 1));
        assert(b.take(s).last() == t[s - 1]);
        assert(width('\n') == 1);
    }
}

//@fn parse/errors.rs what_line -> r
    requires boundary($1@, $2 as nat)
    ensures r == 1 + count_of($1@.take(at($1@, $2 as nat)), '\n')
//@start
broadcast use text_len;
proof {
    let k = choose|k: int| offset($1@, k, $2 as nat);
    at_is($1@, k);
    at_is($1@, 0);
    assert($1@.take(0) =~= Seq::<char>::empty());
    assert($1@.subrange(0, k) =~= $1@.take(k));
    blen_bound($1@);
    text_small($1);
}
//@loop 1
    invariant
        $k1 <= $v1@.len(),
        $v1@.len() <= isize::MAX,
        $v1@ == $1@.take(at($1@, $2 as nat)),
        $o1 == count_of($v1@.take($k1 as int), '\n'),
        $o1 <= $k1,
    decreases $v1@.len() - $k1
//@tail 1
proof { assert($v1@.take($k1 as int).drop_last() =~= $v1@.take($k1 - 1)); }
//@after 1
proof { assert($v1@.take($v1@.len() as int) =~= $v1@); }
//@end

//@fn parse/errors.rs show_error
    requires boundary($2@, $3 as nat)
    ensures final($1).given() == old($1).given() + report($2@, at($2@, $3 as nat), $4@, $5@)
//@start
broadcast use text_len;
let ghost k = at($2@, $3 as nat);
let ghost s = line_start($2@, k);
let ghost old_pos = $3;
proof {
    let b = $2@;
    let j = choose|j: int| offset(b, j, $3 as nat);
    at_is(b, j);
    at_is(b, 0);
    assert(b.take(0) =~= Seq::<char>::empty());
    assert(b.subrange(0, k) =~= b.take(k));
    line_facts(b, k);
    at_is(b, s);
    gutter_small(b, k);
    last_is(b.take(k), '\n');
    if s > 0 { assert(b.take(k).take(s - 1) =~= b.take(s - 1)); }
    assert(rsplitn_of(b.take(k), 2, '\n').len() == if s > 0 { 2int } else { 1 }) by { reveal_with_fuel(rsplitn_of, 3); }
    assert(s > 0 ==> rsplitn_of(b.take(k), 2, '\n')[1] == b.take(s - 1)) by { reveal_with_fuel(rsplitn_of, 3); }
    assert(splitn_of(b.skip(s), 2, '\n')[0] == line_text(b, k)) by { reveal_with_fuel(splitn_of, 3); }
    assert(splitn_of(b.skip(s), 2, '\n').len() > 0) by { reveal_with_fuel(splitn_of, 3); }
    blen_bound(b);
    text_small($2);
    assert(forall|x: Seq<&str>, i: int| 0 <= i < x.len() ==> views(x)[i] == (#[trigger] x[i])@);
    assert(forall|x: Seq<&str>| (#[trigger] views(x)).len() == x.len());
    reveal_strlit(" ");
    assert(" "@ =~= seq![' ']);
}
//@end

//@fn parse/errors.rs get_message -> r
    ensures r@ == message(*$1)
//@start
broadcast use debug_ref;
//@end

// the table of messages, which only grows; its lock is not poisoned (nothing panics while holding it)
pub struct Table;
pub struct Guard { pub v: Vec<&'static str> }
pub const ERRORS: Table = Table;
impl Table {
    #[verifier::external_body]
    pub fn lock(&self) -> (r: core::result::Result<Guard, ()>)
        ensures r matches Result::Ok(g) && views(g.v@) == table()
    { unimplemented!() }
}
impl Guard {
    pub fn get(&self, i: usize) -> (r: Option<&&'static str>)
        ensures match r { Some(s) => i < self.v@.len() && *s == self.v@[i as int], None => i >= self.v@.len() }
    { if i < self.v.len() { Some(&self.v[i]) } else { None } }
}
pub uninterp spec fn table() -> Seq<Seq<char>>;
pub open spec fn registered(n: u32) -> Option<Seq<char>> { if n < table().len() { Some(table()[n as int]) } else { None } }
//@fn parse/errors.rs get_error -> r
    ensures match r { Some(s) => registered($1) == Some(s@), None => registered($1) is None }
//@start
proof { assert(forall|x: Seq<&str>, i: int| 0 <= i < x.len() ==> views(x)[i] == (#[trigger] x[i])@); assert(forall|x: Seq<&str>| (#[trigger] views(x)).len() == x.len()); }
//@end

//@fn parse/errors.rs show_errors
    requires result_ok($2@, $3)
    ensures final($1).given() == old($1).given() + shown_for($2@, $3, $4@)
//@start
broadcast use text_len;
proof {
    let b = $2@;
    at_is(b, 0);
    assert(b.take(0) =~= Seq::<char>::empty());
    assert forall|i: CompleteStr| #[trigger] remains(b, i) implies {
        &&& boundary(b, (blen(b) - blen(i.0@)) as nat)
        &&& at(b, (blen(b) - blen(i.0@)) as nat) == place(b, i.0@)
        &&& blen(i.0@) <= blen(b)
    } by {
        blen_split(b, place(b, i.0@));
        at_is(b, place(b, i.0@));
    }
}
//@before 1
let ghost all = $v1@;
let ghost sofar = $1.given();
proof { assert(all.take(0) =~= seq![]); }
//@loop 1
    invariant
        forall|i: CompleteStr| #[trigger] remains($2@, i) ==> {
            &&& boundary($2@, (blen($2@) - blen(i.0@)) as nat)
            &&& at($2@, (blen($2@) - blen(i.0@)) as nat) == place($2@, i.0@)
            &&& blen(i.0@) <= blen($2@)
        },
        $v1@.len() <= all.len(),
        $v1@ == all.skip(all.len() - $v1@.len()),
        forall|j: int| 0 <= j < all.len() ==> remains($2@, #[trigger] all[j].0),
        $1.given() == sofar + reports($2@, all.take(all.len() - $v1@.len()), $4@),
    decreases $v1@.len()
//@head 1
let ghost d = all.len() - $v1@.len();
broadcast use text_len;
proof { assert(all.skip(d)[0] == all[d]); assert(remains($2@, all[d].0)); }
//@tail 1
proof {
    assert(all.take(d + 1).drop_last() =~= all.take(d));
    assert(all.take(d + 1).last() == all[d]);
}
//@after 1
proof { assert(all.take(all.len() as int) =~= all); }
//@before 2
let ghost all = $v2@;
let ghost sofar = $1.given();
proof { assert(all.take(0) =~= seq![]); }
//@loop 2
    invariant
        forall|i: CompleteStr| #[trigger] remains($2@, i) ==> {
            &&& boundary($2@, (blen($2@) - blen(i.0@)) as nat)
            &&& at($2@, (blen($2@) - blen(i.0@)) as nat) == place($2@, i.0@)
            &&& blen(i.0@) <= blen($2@)
        },
        $v2@.len() <= all.len(),
        $v2@ == all.skip(all.len() - $v2@.len()),
        forall|j: int| 0 <= j < all.len() ==> remains($2@, #[trigger] all[j].0),
        $1.given() == sofar + reports($2@, all.take(all.len() - $v2@.len()), $4@),
    decreases $v2@.len()
//@head 2
let ghost d = all.len() - $v2@.len();
broadcast use text_len;
proof { assert(all.skip(d)[0] == all[d]); assert(remains($2@, all[d].0)); }
//@tail 2
proof {
    assert(all.take(d + 1).drop_last() =~= all.take(d));
    assert(all.take(d + 1).last() == all[d]);
}
//@after 2
proof { assert(all.take(all.len() as int) =~= all); }
//@end

// ---------------------------------------------------------------- what the report means
/// the caret stands under the character at the position: same distance from the left edge
pub proof fn caret_is_under(b: Seq<char>, k: int, msg: Seq<char>, prefix: Seq<char>)
    requires 0 <= k < b.len(), b[k] != '\n'
    ensures ({
        let first = prefix + gutter(b, k) + ":"@ + line_text(b, k);
        let second = prefix + copies(" "@, gutter(b, k).len() + 1 + column(b, k)) + "^ "@ + msg;
        let x = prefix.len() + gutter(b, k).len() + 1 + column(b, k);
        &&& report(b, k, msg, prefix) == first + "\n"@ + second + "\n"@
        &&& first[x as int] == b[k]
        &&& second[x as int] == '^'
        &&& x < first.len()
    })
{
    let s = line_start(b, k);
    line_facts(b, k);
    last_is(b.take(k), '\n');
    let rest = b.skip(s);
    first_is(rest, '\n');
    let f = first_of(rest, '\n');
    if f >= 0 {
        assert(rest[f] == '\n');
        if f < k - s { assert(b.take(k)[s + f] == '\n'); }
        assert(rest[k - s] == b[k]);
    }
    reveal_strlit(":"); reveal_strlit("^ "); reveal_strlit(" ");
    assert(" "@ =~= seq![' ']);
    copies_len(gutter(b, k).len() + 1 + column(b, k));
    let first = prefix + gutter(b, k) + ":"@ + line_text(b, k);
    let second = prefix + copies(" "@, gutter(b, k).len() + 1 + column(b, k)) + "^ "@ + msg;
    assert(report(b, k, msg, prefix) =~= first + "\n"@ + second + "\n"@);
}
/// and that line is the one holding the position
pub proof fn line_holds(b: Seq<char>, k: int)
    requires 0 <= k <= b.len()
    ensures
        line_start(b, k) <= k <= line_start(b, k) + line_text(b, k).len(),
        line_text(b, k) == b.subrange(line_start(b, k), line_start(b, k) + line_text(b, k).len()),
        forall|i: int| 0 <= i < line_text(b, k).len() ==> line_text(b, k)[i] != '\n',
        line_start(b, k) == 0 || b[line_start(b, k) - 1] == '\n',
        line_start(b, k) + line_text(b, k).len() == b.len() || b[line_start(b, k) + line_text(b, k).len()] == '\n',
{
    let s = line_start(b, k);
    line_facts(b, k);
    last_is(b.take(k), '\n');
    let rest = b.skip(s);
    first_is(rest, '\n');
    let f = first_of(rest, '\n');
    if f >= 0 {
        assert(rest[f] == b[s + f]);
        if f < k - s { assert(b.take(k)[s + f] == '\n'); }
        assert(rest.take(f) =~= b.subrange(s, s + f));
    } else {
        assert(rest =~= b.subrange(s, b.len() as int));
    }
    if s > 0 { assert(b.take(k)[s - 1] == b[s - 1]); }
}
}
