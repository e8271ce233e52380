// ---------------------------------------------------------------- names
pub open spec fn upper(c: char) -> char { if 'a' <= c && c <= 'z' { ((c as u32 - 32) as u8) as char } else { c } }
pub open spec fn lower(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
pub assume_specification [char::to_ascii_uppercase] (c: &char) -> (r: char) ensures r == upper(*c);
pub assume_specification [char::to_ascii_lowercase] (c: &char) -> (r: char) ensures r == lower(*c);
pub assume_specification [char::is_ascii_uppercase] (c: &char) -> (r: bool) ensures r == ('A' <= *c && *c <= 'Z');
/// each underscore removed and the letter after it raised
pub open spec fn raised(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { seq![] }
    else if s[0] != '_' { seq![s[0]] + raised(s.skip(1)) }
    else if s.len() == 1 { seq![] }
    else { seq![upper(s[1])] + raised(s.skip(2)) }
}
/// caps case: the first letter raised too
pub open spec fn caps(s: Seq<char>) -> Seq<char> { if s.len() == 0 { s } else { raised(seq![upper(s[0])] + s.skip(1)) } }
/// each capital lowered after an underscore
pub open spec fn lowered(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { seq![] }
    else if 'A' <= s[0] && s[0] <= 'Z' { seq!['_', lower(s[0])] + lowered(s.skip(1)) }
    else { seq![s[0]] + lowered(s.skip(1)) }
}
/// snake case: the first letter lowered without one
pub open spec fn snake(s: Seq<char>) -> Seq<char> { if s.len() == 0 { s } else { seq![lower(s[0])] + lowered(s.skip(1)) } }

//@fn gen/gen.rs to_caps_case -> r
    ensures r@ == caps($1@),
//@start
    let ghost name = $1@;
    let ghost mut left: Seq<char> = seq![upper(name[0])] + name.skip(1);
    proof { assert(raised(seq![]) =~= seq![]); }
//@loop 1
    invariant
        res@ + raised(left) == caps(name), name == $1@, name.len() > 0,
        ch is Some <==> left.len() > 0,
        ch matches Some(c) ==> c == left[0] && chars.v@ == left.skip(1),
        ch is None ==> chars.v@.len() == 0,
    ensures res@ =~= caps(name),
    decreases left.len()
//@before 1
    proof { assert(left.skip(1) =~= chars.v@); assert(res@ + raised(left) =~= caps(name)); }
//@head 1
    let ghost (res0, left0) = (res@, left);
    proof {
        assert(left0.len() > 0);
        if left0.len() > 1 { assert(left0.skip(1).skip(1) =~= left0.skip(2)); }
        if left0.len() == 1 && left0[0] == '_' { assert(raised(left0) =~= seq![]); assert(res0 + raised(left0) =~= res0); }
    }
//@tail 1
    proof {
        left = if left0[0] == '_' { left0.skip(2) } else { left0.skip(1) };
        assert(res@ + raised(left) =~= res0 + raised(left0));
        if left.len() > 0 { assert(chars.v@ =~= left.skip(1)); }
    }
//@end
//@fn gen/gen.rs to_snake_case -> r
    ensures r@ == snake($1@),
//@start
    let ghost name = $1@;
    let ghost mut left: Seq<char> = seq![lower(name[0])] + name.skip(1);
//@loop 1
    invariant
        res@ + lowered(left) == snake(name), name.len() > 0,
        ch is Some <==> left.len() > 0,
        ch matches Some(c) ==> c == left[0] && chars.v@ == left.skip(1),
        ch is None ==> chars.v@.len() == 0,
    ensures res@ =~= snake(name),
    decreases left.len()
//@before 1
    proof { assert(left.skip(1) =~= chars.v@); lowered_first(lower(name[0]), name.skip(1)); assert(res@ + lowered(left) =~= snake(name)); }
//@head 1
    let ghost (res0, left0) = (res@, left);
    proof { assert(left0.len() > 0); }
//@tail 1
    proof {
        left = left0.skip(1);
        assert(res@ + lowered(left) =~= res0 + lowered(left0));
        if left.len() > 0 { assert(chars.v@ =~= left.skip(1)); }
    }
//@end
pub proof fn lowered_first(c: char, s: Seq<char>)
    requires !('A' <= c && c <= 'Z')
    ensures lowered(seq![c] + s) == seq![c] + lowered(s)
{ assert((seq![c] + s).skip(1) =~= s); }
