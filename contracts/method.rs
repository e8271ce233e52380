// ---------------------------------------------------------------- methods as text
pub open spec fn method_text(m: Method) -> Seq<char> {
    match m { Method::Get => "GET"@, Method::Post => "POST"@, Method::Put => "PUT"@, Method::Delete => "DELETE"@ }
}
impl Method {
//@fn core/mod.rs <Display for Method>::fmt -> r
    ensures r is Ok, final($1).out@ == old($1).out@ + method_text(*$self),
//@end
}
impl Disp for Method {
    open spec fn shown(&self) -> Seq<char> { method_text(*self) }
    fn disp(&self, o: &mut String) {
        let mut f = fmt::Formatter { out: String::new() };
        let _ = self.fmt(&mut f);
        proof { assert(f.out@ =~= method_text(*self)); }
        o.push_str(f.out.as_str());
    }
}
