//! Extraction of functions and types of /repo's own source into Verus.
//!
//! Every body is kept statement by statement and in order.  Dropped:
//! attributes, doc comments, visibility.  Rewritten (anything the verifier
//! does not accept after these is refused by the verifier itself):
//!   for x in E.iter() { B }            -> let v = &E; let mut k = 0; while k < v.len() { let x = &v[k]; k += 1; B }
//!   for x in A..B { S }                -> the same over a counter
//!   for x in E { S } (E a vector)      -> repeated removal of the first element
//!   E.iter().map(|x| F).collect::<..>()           -> a loop pushing F onto a new vector
//!   E.iter().map(|x| F).collect::<..>().concat()  -> a loop appending F to a new string
//!   E.iter().any(|x| F), .find(|x| F), .filter(..), .filter_map(..) -> loops
//!   R.map(|x| F) with a closure that captures by mutation -> match R { Ok(x) => Ok(F), Err(e) => Err(e) }
//!   format!/write!/writeln!            -> text_SHAPE/put_SHAPE of the literal pieces (a line at a time) and the
//!                                         arguments in their order, where SHAPE names them (a, l); pushes otherwise
//!   V.extend(W.into_iter())            -> vec_extend(&mut V, W)
//!   V.sort_by_key(|x| F), V.binary_search_by_key(y, |x| F) -> a loop collecting the keys F, then sort_with_keys / search_keys
//!   X.unwrap(), X.expect(m)            -> vunwrap(X)
//!   X.map_err(|x| F), X.and_then(|x| F), X.map_or(D, |x| F) -> match X
//!   V.into_iter().unique().collect()   -> vec_unique(V)
//!   X == "lit", X != "lit"              -> str_eq(&X, &"lit"); match X { "lit" => .. } -> the same tests one after the other
//!   mut self                           -> self, rebound as self_
//!   local `use`                        -> dropped
//!   panic!/unreachable!/assert!        -> calls of vpanic / vcheck
//! Loops are numbered in source order and carry markers where the contract
//! files add invariants and ghost code.
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use syn::visit_mut::{self, VisitMut};
use syn::*;

type R<T> = std::result::Result<T, String>;

fn nows(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

pub struct Found {
    pub sig: Signature,
    pub block: Block,
    pub impl_generics: String,
}

/// `name`, `Type::name`, `module::Type::name`, `<Trait for Type>::name`, `Type::name[N]` is not supported
pub fn find_fn(items: &[Item], path: &str) -> Option<Found> {
    let segs: Vec<&str> = path.split("::").collect();
    fn go(items: &[Item], segs: &[&str]) -> Option<Found> {
        for it in items {
            match it {
                Item::Fn(f) if segs.len() == 1 && f.sig.ident == segs[0] => {
                    return Some(Found { sig: f.sig.clone(), block: (*f.block).clone(), impl_generics: String::new() })
                }
                Item::Impl(im) if segs.len() == 2 => {
                    let ty = nows(&ts(&im.self_ty));
                    let base = ty.split('<').next().unwrap().to_string();
                    let name = match &im.trait_ {
                        Some((_, t, _)) => {
                            let last = t.segments.last().unwrap();
                            format!("<{}for{}>", nows(&ts(last)), ty)
                        }
                        None => base,
                    };
                    if name != segs[0].replace(' ', "") {
                        continue;
                    }
                    for i in &im.items {
                        if let ImplItem::Fn(f) = i {
                            if f.sig.ident == segs[1] {
                                return Some(Found { sig: f.sig.clone(), block: f.block.clone(), impl_generics: ts(&im.generics.params) });
                            }
                        }
                    }
                }
                Item::Mod(m) if segs.len() > 1 && m.ident == segs[0] => {
                    if let Some((_, its)) = &m.content {
                        if let Some(f) = go(its, &segs[1..]) {
                            return Some(f);
                        }
                    }
                }
                _ => {}
            }
        }
        None
    }
    go(items, &segs)
}

fn find_type<'a>(items: &'a [Item], path: &str) -> Option<&'a Item> {
    let segs: Vec<&str> = path.split("::").collect();
    fn go<'a>(items: &'a [Item], segs: &[&str]) -> Option<&'a Item> {
        for it in items {
            match it {
                Item::Struct(s) if segs.len() == 1 && s.ident == segs[0] => return Some(it),
                Item::Enum(s) if segs.len() == 1 && s.ident == segs[0] => return Some(it),
                Item::Mod(m) if segs.len() > 1 && m.ident == segs[0] => {
                    if let Some((_, its)) = &m.content {
                        if let Some(f) = go(its, &segs[1..]) {
                            return Some(f);
                        }
                    }
                }
                _ => {}
            }
        }
        None
    }
    go(items, &segs)
}

// ------------------------------------------------------------ rewriting

pub struct Rw {
    n: usize,
    pub err: Option<String>,
    /// user arithmetic becomes calls whose overflow is a panic like any other
    pub arith: bool,
    own: std::collections::BTreeSet<String>,
    /// the function's parameters of type `&mut _`
    pub outs: std::collections::BTreeSet<String>,
}

enum Piece {
    Lit(String),
    /// positional index or name, format spec
    Arg(std::result::Result<usize, String>, String),
}

fn parse_fmt(s: &str) -> R<Vec<Piece>> {
    let mut out = vec![];
    let mut lit = String::new();
    let cs: Vec<char> = s.chars().collect();
    let (mut i, mut next) = (0, 0);
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => {
                lit.push('{');
                i += 2;
            }
            '}' if cs.get(i + 1) == Some(&'}') => {
                lit.push('}');
                i += 2;
            }
            '{' => {
                let mut j = i + 1;
                while j < cs.len() && cs[j] != '}' {
                    j += 1;
                }
                let inner: String = cs[i + 1..j].iter().collect();
                let (name, spec) = match inner.split_once(':') {
                    Some((a, b)) => (a.trim().to_string(), b.to_string()),
                    None => (inner.trim().to_string(), String::new()),
                };
                if !lit.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut lit)));
                }
                let which = if name.is_empty() {
                    next += 1;
                    Ok(next - 1)
                } else if let Ok(k) = name.parse::<usize>() {
                    Ok(k)
                } else {
                    Err(name)
                };
                out.push(Piece::Arg(which, spec));
                i = j + 1;
            }
            '}' => return Err("stray brace in format string".into()),
            c => {
                lit.push(c);
                i += 1;
            }
        }
    }
    if !lit.is_empty() {
        out.push(Piece::Lit(lit));
    }
    Ok(out)
}

struct FmtArgs {
    target: Option<Expr>,
    fmt: Option<String>,
    pos: Vec<Expr>,
    named: Vec<(String, Expr)>,
}

fn parse_args(tokens: TokenStream, with_target: bool) -> R<FmtArgs> {
    use syn::parse::Parser;
    let p = |input: syn::parse::ParseStream| -> syn::Result<FmtArgs> {
        let mut a = FmtArgs { target: None, fmt: None, pos: vec![], named: vec![] };
        if with_target {
            a.target = Some(input.parse()?);
            if input.is_empty() {
                return Ok(a);
            }
            input.parse::<Token![,]>()?;
        }
        if input.is_empty() {
            return Ok(a);
        }
        let l: LitStr = input.parse()?;
        a.fmt = Some(l.value());
        while !input.is_empty() {
            input.parse::<Token![,]>()?;
            if input.is_empty() {
                break;
            }
            if input.peek(Ident) && input.peek2(Token![=]) && !input.peek2(Token![==]) {
                let n: Ident = input.parse()?;
                input.parse::<Token![=]>()?;
                a.named.push((n.to_string(), input.parse()?));
            } else {
                a.pos.push(input.parse()?);
            }
        }
        Ok(a)
    };
    p.parse2(tokens).map_err(|e| format!("format arguments: {}", e))
}

impl Rw {
    pub fn new() -> Rw {
        Rw { n: 0, err: None, arith: false, own: Default::default(), outs: Default::default() }
    }

    fn fail(&mut self, e: String) {
        if self.err.is_none() {
            self.err = Some(e);
        }
    }

    /// match on text: string literals, `_` and names, guards; the last arm catches everything
    fn text_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        fn lits(p: &Pat) -> Option<Vec<LitStr>> {
            match p {
                Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(vec![s.clone()]),
                Pat::Or(o) => o.cases.iter().map(lits).collect::<Option<Vec<_>>>().map(|v| v.concat()),
                _ => None,
            }
        }
        if !m.arms.iter().any(|a| lits(&a.pat).is_some()) {
            return None;
        }
        let last = m.arms.last()?;
        if last.guard.is_some() || lits(&last.pat).is_some() {
            return None;
        }
        let t = self.fresh("m");
        let mut out: Option<Expr> = None;
        for a in m.arms.iter().rev() {
            let body = &a.body;
            let bind: Vec<Stmt> = match &a.pat {
                Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                    let n = &i.ident;
                    vec![parse_quote!(let #n = #t;)]
                }
                Pat::Wild(_) => vec![],
                p => {
                    lits(p)?;
                    vec![]
                }
            };
            if !bind.is_empty() && a.guard.is_some() {
                return None;
            }
            let mut conds: Vec<Expr> = vec![];
            if let Some(v) = lits(&a.pat) {
                let mut c: Option<Expr> = None;
                for s in v {
                    c = Some(match c {
                        None => parse_quote!(str_eq(& #t, & #s)),
                        Some(c) => parse_quote!(#c || str_eq(& #t, & #s)),
                    });
                }
                conds.push(c?);
            }
            if let Some((_, g)) = &a.guard {
                conds.push((**g).clone());
            }
            let c: Option<Expr> = match conds.len() {
                0 => None,
                1 => Some(conds[0].clone()),
                _ => {
                    let (x, y) = (&conds[0], &conds[1]);
                    Some(parse_quote!((#x) && (#y)))
                }
            };
            out = Some(match (c, out) {
                (None, _) => parse_quote!({ #(#bind)* #body }),
                (Some(c), Some(rest)) => parse_quote!(if #c { #body } else { #rest }),
                (Some(_), None) => return None,
            });
        }
        let (x, o) = (&m.expr, out?);
        Some(parse_quote!({ let #t = #x; #o }))
    }

    fn fresh(&mut self, s: &str) -> Ident {
        self.n += 1;
        self.own.insert(format!("{}_{}", s, self.n));
        format_ident!("{}_{}", s, self.n)
    }

    /// the pieces of a text, where every one is a literal or an argument's own
    /// text: the letters that name the shape, and the expressions
    fn shape(fmt: &[Piece], a: &FmtArgs) -> Option<(String, Vec<Expr>)> {
        let (mut shape, mut args, mut used) = (String::new(), vec![], 0);
        for p in fmt {
            match p {
                // a line at a time, so that it does not matter how lines are grouped
                Piece::Lit(l) => {
                    for x in l.split_inclusive('\n') {
                        shape.push('l');
                        args.push(parse_quote!(#x));
                    }
                }
                Piece::Arg(w, spec) => {
                    if spec != "" {
                        return None;
                    }
                    shape.push('a');
                    match w {
                        Ok(k) if *k == used => {
                            let e = a.pos.get(*k)?;
                            used += 1;
                            args.push(parse_quote!(& (#e)));
                        }
                        Ok(_) => return None,
                        Err(n) if a.named.is_empty() => {
                            let id = Ident::new(n, Span::call_site());
                            args.push(parse_quote!(& #id));
                        }
                        Err(_) => return None,
                    }
                }
            }
        }
        if used == a.pos.len() && a.named.is_empty() { Some((shape, args)) } else { None }
    }

    /// an expression of type String
    fn text(&mut self, a: FmtArgs, newline: bool, to: Option<&Expr>) -> R<Expr> {
        let mut fmt = parse_fmt(&a.fmt.clone().unwrap_or_default())?;
        if newline {
            if let Some(Piece::Lit(l)) = fmt.last_mut() {
                l.push('\n');
            } else {
                fmt.push(Piece::Lit("\n".into()));
            }
        }
        if let Some((shape, args)) = Self::shape(&fmt, &a) {
            return Ok(match to {
                Some(t) => {
                    let f = format_ident!("put_{}", shape);
                    parse_quote!(#f(#t, #(#args),*))
                }
                None => {
                    let f = format_ident!("text_{}", shape);
                    parse_quote!(#f(#(#args),*))
                }
            });
        }
        let mut binds: Vec<Stmt> = vec![];
        let mut pos = vec![];
        for e in &a.pos {
            let id = self.fresh("a");
            binds.push(parse_quote!(let #id = & (#e);));
            pos.push(id);
        }
        let mut named = vec![];
        for (n, e) in &a.named {
            let id = self.fresh("a");
            binds.push(parse_quote!(let #id = & (#e);));
            named.push((n.clone(), id));
        }
        let o = self.fresh("o");
        let mut push: Vec<Stmt> = vec![];
        for p in fmt {
            match p {
                Piece::Lit(l) => push.push(parse_quote!(#o.push_str(#l);)),
                Piece::Arg(w, spec) => {
                    let id: Expr = match w {
                        Ok(k) => {
                            let id = pos.get(k).ok_or("format argument missing")?.clone();
                            parse_quote!(#id)
                        }
                        Err(n) => match named.iter().find(|x| x.0 == n) {
                            Some((_, id)) => parse_quote!(#id),
                            None => {
                                let id = Ident::new(&n, Span::call_site());
                                parse_quote!(& #id)
                            }
                        },
                    };
                    match spec.as_str() {
                        "" => push.push(parse_quote!(disp(#id, &mut #o);)),
                        "?" => push.push(parse_quote!(disp_debug(#id, &mut #o);)),
                        s if s.starts_with('>') && s[1..].parse::<usize>().is_ok() => {
                            let k: usize = s[1..].parse().unwrap();
                            push.push(parse_quote!(disp_right(#id, #k, &mut #o);));
                        }
                        s if s.starts_with('>') && s.ends_with('$') => {
                            let n = s[1..s.len() - 1].to_string();
                            let k: Expr = match named.iter().find(|x| x.0 == n) {
                                Some((_, id)) => parse_quote!(*#id),
                                None => {
                                    let id = Ident::new(&n, Span::call_site());
                                    parse_quote!(#id)
                                }
                            };
                            push.push(parse_quote!(disp_right(#id, #k, &mut #o);));
                        }
                        s => return Err(format!("format spec {:?}", s)),
                    }
                }
            }
        }
        let e: Expr = parse_quote!({ #(#binds)* let mut #o = String::new(); #(#push)* #o });
        Ok(e)
    }

    fn mac(&mut self, m: &Macro) -> R<Option<Expr>> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        Ok(Some(match name.as_str() {
            "format" => {
                let a = parse_args(m.tokens.clone(), false)?;
                self.text(a, false, None)?
            }
            "write" | "writeln" => {
                let mut a = parse_args(m.tokens.clone(), true)?;
                let t = a.target.take().unwrap();
                let out = self.outs.contains(&nows(&ts(&t)));
                let e = self.text(a, name == "writeln", if out { Some(&t) } else { None })?;
                if nows(&ts(&e)).starts_with("put_") {
                    return Ok(Some(e));
                }
                let id = self.fresh("t");
                // the arguments are evaluated before the write
                parse_quote!({ let #id = #e; #t.put_text(#id) })
            }
            "panic" | "unreachable" | "unimplemented" => parse_quote!(vpanic()),
            "fail" => parse_quote!(vexit()),
            "println" | "eprintln" => parse_quote!(vprint()),
            "assert" => {
                use syn::parse::Parser;
                let p = |i: syn::parse::ParseStream| -> syn::Result<Expr> {
                    let e: Expr = i.parse()?;
                    let _: TokenStream = i.parse()?;
                    Ok(e)
                };
                let e = p.parse2(m.tokens.clone()).map_err(|e| e.to_string())?;
                parse_quote!(vcheck(#e))
            }
            "vec" if m.tokens.is_empty() => parse_quote!(Vec::new()),
            "vec" => return Ok(None),
            n => return Err(format!("macro {}!", n)),
        }))
    }

    /// the sequence walked over, and whether its elements come by value
    fn iterated(e: &Expr) -> Option<(Expr, bool)> {
        match e {
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                let r = &m.receiver;
                Some((parse_quote!(& #r), false))
            }
            Expr::MethodCall(m) if m.method == "chars" && m.args.is_empty() => {
                let r = &m.receiver;
                Some((parse_quote!(& chars_vec(& #r)), true))
            }
            Expr::Reference(r) if r.mutability.is_none() && !matches!(&*r.expr, Expr::Index(_)) => Some((e.clone(), false)),
            Expr::Paren(p) => Self::iterated(&p.expr),
            _ => None,
        }
    }

    fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
        if let Expr::Closure(c) = e {
            if c.inputs.len() == 1 {
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                return Some((p, (*c.body).clone()));
            }
        }
        None
    }

    fn pieces(m: &ExprMethodCall) -> Option<(ExprMethodCall, String)> {
        match &*m.receiver {
            Expr::MethodCall(x) => Some((x.clone(), x.method.to_string())),
            _ => None,
        }
    }

    /// a loop over the sequence under `r` (map, filter, filter_map), into a vector or a string
    fn walk(&mut self, r: &ExprMethodCall, how: &str) -> Option<Expr> {
        if r.args.len() != 1 {
            return None;
        }
        let name = r.method.to_string();
        // a sequence used up
        let used = match &*r.receiver {
            Expr::MethodCall(m) if m.method == "drain" && m.args.is_empty() => {
                let x = &m.receiver;
                Some(parse_quote!(map_drain(&mut #x)))
            }
            Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => Some((*m.receiver).clone()),
            _ => None,
        };
        if let Some(x) = used {
            let x: Expr = x;
            let (v, o, s) = (self.fresh("v"), self.fresh("o"), self.fresh("s"));
            let (p, f) = Self::closure1(&r.args[0])?;
            let body: Vec<Stmt> = match (name.as_str(), how) {
                ("map", "vec") => parse_quote!(let #p = #v.remove(0); let #s = #f; #o.push(#s);),
                ("map", "flatten") => parse_quote!(let #p = #v.remove(0); let #s = #f; vec_append(&mut #o, #s);),
                ("map", "concat") => parse_quote!(let #p = #v.remove(0); let #s = #f; #o.push_str(& #s);),
                ("filter_map", "vec") => parse_quote!(let #p = #v.remove(0); if let Some(#s) = #f { #o.push(#s); }),
                ("filter", "vec") => parse_quote!(let #s = #v.remove(0); let #p = & #s; if #f { #o.push(#s); }),
                _ => return None,
            };
            let empty: Expr = if how == "concat" { parse_quote!(String::new()) } else { parse_quote!(Vec::new()) };
            return Some(parse_quote!({
                let mut #v = #x; let mut #o = #empty;
                while #v.len() > 0 { #(#body)* }
                #o
            }));
        }
        let (it, by_value) = Self::iterated(&r.receiver)?;
        let (v, k, o, s) = (self.fresh("v"), self.fresh("k"), self.fresh("o"), self.fresh("s"));
        let get: Expr = if by_value { parse_quote!(#v[#k]) } else { parse_quote!(& #v[#k]) };
        let empty: Expr = if how == "concat" { parse_quote!(String::new()) } else if how == "count" { parse_quote!(0usize) } else { parse_quote!(Vec::new()) };
        let add = |x: Expr| -> Stmt {
            match how {
                "concat" => parse_quote!(#o.push_str(& #x);),
                "flatten" => parse_quote!(vec_append(&mut #o, #x);),
                "count" => parse_quote!(#o += 1;),
                _ => parse_quote!(#o.push(#x);),
            }
        };
        let body: Vec<Stmt> = match name.as_str() {
            "map" => {
                let push = add(parse_quote!(#s));
                match Self::closure1(&r.args[0]) {
                    Some((p, f)) => parse_quote!(let #p = #get; #k += 1; let #s = #f; #push),
                    None => {
                        let f = &r.args[0];
                        if !matches!(f, Expr::Path(_)) {
                            return None;
                        }
                        parse_quote!(let #s = #f(#get); #k += 1; #push)
                    }
                }
            }
            "filter_map" => {
                let (p, f) = Self::closure1(&r.args[0])?;
                let push = add(parse_quote!(#s));
                parse_quote!(let #p = #get; #k += 1; if let Some(#s) = #f { #push })
            }
            "filter" => {
                let (p, f) = Self::closure1(&r.args[0])?;
                let push = add(parse_quote!(#s));
                parse_quote!(let #s = #get; #k += 1; let #p = & #s; if #f { #push })
            }
            _ => return None,
        };
        Some(parse_quote!({
            let #v = #it; let mut #k: usize = 0; let mut #o = #empty;
            while #k < #v.len() { #(#body)* }
            #o
        }))
    }

    /// an iterator expression as the vector of what it yields
    fn eager(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "map" | "filter" | "filter_map" => self.walk(m, "vec"),
                    "flat_map" if m.args.len() == 1 => {
                        let mut r = m.clone();
                        r.method = parse_quote!(map);
                        self.walk(&r, "flatten")
                    }
                    "flatten" if m.args.is_empty() => {
                        let (r, name) = Self::pieces(m)?;
                        if name == "map" {
                            return self.walk(&r, "flatten");
                        }
                        None
                    }
                    "chain" if m.args.len() == 1 => {
                        let a = self.eager(&m.receiver)?;
                        let b = self.eager(&m.args[0])?;
                        Some(parse_quote!(vec_chain(#a, #b)))
                    }
                    "chars" if m.args.is_empty() => {
                        let r = &m.receiver;
                        Some(parse_quote!(chars_vec(& #r)))
                    }
                    "into_iter" if m.args.is_empty() => match &*m.receiver {
                        Expr::Macro(x) if x.mac.path.is_ident("vec") => Some((*m.receiver).clone()),
                        _ => None,
                    },
                    _ => None,
                }
            }
            Expr::Call(c) => {
                if nows(&ts(&c.func)).ends_with("iter::once") && c.args.len() == 1 {
                    let x = &c.args[0];
                    return Some(parse_quote!(vec_once(#x)));
                }
                None
            }
            _ => None,
        }
    }

    /// method chains over a sequence
    fn chain(&mut self, e: &Expr) -> Option<Expr> {
        let m = match e {
            Expr::MethodCall(m) => m,
            _ => return None,
        };
        let n = m.method.to_string();
        if n == "concat" && m.args.is_empty() {
            let (c, name) = Self::pieces(m)?;
            if name == "collect" && c.args.is_empty() {
                let (r, _) = Self::pieces(&c)?;
                return self.walk(&r, "concat");
            }
            return None;
        }
        if n == "collect" && m.args.is_empty() {
            let r = self.eager(&m.receiver);
            // text collected from characters or strings
            let text = m.turbofish.as_ref().map(|t| nows(&ts(t)).contains("String")).unwrap_or(false);
            if text {
                return None;
            }
            return r;
        }
        if n == "count" && m.args.is_empty() {
            let (r, name) = Self::pieces(m)?;
            if name == "chars" || name == "iter" {
                let (it, _) = Self::iterated(&m.receiver)?;
                return Some(parse_quote!((#it).len()));
            }
            return self.walk(&r, "count");
        }
        if n == "chain" || n == "flatten" || n == "flat_map" {
            return self.eager(e);
        }
        if n == "into_iter" {
            return self.eager(e);
        }
        if (n == "filter" || n == "filter_map") && m.args.len() == 1 {
            let x = self.eager(e)?;
            return Some(parse_quote!(cursor(#x)));
        }
        if (n == "any" || n == "all" || n == "find" || n == "position") && m.args.len() == 1 {
            let (p, f) = Self::closure1(&m.args[0])?;
            let (it, by_value) = Self::iterated(&m.receiver)?;
            let (v, k, o) = (self.fresh("v"), self.fresh("k"), self.fresh("o"));
            let get: Expr = if by_value { parse_quote!(#v[#k]) } else { parse_quote!(& #v[#k]) };
            if n == "any" {
                return Some(parse_quote!({
                    let #v = #it; let mut #k: usize = 0; let mut #o = false;
                    while #k < #v.len() && !#o { let #p = #get; #k += 1; #o = #f; }
                    #o
                }));
            }
            if n == "all" {
                return Some(parse_quote!({
                    let #v = #it; let mut #k: usize = 0; let mut #o = true;
                    while #k < #v.len() && #o { let #p = #get; #k += 1; #o = #f; }
                    #o
                }));
            }
            if n == "find" {
                let c = self.fresh("c");
                return Some(parse_quote!({
                    let #v = #it; let mut #k: usize = 0; let mut #o = None;
                    while #k < #v.len() && #o.is_none() { let #c = #get; #k += 1; let #p = &#c; if #f { #o = Some(#c); } }
                    #o
                }));
            }
            if n == "position" {
                return Some(parse_quote!({
                    let #v = #it; let mut #k: usize = 0; let mut #o = None;
                    while #k < #v.len() && #o.is_none() { let #p = #get; if #f { #o = Some(#k); } #k += 1; }
                    #o
                }));
            }
        }
        None
    }

    /// X[a..b] on texts
    fn slicing(e: &Expr) -> Option<Expr> {
        let ix = match e {
            Expr::Index(ix) => ix,
            _ => return None,
        };
        let r = match &*ix.index {
            Expr::Range(r) => r,
            Expr::Paren(p) => match &*p.expr {
                Expr::Range(r) => r,
                _ => return None,
            },
            _ => return None,
        };
        let x = &ix.expr;
        match (&r.start, &r.end, &r.limits) {
            (None, None, _) => Some(parse_quote!(slice_all(& #x))),
            (Some(a), None, _) => Some(parse_quote!(slice_from(& #x, #a))),
            (None, Some(b), RangeLimits::HalfOpen(_)) => Some(parse_quote!(slice_to(& #x, #b))),
            (Some(a), Some(b), RangeLimits::HalfOpen(_)) => Some(parse_quote!(slice_range(& #x, #a, #b))),
            _ => None,
        }
    }
}

impl VisitMut for Rw {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.arith {
            if let Expr::Binary(b) = e {
                let (l, r) = (&b.left, &b.right);
                let own = self.own.contains(&nows(&ts(l)));
                let x: Option<Expr> = match b.op {
                    BinOp::Add(_) => Some(parse_quote!(v_add(#l, #r))),
                    BinOp::Sub(_) => Some(parse_quote!(v_sub(#l, #r))),
                    BinOp::Mul(_) => Some(parse_quote!(v_mul(#l, #r))),
                    BinOp::AddAssign(_) if !own => Some(parse_quote!(#l = v_add(#l, #r))),
                    BinOp::SubAssign(_) if !own => Some(parse_quote!(#l = v_sub(#l, #r))),
                    _ => None,
                };
                if let Some(x) = x {
                    *e = x;
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
        }
        // text compared with a literal
        if let Expr::Binary(b) = e {
            let lit = |e: &Expr| matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
            let (l, r) = (&b.left, &b.right);
            if lit(l) || lit(r) {
                let x: Option<Expr> = match b.op {
                    BinOp::Eq(_) => Some(parse_quote!(str_eq(& #l, & #r))),
                    BinOp::Ne(_) => Some(parse_quote!(! str_eq(& #l, & #r))),
                    _ => None,
                };
                if let Some(x) = x {
                    *e = x;
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
        }
        if let Expr::Match(m) = e {
            if let Some(x) = self.text_match(m) {
                *e = x;
                visit_mut::visit_expr_mut(self, e);
                return;
            }
        }
        if let Expr::Macro(m) = e {
            match self.mac(&m.mac.clone()) {
                Ok(Some(x)) => {
                    *e = x;
                    // arguments may hold further macros or chains
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
                Ok(None) => {}
                Err(x) => self.fail(x),
            }
            return;
        }
        if let Some(x) = self.chain(e) {
            *e = x;
            visit_mut::visit_expr_mut(self, e);
            return;
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() {
                if let Some(x) = Self::slicing(&r.expr) {
                    *e = x;
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
        }
        if let Some(x) = Self::slicing(e) {
            *e = parse_quote!((*#x));
            visit_mut::visit_expr_mut(self, e);
            return;
        }
        if let Expr::MethodCall(m) = e {
            // sorting by a key: the keys, then a rearrangement by them
            if ["sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"].contains(&m.method.to_string().as_str()) && m.args.len() == 1 {
                if let Some((p, f)) = Self::closure1(&m.args[0]) {
                    let x = &m.receiver;
                    let (v, k, o, s) = (self.fresh("v"), self.fresh("k"), self.fresh("o"), self.fresh("s"));
                    *e = parse_quote!({
                        let #v = & #x; let mut #k: usize = 0; let mut #o = Vec::new();
                        while #k < #v.len() { let #p = & #v[#k]; #k += 1; let #s = #f; #o.push(#s); }
                        sort_with_keys(&mut #x, #o)
                    });
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
            // binary search by a key: the keys, then a search among them
            if m.method == "binary_search_by_key" && m.args.len() == 2 {
                if let Some((p, f)) = Self::closure1(&m.args[1]) {
                    let (x, y) = (&m.receiver, &m.args[0]);
                    let (v, k, o, s) = (self.fresh("v"), self.fresh("k"), self.fresh("o"), self.fresh("s"));
                    *e = parse_quote!({
                        let #v = & #x; let mut #k: usize = 0; let mut #o = Vec::new();
                        while #k < #v.len() { let #p = & #v[#k]; #k += 1; let #s = #f; #o.push(#s); }
                        search_keys(&#o, #y)
                    });
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
            // stops the program unless there is a value
            if (m.method == "unwrap" && m.args.is_empty()) || (m.method == "expect" && m.args.len() == 1) {
                let r = &m.receiver;
                *e = parse_quote!(vunwrap(#r));
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            if m.method == "map_err" && m.args.len() == 1 {
                if let Some((p, f)) = Self::closure1(&m.args[0]) {
                    let r = &m.receiver;
                    let (x, z) = (self.fresh("x"), self.fresh("er"));
                    *e = match p {
                        Pat::Wild(_) => parse_quote!(match #r { Ok(#x) => Ok(#x), Err(_) => Err(#f) }),
                        p => parse_quote!(match #r { Ok(#x) => Ok(#x), Err(#z) => { let #p = #z; Err(#f) } }),
                    };
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
            if m.method == "and_then" && m.args.len() == 1 {
                if let Some((p, f)) = Self::closure1(&m.args[0]) {
                    let r = &m.receiver;
                    *e = parse_quote!(match #r { Some(#p) => #f, None => None });
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
            // X.map(|p| F).unwrap_or(D) on an Option
            if m.method == "unwrap_or" && m.args.len() == 1 {
                if let Expr::MethodCall(i) = &*m.receiver {
                    if i.method == "map" && i.args.len() == 1 {
                        if let Some((p, f)) = Self::closure1(&i.args[0]) {
                            let (r, d) = (&i.receiver, &m.args[0]);
                            *e = parse_quote!(match #r { Some(#p) => #f, None => #d });
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                }
            }
            if m.method == "map_or" && m.args.len() == 2 {
                if let Some((p, f)) = Self::closure1(&m.args[1]) {
                    let (r, d) = (&m.receiver, &m.args[0]);
                    *e = parse_quote!(match #r { Some(#p) => #f, None => #d });
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
            // .map(|p| F) where the receiver can only be an Option
            if m.method == "map" && m.args.len() == 1 {
                let opt = match &*m.receiver {
                    Expr::MethodCall(i) => ["get", "next", "first", "last", "pop", "peek", "as_ref", "find", "rfind"].contains(&i.method.to_string().as_str()),
                    _ => false,
                };
                if let (true, Some((p, f))) = (opt, Self::closure1(&m.args[0])) {
                    let r = &m.receiver;
                    *e = parse_quote!(match #r { Some(#p) => Some(#f), None => None });
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
            if ["splitn", "rsplitn", "split", "lines", "repeat", "find", "rfind", "starts_with", "ends_with", "trim"].contains(&m.method.to_string().as_str()) && !m.args.iter().any(|a| matches!(a, Expr::Closure(_))) {
                let f = format_ident!("str_{}", m.method);
                let (r, a) = (&m.receiver, m.args.iter());
                *e = parse_quote!(#f(& #r #(, #a)*));
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            if m.method == "to_string" && m.args.is_empty() {
                let r = &m.receiver;
                *e = parse_quote!(shown_string(& #r));
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            // characters taken one by one
            if m.method == "chars" && m.args.is_empty() {
                let r = &m.receiver;
                *e = parse_quote!(cursor(chars_vec(& #r)));
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            if (m.method == "into" || m.method == "to_owned") && m.args.is_empty() {
                if let Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) = &*m.receiver {
                    let r = &m.receiver;
                    *e = if m.method == "into" { parse_quote!(conv(#r)) } else { parse_quote!(shown_string(& #r)) };
                    return;
                }
            }
            if m.method == "replace" && m.args.len() == 2 {
                let (r, a, b) = (&m.receiver, &m.args[0], &m.args[1]);
                *e = parse_quote!(str_replace(& #r, #a, #b));
                visit_mut::visit_expr_mut(self, e);
                return;
            }
        }
        if let Expr::Call(c) = e {
            if nows(&ts(&c.func)) == "String::from" && c.args.len() == 1 {
                let a = &c.args[0];
                *e = parse_quote!(shown_string(& #a));
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            if nows(&ts(&c.func)) == "str::replace" {
                c.func = parse_quote!(str_replace);
            }
        }
        // whole-vector operations
        if let Expr::MethodCall(m) = e {
            let is = |x: &Expr, n: &str| -> Option<Expr> {
                match x {
                    Expr::MethodCall(c) if c.method == n && c.args.is_empty() => Some((*c.receiver).clone()),
                    _ => None,
                }
            };
            if m.method == "extend" && m.args.len() == 1 {
                let plain = matches!(&m.args[0], Expr::Path(_)).then(|| m.args[0].clone());
                if let Some(w) = is(&m.args[0], "into_iter").or(plain) {
                    let v = &m.receiver;
                    *e = parse_quote!(vec_extend(&mut #v, #w));
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
            if m.method == "collect" && m.args.is_empty() {
                if let Some(v) = is(&m.receiver, "unique").and_then(|u| is(&u, "into_iter")) {
                    *e = parse_quote!(vec_unique(#v));
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
        }
        // X.map(|x| { ..mutation.. }) on a Result: the contract file says where
        if let Expr::MethodCall(m) = e {
            if m.method == "map" && m.args.len() == 1 {
                if let Some((p, f)) = Self::closure1(&m.args[0]) {
                    if matches!(f, Expr::Block(_)) {
                        let r = &m.receiver;
                        let (x, er) = (self.fresh("x"), self.fresh("er"));
                        *e = parse_quote!(match #r { Ok(#x) => { let #p = #x; Ok(#f) } Err(#er) => Err(#er) });
                    }
                }
            }
        }
        // a pattern `&P` is not in the verifier's language: P, and its (copied) bindings dereferenced
        if let Expr::Match(m) = e {
            for arm in m.arms.iter_mut() {
                if let Pat::Reference(r) = &arm.pat {
                    if arm.guard.is_some() {
                        continue;
                    }
                    struct Ids(Vec<Ident>);
                    impl VisitMut for Ids {
                        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
                            self.0.push(p.ident.clone());
                        }
                    }
                    let mut ids = Ids(vec![]);
                    let mut p = (*r.pat).clone();
                    ids.visit_pat_mut(&mut p);
                    let ids = ids.0;
                    let body = &arm.body;
                    let nb: Expr = parse_quote!({ #(let #ids = *#ids;)* #body });
                    arm.pat = p;
                    arm.body = Box::new(nb);
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() > 2 && p.segments[0].ident == "std" && p.segments[1].ident == "collections" {
            let l = p.segments.last().unwrap().clone();
            p.leading_colon = None;
            p.segments = std::iter::once(l).collect();
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            // while let P = E { B }: loop { let P = match E { P => .., _ => break }; B }
            if let Stmt::Expr(Expr::While(w), _) = &s {
                if let Expr::Let(l) = &*w.cond {
                    let mut inner = (*l.pat).clone();
                    let mut b = Binds(vec![]);
                    b.visit_pat_mut(&mut inner);
                    let (ids, muts): (Vec<Ident>, Vec<Option<Token![mut]>>) = b.0.into_iter().unzip();
                    let (ex, body, label) = (&l.expr, &w.body.stmts, w.label.iter());
                    let first: Stmt = if ids.is_empty() {
                        parse_quote!(match #ex { #inner => {} _ => break, };)
                    } else {
                        let outer = ids.iter().zip(&muts).map(|(i, m)| quote!(#m #i));
                        if ids.len() == 1 {
                            parse_quote!(let #(#outer)* = match #ex { #inner => #(#ids)*, _ => break, };)
                        } else {
                            parse_quote!(let (#(#outer),*) = match #ex { #inner => (#(#ids),*), _ => break, };)
                        }
                    };
                    s = Stmt::Expr(parse_quote!(#(#label)* loop { #first #(#body)* }), None);
                }
            }
            let (e, _semi) = match &s {
                Stmt::Item(Item::Use(_)) => continue,
                Stmt::Expr(e @ Expr::ForLoop(_), semi) => (e.clone(), semi.is_some()),
                Stmt::Macro(m) => {
                    let mm = ExprMacro { attrs: vec![], mac: m.mac.clone() };
                    let tail = m.semi_token.is_none();
                    out.push(if tail { Stmt::Expr(Expr::Macro(mm), None) } else { Stmt::Expr(Expr::Macro(mm), Some(Default::default())) });
                    continue;
                }
                _ => {
                    out.push(s);
                    continue;
                }
            };
            if let Expr::ForLoop(f) = e {
                let pat = &f.pat;
                let body = &f.body.stmts;
                let label = f.label.iter();
                if let Some((it, by_value)) = Self::iterated(&f.expr) {
                    let (v, k) = (self.fresh("v"), self.fresh("k"));
                    let get: Expr = if by_value { parse_quote!(#v[#k]) } else { parse_quote!(& #v[#k]) };
                    out.push(parse_quote!(let #v = #it;));
                    out.push(parse_quote!(let mut #k: usize = 0;));
                    let w: Expr = parse_quote!(#(#label)* while #k < #v.len() { let #pat = #get; #k += 1; #(#body)* });
                    out.push(Stmt::Expr(w, None));
                } else if let Expr::Range(r) = &*f.expr {
                    let (a, z) = (r.start.clone(), r.end.clone());
                    match (a, z, &r.limits) {
                        (Some(a), Some(z), RangeLimits::HalfOpen(_)) => {
                            let (k, en) = (self.fresh("k"), self.fresh("e"));
                            out.push(parse_quote!(let #en = #z;));
                            out.push(parse_quote!(let mut #k = #a;));
                            let w: Expr = parse_quote!(#(#label)* while #k < #en { let #pat = #k; #k += 1; #(#body)* });
                            out.push(Stmt::Expr(w, None));
                        }
                        _ => {
                            self.fail("for over an open range".into());
                        }
                    }
                } else {
                    // a vector by value
                    let ex = &f.expr;
                    let v = self.fresh("v");
                    out.push(parse_quote!(let mut #v = #ex;));
                    let w: Expr = parse_quote!(#(#label)* while #v.len() > 0 { let #pat = #v.remove(0); #(#body)* });
                    out.push(Stmt::Expr(w, None));
                }
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
}

/// the names a pattern binds; `mut` taken off them
struct Binds(Vec<(Ident, Option<Token![mut]>)>);
impl VisitMut for Binds {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        self.0.push((p.ident.clone(), p.mutability.take()));
        if let Some((_, s)) = &mut p.subpat {
            self.visit_pat_mut(s);
        }
    }
}

/// Numbers the loops in order and plants markers.
pub struct Mark {
    pub n: usize,
}
impl VisitMut for Mark {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let is_loop = matches!(&s, Stmt::Expr(Expr::While(_) | Expr::Loop(_), _));
            if is_loop {
                self.n += 1;
                let n = Lit::Int(LitInt::new(&self.n.to_string(), Span::call_site()));
                out.push(parse_quote!(vf_before!(#n);));
                if let Stmt::Expr(e, _) = &mut s {
                    let body = match e {
                        Expr::While(w) => &mut w.body,
                        Expr::Loop(l) => &mut l.body,
                        _ => unreachable!(),
                    };
                    if let Some(Stmt::Expr(_, semi)) = body.stmts.last_mut() {
                        if semi.is_none() {
                            *semi = Some(Default::default());
                        }
                    }
                    body.stmts.insert(0, parse_quote!(vf_inv!(#n);));
                    body.stmts.push(parse_quote!(vf_tail!(#n);));
                }
                visit_mut::visit_stmt_mut(self, &mut s);
                out.push(s);
                out.push(parse_quote!(vf_after!(#n);));
            } else {
                visit_mut::visit_stmt_mut(self, &mut s);
                out.push(s);
            }
        }
        b.stmts = out;
    }
}

/// lines, so that the verifier's messages point somewhere useful
pub fn pretty(s: &str) -> String {
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut in_str = false;
    while i < cs.len() {
        let c = cs[i];
        if in_str {
            out.push(c);
            if c == '\\' {
                i += 1;
                out.push(cs[i]);
            } else if c == '"' {
                in_str = false;
            }
        } else if c == '\'' && i + 2 < cs.len() && (cs[i + 2] == '\'' || cs[i + 1] == '\\') {
            // a character literal
            let mut j = i + 1;
            if cs[j] == '\\' {
                j += 1;
            }
            j += 1;
            while cs[j] != '\'' {
                j += 1;
            }
            out.extend(&cs[i..=j]);
            i = j;
        } else {
            out.push(c);
            match c {
                '"' => in_str = true,
                ';' | '{' | '}' => out.push('\n'),
                _ => {}
            }
        }
        i += 1;
    }
    out
}

fn strip_type(it: &Item) -> String {
    struct S;
    impl VisitMut for S {
        fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
            a.clear();
        }
        fn visit_visibility_mut(&mut self, v: &mut Visibility) {
            *v = Visibility::Inherited;
        }
        fn visit_field_mut(&mut self, f: &mut Field) {
            f.attrs.clear();
            f.vis = parse_quote!(pub);
            visit_mut::visit_type_mut(self, &mut f.ty);
        }
    }
    let mut it = it.clone();
    match &mut it {
        Item::Struct(s) => {
            S.visit_item_struct_mut(s);
            s.vis = parse_quote!(pub);
        }
        Item::Enum(e) => {
            S.visit_item_enum_mut(e);
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.vis = Visibility::Inherited;
                    f.attrs.clear();
                }
            }
            e.vis = parse_quote!(pub);
        }
        _ => {}
    }
    ts(&it)
}

pub fn run(v: &Value) -> R<Value> {
    let file = parse_file(v["src"].as_str().unwrap()).map_err(|e| e.to_string())?;
    let path = v["path"].as_str().unwrap();
    match v["kind"].as_str().unwrap() {
        "list" => {
            // the functions of a file, outside test modules
            let mut out = vec![];
            fn go(items: &[Item], pre: &str, out: &mut Vec<Value>) {
                for it in items {
                    match it {
                        Item::Fn(f) => out.push(json!({"path": format!("{}{}", pre, f.sig.ident), "generics": ts(&f.sig.generics), "where": ts(&f.sig.generics.where_clause), "inputs": f.sig.inputs.iter().map(ts).collect::<Vec<_>>()})),
                        Item::Mod(m) if m.ident != "tests" && m.ident != "test" => {
                            if let Some((_, its)) = &m.content {
                                go(its, &format!("{}{}::", pre, m.ident), out);
                            }
                        }
                        _ => {}
                    }
                }
            }
            go(&file.items, "", &mut out);
            Ok(json!({"fns": out}))
        }
        "type" => {
            let it = find_type(&file.items, path).ok_or(format!("no type {}", path))?;
            let attrs = match it {
                Item::Struct(s) => &s.attrs,
                Item::Enum(e) => &e.attrs,
                _ => return Err(format!("{} is not a struct or enum", path)),
            };
            let mut derives: Vec<String> = vec![];
            for a in attrs {
                if a.path().is_ident("derive") {
                    let _ = a.parse_nested_meta(|m| {
                        derives.push(m.path.segments.last().unwrap().ident.to_string());
                        Ok(())
                    });
                }
            }
            Ok(json!({"text": pretty(&strip_type(it)), "derives": derives}))
        }
        "fn" => {
            let mut f = find_fn(&file.items, path).ok_or(format!("no function {}", path))?;
            struct A;
            impl VisitMut for A {
                fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
                    a.clear();
                }
                fn visit_stmt_mut(&mut self, s: &mut Stmt) {
                    visit_mut::visit_stmt_mut(self, s);
                }
            }
            A.visit_block_mut(&mut f.block);
            let mut rw = Rw::new();
            rw.arith = v["arith"].as_bool().unwrap_or(false);
            // an iterator returned is the vector of what it yields
            if let ReturnType::Type(_, t) = &mut f.sig.output {
                if let Type::ImplTrait(it) = &**t {
                    let item = it.bounds.iter().find_map(|b| match b {
                        TypeParamBound::Trait(t) if t.path.segments.last().unwrap().ident == "Iterator" => match &t.path.segments.last().unwrap().arguments {
                            PathArguments::AngleBracketed(a) => a.args.iter().find_map(|x| match x {
                                GenericArgument::AssocType(a) if a.ident == "Item" => Some(a.ty.clone()),
                                _ => None,
                            }),
                            _ => None,
                        },
                        _ => None,
                    });
                    let item = item.ok_or("opaque return type")?;
                    **t = parse_quote!(Vec<#item>);
                    if let Some(Stmt::Expr(e, None)) = f.block.stmts.last_mut() {
                        let x = rw.eager(e).ok_or("opaque iterator")?;
                        *e = x;
                    }
                }
            }
            for a in f.sig.inputs.iter() {
                if let FnArg::Typed(t) = a {
                    if let (Pat::Ident(i), Type::Reference(r)) = (&*t.pat, &*t.ty) {
                        if r.mutability.is_some() && f.sig.ident != "fmt" {
                            rw.outs.insert(i.ident.to_string());
                        }
                    }
                }
            }
            rw.visit_block_mut(&mut f.block);
            rw.visit_signature_mut(&mut f.sig);
            if let Some(e) = rw.err {
                return Err(e);
            }
            // `mut self` is not in the verifier's language
            if let Some(FnArg::Receiver(r)) = f.sig.inputs.first_mut() {
                if r.mutability.is_some() && r.reference.is_none() {
                    r.mutability = None;
                    struct Me;
                    impl VisitMut for Me {
                        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                            if p.path.is_ident("self") {
                                p.path = parse_quote!(self_);
                            }
                        }
                    }
                    Me.visit_block_mut(&mut f.block);
                    f.block.stmts.insert(0, parse_quote!(let mut self_ = self;));
                }
            }
            let mut mk = Mark { n: 0 };
            mk.visit_block_mut(&mut f.block);
            // the statements of the body of the form `if .. { .. return ..; }`: no path goes through two of these blocks
            let mut cuts = 0usize;
            for s in f.block.stmts.iter_mut() {
                if let Stmt::Expr(Expr::If(i), _) = s {
                    if i.else_branch.is_none() && matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) {
                        cuts += 1;
                        let n = Lit::Int(LitInt::new(&cuts.to_string(), Span::call_site()));
                        i.then_branch.stmts.insert(0, parse_quote!(vf_cut!(#n);));
                    }
                }
            }
            let mut params = vec![];
            for a in f.sig.inputs.iter() {
                match a {
                    FnArg::Receiver(r) => params.push(json!(["self", ts(r)])),
                    FnArg::Typed(t) => {
                        let n = match &*t.pat {
                            Pat::Ident(i) => i.ident.to_string(),
                            _ => "_".to_string(),
                        };
                        params.push(json!([n, ts(a)]));
                    }
                }
            }
            let ret = match &f.sig.output {
                ReturnType::Default => "".to_string(),
                ReturnType::Type(_, t) => ts(t),
            };
            let b: Vec<String> = f.block.stmts.iter().map(ts).collect();
            Ok(json!({
                "name": f.sig.ident.to_string(),
                "generics": ts(&f.sig.generics),
                "impl_generics": f.impl_generics,
                "where": ts(&f.sig.generics.where_clause),
                "params": params, "ret": ret,
                "body": pretty(&b.join(" ")), "loops": mk.n, "cuts": cuts,
            }))
        }
        k => Err(format!("kind {}", k)),
    }
}
