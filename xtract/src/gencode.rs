//! Extraction of a *generated* route module (the text produced by the real
//! generator) into Verus.
//!
//! Kept: every struct, enum, module, `to_path` body and the whole body of
//! `match_route`, statement by statement and in order.
//! Dropped: doc comments, `use` headers, derives, the Debug/Display/Error
//! impls, the `AsRef` generics of `match_route` (path and method are already
//! byte slices).
//! Rewritten (these are the only rewrites; anything else is refused):
//!   match <bytes> { b"..." => A, ..., _ => Z }   -> if lit_k(bytes) { A } .. else { Z }
//!   &path[a..b] == b"..."                        -> lit_k(path, a, b)
//!   std::str::from_utf8(&path[a..b]).unwrap()    -> utf8_text(path, a, b)
//!   x.parse().map_err(|e| Error::fail("n", e))?  -> match parse_text(x, "n") { .. return Err(e) }
//!   format!("..{}..", a)                         -> pushes of the literal pieces and of show(a)
//!   let S { ref a, .. } = self                   -> let a = &self.a
//! Added: loop invariants of the one loop shape (advance a cursor up to the
//! next separator), `decreases`, and the requires/ensures clauses.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use syn::*;

type R<T> = std::result::Result<T, String>;

fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

fn nows(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

struct Cx {
    lits: Vec<Vec<u8>>,
    types: Vec<String>,
    loops: usize,
    prefix: String,
}

impl Cx {
    fn lit(&mut self, b: Vec<u8>) -> usize {
        if let Some(k) = self.lits.iter().position(|x| *x == b) {
            return k;
        }
        self.lits.push(b);
        self.lits.len() - 1
    }
}

fn byte_lit(e: &Expr) -> Option<Vec<u8>> {
    if let Expr::Lit(l) = e {
        if let Lit::ByteStr(b) = &l.lit {
            return Some(b.value());
        }
    }
    None
}

/// `&path[a..b]` -> (path, a, b)
fn slice_expr(e: &Expr) -> Option<(String, String, String)> {
    if let Expr::Reference(r) = e {
        if let Expr::Index(ix) = &*r.expr {
            if let Expr::Range(rg) = &*ix.index {
                if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&rg.start, &rg.end, &rg.limits) {
                    if simple(a) && simple(b) {
                        if let Expr::Path(p) = &*ix.expr {
                            return Some((ts(p), ts(a), ts(b)));
                        }
                    }
                }
            }
        }
    }
    None
}

/// variables, integer literals and + - of them
fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Lit(l) => matches!(l.lit, Lit::Int(_)),
        Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Sub(_)) && simple(&b.left) && simple(&b.right),
        Expr::Paren(p) => simple(&p.expr),
        _ => false,
    }
}

fn cond(cx: &mut Cx, e: &Expr) -> R<String> {
    match e {
        Expr::Binary(b) => match b.op {
            BinOp::And(_) => Ok(format!("({} && {})", cond(cx, &b.left)?, cond(cx, &b.right)?)),
            BinOp::Or(_) => Ok(format!("({} || {})", cond(cx, &b.left)?, cond(cx, &b.right)?)),
            BinOp::Eq(_) | BinOp::Ne(_) => {
                let neg = if matches!(b.op, BinOp::Ne(_)) { "!" } else { "" };
                for (l, r) in [(&b.left, &b.right), (&b.right, &b.left)] {
                    if let (Some((p, x, y)), Some(lit)) = (slice_expr(l), byte_lit(r)) {
                        let k = cx.lit(lit);
                        return Ok(format!("{}lit_{}({}, {}, {})", neg, k, p, x, y));
                    }
                }
                if simple(&b.left) && simple(&b.right) {
                    return Ok(format!("{}", ts(e)));
                }
                Err(format!("comparison {}", ts(e)))
            }
            BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) if simple(&b.left) && simple(&b.right) => Ok(ts(e)),
            _ => Err(format!("condition {}", ts(e))),
        },
        Expr::Paren(p) => cond(cx, &p.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => Ok(format!("!{}", cond(cx, &u.expr)?)),
        _ => Err(format!("condition {}", ts(e))),
    }
}

/// values built of struct/tuple-struct constructors, paths, None
fn ctor(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Call(c) => matches!(&*c.func, Expr::Path(_)) && c.args.iter().all(ctor),
        Expr::Struct(s) => s.rest.is_none() && s.fields.iter().all(|f| ctor(&f.expr)),
        Expr::Paren(p) => ctor(&p.expr),
        _ => false,
    }
}

fn value(cx: &mut Cx, e: &Expr) -> R<String> {
    if simple(e) || ctor(e) {
        return Ok(ts(e));
    }
    if let Expr::If(i) = e {
        let c = cond(cx, &i.cond)?;
        let t = single(&i.then_branch)?;
        let f = match &i.else_branch {
            Some((_, b)) => match &**b {
                Expr::Block(b) => single(&b.block)?,
                _ => return Err("else".into()),
            },
            None => return Err("value if without else".into()),
        };
        return Ok(format!("if {} {{ {} }} else {{ {} }}", c, value(cx, &t)?, value(cx, &f)?));
    }
    Err(format!("value {}", ts(e)))
}

fn single(b: &Block) -> R<Expr> {
    match b.stmts.as_slice() {
        [Stmt::Expr(e, None)] => Ok(e.clone()),
        _ => Err("block as value".into()),
    }
}

/// std::str::from_utf8(&path[a..b]).unwrap()
fn utf8(e: &Expr) -> Option<(String, String, String)> {
    if let Expr::MethodCall(m) = e {
        if m.method == "unwrap" && m.args.is_empty() {
            if let Expr::Call(c) = &*m.receiver {
                let f = nows(&ts(&c.func));
                if (f == "std::str::from_utf8" || f == "str::from_utf8" || f == "core::str::from_utf8") && c.args.len() == 1 {
                    return slice_expr(&c.args[0]);
                }
            }
        }
    }
    None
}

/// text.parse().map_err(|e| Error::fail("id", e))?
fn parse_try(e: &Expr) -> Option<(String, LitStr)> {
    if let Expr::Try(t) = e {
        if let Expr::MethodCall(m) = &*t.expr {
            if m.method == "map_err" && m.args.len() == 1 {
                if let Expr::MethodCall(p) = &*m.receiver {
                    if p.method == "parse" && p.args.is_empty() {
                        if let (Expr::Path(v), Expr::Closure(c)) = (&*p.receiver, &m.args[0]) {
                            if let (1, Pat::Ident(arg), Expr::Call(call)) = (c.inputs.len(), &c.inputs[0], &*c.body) {
                                if nows(&ts(&call.func)) == "Error::fail" && call.args.len() == 2 {
                                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &call.args[0] {
                                        if ts(&call.args[1]) == arg.ident.to_string() {
                                            return Some((ts(v), s.clone()));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    None
}

fn block(cx: &mut Cx, b: &Block, out: &mut String) -> R<()> {
    for s in &b.stmts {
        stmt(cx, s, out)?;
    }
    Ok(())
}

fn stmt(cx: &mut Cx, s: &Stmt, out: &mut String) -> R<()> {
    match s {
        Stmt::Local(l) => {
            let init = l.init.as_ref().ok_or("let without value")?;
            if init.diverge.is_some() {
                return Err("let else".into());
            }
            let (name, mutable) = match &l.pat {
                Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => (p.ident.to_string(), p.mutability.is_some()),
                p => return Err(format!("pattern {}", ts(p))),
            };
            let e = &*init.expr;
            if (name == "path" || name == "method") && nows(&ts(e)) == format!("{}.as_ref()", name) {
                return Ok(());
            }
            if let Some((p, a, b)) = utf8(e) {
                out.push_str(&format!("proof {{ seg_hint({}@, ({}) as int); }}\n", p, a));
                out.push_str(&format!("let {} = utf8_text({}, {}, {});\n", name, p, a, b));
                return Ok(());
            }
            if let Some((t, param)) = parse_try(e) {
                out.push_str(&format!(
                    "let {} = match parse_text({}, {}) {{ Ok(v) => v, Err(e) => return Err(e) }};\n",
                    name,
                    t,
                    ts(&param)
                ));
                return Ok(());
            }
            if nows(&ts(e)) == "path.len()" {
                out.push_str(&format!("let {} = path.len();\n", name));
                return Ok(());
            }
            let v = value(cx, e)?;
            let ty = if name == "i" { ": usize" } else { "" };
            out.push_str(&format!("let {}{}{} = {};\n", if mutable { "mut " } else { "" }, name, ty, v));
            Ok(())
        }
        Stmt::Expr(e, _) => stmt_expr(cx, e, out),
        _ => Err(format!("statement {}", ts(s))),
    }
}

fn stmt_expr(cx: &mut Cx, e: &Expr, out: &mut String) -> R<()> {
    match e {
        Expr::Return(r) => {
            let v = r.expr.as_ref().ok_or("return without value")?;
            if !ctor(v) {
                return Err(format!("return {}", ts(v)));
            }
            out.push_str(&format!("return {};\n", ts(v)));
            Ok(())
        }
        Expr::If(i) => {
            out.push_str(&format!("if {} {{\n", cond(cx, &i.cond)?));
            block(cx, &i.then_branch, out)?;
            match &i.else_branch {
                None => out.push_str("}\n"),
                Some((_, e)) => {
                    out.push_str("} else {\n");
                    stmt_expr(cx, e, out)?;
                    out.push_str("}\n");
                }
            }
            Ok(())
        }
        Expr::Block(b) => {
            out.push_str("{\n");
            block(cx, &b.block, out)?;
            out.push_str("}\n");
            Ok(())
        }
        Expr::Match(m) => {
            let scrut = match (slice_expr(&m.expr), &*m.expr) {
                (Some((p, a, b)), _) => format!("{}, {}, {}", p, a, b),
                (None, Expr::Path(p)) if ts(p) == "method" => "method, 0, method.len()".to_string(),
                _ => return Err(format!("match on {}", ts(&m.expr))),
            };
            // the scrutinee is evaluated (and bounds-checked) once, before any arm
            out.push_str(&format!("slice_ok({});\n", scrut));
            let mut depth = 0;
            let mut wild = false;
            for arm in &m.arms {
                if arm.guard.is_some() || wild {
                    return Err("match arm".into());
                }
                match &arm.pat {
                    Pat::Lit(l) => {
                        let b = match &l.lit {
                            Lit::ByteStr(b) => b.value(),
                            _ => return Err(format!("pattern {}", ts(&arm.pat))),
                        };
                        let k = cx.lit(b);
                        out.push_str(&format!("if lit_{}({}) {{\n", k, scrut));
                        arm_body(cx, &arm.body, out)?;
                        out.push_str("} else {\n");
                        depth += 1;
                    }
                    Pat::Wild(_) => {
                        arm_body(cx, &arm.body, out)?;
                        wild = true;
                    }
                    p => return Err(format!("pattern {}", ts(p))),
                }
            }
            if !wild {
                return Err("match without wildcard".into());
            }
            for _ in 0..depth {
                out.push_str("}\n");
            }
            Ok(())
        }
        Expr::While(w) => {
            // while V < len && &path[V..V+1] != b"/" { V += 1; }
            let c = nows(&ts(&w.cond));
            let var = c.split('<').next().unwrap_or("").to_string();
            let want = format!("{0}<len&&&path[{0}..{0}+1]!=b\"/\"", var);
            let body = nows(&ts(&w.body));
            if c != want || body != format!("{{{}+=1;}}", var) || w.label.is_some() {
                return Err(format!("loop {}", ts(w)));
            }
            let k = cx.loops;
            cx.loops += 1;
            let cond = cond(cx, &w.cond)?;
            out.push_str(&format!(
                "let ghost g{k} = {var} as int;\n#[verifier::loop_isolation(false)]\nwhile {cond}\ninvariant g{k} <= {var} <= len, len == path.len(), seg_end(path@, {var} as int) == seg_end(path@, g{k}), forall|k: int| g{k} <= k < {var} ==> path@[k] != 47u8,\ndecreases len - {var},\n{{\n{var} += 1;\n}}\n",
            ));
            Ok(())
        }
        Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_)) && simple(&b.right) => {
            out.push_str(&format!("{} += {};\n", ts(&b.left), ts(&b.right)));
            Ok(())
        }
        Expr::Assign(a) if simple(&a.right) && matches!(&*a.left, Expr::Path(_)) => {
            out.push_str(&format!("{} = {};\n", ts(&a.left), ts(&a.right)));
            Ok(())
        }
        Expr::Tuple(t) if t.elems.is_empty() => Ok(()),
        _ => {
            if ctor(e) {
                // tail expression
                out.push_str(&format!("return {};\n", ts(e)));
                return Ok(());
            }
            Err(format!("expression {}", ts(e)))
        }
    }
}

fn arm_body(cx: &mut Cx, e: &Expr, out: &mut String) -> R<()> {
    match e {
        Expr::Block(b) => block(cx, &b.block, out),
        _ => stmt_expr(cx, e, out),
    }
}

fn collect_types(t: &Type, cx: &mut Cx) -> R<()> {
    match t {
        Type::Path(p) if p.qself.is_none() => {
            if p.path.segments.len() != 1 {
                return Err(format!("type {}", ts(t)));
            }
            let s = &p.path.segments[0];
            match &s.arguments {
                PathArguments::None => {
                    let n = s.ident.to_string();
                    if !cx.types.contains(&n) {
                        cx.types.push(n);
                    }
                    Ok(())
                }
                PathArguments::AngleBracketed(a) if s.ident == "Option" && a.args.len() == 1 => match &a.args[0] {
                    GenericArgument::Type(t) => collect_types(t, cx),
                    _ => Err("type argument".into()),
                },
                _ => Err(format!("type {}", ts(t))),
            }
        }
        _ => Err(format!("type {}", ts(t))),
    }
}

/// format!("..{}..", a, b) -> literal pieces and arguments
fn format_pieces(tokens: TokenStream) -> R<(Vec<String>, Vec<String>)> {
    let mut parts: Vec<Vec<TokenTree>> = vec![vec![]];
    for t in tokens {
        match &t {
            TokenTree::Punct(p) if p.as_char() == ',' => parts.push(vec![]),
            TokenTree::Group(g) if g.delimiter() != Delimiter::Parenthesis => return Err("format argument".into()),
            _ => parts.last_mut().unwrap().push(t),
        }
    }
    if parts.last().map(|p| p.is_empty()).unwrap_or(false) {
        parts.pop();
    }
    let lit: LitStr = match parts.get(0) {
        Some(p) if p.len() == 1 => syn::parse2(p[0].clone().into()).map_err(|e| e.to_string())?,
        _ => return Err("format string".into()),
    };
    let mut args = vec![];
    for p in &parts[1..] {
        if p.len() != 1 {
            return Err("format argument".into());
        }
        args.push(p[0].to_string());
    }
    let text = lit.value();
    let mut pieces = vec![String::new()];
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' => match it.next() {
                Some('{') => pieces.last_mut().unwrap().push('{'),
                Some('}') => pieces.push(String::new()),
                _ => return Err("format spec".into()),
            },
            '}' => match it.next() {
                Some('}') => pieces.last_mut().unwrap().push('}'),
                _ => return Err("format spec".into()),
            },
            c => pieces.last_mut().unwrap().push(c),
        }
    }
    if pieces.len() != args.len() + 1 {
        return Err("format arity".into());
    }
    Ok((pieces, args))
}

fn byte_args(s: &str) -> String {
    s.bytes().map(|b| format!("{}u8", b)).collect::<Vec<_>>().join(", ")
}

fn to_path_body(f: &ImplItemFn) -> R<String> {
    let mut out = String::new();
    let n = f.block.stmts.len();
    for (k, s) in f.block.stmts.iter().enumerate() {
        match s {
            Stmt::Local(l) => {
                let init = l.init.as_ref().ok_or("let without value")?;
                if ts(&init.expr) != "self" {
                    return Err("to_path let".into());
                }
                match &l.pat {
                    Pat::Struct(ps) if ps.rest.is_none() => {
                        for fp in &ps.fields {
                            match (&fp.member, &*fp.pat) {
                                (Member::Named(m), Pat::Ident(p)) if p.mutability.is_none() && p.subpat.is_none() => {
                                    out.push_str(&format!("let {} = &self.{};\n", p.ident, m));
                                }
                                _ => return Err("to_path pattern".into()),
                            }
                        }
                    }
                    _ => return Err("to_path pattern".into()),
                }
            }
            Stmt::Macro(StmtMacro { mac, semi_token: None, .. }) if k + 1 == n => fmt_value(mac, &mut out)?,
            Stmt::Expr(Expr::Macro(m), None) if k + 1 == n => fmt_value(&m.mac, &mut out)?,
            Stmt::Expr(Expr::Match(m), None) if k + 1 == n && ts(&m.expr) == "self" => {
                out.push_str("match self {\n");
                for arm in &m.arms {
                    let (path, var) = match &arm.pat {
                        Pat::TupleStruct(t) if t.elems.len() == 1 => match &t.elems[0] {
                            Pat::Ident(p) if p.mutability.is_none() && p.subpat.is_none() => (ts(&t.path), p.ident.to_string()),
                            _ => return Err("to_path arm".into()),
                        },
                        _ => return Err("to_path arm".into()),
                    };
                    if arm.guard.is_some() || nows(&ts(&arm.body)) != format!("{}.to_path()", var) {
                        return Err(format!("to_path arm {}", ts(&arm.body)));
                    }
                    out.push_str(&format!("{}({}) => {}.to_path(),\n", path, var, var));
                }
                out.push_str("}\n");
            }
            _ => return Err(format!("to_path statement {}", ts(s))),
        }
    }
    Ok(out)
}

fn fmt_value(mac: &Macro, out: &mut String) -> R<()> {
    if !mac.path.is_ident("format") {
        return Err(format!("macro {}", ts(&mac.path)));
    }
    let (pieces, args) = format_pieces(mac.tokens.clone())?;
    out.push_str("let mut out_ = Text::new();\n");
    for (k, p) in pieces.iter().enumerate() {
        if !p.is_empty() {
            out.push_str(&format!("let ghost lit_ = seq![{}];\nout_.push_lit(Ghost(lit_));\n", byte_args(p)));
        }
        if k < args.len() {
            out.push_str(&format!("out_.push_shown({});\n", args[k]));
        }
    }
    out.push_str("out_\n");
    Ok(())
}

fn self_name(i: &ItemImpl) -> String {
    ts(&i.self_ty)
}

struct ModOut {
    text: String,
    shape: Value,
}

fn module(cx: &mut Cx, items: &[Item], path: &[String], root: bool) -> R<ModOut> {
    let mut text = String::new();
    let mut structs = serde_json::Map::new();
    let mut mods = serde_json::Map::new();
    let mut variants: Vec<Value> = vec![];
    let mut order: Vec<Value> = vec![];
    let mut have_match = false;
    if !root {
        text.push_str("use crate::*;\n");
    }
    for item in items {
        match item {
            Item::Use(_) => {}
            Item::Struct(s) if root && s.ident == "Error" => {}
            Item::Struct(s) => {
                let mut fields = vec![];
                if !s.generics.params.is_empty() {
                    return Err("generic struct".into());
                }
                match &s.fields {
                    Fields::Unit => text.push_str(&format!("pub struct {} {{}}\n", s.ident)),
                    Fields::Named(n) => {
                        text.push_str(&format!("pub struct {} {{\n", s.ident));
                        for f in &n.named {
                            collect_types(&f.ty, cx)?;
                            text.push_str(&format!("pub {}: {},\n", f.ident.as_ref().unwrap(), ts(&f.ty)));
                            fields.push(json!([f.ident.as_ref().unwrap().to_string(), nows(&ts(&f.ty)), matches!(f.vis, Visibility::Public(_))]));
                        }
                        text.push_str("}\n");
                    }
                    _ => return Err("tuple struct".into()),
                }
                order.push(json!(s.ident.to_string()));
                if structs.insert(s.ident.to_string(), json!(fields)).is_some() {
                    return Err("duplicate struct".into());
                }
            }
            Item::Enum(e) if root && e.ident == "Match" => {
                let got = nows(&ts(&e.variants)).trim_end_matches(',').to_string();
                if got != "NotFound,NotAllowed,Route(T),Redirect(T)" {
                    return Err("Match enum".into());
                }
                have_match = true;
                text.push_str("pub enum Match<T> { NotFound, NotAllowed, Route(T), Redirect(T) }\n");
            }
            Item::Enum(e) if e.ident == "Route" => {
                text.push_str("pub enum Route {\n");
                for v in &e.variants {
                    match &v.fields {
                        Fields::Unnamed(u) if u.unnamed.len() == 1 => {
                            let t = nows(&ts(&u.unnamed[0].ty));
                            text.push_str(&format!("{}({}),\n", v.ident, t));
                            variants.push(json!([v.ident.to_string(), t]));
                        }
                        _ => return Err("Route variant".into()),
                    }
                }
                text.push_str("}\n");
            }
            Item::Impl(i) if root && (self_name(i) == "Error" || nows(&self_name(i)) == "Match<T>") => {}
            Item::Impl(i) if i.trait_.is_none() => {
                let name = self_name(i);
                let mut spec = path.join("__");
                if !spec.is_empty() {
                    spec.push_str("__");
                }
                spec.push_str(&name);
                text.push_str(&format!("impl {} {{\n", name));
                for f in &i.items {
                    match f {
                        ImplItem::Fn(f) if f.sig.ident == "to_path" && nows(&ts(&f.sig)) == "fnto_path(&self)->String" => {
                            text.push_str(&format!(
                                "/*@to_path {spec}@*/pub fn to_path(&self) -> (r: Text)\nensures r@ == {prefix}::path__{spec}(*self),\n{{\nbroadcast use vstd::seq::group_seq_axioms;\n{body}}}\n/*@end@*/",
                                spec = spec,
                                prefix = cx.prefix,
                                body = to_path_body(f)?
                            ));
                        }
                        _ => return Err(format!("method {}", ts(f))),
                    }
                }
                text.push_str("}\n");
            }
            Item::Mod(m) if m.content.is_some() => {
                let mut p = path.to_vec();
                p.push(m.ident.to_string());
                let sub = module(cx, &m.content.as_ref().unwrap().1, &p, false)?;
                text.push_str(&format!("pub mod {} {{\n{}}}\n", m.ident, sub.text));
                order.push(json!(m.ident.to_string()));
                if mods.insert(m.ident.to_string(), sub.shape).is_some() {
                    return Err("duplicate module".into());
                }
            }
            Item::Fn(f) if root && f.sig.ident == "match_route" => {}
            _ => return Err(format!("item {}", nows(&ts(item)).chars().take(60).collect::<String>())),
        }
    }
    if root && !have_match {
        return Err("no Match enum".into());
    }
    Ok(ModOut {
        text,
        shape: json!({"structs": structs, "mods": mods, "variants": variants, "order": order}),
    })
}

pub fn extract(src: &str, prefix: &str) -> R<Value> {
    let file = syn::parse_file(src).map_err(|e| format!("generated text is not Rust: {}", e))?;
    let routes = match file.items.as_slice() {
        [Item::Mod(m)] if m.ident == "routes" && m.content.is_some() => m.content.clone().unwrap().1,
        _ => return Err("no routes module".into()),
    };
    let mut cx = Cx {
        lits: vec![],
        types: vec![],
        loops: 0,
        prefix: prefix.to_string(),
    };
    let m = module(&mut cx, &routes, &[], true)?;
    let f = routes
        .iter()
        .find_map(|i| match i {
            Item::Fn(f) if f.sig.ident == "match_route" => Some(f),
            _ => None,
        })
        .ok_or("no match_route")?;
    let want = "fnmatch_route<P:AsRef<[u8]>,M:AsRef<[u8]>>(path:P,method:M,)->Result<Match<Route>,Error>";
    if nows(&ts(&f.sig)) != want {
        return Err(format!("signature {}", ts(&f.sig)));
    }
    let mut body = String::new();
    let mut matcher = Ok(());
    if let Err(e) = block(&mut cx, &f.block, &mut body) {
        matcher = Err(e);
    }
    // the literal-comparison helpers: verified bodies, quantifier-free contracts
    let mut lits = String::new();
    for (k, l) in cx.lits.iter().enumerate() {
        let n = l.len();
        let cmp = |p: &str, cast: &str| {
            let mut s = format!("b - a == {}", n);
            for (j, c) in l.iter().enumerate() {
                s.push_str(&format!(" && {}[a{} + {}] == {}u8", p, cast, j, c));
            }
            s
        };
        lits.push_str(&format!(
            "pub fn lit_{k}(path: &[u8], a: usize, b: usize) -> (r: bool)\nrequires a <= b <= path.len(), // slice in bounds\nensures r == ({}),\n{{\n{}\n}}\n",
            cmp("path@", ""),
            cmp("path", "")
        ));
    }
    Ok(json!({
        "types": m.text,
        "shape": m.shape,
        "opaque": cx.types,
        "lits": lits,
        "body": body,
        "matcher_unsupported": matcher.err(),
    }))
}
