// ---------------------------------------------------------------- what a configuration declares
impl Clone for Param { #[verifier::external_body] fn clone(&self) -> (r: Param) ensures r == *self { unimplemented!() } }
impl Clone for PathSegment { #[verifier::external_body] fn clone(&self) -> (r: PathSegment) ensures r == *self { unimplemented!() } }
impl Clone for Resource { #[verifier::external_body] fn clone(&self) -> (r: Resource) ensures r == *self { unimplemented!() } }
impl Copy for Method {}
impl Clone for Method { #[verifier::external_body] fn clone(&self) -> (r: Method) ensures r == *self { unimplemented!() } }

/// a declared resource where it stands: the segments leading to it and the
/// query parameters of the routes around it, from the outermost in
pub ghost struct Item { pub path: Seq<PathSegment>, pub res: Resource, pub query: Seq<Param> }

pub open spec fn own(res: Seq<Resource>, n: nat, path: Seq<PathSegment>, query: Seq<Param>) -> Multiset<Item>
    decreases n
{
    if n == 0 { Multiset::empty() }
    else {
        let r = res[n - 1];
        let rest = own(res, (n - 1) as nat, path, query);
        if r.is_redirect { rest } else { rest.insert(Item { path, res: r, query }) }
    }
}
/// the non-redirect resources declared by a route and the routes inside it
pub open spec fn items(r: Routes, path: Seq<PathSegment>, outer: Seq<Param>) -> Multiset<Item>
    decreases r, r.routes@.len() + 1
{
    let query = outer + r.query_parameters@;
    own(r.resources@, r.resources@.len(), path, query).add(kids(r, r.routes@.len(), path, query))
}
pub open spec fn kids(r: Routes, n: nat, path: Seq<PathSegment>, query: Seq<Param>) -> Multiset<Item>
    decreases r, n
{
    if n == 0 || n > r.routes@.len() { Multiset::empty() }
    else { kids(r, (n - 1) as nat, path, query).add(items(r.routes@[n - 1].routes, path.push(r.routes@[n - 1].path_segment), query)) }
}
/// the number of routes in a configuration
pub open spec fn size(r: Routes) -> nat
    decreases r, r.routes@.len() + 1
{ 1 + sizes(r, r.routes@.len()) }
pub open spec fn sizes(r: Routes, n: nat) -> nat
    decreases r, n
{ if n == 0 || n > r.routes@.len() { 0 } else { sizes(r, (n - 1) as nat) + size(r.routes@[n - 1].routes) } }

/// the parameters of a path, in order
pub open spec fn params(path: Seq<PathSegment>) -> Seq<Param>
    decreases path.len()
{
    if path.len() == 0 { seq![] }
    else { match path.last() { PathSegment::Dynamic(p) => params(path.drop_last()).push(p), _ => params(path.drop_last()) } }
}
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
pub open spec fn mods(e: Item) -> Seq<Seq<char>> { texts(e.res.modules@) }
pub open spec fn name(e: Item) -> Seq<char> { e.res.name@ }
/// no two non-redirect resources have the same handler
pub open spec fn distinct(all: Multiset<Item>) -> bool {
    &&& forall|e: Item| #[trigger] all.contains(e) ==> all.count(e) == 1
    &&& forall|e: Item, f: Item| #[trigger] all.contains(e) && #[trigger] all.contains(f) && mods(e) == mods(f) && name(e) == name(f) ==> e == f
}
