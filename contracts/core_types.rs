//@type core/mod.rs RouteConfig : Clone PartialEq
//@type core/mod.rs Header : Clone PartialEq Eq Hash
//@type core/mod.rs Routes : Clone PartialEq
//@type core/mod.rs Resource : Clone PartialEq
//@type core/mod.rs NestedRoutes : Clone PartialEq
//@type core/mod.rs PathSegment : Clone PartialEq
//@type core/mod.rs Param : Clone PartialEq
//@type core/mod.rs Method : Clone Copy PartialEq
