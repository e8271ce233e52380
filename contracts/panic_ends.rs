/// a diverging exit: nothing holds afterwards
#[verifier::external_body]
pub fn vpanic() -> ! ensures false { unimplemented!() }
/// assert!: goes on only if it holds
#[verifier::external_body]
pub fn vcheck(b: bool) ensures b { unimplemented!() }
/// unwrap / expect on an Option or a Result
pub trait Unwrap<T>: Sized {
    spec fn has_val(&self) -> bool;
    spec fn val_is(&self, r: T) -> bool;
    fn vunwrap_(self) -> (r: T) ensures self.val_is(r);
}
impl<T> Unwrap<T> for Option<T> {
    open spec fn has_val(&self) -> bool { *self is Some }
    open spec fn val_is(&self, r: T) -> bool { *self == Some(r) }
    #[verifier::external_body]
    fn vunwrap_(self) -> (r: T) { self.unwrap() }
}
impl<T, E> Unwrap<T> for core::result::Result<T, E> {
    open spec fn has_val(&self) -> bool { *self is Ok }
    open spec fn val_is(&self, r: T) -> bool { *self == Ok::<T, E>(r) }
    #[verifier::external_body]
    fn vunwrap_(self) -> (r: T) { unimplemented!() }
}
pub fn vunwrap<T, U: Unwrap<T>>(u: U) -> (r: T) ensures u.val_is(r) { u.vunwrap_() }
/// what must hold for an operation not to panic
pub open spec fn safe(b: bool) -> bool { true }
