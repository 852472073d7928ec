// C02: a three-state property (absent / explicitly null / value) survives every operation on it
//@include base.rs
//@rule std :: result :: Result =>> core::result::Result
use vstd::prelude::*;
verus! {
//@item src/common/src/types.rs OptionalProperty
impl<T> OptionalProperty<T> {
//@fn src/common/src/types.rs OptionalProperty::insert | block
//@contract
    ensures *final(self) == OptionalProperty::Some(v),
//@end
//@fn src/common/src/types.rs OptionalProperty::is_none | ret=r block
//@rule matches ! ( self , $$p ) =>> match self { $p => true, _ => false }
//@contract
    ensures r == (*self is None),
//@end
//@fn src/common/src/types.rs OptionalProperty::into | ret=r block
//@contract
    ensures self is None ==> r is None,
        self is Some ==> r is Some && call_ensures(<T as Into<X>>::into, (self->Some_0,), r->Some_0),
//@end
//@fn src/common/src/types.rs OptionalProperty::try_into | ret=r block
//@contract
    ensures self is None ==> r is Ok && r->Ok_0 is None,
        self is Some && r is Ok ==> r->Ok_0 is Some && call_ensures(<T as TryInto<X>>::try_into, (self->Some_0,), Ok(r->Ok_0->Some_0)),
        self is Some && r is Err ==> call_ensures(<T as TryInto<X>>::try_into, (self->Some_0,), Err(r->Err_0)),
//@end
//@fn src/common/src/types.rs OptionalProperty::map | ret=r block
//@contract
    requires self is Some ==> call_requires(f, (self->Some_0,)),
    ensures self is None ==> r is None,
        self is Some ==> r is Some && call_ensures(f, (self->Some_0,), r->Some_0),
//@end
}
//@helpers
} // verus!
fn main() {}
