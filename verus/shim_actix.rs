// ---- texts made with format!
pub uninterp spec fn dec(n: int) -> Seq<char>;
pub trait ZvDisplay { spec fn shown(&self) -> Seq<char>; fn zv_show(&self) -> (r: String) ensures r@ == self.shown(); }
impl ZvDisplay for u64 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn zv_show(&self) -> (r: String) { unimplemented!() } }
impl ZvDisplay for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn zv_show(&self) -> (r: String) { unimplemented!() } }
impl ZvDisplay for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } #[verifier::external_body] fn zv_show(&self) -> (r: String) { unimplemented!() } }
impl ZvDisplay for str { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn zv_show(&self) -> (r: String) { unimplemented!() } }
impl ZvDisplay for String { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn zv_show(&self) -> (r: String) { unimplemented!() } }
impl<'a, T: ZvDisplay + ?Sized> ZvDisplay for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } fn zv_show(&self) -> (r: String) { (**self).zv_show() } }
#[verifier::external_body]
pub fn zv_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn zv_lit(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
