// the encoder stores a type which is not one of the format
//~ error: E0277 E0603 E0046
use fleece::*;
use fleece::alloced::*;
use std::sync::Arc;
use fleece::encoder::Encodable;
pub struct Mine;
impl Encodable for Mine { //~ bad
impl Mine { //~ good
    fn fleece_size(&self) -> usize { 2 }
    fn to_sized_value(&self) -> Option<fleece::value::SizedValue> { None }
    fn write_fleece_to<W: std::io::Write>(&self, _: &mut W, _: bool) -> Option<std::num::NonZeroUsize> { None } //~ good
}
