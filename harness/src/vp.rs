//! Functions which the analyser gives a meaning of its own. They have no body to run.
macro_rules! any {
    ($($n:ident: $t:ty),* $(,)?) => { $(
        /// An unconstrained value: the analysis covers all of its values at once.
        #[inline(never)]
        pub fn $n() -> $t { loop {} }
    )* };
}
any! {
    any_u8: u8, any_u16: u16, any_u32: u32, any_u64: u64, any_usize: usize,
    any_i8: i8, any_i16: i16, any_i32: i32, any_i64: i64, any_isize: isize,
    any_f32: f32, any_f64: f64, any_bool: bool,
    // Strings and data of any content with any length
    any_str: &'static str,
    any_bytes: &'static [u8],
    any_char: char,
}
/// The obligation `id`: `cond` has to hold in every state that gets here
#[inline(never)]
pub fn check(cond: bool, id: &'static str) { let _ = (cond, id); loop {} }
/// Restricts the analysis to states in which `cond` holds
#[inline(never)]
pub fn assume(cond: bool) { let _ = cond; loop {} }
/// This point has to be reachable
#[inline(never)]
pub fn reached(id: &'static str) { let _ = id; loop {} }
/// From here on all keys of hash maps have the same hash, so that keys of any content can be looked up
#[inline(never)]
pub fn collide() { loop {} }
