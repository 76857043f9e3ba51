//! The format, described independently of the code which is analysed
use crate::common::target;
use fleece::ValueType;

// What the format prescribes, told independently of the parser. All of it is about the bytes `b[at..end]`.

/// The number at `at`, in as few bytes as it takes, and where it ends
pub fn number(b: &[u8], at: usize, end: usize) -> Option<(usize, usize)> {
    let mut n = 0usize;
    let mut k = 0;
    while k < 5 {
        if at + k >= end {
            return None;
        }
        let x = b[at + k];
        n |= ((x & 0x7F) as usize) << (7 * k);
        k += 1;
        if x < 0x80 {
            return (x > 0 || k == 1).then_some((n, at + k));
        }
    }
    None
}

/// A value there, of which collections are nested no deeper than that
pub fn well(b: &[u8], at: usize, end: usize, deep: usize) -> bool {
    if at + 2 > end {
        return false;
    }
    let low = b[at] & 0x0F;
    match b[at] >> 4 {
        0 => true,
        1 => at + 2 + (low & 7) as usize <= end,
        2 => match low {
            0 | 4 => b[at + 1] == 0 && at + 6 <= end,
            8 => b[at + 1] == 0 && at + 10 <= end,
            _ => false,
        },
        3 => low & 3 == 0 && b[at + 1] == 0,
        4 | 5 => {
            if low < 15 {
                at + 1 + low as usize <= end
            } else {
                match number(b, at + 1, end) {
                    Some((n, from)) => n >= 15 && n <= end - from,
                    None => false,
                }
            }
        }
        6 | 7 => {
            let mut n = ((low & 7) as usize) << 8 | b[at + 1] as usize;
            let mut from = at + 2;
            if n == 0x7FF {
                match number(b, from, end) {
                    Some((m, after)) => {
                        if m < 0x7FF {
                            return false;
                        }
                        n = m;
                        from = after + (after - from) % 2;
                    }
                    None => return false,
                }
            }
            if n == 0 {
                return true;
            }
            let dict = b[at] >> 4 == 7;
            let wide = low & 8 != 0;
            if from > end || deep == 0 {
                return false;
            }
            let width = if wide { 4 } else { 2 };
            if n > (end - from) / (if dict { 2 * width } else { width }) {
                return false;
            }
            let slots = if dict { 2 * n } else { n };
            let mut i = 0;
            while i < slots {
                if !slot(b, from + i * width, wide, dict && i % 2 == 0, deep - 1) {
                    return false;
                }
                i += 1;
            }
            true
        }
        _ => false,
    }
}

/// What a slot holds or refers to
pub fn slot(b: &[u8], at: usize, wide: bool, key: bool, deep: usize) -> bool {
    if b[at] < 0x80 {
        let kind = b[at] >> 4;
        return (!key || kind == 4 || kind == 0 && b[at] < 8) && well(b, at, at + if wide { 4 } else { 2 }, deep);
    }
    match place(b, at, wide) {
        Some((to, end)) => (!key || b[to] >> 4 == 4) && well(b, to, end, deep),
        None => false,
    }
}

/// Where a reference leads, through up to one other, and how far the value there may reach
pub fn place(b: &[u8], at: usize, wide: bool) -> Option<(usize, usize)> {
    if b[at] & 0x40 != 0 {
        return None;
    }
    let to = target(b, at, wide)?;
    if b[to] < 0x80 {
        return Some((to, at));
    }
    if b[to] & 0x40 != 0 || to + 4 > at {
        return None;
    }
    let last = target(b, to, true)?;
    (b[last] < 0x80).then_some((last, to))
}

/// The root of a document, if it is one
pub fn root(b: &[u8]) -> Option<usize> {
    let n = b.len();
    if n < 2 || n % 2 != 0 {
        return None;
    }
    if b[n - 2] < 0x80 {
        return (n == 2 && well(b, 0, 2, 0)).then_some(0);
    }
    let (at, end) = place(b, n - 2, false)?;
    well(b, at, end, 3).then_some(at)
}

pub fn kind(first: u8) -> ValueType {
    match first >> 4 {
        0 => ValueType::Short,
        1 if first & 8 == 0 => ValueType::Int,
        1 => ValueType::UnsignedInt,
        2 => match first & 0x0C {
            0 => ValueType::Float,
            4 => ValueType::Double32,
            _ => ValueType::Double64,
        },
        3 => match first & 0x0C {
            0 => ValueType::Null,
            4 => ValueType::False,
            8 => ValueType::True,
            _ => ValueType::Undefined,
        },
        4 => ValueType::String,
        5 => ValueType::Data,
        6 => ValueType::Array,
        _ => ValueType::Dict,
    }
}


/// Where the value of a slot is, and how far it may reach
pub fn held(b: &[u8], at: usize, wide: bool) -> Option<(usize, usize)> {
    if b[at] < 0x80 {
        Some((at, at + if wide { 4 } else { 2 }))
    } else {
        place(b, at, wide)
    }
}
/// The slots of a collection: where they begin, how many elements or entries, and whether they are wide
pub fn slots(b: &[u8], at: usize, end: usize) -> Option<(usize, usize, bool)> {
    let n = ((b[at] & 7) as usize) << 8 | b[at + 1] as usize;
    let wide = b[at] & 8 != 0;
    if n < 0x7FF {
        return Some((at + 2, n, wide));
    }
    let (n, after) = number(b, at + 2, end)?;
    Some((after + (after - at) % 2, n, wide))
}
/// A number: its value modulo 2^64, and whether it is above zero or may be below
pub fn integer(b: &[u8], at: usize) -> Option<(u64, bool)> {
    match b[at] >> 4 {
        0 => {
            let n = ((b[at] & 0x0F) as u64) << 8 | b[at + 1] as u64;
            Some((if n < 0x800 { n } else { n.wrapping_sub(0x1000) }, true))
        }
        1 => {
            let k = (b[at] & 7) as usize + 1;
            let signed = b[at] & 8 == 0;
            let mut n = 0u64;
            let mut i = 0;
            while i < k {
                n |= (b[at + 1 + i] as u64) << (8 * i);
                i += 1;
            }
            if signed && k < 8 && b[at + k] >= 0x80 {
                n = n.wrapping_sub(1u64 << (8 * k));
            }
            Some((n, signed))
        }
        _ => None,
    }
}
/// The bytes of a string or of data
pub fn content(b: &[u8], at: usize, end: usize) -> Option<&[u8]> {
    let n = (b[at] & 0x0F) as usize;
    if n < 15 {
        b.get(at + 1..at + 1 + n)
    } else {
        let (n, from) = number(b, at + 1, end)?;
        b.get(from..from + n)
    }
}
