//! C11: the registry of scopes
use crate::vp;
use fleece::{Dict, Encoder, Scope, SharedKeys, Value};
use std::sync::Arc;

type Range = core::ops::Range<usize>;

fn range(s: &Arc<Scope>) -> Range {
    match s.range() {
        Some(r) => r,
        None => {
            vp::check(false, "a live scope has a range");
            0..0
        }
    }
}
fn found(s: &Arc<Scope>, at: usize) {
    match Scope::containing(at as *const u8) {
        Some(x) => vp::check(Arc::ptr_eq(s, &x), "the scope which is found for an address is the one whose document it is in"),
        None => vp::check(false, "a scope is found for every address in its document"),
    }
}
fn lost(at: usize) {
    vp::check(Scope::containing(at as *const u8).is_none(), "nothing is found for an address in no document of a live scope");
}
fn document(kind: u8) -> Vec<u8> {
    match kind {
        0 => vec![0x60, 0x00, 0x80, 0x01],
        1 => vec![0x70, 0x00, 0x80, 0x01],
        2 => vec![0x60, 0x02, 0x00, 0x01, 0x00, 0x02, 0x80, 0x03],
        // Not valid, which a scope may be created on as well
        _ => vec![0xFF, 0xFF, 0xFF],
    }
}
fn inside(r: &Range) -> usize {
    let i = vp::any_usize();
    vp::assume(i < r.end - r.start);
    r.start + i
}

pub fn h_c11_one() {
    let kind = vp::any_u8();
    vp::assume(kind < 4);
    let bytes = document(kind);
    lost(bytes.as_ptr() as usize);
    let s = Scope::new(bytes, None);
    let r = range(&s);
    vp::check(s.data().is_some_and(|d| d.as_ptr() as usize == r.start && d.len() == r.end - r.start), "the data of a scope");
    vp::check(s.root().is_some() == (kind < 3), "a scope has a root if its document is valid");
    found(&s, inside(&r));
    let a = vp::any_usize();
    vp::assume(a < r.start || a >= r.end);
    lost(a);
    if vp::any_bool() {
        s.remove();
        lost(r.start);
        // once more does nothing
        s.remove();
        vp::check(s.data().is_some(), "a removed scope keeps its data");
    } else {
        drop(s);
    }
    lost(inside(&r));
    vp::reached("end");
}

pub fn h_c11_others() {
    let s = Scope::new(document(0), None);
    let t = Scope::new(document(2), None);
    let r = range(&s);
    let q = range(&t);
    found(&s, inside(&r));
    found(&t, inside(&q));
    let a = vp::any_usize();
    vp::assume(a < r.start || a >= r.end);
    vp::assume(a < q.start || a >= q.end);
    lost(a);
    if vp::any_bool() {
        s.remove();
    } else {
        drop(s);
    }
    lost(inside(&r));
    found(&t, inside(&q));
    vp::reached("end");
}

/// Every sequence of creating, removing and dropping scopes on documents of their own
fn sequence(n: usize) {
    let mut scopes: [Option<Arc<Scope>>; 3] = [None, None, None];
    let mut ranges: [Range; 3] = [0..0, 0..0, 0..0];
    let mut listed = [false; 3];
    let mut i = 0;
    while i < n {
        let k = usize::from(vp::any_u8());
        vp::assume(k < 3);
        if scopes[k].is_none() {
            // the slots are used in order: others are the same but for names
            vp::assume(k == 0 || ranges[k - 1].end != 0);
            let s = Scope::new(document(k as u8), None);
            ranges[k] = range(&s);
            scopes[k] = Some(s);
            listed[k] = true;
        } else if vp::any_bool() {
            if let Some(s) = &scopes[k] {
                s.remove();
            }
            listed[k] = false;
        } else {
            scopes[k] = None;
            listed[k] = false;
        }
        let mut j = 0;
        while j < 3 {
            if ranges[j].end != 0 {
                let a = ranges[j].start + j;
                match &scopes[j] {
                    Some(s) if listed[j] => {
                        found(s, a);
                        found(s, ranges[j].end - 1);
                    }
                    _ => lost(a),
                }
                lost(ranges[j].end);
                lost(ranges[j].start - 1);
            }
            j += 1;
        }
        i += 1;
    }
    vp::reached("end");
}
pub fn h_c11_sequence() {
    sequence(4);
}
pub fn h_c11_t_sequence() {
    sequence(6);
}

/// Every sequence on one document, which each of them shares
fn same(n: usize) {
    let data: Arc<[u8]> = Arc::from(document(2));
    let at = data.as_ptr() as usize;
    let mut scopes: [Option<Arc<Scope>>; 2] = [None, None];
    // which one is listed: the one which was created last, until it is removed
    let mut listed = 2;
    let mut i = 0;
    while i < n {
        let k = usize::from(vp::any_bool());
        if scopes[k].is_none() {
            scopes[k] = Some(Scope::new(data.clone(), None));
            listed = k;
        } else {
            if vp::any_bool() {
                if let Some(s) = &scopes[k] {
                    s.remove();
                }
            } else {
                scopes[k] = None;
            }
            if listed == k {
                listed = 2;
            }
        }
        let a = at + 3;
        if listed == 2 {
            lost(a);
        } else if let Some(s) = &scopes[listed] {
            found(s, a);
        }
        i += 1;
    }
    vp::reached("end");
}
pub fn h_c11_same() {
    same(5);
}
pub fn h_c11_t_same() {
    same(8);
}

/// Documents without bytes are not listed, and do no harm
pub fn h_c11_empty() {
    let s = Scope::new(Vec::new(), None);
    let t = Scope::new(Vec::new(), None);
    let u = Scope::new(document(0), None);
    vp::check(s.root().is_none(), "an empty document has no root");
    vp::check(s.range().is_some_and(|r| r.is_empty()), "the range of an empty document");
    let r = range(&s);
    lost(r.start);
    found(&u, range(&u).start);
    s.remove();
    t.remove();
    found(&u, range(&u).start);
    drop(s);
    drop(t);
    found(&u, range(&u).start);
    vp::reached("end");
}

// ---- The caller's code, which may use the registry itself
struct Asks;
impl From<Asks> for Arc<[u8]> {
    fn from(_: Asks) -> Self {
        let a: Arc<[u8]> = Arc::from(document(0));
        lost(a.as_ptr() as usize);
        a
    }
}
struct Creates;
impl From<Creates> for Arc<[u8]> {
    fn from(_: Creates) -> Self {
        let s = Scope::new(document(2), None);
        let r = range(&s);
        found(&s, r.start);
        s.remove();
        Arc::from(document(1))
    }
}
struct Drops(Option<Arc<Scope>>);
impl From<Drops> for Arc<[u8]> {
    fn from(mut d: Drops) -> Self {
        if let Some(s) = d.0.take() {
            let at = range(&s).start;
            drop(s);
            lost(at);
        }
        Arc::from(document(1))
    }
}
impl Drop for Drops {
    fn drop(&mut self) {
        lost(1);
    }
}
pub fn h_c11_callback_asks() {
    let s = Scope::new(Asks, None);
    found(&s, range(&s).start);
    vp::reached("end");
}
pub fn h_c11_callback_creates() {
    let s = Scope::new(Creates, None);
    found(&s, range(&s).start);
    vp::reached("end");
}
pub fn h_c11_callback_drops() {
    let t = Scope::new(document(2), None);
    let at = range(&t).start;
    let s = Scope::new(Drops(Some(t)), None);
    found(&s, range(&s).start);
    lost(at);
    vp::reached("end");
}

/// A scope which is only held by what was found
pub fn h_c11_found_last() {
    let s = Scope::new(document(2), None);
    let r = range(&s);
    let Some(t) = Scope::containing((r.start + 1) as *const u8) else {
        vp::check(false, "a scope is found for every address in its document");
        return;
    };
    drop(s);
    found(&t, r.start);
    let u = Scope::new(document(0), None);
    found(&t, r.start);
    drop(t);
    lost(r.start);
    found(&u, range(&u).start);
    // ending it does not end what others hold of its data
    let d = u.data();
    let v = u.root();
    let q = range(&u);
    drop(u);
    lost(q.start);
    vp::check(d.is_some_and(|d| d[0] == 0x60), "data which is held stays");
    vp::check(v.is_some_and(|v| v.as_array().is_some()), "a root which is held stays");
    vp::reached("end");
}

/// The shared keys which are found are those of the scope
pub fn h_c11_keys() {
    let mut docs: [Option<Arc<Scope>>; 2] = [None, None];
    let mut i = 0;
    while i < 2 {
        let mut e = Encoder::new();
        e.set_shared_keys(SharedKeys::new());
        let _ = e.begin_dict();
        let _ = e.write_key(if i == 0 { "abc" } else { "xyz" });
        let _ = e.write_value(i as i64 + 7);
        let _ = e.end_dict();
        docs[i] = Some(e.finish_scoped());
        i += 1;
    }
    if let [Some(s), Some(t)] = &docs {
        vp::check(Scope::find_shared_keys(range(s).start as *const u8).is_some(), "the shared keys of a scope");
        let r = range(t);
        match (s.root(), t.root()) {
            (Some(v), Some(w)) => {
                let get = |d: Option<&Dict>, k: &str| d.and_then(|d| d.get(k)).map(Value::to_int);
                vp::check(get(v.as_dict(), "abc") == Some(7), "a shared key of this scope");
                vp::check(get(v.as_dict(), "xyz").is_none(), "a shared key of another scope");
                vp::check(get(w.as_dict(), "xyz") == Some(8), "a shared key of this scope");
                vp::check(get(w.as_dict(), "abc").is_none(), "a shared key of another scope");
            }
            _ => vp::check(false, "a scope has a root"),
        }
        t.remove();
        vp::check(Scope::find_shared_keys(r.start as *const u8).is_none(), "the shared keys of a removed scope");
    }
    vp::reached("end");
}

/// Each way to look for a scope while others hold it
pub fn h_c11_equal() {
    let s = Scope::new(document(0), None);
    let t = Scope::new(document(0), None);
    vp::check(s == s.clone(), "a scope equals itself");
    vp::check(s != t, "scopes on different documents differ");
    let r = range(&t);
    drop(t);
    found(&s, range(&s).start);
    lost(r.start);
    vp::reached("end");
}
