//! Sequences of calls of the encoder, next to what each of them should do
use crate::vp;
use fleece::{Dict, Encoder, Value, ValueType};

const MAX: usize = 10;
/// Short ones are stored in their slot, long ones behind a pointer
const SHORT: [&str; MAX] = ["a", "q", "c", "y", "e", "w", "g", "u", "i", "s"];
const LONG: [&str; MAX] = ["ant", "qa", "cat", "yak", "eel", "wasp and a few more", "gnu", "urchin", "ibis", "seal"];

#[derive(Clone, Copy)]
struct Entry {
    key: &'static str,
    /// 0: the number `val`. 1: the collection `val`
    kind: u8,
    val: u32,
}
#[derive(Clone, Copy)]
struct Node {
    dict: bool,
    len: usize,
    entries: [Entry; MAX],
    /// The key which waits for its value
    key: Option<&'static str>,
    parent: usize,
}
pub struct Calls {
    e: Encoder,
    nodes: [Node; MAX],
    n: usize,
    /// The innermost open collection; MAX if there is none
    open: usize,
    step: usize,
    /// Calls which are rejected are not tried
    only_accepted: bool,
}

impl Calls {
    pub fn new(e: Encoder, only_accepted: bool) -> Self {
        let entry = Entry { key: "", kind: 0, val: 0 };
        let node = Node { dict: false, len: 0, entries: [entry; MAX], key: None, parent: MAX };
        Calls { e, nodes: [node; MAX], n: 0, open: MAX, step: 0, only_accepted }
    }

    /// Does a value fit here, and which?
    fn takes_value(&self) -> bool {
        self.open < MAX && (!self.nodes[self.open].dict || self.nodes[self.open].key.is_some())
    }
    fn add(&mut self, kind: u8, val: u32) {
        let o = &mut self.nodes[self.open];
        let key = o.key.take().unwrap_or("");
        o.entries[o.len] = Entry { key, kind, val };
        o.len += 1;
    }
    fn begins(&mut self, dict: bool) {
        let id = self.n;
        if self.open < MAX {
            self.add(1, id as u32);
        }
        self.nodes[id].dict = dict;
        self.nodes[id].parent = self.open;
        self.n += 1;
        self.open = id;
    }
    fn may_begin(&self) -> bool {
        self.n == 0 || self.takes_value()
    }
    fn may_end(&self, dict: bool) -> bool {
        self.open < MAX && self.nodes[self.open].dict == dict && self.nodes[self.open].key.is_none()
    }
    fn may_key(&self) -> bool {
        self.open < MAX && self.nodes[self.open].dict && self.nodes[self.open].key.is_none()
    }

    pub fn op(&mut self, op: u8) {
        let step = self.step;
        self.step += 1;
        let may = match op {
            0 | 1 => self.may_begin(),
            2 => self.may_end(false),
            3 => self.may_end(true),
            4 | 5 => self.may_key(),
            6 | 7 => self.takes_value(),
            _ => self.may_begin(),
        };
        if self.only_accepted {
            vp::assume(may);
        }
        let done = match op {
            0 => self.e.begin_array(step).is_ok(),
            1 => self.e.begin_dict().is_ok(),
            2 => self.e.end_array().is_ok(),
            3 => self.e.end_dict().is_ok(),
            4 => self.e.write_key(SHORT[step]).is_ok(),
            5 => self.e.write_key(LONG[step]).is_ok(),
            6 => {
                let v = vp::any_u8();
                let done = self.e.write_value(v).is_ok();
                if may {
                    self.add(0, u32::from(v));
                }
                done
            }
            7 => {
                let v = vp::any_u32();
                vp::assume(v >= 1 << 24 && v < 1 << 25);
                let done = self.e.write_value(v).is_ok();
                if may {
                    self.add(0, v);
                }
                done
            }
            _ => {
                // The array with nothing but the number 5 in it
                let b = [0x60, 0x01, 0x00, 0x05, 0x80, 0x02];
                match Value::from_bytes(&b) {
                    Ok(v) => self.e.write_fleece(v).is_ok(),
                    Err(_) => {
                        vp::check(false, "the array is read");
                        false
                    }
                }
            }
        };
        if may {
            vp::check(done, "a call which belongs here is accepted");
            match op {
                0 | 1 => self.begins(op == 1),
                2 | 3 => self.open = self.nodes[self.open].parent,
                4 => self.nodes[self.open].key = Some(SHORT[step]),
                5 => self.nodes[self.open].key = Some(LONG[step]),
                6 | 7 => {}
                _ => {
                    self.begins(false);
                    self.add(0, 5);
                    self.open = self.nodes[self.open].parent;
                }
            }
        } else {
            vp::check(!done, "a call out of turn is rejected");
        }
    }

    /// Any call
    pub fn any(&mut self) {
        let op = vp::any_u8();
        vp::assume(op < 9);
        // One path for each
        let mut i = 0;
        while i < 8 && i != op {
            i += 1;
        }
        self.op(i);
    }

    fn entry(&self, e: &Entry, v: Option<&Value>) {
        let Some(v) = v else {
            vp::check(false, "what was written is found");
            return;
        };
        if e.kind == 0 {
            vp::check(v.to_unsigned_int() == u64::from(e.val), "what was written is read");
        } else {
            self.node(e.val as usize, v);
        }
    }
    fn node(&self, id: usize, v: &Value) {
        let n = &self.nodes[id];
        if n.dict {
            let Some(d) = v.as_dict() else {
                vp::check(false, "a dict is read as one");
                return;
            };
            vp::check(d.len() == n.len, "a dict has as many entries as were written");
            let mut i = 0;
            while i < n.len {
                self.entry(&n.entries[i], d.get(n.entries[i].key));
                i += 1;
            }
        } else {
            let Some(a) = v.as_array() else {
                vp::check(false, "an array is read as one");
                return;
            };
            vp::check(a.len() == n.len, "an array has as many elements as were written");
            let mut i = 0;
            while i < n.len {
                self.entry(&n.entries[i], a.get(i));
                i += 1;
            }
        }
    }

    /// Finishes, and compares the document with the calls which were accepted
    pub fn finish(self) {
        let (e, c) = self.split();
        let out = e.finish();
        if c.n == 0 {
            vp::check(out.is_empty(), "there is no document without a collection");
            return;
        }
        vp::check(out.len() % 2 == 0, "the length is even");
        match Value::from_bytes(&out) {
            Ok(v) => {
                c.node(0, v);
                vp::reached("a document");
            }
            Err(_) => vp::check(false, "the document is accepted"),
        }
    }
    fn split(self) -> (Encoder, Calls) {
        let Calls { e, nodes, n, open, step, only_accepted } = self;
        (e, Calls { e: Encoder::new(), nodes, n, open, step, only_accepted })
    }
    /// The same, in one of the other ways of finishing
    pub fn finish_owned(self) {
        vp::assume(self.n > 0);
        let (e, c) = self.split();
        let v = e.finish_value();
        c.node(0, v.value());
        vp::reached("a document");
    }
    pub fn finish_scoped(self) {
        let (e, c) = self.split();
        let s = e.finish_scoped();
        match s.root() {
            Some(v) => {
                vp::check(c.n > 0, "there is no document without a collection");
                c.node(0, v.value());
                vp::reached("a document");
            }
            None => vp::check(c.n == 0, "the document is accepted"),
        }
    }
}
