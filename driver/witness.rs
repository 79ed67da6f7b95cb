// Instantiates the crate's generic code (hashing, comparison operators, serialization) with
// recording types, so that its monomorphic MIR can be analysed.  Appended to a scratch copy of the
// crate that is type-checked only; nothing here ever runs.
#![allow(missing_docs, dead_code, unused, clippy::all)]
use crate::{Date, Interval, Time, Timestamp};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

pub struct Words {
    pub n: usize,
    pub w: [i128; 8],
}

impl Words {
    fn push(&mut self, v: i128) {
        self.w[self.n] = v;
        self.n += 1;
    }
}

impl Hasher for Words {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            self.push(b[i] as i128);
            i += 1;
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.push(v as i128);
    }
    fn write_u16(&mut self, v: u16) {
        self.push(v as i128);
    }
    fn write_u32(&mut self, v: u32) {
        self.push(v as i128);
    }
    fn write_u64(&mut self, v: u64) {
        self.push(v as i128);
    }
    fn write_u128(&mut self, v: u128) {
        self.push(v as i128);
    }
    fn write_usize(&mut self, v: usize) {
        self.push(v as i128);
    }
    fn write_i8(&mut self, v: i8) {
        self.push(v as i128);
    }
    fn write_i16(&mut self, v: i16) {
        self.push(v as i128);
    }
    fn write_i32(&mut self, v: i32) {
        self.push(v as i128);
    }
    fn write_i64(&mut self, v: i64) {
        self.push(v as i128);
    }
    fn write_i128(&mut self, v: i128) {
        self.push(v);
    }
    fn write_isize(&mut self, v: isize) {
        self.push(v as i128);
    }
}

macro_rules! ordered {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn hash2(a: &$t, b: &$t) -> (Words, Words) {
                let mut x = Words { n: 0, w: [0; 8] };
                let mut y = Words { n: 0, w: [0; 8] };
                a.hash(&mut x);
                b.hash(&mut y);
                (x, y)
            }
            pub fn eq(a: &$t, b: &$t) -> bool {
                a == b
            }
            pub fn ne(a: &$t, b: &$t) -> bool {
                a != b
            }
            pub fn lt(a: &$t, b: &$t) -> bool {
                a < b
            }
            pub fn le(a: &$t, b: &$t) -> bool {
                a <= b
            }
            pub fn gt(a: &$t, b: &$t) -> bool {
                a > b
            }
            pub fn ge(a: &$t, b: &$t) -> bool {
                a >= b
            }
            pub fn cmp(a: &$t, b: &$t) -> Ordering {
                Ord::cmp(a, b)
            }
            pub fn partial_cmp(a: &$t, b: &$t) -> Option<Ordering> {
                PartialOrd::partial_cmp(a, b)
            }
            pub fn max(a: $t, b: $t) -> $t {
                Ord::max(a, b)
            }
            pub fn min(a: $t, b: $t) -> $t {
                Ord::min(a, b)
            }
        }
    };
}
ordered!(date, Date);
ordered!(time, Time);
ordered!(timestamp, Timestamp);
ordered!(interval, Interval);
