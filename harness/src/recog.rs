//! Decides which token sequences are sentences of the reference grammar, one token at a time.
use crate::table::*;
use mofmt::verif::ModelicaToken as K;

const BOTTOM: u32 = u32::MAX;

pub struct Recognizer {
    /// return addresses: (node, rest)
    stack: Vec<(u16, u32)>,
    /// places in the network that the sentence so far can end in
    now: Vec<(u16, u32)>,
}

fn has(s: u16, k: K) -> bool {
    let k = k as u8;
    let m = &SETS[s as usize];
    // without a branch on the kind
    let high = ((k >> 6) as u64 & 1).wrapping_neg();
    let w = (m[1] & high) | (m[0] & !high);
    w >> (k & 63) & 1 != 0
}

impl Recognizer {
    pub fn new() -> Recognizer {
        Recognizer { stack: Vec::with_capacity(256), now: vec![(NT[0].0, BOTTOM)] }
    }

    /// Terminals that can come next: (set, next node, stack); `k` fixed: only those with k
    fn ways(&mut self, k: Option<K>, end: &mut bool) -> Vec<(u16, u16, u32)> {
        let mut todo = std::mem::take(&mut self.now);
        let mut r = Vec::with_capacity(8);
        while let Some((n, s)) = todo.pop() {
            let (kind, a, b) = NODES[n as usize];
            match kind {
                ACCEPT => {
                    if s == BOTTOM {
                        *end = true;
                    } else {
                        todo.push(self.stack[s as usize]);
                    }
                }
                SET => {
                    if k.map_or(true, |k| has(a, k)) {
                        r.push((a, b, s));
                    }
                }
                CALL => {
                    let (start, first, empty) = NT[a as usize];
                    if k.map_or(true, |k| has(first, k)) {
                        self.stack.push((b, s));
                        todo.push((start, (self.stack.len() - 1) as u32));
                    } else if empty {
                        todo.push((b, s));
                    }
                }
                _ => {
                    todo.push((b, s));
                    todo.push((a, s));
                }
            }
        }
        r
    }

    /// The next token; false: no sentence begins like that
    pub fn step(&mut self, k: K, symbolic: bool) -> bool {
        let mut end = false;
        let w = self.ways(if symbolic { None } else { Some(k) }, &mut end);
        if symbolic {
            let mut m = [0, 0];
            for i in &w {
                m[0] |= SETS[i.0 as usize][0];
                m[1] |= SETS[i.0 as usize][1];
            }
            let b = k as u8;
            let high = ((b >> 6) as u64 & 1).wrapping_neg();
            if ((m[1] & high) | (m[0] & !high)) >> (b & 63) & 1 == 0 {
                return false;
            }
        }
        for (s, n, t) in w {
            if has(s, k) {
                self.now.push((n, t));
            }
        }
        !self.now.is_empty()
    }

    /// Is it a whole sentence?
    pub fn end(mut self) -> bool {
        let mut end = false;
        self.ways(Some(K::EOF), &mut end);
        end
    }
}
