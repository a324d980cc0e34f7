//! C17: the persistent list against a plain vector.
use crate::vs;
use std::hash::{Hash, Hasher};

/// What a value feeds to a hasher.
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}

macro_rules! list {
    ($m:ident, $k:ident) => {
        mod $m {
            use super::*;
            use $k::conslist::ConsList;

            type L = ConsList<u8>;

            #[inline(never)]
            fn same(l: &L, m: &[u8]) {
                vs::check(l.len() == m.len(), "the length differs from the sequence's");
                vs::check(l.is_empty() == m.is_empty(), "is_empty differs from the sequence's");
                let mut it = l.iter();
                for k in 0..m.len() {
                    let (lo, hi) = it.size_hint();
                    vs::check(lo == m.len() - k && hi == Some(m.len() - k), "the iterator promises the wrong number of elements");
                    let copy = it.clone();
                    match it.next() {
                        Some(x) => vs::check(*x == m[k], "an element differs from the sequence's"),
                        None => vs::fail("the iterator ends early"),
                    }
                    if k == 0 {
                        vs::check(copy.count() == m.len(), "a copy of the iterator is not where it was");
                    }
                }
                vs::check(it.next().is_none(), "the iterator does not end");
                vs::check(it.next().is_none(), "the iterator starts again");
                vs::check(l.head().copied() == m.first().copied(), "the head differs from the sequence's");
                vs::check(l.last().copied() == m.last().copied(), "the last element differs from the sequence's");
                let mut n = 0;
                for x in l {
                    vs::check(*x == m[n], "an element differs from the sequence's");
                    n += 1
                }
                vs::check(n == m.len(), "the loop over the list ends early");
            }

            fn pick(n: usize) -> usize {
                vs::choose(n)
            }

            /// Histories of operations; every list made on the way is compared
            /// with its own sequence at the end.
            pub fn history(steps: usize) {
                let mut all: Vec<(L, Vec<u8>)> = vec![(L::new(), vec![])];
                {
                    let n = vs::choose(4);
                    let m: Vec<u8> = (0..n).map(|_| vs::byte(0, 255)).collect();
                    let l: L = m.iter().copied().collect();
                    // collecting puts the last element in front
                    let mut r = m;
                    r.reverse();
                    all.push((l, r))
                }
                for _ in 0..steps {
                    let i = pick(all.len());
                    match vs::choose(6) {
                        0 => {
                            let x = vs::byte(0, 255);
                            let l = all[i].0.append(x);
                            let mut m = all[i].1.clone();
                            m.insert(0, x);
                            all.push((l, m))
                        }
                        1 => {
                            let l = all[i].0.tail();
                            let m = if all[i].1.is_empty() { vec![] } else { all[i].1[1..].to_vec() };
                            all.push((l, m))
                        }
                        2 => {
                            let n = vs::word() as usize;
                            let l = all[i].0.tailn(n);
                            let m = if n >= all[i].1.len() { vec![] } else { all[i].1[n..].to_vec() };
                            all.push((l, m))
                        }
                        3 => {
                            let n = vs::word() as usize;
                            let l = all[i].0.lastn(n);
                            let k = all[i].1.len();
                            let m = if n >= k { all[i].1.clone() } else { all[i].1[k - n..].to_vec() };
                            all.push((l, m))
                        }
                        4 => {
                            let l = all[i].0.clone();
                            let m = all[i].1.clone();
                            all.push((l, m))
                        }
                        _ => {
                            // the list goes away, what shares its elements stays
                            if all.len() > 1 {
                                all.swap_remove(i);
                            }
                        }
                    }
                }
                vs::cover(all.len() as u32);
                for (l, m) in all.iter() {
                    same(l, m)
                }
            }

            /// Long lists: one or two operations on a list of up to 300.
            pub fn long() {
                let n = [9, 17, 33, 300][vs::choose(4)];
                let at = [0, 1, n / 2, n - 1][vs::choose(4)];
                let x = vs::byte(0, 255);
                let m: Vec<u8> = (0..n).map(|i| if i == at { x } else { i as u8 }).collect();
                let mut l = L::new();
                for i in 0..n {
                    l = l.append(m[n - 1 - i])
                }
                let (mut k, mut w) = (l.clone(), m.clone());
                for _ in 0..2 {
                    let z = w.len();
                    let c = [0, 1, 7, 8, 9, z / 2, z.saturating_sub(2), z.saturating_sub(1), z, z + 1, usize::MAX][vs::choose(11)];
                    match vs::choose(3) {
                        0 => {
                            k = k.tailn(c);
                            w = if c >= z { vec![] } else { w[c..].to_vec() }
                        }
                        1 => {
                            k = k.lastn(c);
                            w = if c >= z { w } else { w[z - c..].to_vec() }
                        }
                        _ => {
                            k = k.append(x);
                            w.insert(0, x)
                        }
                    }
                }
                vs::cover(1);
                same(&k, &w);
                same(&l, &m);
                vs::check((k == l) == (w == m), "equality differs from the sequences'");
                vs::check(k.partial_cmp(&l) == w.partial_cmp(&m), "the order differs from the sequences'");
                let c: L = w.iter().rev().copied().collect();
                same(&c, &w);
                vs::check(c == k, "a list and its copy are not equal");
            }

            /// Comparing and hashing two lists.
            pub fn relations() {
                let mk = || {
                    let n = vs::choose(4);
                    let m: Vec<u8> = (0..n).map(|_| vs::byte(0, 255)).collect();
                    let mut l = L::default();
                    for k in 0..n {
                        l = l.append(m[n - 1 - k])
                    }
                    (l, m)
                };
                let (a, ma) = mk();
                let (b, mb) = if vs::choose(4) == 0 {
                    // a list that shares elements with the first one
                    let x = vs::byte(0, 255);
                    let mut m = if ma.is_empty() { vec![] } else { ma[1..].to_vec() };
                    m.insert(0, x);
                    (a.tail().append(x), m)
                } else {
                    mk()
                };
                vs::check((a == b) == (ma == mb), "equality differs from the sequences'");
                vs::check((a != b) == (ma != mb), "inequality differs from the sequences'");
                vs::check(a.partial_cmp(&b) == ma.partial_cmp(&mb), "the order differs from the sequences'");
                vs::check((a < b) == (ma < mb), "< differs from the sequences'");
                let h = |l: &L| {
                    let mut r = Rec(vec![]);
                    l.hash(&mut r);
                    r.0
                };
                let (ha, hb) = (h(&a), h(&b));
                let eq = ma == mb;
                vs::cover(if eq { 1 } else { 2 });
                vs::check(!eq || ha == hb, "equal lists feed a hasher differently");
                same(&a, &ma);
                same(&b, &mb)
            }

            /// Printing.
            pub fn print() {
                let n = vs::choose(4);
                let m: Vec<u8> = (0..n).map(|_| vs::conc(vs::byte(0, 3) as u64) as u8).collect();
                let mut l = L::new();
                for k in 0..n {
                    l = l.append(m[n - 1 - k])
                }
                vs::cover(n as u32);
                vs::check(format!("{:?}", l) == format!("{:?}", m), "the debug form differs from the sequence's")
            }
        }
    };
}
list!(loc_l, loc_ev);
list!(sing_l, sing_ev);

/// Groups: 0 histories of three steps, 1 relations, 2 printing, 3 histories of
/// four steps, 4 long lists.
pub fn c17(p: u64) {
    vs::begin();
    let sing = p % 8 == 4;
    match (p / 8, sing) {
        (0, false) => loc_l::history(3),
        (0, true) => sing_l::history(3),
        (1, false) => loc_l::relations(),
        (1, true) => sing_l::relations(),
        (2, false) => loc_l::print(),
        (2, true) => sing_l::print(),
        (4, false) => loc_l::long(),
        (4, true) => sing_l::long(),
        (_, false) => loc_l::history(4),
        (_, true) => sing_l::history(4),
    }
}
