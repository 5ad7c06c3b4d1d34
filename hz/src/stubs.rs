//! Runs the contracts that the proofs assume of the libraries (vt/02_stubs.vt, 14, 20, 21, 22, 25, 26, 29, 31) against the
//! libraries themselves, on drawn input.  Bounded: this samples the assumptions, it does not prove them.
use crate::model::Rng;
use itertools::Itertools;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::io::{BufRead, BufReader, BufWriter, Read, Write};
use std::path::Path;

pub struct S {
    pub n: BTreeMap<&'static str, u64>,
    pub bad: Vec<String>,
}
impl S {
    fn hold(&mut self, name: &'static str, ok: bool, on: &dyn std::fmt::Debug) {
        *self.n.entry(name).or_insert(0) += 1;
        if !ok && self.bad.len() < 5 {
            self.bad.push(format!("{} on {:?}", name, on));
        }
    }
}
fn ids(r: &mut Rng, max: usize) -> Vec<u32> {
    let n = r.below(max);
    let top = [2, 8, 100, u32::MAX as usize][r.below(4)];
    (0..n).map(|_| r.below(top) as u32).collect()
}
fn asc(v: &[u32]) -> bool { v.windows(2).all(|w| w[0] < w[1]) }
fn bx<'a, T: 'a>(v: &'a [T]) -> Box<dyn Iterator<Item = &'a T> + 'a> { Box::new(v.iter()) }

fn iters(s: &mut S, r: &mut Rng) {
    let v = ids(r, 12);
    let w = ids(r, 6);
    let n = v.len();
    let k = r.below(14);
    let p = r.below(4) as u32;
    let f = move |x: &u32| *x % 4 == p;
    let b = || -> Box<dyn Iterator<Item = u32>> { Box::new(v.clone().into_iter()) };
    let mut it = b();
    let mut ok = true;
    for i in 0..n + 2 {
        let (lo, hi) = it.size_hint();
        let left = n.saturating_sub(i);
        ok &= lo <= left && hi.map_or(true, |h| left <= h);
        ok &= it.next() == v.get(i).cloned();
    }
    s.hold("Iterator::next, size_hint", ok, &v);
    s.hold("Iterator::count", b().count() == n && b().skip(k.min(n)).count() == n - k.min(n), &v);
    let m: Vec<u64> = b().map(|x| x as u64 + 1).collect();
    s.hold("Iterator::map", m.len() == n && (0..n).all(|i| m[i] == v[i] as u64 + 1), &v);
    let fm: Vec<u32> = b().flat_map(|x| vec![x; (x % 3) as usize]).collect();
    let mut e = vec![];
    for x in &v { for _ in 0..x % 3 { e.push(*x) } }
    s.hold("Iterator::flat_map", fm == e, &v);
    let mut e = vec![];
    for x in &v { if f(x) { e.push(*x) } }
    s.hold("Iterator::filter, filter_map", b().filter(f).collect::<Vec<_>>() == e && b().filter_map(|x| if f(&x) { Some(x) } else { None }).collect::<Vec<_>>() == e, &v);
    s.hold("Iterator::all, any", b().all(|x| f(&x)) == (e.len() == n) && b().any(|x| f(&x)) == !e.is_empty(), &v);
    let z: Vec<(u32, u32)> = b().zip(w.clone()).collect();
    s.hold("Iterator::zip", z.len() == n.min(w.len()) && (0..z.len()).all(|i| z[i] == (v[i], w[i])), &(&v, &w));
    let en: Vec<(usize, u32)> = b().enumerate().collect();
    s.hold("Iterator::enumerate", en.len() == n && (0..n).all(|i| en[i] == (i, v[i])), &v);
    let rv: Vec<&u32> = v.iter().rev().collect();
    s.hold("Iterator::rev", rv.len() == n && (0..n).all(|i| *rv[i] == v[n - 1 - i]), &v);
    let ch: Vec<u32> = b().chain(w.clone()).collect();
    s.hold("Iterator::chain", ch.len() == n + w.len() && ch[..n] == v[..] && ch[n..] == w[..], &(&v, &w));
    s.hold("Iterator::take, skip", b().take(k).collect::<Vec<_>>() == v[..k.min(n)] && b().skip(k).collect::<Vec<_>>() == v[k.min(n)..], &(&v, k));
    let cut = (0..n).find(|i| !f(&v[*i])).unwrap_or(n);
    s.hold("Iterator::skip_while, take_while", b().skip_while(f).collect::<Vec<_>>() == v[cut..] && b().take_while(f).collect::<Vec<_>>() == v[..cut], &v);
    let sk = Itertools::sorted_by_key(b(), |x| (*x % 3) as usize);
    let (mut a, mut c) = (sk.clone(), v.clone());
    a.sort();
    c.sort();
    s.hold("Itertools::sorted_by_key", a == c && sk.windows(2).all(|w| w[0] % 3 <= w[1] % 3), &v);
    s.hold("Itertools::sorted", Itertools::sorted(b()) == c, &v);
    let pr: Vec<(u32, u32)> = v.iter().cloned().map(|x| (x % 3, x)).collect();
    let sp = Itertools::sorted(pr.clone().into_iter());
    s.hold("Itertools::sorted of pairs", sp.windows(2).all(|w| w[0].0 < w[1].0 || w[0].0 == w[1].0 && w[0].1 <= w[1].1) && sp.len() == pr.len() && pr.iter().all(|x| sp.contains(x)), &v);
    s.hold("Itertools::collect_vec, collect", b().collect_vec() == v && b().collect::<Vec<_>>() == v, &v);
    let st = k.min(n);
    let mut it = b();
    for _ in 0..st { it.next(); }
    let i0 = (st..n).find(|i| f(&v[*i]));
    let got = it.find(f);
    s.hold("Iterator::find", got == i0.map(|i| v[i]) && it.collect::<Vec<_>>() == v[i0.map_or(n, |i| i + 1)..], &(&v, st));
    let mut it = b();
    for _ in 0..st { it.next(); }
    let got = it.find_map(|x| if f(&x) { Some(x as u64) } else { None });
    s.hold("Iterator::find_map", got == i0.map(|i| v[i] as u64) && it.collect::<Vec<_>>() == v[i0.map_or(n, |i| i + 1)..], &(&v, st));
    let mut it = b();
    for _ in 0..st { it.next(); }
    let got = it.position(|x| f(&x));
    s.hold("Iterator::position", got == i0.map(|i| i - st) && it.collect::<Vec<_>>() == v[i0.map_or(n, |i| i + 1)..], &(&v, st));
    s.hold("Iterator::last", b().last() == v.last().cloned() && b().skip(st).last() == v[st..].last().cloned(), &v);
    let mut it = b();
    let got = it.nth(k);
    s.hold("Iterator::nth", got == v.get(k).cloned() && it.collect::<Vec<_>>() == v[(k + 1).min(n)..], &(&v, k));
    s.hold("Iterator::cloned, copied", bx(&v).cloned().collect::<Vec<_>>() == v && bx(&v).copied().collect::<Vec<_>>() == v, &v);
    let (mx, mn) = (b().max(), b().min());
    s.hold("Iterator::max, min", match (mx, mn) { (None, None) => n == 0, (Some(a), Some(z)) => v.contains(&a) && v.contains(&z) && v.iter().all(|x| z <= *x && *x <= a), _ => false }
        && bx(&v).max().cloned() == mx && bx(&v).min().cloned() == mn, &v);
    let tc: Vec<(u32, u32)> = v.clone().into_iter().tuple_combinations().collect();
    let mut e = vec![];
    for i in 0..n { for j in i + 1..n { e.push((v[i], v[j])) } }
    let mut t = tc.clone();
    t.sort();
    e.sort();
    s.hold("Itertools::tuple_combinations", t == e, &v);
    let (x, y) = (r.below(9), r.below(9));
    let rg: Vec<usize> = (x..y).collect();
    s.hold("a range as an iterator", rg.len() == y.saturating_sub(x) && (0..rg.len()).all(|i| rg[i] == x + i), &(x, y));
    let o = if r.chance(1, 2) { Some(p) } else { None };
    s.hold("Option as an iterator", o.into_iter().collect::<Vec<_>>() == o.map_or(vec![], |x| vec![x]), &o);
    let q = if r.chance(1, 2) { Some(7) } else { None };
    s.hold("Option::or, and, xor, map_or", o.or(q) == (if o.is_some() { o } else { q }) && o.and(q) == (if o.is_some() { q } else { None })
        && o.xor(q) == (match (o, q) { (Some(x), None) | (None, Some(x)) => Some(x), _ => None }) && o.map_or(9, |x| x + 1) == (match o { Some(x) => x + 1, None => 9 }), &(o, q));
}

fn slices(s: &mut S, r: &mut Rng) {
    let v = ids(r, 12);
    let n = v.len();
    let (a, b) = (r.below(n + 1), r.below(n + 1));
    let (a, b) = (a.min(b), a.max(b));
    s.hold("slice ranges", v[..].len() == n && (0..n - a).all(|i| v[a..][i] == v[a + i]) && v[a..].len() == n - a && v[..b].len() == b && (0..b).all(|i| v[..b][i] == v[i]) && v[a..b].len() == b - a && (0..b - a).all(|i| v[a..b][i] == v[a + i]), &(&v, a, b));
    let mut t = v.clone();
    t.sort();
    t.dedup();
    let ok = |t: &[u32], x: u32| match t.binary_search(&x) {
        Ok(i) => i < t.len() && t[i] == x,
        Err(i) => i <= t.len() && t[..i].iter().all(|y| *y < x) && t[i..].iter().all(|y| *y > x),
    };
    let x = r.below(10) as u32;
    s.hold("slice::binary_search", ok(&t, x) && t.iter().all(|x| ok(&t, *x)), &(&t, x));
    let mut e = v.clone();
    e.extend(t.iter());
    e.extend(t.clone());
    s.hold("Vec::extend", e.len() == n + 2 * t.len() && e[..n] == v[..] && e[n..n + t.len()] == t[..] && e[n + t.len()..] == t[..], &(&v, &t));
    let mut d = v.clone();
    let dr: Vec<u32> = d.drain(..).collect();
    s.hold("Vec::drain", dr == v, &v);
    let mut sh = v.clone();
    sh.shrink_to_fit();
    s.hold("Vec::shrink_to_fit", sh == v, &v);
    let mut x = 3;
    let y = std::mem::replace(&mut x, 4);
    s.hold("mem::replace", (x, y) == (4, 3), &());
    let bo: Box<[u32]> = v.clone().into_boxed_slice();
    s.hold("Box::as_ref", bo.as_ref() == &v[..], &v);
    // VecDeque against a vector
    let mut q = VecDeque::with_capacity(r.below(4));
    let mut m: Vec<u32> = vec![];
    let mut ok = q.is_empty();
    for _ in 0..r.below(20) {
        let x = r.below(50) as u32;
        match r.below(5) {
            0 | 1 => { q.push_back(x); m.push(x) }
            2 => { q.push_front(x); m.insert(0, x) }
            3 => ok &= q.pop_front() == (if m.is_empty() { None } else { Some(m.remove(0)) }),
            _ => ok &= q.pop_back() == m.pop(),
        }
        ok &= q.len() == m.len() && q.is_empty() == m.is_empty() && q.iter().eq(m.iter());
    }
    q.clear();
    s.hold("VecDeque", ok && q.len() == 0, &m);
    // bits
    let n = r.below(140);
    let mut f = fixedbitset::FixedBitSet::with_capacity(n);
    let mut m = vec![false; n];
    let mut ok = f.len() == n;
    let same = |f: &fixedbitset::FixedBitSet, m: &Vec<bool>| (0..m.len()).all(|i| f.contains(i) == m[i]) && !f.contains(m.len()) && !f.contains(m.len() + 64) && f.ones().eq((0..m.len()).filter(|i| m[*i]));
    ok &= same(&f, &m);
    if n > 0 {
        for _ in 0..r.below(12) {
            let i = r.below(n);
            match r.below(8) {
                0 => { f.insert_range(..); m = vec![true; n] }
                1 => { f.clear(); m = vec![false; n] }
                2 | 3 => { f.insert(i); m[i] = true }
                _ => { let b = r.chance(1, 2); f.set(i, b); m[i] = b }
            }
            ok &= f.len() == n && same(&f, &m);
        }
    }
    s.hold("FixedBitSet", ok, &n);
}

fn maps(s: &mut S, r: &mut Rng) {
    let ops: Vec<(usize, u32, u32)> = (0..r.below(30)).map(|_| (r.below(9), r.below(12) as u32, r.below(100) as u32)).collect();
    let mut h: fnv::FnvHashMap<u32, u32> = if r.chance(1, 2) { Default::default() } else { HashMap::with_capacity_and_hasher(r.below(9), Default::default()) };
    let mut b: BTreeMap<u32, u32> = BTreeMap::new();
    let mut t: BTreeSet<u32> = BTreeSet::new();
    let mut m: Vec<(u32, u32)> = vec![];
    let (mut oh, mut ob, mut ot) = (true, true, true);
    for &(op, k, v) in &ops {
        let at = m.iter().position(|e| e.0 == k);
        let old = at.map(|i| m[i].1);
        match op {
            0..=3 => {
                oh &= h.insert(k, v) == old;
                ob &= b.insert(k, v) == old;
                ot &= t.insert(k) == old.is_none();
                match at { Some(i) => m[i].1 = v, None => m.push((k, v)) }
            }
            4 | 5 => {
                oh &= h.remove(&k) == old;
                ob &= b.remove(&k) == old;
                ot &= t.remove(&k) == old.is_some();
                if let Some(i) = at { m.remove(i); }
            }
            6 => {
                if let Some(x) = h.get_mut(&k) { *x = v }
                if let Some(x) = b.get_mut(&k) { *x = v }
                if let Some(i) = at { m[i].1 = v }
            }
            7 => {
                for x in h.values_mut() { *x = x.wrapping_add(k) }
                for (_, x) in b.iter_mut() { *x = x.wrapping_add(k) }
                for e in &mut m { e.1 = e.1.wrapping_add(k) }
            }
            _ => {
                for (y, x) in b.range_mut(k..) { *x = x.wrapping_add(*y) }
                for e in &mut m { if e.0 >= k { e.1 = e.1.wrapping_add(e.0) } }
                for (y, x) in h.iter_mut() { if *y >= k { *x = x.wrapping_add(*y) } }
            }
        }
        if k == 0 { h.shrink_to_fit() }
        let n = m.len();
        let val = |k: &u32| m.iter().find(|e| e.0 == *k).map(|e| e.1);
        let once = |v: &Vec<u32>| v.len() == n && v.iter().collect::<BTreeSet<_>>().len() == n && v.iter().all(|k| val(k).is_some());
        let hk: Vec<u32> = h.keys().cloned().collect();
        oh &= h.len() == n && h.is_empty() == (n == 0) && once(&hk) && h.keys().eq(hk.iter()) && h.values().zip(&hk).all(|(v, k)| Some(*v) == val(k)) && h.values().count() == n
            && h.iter().map(|e| (*e.0, *e.1)).eq(hk.iter().map(|k| (*k, h[k]))) && h.clone().into_iter().count() == n && h.clone().into_iter().all(|(k, v)| val(&k) == Some(v));
        let bk: Vec<u32> = b.keys().cloned().collect();
        ob &= b.len() == n && once(&bk) && asc(&bk) && b.values().zip(&bk).all(|(v, k)| Some(*v) == val(k)) && b.values().count() == n && b.iter().map(|e| *e.0).eq(bk.iter().cloned()) && b.iter().all(|(k, v)| val(k) == Some(*v))
            && b.clone().into_iter().map(|e| e.0).eq(bk.iter().cloned()) && b.range(k..).map(|e| *e.0).eq(bk.iter().cloned().filter(|x| *x >= k));
        let tk: Vec<u32> = t.iter().cloned().collect();
        ot &= t.len() == n && once(&tk) && asc(&tk) && t.clone().into_iter().eq(tk.iter().cloned());
        for k in 0..12u32 {
            oh &= h.get(&k).cloned() == val(&k) && h.contains_key(&k) == val(&k).is_some();
            ob &= b.get(&k).cloned() == val(&k) && b.contains_key(&k) == val(&k).is_some();
            ot &= t.contains(&k) == val(&k).is_some();
        }
    }
    s.hold("FnvHashMap", oh, &ops);
    s.hold("BTreeMap", ob, &ops);
    s.hold("BTreeSet", ot, &ops);
    let kv: Vec<(u32, u32)> = ops.iter().map(|o| (o.1, o.2)).collect();
    let c: BTreeMap<u32, u32> = kv.iter().cloned().collect();
    let mut e = BTreeMap::new();
    for (k, v) in &kv { e.insert(*k, *v); }
    s.hold("BTreeMap, BTreeSet from an iterator", c == e && kv.iter().map(|e| e.0).collect::<BTreeSet<_>>().iter().eq(e.keys()), &kv);
    h.clear();
    s.hold("FnvHashMap::clear", h.is_empty(), &());
    // index set, counter
    let v: Vec<String> = ops.iter().map(|o| format!("x{}", o.1)).collect();
    let mut x = indexmap::IndexSet::with_capacity(r.below(4));
    let mut m: Vec<String> = vec![];
    let mut ok = true;
    for (i, e) in v.iter().enumerate() {
        if ops[i].0 == 8 { ok &= x.pop() == m.pop(); }
        ok &= x.insert(e.clone()) != m.contains(e);
        if !m.contains(e) { m.push(e.clone()) }
        ok &= x.len() == m.len() && x.iter().eq(m.iter()) && x.clone().into_iter().eq(m.iter().cloned()) && (0..m.len() + 2).all(|i| x.get_index(i) == m.get(i))
            && (0..13).map(|i| format!("x{}", i)).all(|y| x.contains(&y) == m.contains(&y) && x.get_full(&y).map(|z| (z.0, z.1.clone())) == m.iter().position(|z| *z == y).map(|p| (p, y.clone())));
    }
    let d: indexmap::IndexSet<String> = v.iter().cloned().collect();
    let mut e: Vec<String> = vec![];
    for y in &v { if !e.contains(y) { e.push(y.clone()) } }
    ok &= d.iter().eq(e.iter());
    x.clear();
    s.hold("IndexSet", ok && x.len() == 0 && x.pop().is_none(), &v);
    let c: counter::Counter<String> = v.iter().cloned().collect();
    let mc = c.most_common();
    s.hold("Counter::most_common", mc.len() == e.len() && mc.windows(2).all(|w| w[0].1 >= w[1].1) && e.iter().all(|y| mc.iter().filter(|z| z.0 == *y).count() == 1)
        && mc.iter().all(|z| z.1 == v.iter().filter(|y| **y == z.0).count()), &v);
    // random source
    let (lo, len) = (r.below(5), 1 + r.below(9));
    let mut g = rand::thread_rng();
    let y = rand::Rng::gen_range(&mut g, lo, lo + len);
    s.hold("gen_range", lo <= y && y < lo + len, &(lo, len, y));
    let (all, k) = ((0..len).collect::<Vec<_>>(), r.below(12));
    s.hold("sample_iter", match rand::seq::sample_iter(&mut g, all.iter(), k) {
        Ok(x) => x.len() == k && x.iter().collect::<BTreeSet<_>>().len() == k,
        Err(_) => len < k,
    }, &(len, k));
}

fn cell(r: &mut Rng) -> String {
    let a = ['a', 'b', '1', ' ', ',', ';', '\t', '"', '\n', '\r', '\'', '\\', '#', 'é', '\u{feff}', '語', '\u{0}', '|'];
    (0..r.below(6)).map(|_| a[r.below(a.len())]).collect()
}
#[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug, Clone)]
struct Rec { id: u32, name: Option<String> }

fn files(s: &mut S, r: &mut Rng, dir: &Path) {
    let (p, q) = (dir.join("a.bin"), dir.join("b.bin"));
    let by: Vec<u8> = (0..r.below(40)).map(|_| r.below(256) as u8).collect();
    let _ = std::fs::write(&p, &[1, 2, 3, 4, 5, 6, 7, 8, 9]);
    let _ = std::fs::write(&q, b"other");
    let f = std::fs::File::create(&p).unwrap();
    s.hold("File::create", f.metadata().unwrap().len() == 0 && std::fs::read(&p).unwrap().is_empty(), &());
    let k = r.below(by.len() + 1);
    let mut w = BufWriter::new(f);
    w.write_all(&by[..k]).unwrap();
    w.write_all(&by[k..]).unwrap();
    w.flush().unwrap();
    s.hold("BufWriter::write_all, flush", std::fs::read(&p).unwrap() == by && std::fs::read(&q).unwrap() == b"other", &by);
    drop(w);
    let f = std::fs::File::open(&p).unwrap();
    let len = f.metadata().unwrap().len();
    let mut b = BufReader::new(f);
    let mut got = vec![];
    b.read_to_end(&mut got).unwrap();
    s.hold("File::open, metadata, BufReader", got == by && len == by.len() as u64 && b.fill_buf().unwrap().is_empty(), &by);
    s.hold("fs::metadata, remove_file", std::fs::metadata(&p).is_ok() && std::fs::remove_file(&p).is_ok() && std::fs::metadata(&p).is_err()
        && std::fs::remove_file(&p).map_err(|e| e.kind()) == Err(std::io::ErrorKind::NotFound) && q.exists() && std::fs::File::open(&p).is_err(), &());
    // bincode
    fn back<T: serde::Serialize + for<'a> serde::Deserialize<'a> + PartialEq + Clone>(x: T, r: &mut Rng) -> bool {
        let e = bincode::serialize(&x).unwrap();
        let mut w: Vec<u8> = vec![];
        bincode::serialize_into(&mut w, &&x).unwrap();
        let rest: Vec<u8> = (0..r.below(9)).map(|_| r.below(256) as u8).collect();
        let mut b = e.clone();
        b.extend(&rest);
        let mut c = std::io::Cursor::new(&b[..]);
        let y: T = bincode::deserialize_from(&mut c).unwrap();
        let at = c.position() as usize;
        w == e && y == x && b[at..] == rest[..]
    }
    let v = ids(r, 9);
    let o = if r.chance(1, 2) { Some(r.next() as usize) } else { None };
    s.hold("bincode: numbers, Option, Vec", back(r.next() as usize, r) && back(r.next() as u32, r) && back(o, r) && back(v.clone(), r) && back(std::marker::PhantomData::<u8>, r), &(&v, o));
    let st: Vec<String> = (0..r.below(5)).map(|_| cell(r)).collect();
    let m: BTreeMap<u32, Option<u32>> = v.iter().map(|x| (*x, if x % 2 == 0 { Some(*x) } else { None })).collect();
    let h: fnv::FnvHashMap<u32, Option<u32>> = m.clone().into_iter().collect();
    let t: BTreeSet<u32> = v.iter().cloned().collect();
    let x: indexmap::IndexSet<String> = st.iter().cloned().collect();
    let xb: indexmap::IndexSet<String> = bincode::deserialize(&bincode::serialize(&x).unwrap()).unwrap();
    s.hold("bincode: maps, sets", back(m.clone(), r) && back(h, r) && back(t, r) && back(x.clone(), r) && xb.iter().eq(x.iter()), &(&m, &st));
    // memory maps
    let by: Vec<u8> = (0..1 + r.below(40)).map(|_| r.below(256) as u8).collect();
    std::fs::write(&p, &by).unwrap();
    let f = std::fs::File::open(&p).unwrap();
    let k = 1 + r.below(by.len());
    let (m, n) = unsafe { (memmap::MmapOptions::new().map(&f).unwrap(), memmap::MmapOptions::new().len(k).map(&f).unwrap()) };
    s.hold("MmapOptions::map", m.len() == by.len() && m[..] == by[..] && n.len() == k && n[..] == by[..k], &(&by, k));
    let us: Vec<u32> = ids(r, 9);
    let raw: Vec<u8> = us.iter().flat_map(|x| x.to_ne_bytes().to_vec()).collect();
    let seen = unsafe { std::slice::from_raw_parts(us.as_ptr() as *const u8, us.len() * 4) };
    s.hold("slice::from_raw_parts", seen == &raw[..], &us);
    // csv
    let cols = 2 + r.below(3);
    let sep = [b',', b';', b'\t', b' ', b'|', b'a', 0, b'\'', 127][r.below(9)];
    let mut rows: Vec<Vec<String>> = (0..r.below(6)).map(|_| (0..cols).map(|_| cell(r)).collect()).collect();
    if let Some(f) = rows.first_mut() { if f[0].is_empty() || f[0].starts_with('\u{feff}') { f[0].insert(0, 'h'); } }
    let mut w = csv::WriterBuilder::new().delimiter(sep).from_path(&p).unwrap();
    for x in &rows { w.write_record(x).unwrap(); }
    w.flush().unwrap();
    let read = |hd: bool, flex: bool| -> Vec<Vec<String>> {
        csv::ReaderBuilder::new().has_headers(hd).flexible(flex).delimiter(sep).from_path(&p).unwrap().records().map(|x| x.unwrap().iter().map(|c| c.to_string()).collect()).collect()
    };
    let below = if rows.is_empty() { vec![] } else { rows[1..].to_vec() };
    s.hold("csv: rows come back", read(false, false) == rows && read(false, true) == rows && read(true, false) == below && read(true, true) == below, &(sep as char, &rows));
    let recs: Vec<Rec> = (0..r.below(5)).map(|_| Rec { id: r.next() as u32, name: if r.chance(1, 2) { Some(format!("n{}", cell(r))) } else { None } }).collect();
    let mut w = csv::WriterBuilder::new().from_path(&p).unwrap();
    for x in &recs { w.serialize(x).unwrap(); }
    w.flush().unwrap();
    drop(w);
    let rb = || csv::ReaderBuilder::new().has_headers(false).from_path(&p).unwrap();
    let all: Vec<Vec<String>> = rb().records().map(|x| x.unwrap().iter().map(|c| c.to_string()).collect()).collect();
    let want: Vec<Vec<String>> = if recs.is_empty() { vec![] } else { std::iter::once(vec!["id".to_string(), "name".to_string()]).chain(recs.iter().map(|x| vec![x.id.to_string(), x.name.clone().unwrap_or_default()])).collect() };
    s.hold("csv: serialize writes a heading once and the cells", all == want, &recs);
    let mut rd = csv::ReaderBuilder::new().from_path(&p).unwrap();
    let _ = rd.byte_headers();
    let back: Vec<Rec> = rd.into_deserialize().map(|x| x.unwrap()).collect();
    s.hold("csv: into_deserialize gives one result a row", back == recs, &recs);
    // a row that is no record is one failed result, and not a failure of the file
    let mut text = String::from("id,name\n");
    let mut good = vec![];
    for _ in 0..r.below(6) {
        match r.below(3) {
            0 => { text.push_str("7,x\n"); good.push(true) }
            1 => { text.push_str("zz,x\n"); good.push(false) }
            _ => { text.push_str("1,2,3\n"); good.push(false) }
        }
    }
    std::fs::write(&p, &text).unwrap();
    let mut rd = csv::ReaderBuilder::new().from_path(&p).unwrap();
    let _ = rd.byte_headers();
    let res: Vec<Result<Rec, csv::Error>> = rd.into_deserialize().collect();
    s.hold("csv: a row that is no record", res.len() == good.len() && res.iter().zip(&good).all(|(x, g)| x.is_ok() == *g && x.as_ref().err().map_or(true, |e| !e.is_io_error())), &text);
    // directories, names, expressions
    let d = dir.join("d");
    let _ = std::fs::create_dir_all(&d);
    let names: BTreeSet<String> = (0..r.below(6)).map(|_| format!("f{}.csv", r.below(20))).collect();
    for n in &names { std::fs::write(d.join(n), b"").unwrap(); }
    let mut got: Vec<String> = std::fs::read_dir(&d).unwrap().map(|e| e.unwrap().path()).map(|x| { assert!(x.is_file() && !x.is_dir() && x.parent() == Some(&d)); x.as_path().file_name().unwrap().to_str().unwrap().to_string() }).collect();
    got.sort();
    s.hold("fs::read_dir, file_name", got.iter().eq(names.iter()) && d.is_dir() && !d.is_file(), &names);
    for n in &names { std::fs::remove_file(d.join(n)).unwrap(); }
    let t = cell(r);
    s.hold("Regex::is_match", regex::Regex::new("a").unwrap().is_match(&t) == t.contains('a') && regex::Regex::new("^a").unwrap().is_match(&t) == t.starts_with('a'), &t);
    let u = cell(r);
    s.hold("text: ==, len, format!, clone", (t == u) == t.chars().eq(u.chars()) && t.len() == t.bytes().count() && format!("{}{}", t, u).chars().eq(t.chars().chain(u.chars())) && t.clone() == t && *t == t[..], &(&t, &u));
}

pub fn run(seed: u64, secs: f64, dir: &Path) -> S {
    let mut s = S { n: BTreeMap::new(), bad: vec![] };
    let mut r = Rng::new(seed);
    let t = std::time::Instant::now();
    let mut first = true;
    while first || t.elapsed().as_secs_f64() < secs {
        first = false;
        for _ in 0..30 {
            iters(&mut s, &mut r);
            slices(&mut s, &mut r);
            maps(&mut s, &mut r);
        }
        files(&mut s, &mut r, dir);
    }
    s
}
