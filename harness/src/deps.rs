//! The contracts assumed of dependencies (contracts/00_prelude.vrs), run against the real amplify, std, sha2 and ripemd.
//! Exhaustive where the domain is small (`u5`); sampled otherwise.
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::{Confined, LargeVec, NonEmptyVec, SmallVec, TinyVec};
use amplify::num::{u24, u256, u5};
use amplify::{Bytes32, Wrapper};
use sha2::{Digest, Sha256};

use crate::check;
use crate::util::*;

fn val(b: &[u8]) -> Vec<u8> { let mut v = b.to_vec(); while v.last() == Some(&0) { v.pop(); } v }
/// remainder of a little-endian number by a machine word, digit by digit
fn modulo(b: &[u8], d: u64) -> u64 { b.iter().rev().fold(0u128, |r, x| (r * 256 + *x as u128) % d as u128) as u64 }

fn words(c: &mut Ctx) -> R {
    check!(u5::ZERO.to_u8() == 0 && u5::ONE.to_u8() == 1 && u5::MAX.to_u8() == 31 && u5::default() == u5::ZERO, "constants", "u5");
    for v in 0..=255u8 {
        c.cases += 1;
        let r = u5::try_from(v);
        check!(r.is_ok() == (v < 32), format!("{v}"), "u5::try_from");
        if v >= 32 { continue; }
        let x = u5::with(v);
        check!(x == r.unwrap() && x.to_u8() == v && u8::from(x) == v, format!("{v}"), "u5::with");
        for y in 0..=255u8 {
            let s = v as u16 + y as u16;
            check!(x.checked_add(y).map(|z: u5| z.to_u8()) == if s < 32 { Some(s as u8) } else { None }, format!("{v}+{y}"), "u5::checked_add");
            if s < 32 { check!((x + y).to_u8() as u16 == s, format!("{v}+{y}"), "u5 addition"); }
            if y <= v { let mut z = x; z -= y; check!((x - y).to_u8() == v - y && z == x - y, format!("{v}-{y}"), "u5 subtraction"); }
            if y < 32 { let z = u5::with(y); check!(x.cmp(&z) == v.cmp(&y) && x.partial_cmp(&z) == v.partial_cmp(&y) && (x == z) == (v == y), format!("{v},{y}"), "u5 order"); }
        }
    }
    for e in 0..32u32 {
        check!((0..e).fold(1u32, |p, _| p * 2) == 2u32.pow(e) && 2usize.pow(e) as u32 == 2u32.pow(e) && 2u32.checked_pow(e) == Some(2u32.pow(e)), format!("2^{e}"), "pow");
        let p = 2u32.pow(e);
        check!(p.is_power_of_two() && p.next_power_of_two() == p && (p < 3 || (!(p - 1).is_power_of_two() && (p - 1).next_power_of_two() == p)), format!("2^{e}"), "powers of two");
    }
    check!(2u32.checked_pow(32).is_none(), "2^32", "checked_pow");
    for i in 0..20_000u64 {
        c.cases += 1;
        let n = c.rng.next();
        let (a, b) = (n as u32 >> (i % 32), ((n >> 32) as u32 >> (i % 31)).max(1));
        check!(a.div_ceil(b) as u64 == (a as u64 + b as u64 - 1) / b as u64 && a.abs_diff(b) as i64 == (a as i64 - b as i64).abs() && a.rem_euclid(b) == a % b && a.div_euclid(b) == a / b, format!("{a}, {b}"), "u32 division");
        let le = |k: usize| -> Vec<u8> { (0..k).map(|j| (n >> (8 * j)) as u8).collect() };
        check!(n.to_le_bytes().to_vec() == le(8) && (n as u32).to_le_bytes().to_vec() == le(4) && (n as u16).to_le_bytes().to_vec() == le(2) && (n as u8).to_le_bytes().to_vec() == le(1), format!("{n}"), "to_le_bytes");
        check!(u24::with(n as u32 & 0xFF_FFFF).to_le_bytes().to_vec() == le(3), format!("{n}"), "u24::to_le_bytes");
        let mut raw = c.rng.bytes32();
        for x in &mut raw[32 - (i % 33) as usize..] { *x = if i % 2 == 0 { 0 } else { 0xFF }; }
        let x = u256::from_le_bytes(raw);
        check!(val(&x.to_le_bytes()) == val(&raw), format!("{raw:02x?}"), "u256::from_le_bytes");
        check!(x.low_u64().to_le_bytes() == raw[..8], format!("{raw:02x?}"), "u256::low_u64");
        let r = x % u256::from(b as u64);
        check!(r.low_u64() == modulo(&raw, b as u64) && r.to_le_bytes()[8..].iter().all(|z| *z == 0), format!("{raw:02x?} % {b}"), "u256 remainder");
        check!(val(&u256::from(n).to_le_bytes()) == val(&n.to_le_bytes()) && val(&u256::from(a).to_le_bytes()) == val(&a.to_le_bytes()), format!("{n}"), "u256::from");
    }
    Ok(())
}

fn confined<const MIN: usize, const MAX: usize>(c: &mut Ctx) -> R {
    for n in 0..=MAX + 2 {
        c.cases += 1;
        let d = format!("{n} elements within {MIN}..={MAX}");
        let v: Vec<u16> = (0..n).map(|_| c.rng.next() as u16).collect();
        let ok = (MIN..=MAX).contains(&n);
        let t = Confined::<Vec<u16>, MIN, MAX>::try_from(v.clone());
        let it = Confined::<Vec<u16>, MIN, MAX>::try_from_iter(v.iter().copied());
        check!(t.is_ok() == ok && it.is_ok() == ok, d, "try_from");
        let m: BTreeMap<u16, usize> = v.iter().copied().enumerate().map(|(a, b)| (b, a)).collect();
        check!(Confined::<BTreeMap<u16, usize>, MIN, MAX>::try_from(m.clone()).is_ok() == (MIN..=MAX).contains(&m.len()), d, "try_from of a map");
        let Ok(t) = t else { continue };
        check!(it.unwrap() == t && t.as_unconfined() == &v && t.len() == n && t.is_empty() == (n == 0) && t.first() == v.first() && t.as_slice() == &v[..] && t.clone() == t, d, "accessors");
        check!(t.iter().copied().collect::<Vec<_>>() == v && (&t).into_iter().copied().collect::<Vec<_>>() == v && t.clone().into_iter().collect::<Vec<_>>() == v, d, "iteration");
        for i in 0..n + 2 { check!(t.get(i) == v.get(i), d, "get"); if i < n { check!(t[i] == v[i], d, "index"); } }
        let (mut p, mut pv) = (t.clone(), v.clone());
        let r = p.push(7);
        if n < MAX { pv.push(7); }
        check!(r.is_ok() == (n < MAX) && p.as_unconfined() == &pv, d, "push");
        for i in 0..n + 2 {
            let (mut q, mut qv) = (t.clone(), v.clone());
            let good = n > MIN && i < n;
            let r = q.remove(i);
            if good { let x = qv.remove(i); check!(r.ok() == Some(x), d, "removed element {i}"); } else { check!(r.is_err(), d, "remove {i}"); }
            check!(q.as_unconfined() == &qv, d, "collection after removing {i}");
        }
        let (mut q, mut qv) = (t.clone(), v.clone());
        for x in q.iter_mut() { *x ^= 5; }
        for x in &mut qv { *x ^= 5; }
        if n > 0 { q[n - 1] = 9; qv[n - 1] = 9; }
        check!(q.as_unconfined() == &qv, d, "changes in place");
    }
    Ok(())
}

fn collections(c: &mut Ctx) -> R {
    confined::<0, 5>(c)?; confined::<1, 5>(c)?; confined::<3, 3>(c)?; confined::<0, 32>(c)?; confined::<1, 255>(c)?;
    check!(TinyVec::<u8>::try_from(vec![0; 256]).is_err() && TinyVec::<u8>::try_from(vec![0; 255]).is_ok(), "255, 256", "TinyVec");
    check!(SmallVec::<u8>::try_from(vec![0; 65536]).is_err() && SmallVec::<u8>::try_from(vec![0; 65535]).is_ok(), "65535, 65536", "SmallVec");
    check!(LargeVec::<u8>::try_from(vec![0; 1 << 20]).map(|v| v.len_u32()) == Ok(1 << 20), "2^20", "LargeVec");
    check!(NonEmptyVec::<u8, 10>::try_from(vec![]).is_err() && NonEmptyVec::<u8, 10>::with(3).as_slice() == [3], "", "NonEmptyVec");
    for round in 0..300u64 {
        c.cases += 1;
        // maps and sets against a list of pairs
        let (mut m, mut s) = (BTreeMap::<u5, u64>::new(), BTreeSet::<u5>::new());
        let mut model: Vec<(u8, u64)> = vec![];
        for _ in 0..round % 60 {
            let (k, v) = (c.rng.below(32) as u8, c.rng.next());
            let old = model.iter().find(|x| x.0 == k).map(|x| x.1);
            check!(m.get(&u5::with(k)).copied() == old && s.contains(&u5::with(k)) == old.is_some(), format!("{model:?}, {k}"), "get");
            check!(m.insert(u5::with(k), v) == old && s.insert(u5::with(k)) == old.is_none(), format!("{model:?}, {k}"), "insert");
            model.retain(|x| x.0 != k); model.push((k, v));
            if v % 5 == 0 { let k = c.rng.below(32) as u8; let had = model.iter().any(|x| x.0 == k); check!(s.remove(&u5::with(k)) == had, format!("{model:?}, {k}"), "remove"); m.remove(&u5::with(k)); model.retain(|x| x.0 != k); }
        }
        model.sort();
        let d = format!("{model:?}");
        check!(m.len() == model.len() && m.is_empty() == model.is_empty(), d, "size");
        check!(m.iter().map(|(k, v)| (k.to_u8(), *v)).collect::<Vec<_>>() == model && m.clone().into_values().collect::<Vec<_>>() == model.iter().map(|x| x.1).collect::<Vec<_>>(), d, "map iteration");
        check!(s.clone().into_iter().map(|z| z.to_u8()).collect::<Vec<_>>() == model.iter().map(|x| x.0).collect::<Vec<_>>() && s.first().map(|x| x.to_u8()) == model.first().map(|x| x.0), d, "set iteration");
        m.clear();
        check!(m.is_empty(), d, "clear");
    }
    Ok(())
}

/// SHA-256 written from FIPS 180-4 (constants derived from the cube and square roots of the primes)
fn fips180(m: &[u8]) -> [u8; 32] {
    let primes: Vec<u64> = (2..312u64).filter(|n| (2..*n).all(|d| n % d != 0)).take(64).collect();
    // first 32 bits of the fractional part of p^(1/r)
    let frac = |p: u64, r: u32| { let t = |x: u128| -> bool { if r == 2 { x * x <= (p as u128) << 64 } else { x.checked_mul(x).and_then(|y| y.checked_mul(x)).is_some_and(|y| y <= (p as u128) << 96) } }; let mut x = 0u128; for b in (0..36).rev() { if t(x | 1 << b) { x |= 1 << b; } } x as u32 };
    let k: Vec<u32> = primes.iter().map(|p| frac(*p, 3)).collect();
    let mut h: Vec<u32> = primes[..8].iter().map(|p| frac(*p, 2)).collect();
    let mut d = m.to_vec();
    d.push(0x80);
    while d.len() % 64 != 56 { d.push(0); }
    d.extend((m.len() as u64 * 8).to_be_bytes());
    for b in d.chunks(64) {
        let mut w: Vec<u32> = b.chunks(4).map(|x| u32::from_be_bytes(x.try_into().unwrap())).collect();
        for i in 16..64 {
            let (x, y) = (w[i - 15], w[i - 2]);
            let (s0, s1) = (x.rotate_right(7) ^ x.rotate_right(18) ^ x >> 3, y.rotate_right(17) ^ y.rotate_right(19) ^ y >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let t1 = v[7].wrapping_add(s1).wrapping_add(v[4] & v[5] ^ !v[4] & v[6]).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let t2 = s0.wrapping_add(v[0] & v[1] ^ v[0] & v[2] ^ v[1] & v[2]);
            v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
    }
    let mut r = [0u8; 32];
    for i in 0..8 { r[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes()); }
    r
}
fn bytes(c: &mut Ctx) -> R {
    for n in 0..70usize {
        c.cases += 1;
        let v = c.rng.bytes(n);
        check!(Bytes32::copy_from_slice(&v).ok().map(|x| x.into_inner().to_vec()) == if n == 32 { Some(v.clone()) } else { None }, format!("{v:02x?}"), "Bytes32::copy_from_slice");
    }
    for i in 0..2000 {
        let (a, mut b) = (c.rng.bytes32(), c.rng.bytes32());
        if i % 2 == 0 { b = a; if i % 4 == 0 { b[i % 32] ^= 1; } }
        let (x, y) = (Bytes32::from_array(a), Bytes32::from(b));
        check!((x == y) == (a == b) && (x.cmp(&y).is_eq()) == (a == b) && x.cmp(&y) == y.cmp(&x).reverse() && x.partial_cmp(&y) == Some(x.cmp(&y)), format!("{a:02x?} {b:02x?}"), "order of byte strings");
    }
    // absorbing piecewise is absorbing the concatenation; the digest is the reference's
    for i in 0..200usize {
        c.cases += 1;
        let v = c.rng.bytes(i);
        let k = c.rng.below(i as u64 + 1) as usize;
        let mut h = Sha256::default(); h.update(&v[..k]); h.update(&v[k..]);
        check!(h.finalize().to_vec() == fips180(&v).to_vec(), format!("{v:02x?} at {k}"), "sha2 differs from the reference");
        let (mut a, mut b) = (ripemd::Ripemd160::default(), ripemd::Ripemd160::default());
        a.update(&v[..k]); a.update(&v[k..]); b.update(&v);
        check!(a.finalize() == b.finalize(), format!("{v:02x?} at {k}"), "ripemd absorbs differently in pieces");
    }
    Ok(())
}

/// what the desugaring rules of tools/weave take iterator adaptors for
fn adaptors(c: &mut Ctx) -> R {
    for _ in 0..500 {
        c.cases += 1;
        let v: Vec<u8> = (0..c.rng.below(12)).map(|_| c.rng.below(6) as u8).collect();
        let t = c.rng.below(6) as u8;
        let d = format!("{v:?}, {t}");
        // take_while over a borrowed iterator consumes the first refused item and stops there
        let mut it = v.iter().copied();
        let got: Vec<u8> = it.by_ref().take_while(|x| *x != t).collect();
        let k = v.iter().position(|x| *x == t).unwrap_or(v.len());
        check!(got == v[..k] && it.clone().collect::<Vec<_>>() == v[(k + 1).min(v.len())..], d, "take_while");
        // take(n) over a borrowed iterator leaves the rest
        let mut it = v.iter().copied();
        let n = c.rng.below(14) as usize;
        let got: Vec<u8> = it.by_ref().take(n).collect();
        check!(got == v[..n.min(v.len())] && it.collect::<Vec<_>>() == v[n.min(v.len())..], d, "take");
        // all / any / position stop at the deciding item
        let (mut seen, mut out) = (vec![], true);
        let got = v.iter().all(|x| { seen.push(*x); *x != t });
        for x in &v { if *x == t { out = false; break; } }
        check!(got == out && seen == v[..(k + 1).min(v.len())], d, "all");
        check!(v.iter().filter_map(|x| if *x > t { Some(*x + 1) } else { None }).collect::<Vec<_>>() == { let mut r = vec![]; for x in &v { if *x > t { r.push(*x + 1); } } r }, d, "filter_map");
        check!(v.iter().rev().enumerate().map(|(i, x)| (i, *x)).collect::<Vec<_>>() == { let mut r = vec![]; for i in 0..v.len() { r.push((i, v[v.len() - 1 - i])); } r }, d, "rev, enumerate");
        let mut e = vec![1u8]; e.extend(v.iter().copied());
        check!(e[0] == 1 && e[1..] == v[..] && v.iter().map(|x| *x as u32).sum::<u32>() == { let mut s = 0; for x in &v { s += *x as u32; } s }, d, "extend, sum");
    }
    Ok(())
}

pub fn deps(c: &mut Ctx) -> R { words(c)?; collections(c)?; bytes(c)?; adaptors(c) }
