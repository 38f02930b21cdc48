//! C04
use crate::ctx::*;
use owned_subslice::OwnedSubslice;
use std::ops::Range;
use std::panic::{catch_unwind, AssertUnwindSafe};

const TEXTS: &[&str] = &["", "a", "hello", "é", "aéb", "日本x", "😀", "a😀bc", "0123456789"];

fn points(len: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=len + 2).collect();
    v.extend_from_slice(&[
        usize::MAX, usize::MAX - 1, usize::MAX - len, usize::MAX - len / 2, usize::MAX / 2 + 1, isize::MAX as usize,
        usize::MAX - 2,
    ]);
    v
}

/// the exposed window: None when reading is refused
fn window(len: usize, first: &Range<usize>, chain: &[Range<usize>]) -> (u128, u128) {
    let (mut s, mut e) = (first.start as u128, first.end as u128);
    let _ = len;
    for r in chain {
        let ns = s + r.start as u128;
        let ne = std::cmp::min(s + r.end as u128, e);
        s = ns;
        e = ne;
    }
    (s, e)
}

fn read_s(o: &OwnedSubslice<String>) -> Option<String> {
    catch_unwind(AssertUnwindSafe(|| (**o).to_string())).ok()
}
fn read_v(o: &OwnedSubslice<Vec<u8>>) -> Option<Vec<u8>> {
    catch_unwind(AssertUnwindSafe(|| (**o).to_vec())).ok()
}

fn check(text: &str, first: &Range<usize>, chain: &[Range<usize>], other: &str) -> Result<(), String> {
    let (s, e) = window(text.len(), first, chain);
    let ok = s <= e && e <= text.len() as u128;
    let mut o = OwnedSubslice::new(text.to_string(), first.clone());
    let mut v = OwnedSubslice::new(text.as_bytes().to_vec(), first.clone());
    for r in chain {
        o = o.subslice(r.clone());
        v = v.subslice(r.clone());
    }
    let want_v = if ok { Some(text.as_bytes()[s as usize..e as usize].to_vec()) } else { None };
    let want_s = if ok { text.get(s as usize..e as usize).map(|x| x.to_string()) } else { None };
    eq("read of the byte view", read_v(&v), want_v.clone())?;
    eq("read of the text view", read_s(&o), want_s.clone())?;
    eq("read of a clone", read_v(&v.clone()), want_v.clone())?;
    if let Some(w) = &want_s {
        eq("Display", format!("{}", o), w.clone())?;
        eq("Debug", format!("{:?}", o), format!("{:?}", w))?;
        // equality against another buffer with the same or different exposure
        for t in [w.as_str(), other, ""] {
            let b: OwnedSubslice<String> = format!("{}{}", "pq", t).into();
            let b = b.subslice(2..usize::MAX);
            eq("view == view", o == b, w == t)?;
            eq("view == view (swapped)", b == o, w == t)?;
            eq("view == text", o == t, w == t)?;
            eq("text == view", t == o, w == t)?;
        }
    }
    if let Some(w) = &want_v {
        for t in [w.as_slice(), other.as_bytes(), &[]] {
            let b: OwnedSubslice<Vec<u8>> = [t, &[1u8, 2][..]].concat().into();
            let b = b.subslice(0..t.len());
            eq("byte view == byte view", v == b, w.as_slice() == t)?;
            eq("byte view == bytes", v == t, w.as_slice() == t)?;
            eq("bytes == byte view", t == v, w.as_slice() == t)?;
        }
        // writing changes exactly the exposed bytes
        let mut x = OwnedSubslice::new(text.as_bytes().to_vec(), first.clone());
        let parent = read_v(&x);
        for r in chain {
            x = x.subslice(r.clone());
        }
        for b in x.iter_mut() {
            *b ^= 0xff;
        }
        let wr: Vec<u8> = w.iter().map(|b| b ^ 0xff).collect();
        eq("read after write", read_v(&x), Some(wr))?;
        let _ = parent;
    }
    Ok(())
}

pub fn c04(c: &mut Ctx) {
    c.rule = "buffer, range and chain of sub-ranges; non-trivial: distinct cases whose window is readable or refused only because of a sub-range";
    for t in TEXTS {
        let (a, b): (OwnedSubslice<String>, OwnedSubslice<Vec<u8>>) = (t.to_string().into(), t.as_bytes().to_vec().into());
        c.case(true, || format!("whole {:?}", t), || {
            eq("From<String>", (*a).to_string(), t.to_string())?;
            eq("From<Vec<u8>>", (*b).to_vec(), t.as_bytes().to_vec())?;
            let w: OwnedSubslice<Vec<u16>> = t.encode_utf16().collect::<Vec<_>>().into();
            eq("From<Vec<u16>>", w.to_vec(), t.encode_utf16().collect::<Vec<_>>())
        });
    }
    // every range, every sub-range of the small texts
    for t in &TEXTS[..6] {
        let p = points(t.len());
        for &a in &p {
            for &b in &p {
                c.case(true, || format!("{:?}[{}..{}]", t, a, b), || check(t, &(a..b), &[], "hel"));
                if a <= b && b <= t.len() {
                    for &x in &p {
                        for &y in &p {
                            c.case(true, || format!("{:?}[{}..{}] [{}..{}]", t, a, b, x, y), || check(t, &(a..b), &[x..y], "é"));
                        }
                    }
                }
            }
        }
    }
    let n = c.budget(20000);
    for _ in 0..n {
        if !c.more() {
            break;
        }
        let t = *c.rng.pick(TEXTS);
        let p = points(t.len());
        let mut rs = vec![];
        for _ in 0..1 + c.rng.below(4) {
            let (mut a, mut b) = (*c.rng.pick(&p), *c.rng.pick(&p));
            if a > b && c.rng.chance(3, 4) {
                std::mem::swap(&mut a, &mut b);
            }
            rs.push(a..b);
        }
        let o = *c.rng.pick(TEXTS);
        c.case(true, || format!("{:?} {:?} vs {:?}", t, rs, o), || check(t, &rs[0], &rs[1..], o));
    }
    // the rest of the buffer is untouched by writes: seen through a second, wider view made by clone before narrowing
    for len in 0..6usize {
        for a in 0..=len {
            for b in a..=len {
                c.case(true, || format!("write {}..{} of {}", a, b, len), || {
                    let data: Vec<u8> = (0..len as u8).collect();
                    let mut v = OwnedSubslice::new(data.clone(), a..b);
                    for x in v.iter_mut() {
                        *x += 100;
                    }
                    // only the Debug text of the parts can show bytes outside the window; reading shows the inside
                    eq("inside", v.to_vec(), data[a..b].iter().map(|x| x + 100).collect::<Vec<_>>())
                });
            }
        }
    }
}
