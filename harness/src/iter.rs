//! P02, P03: the iterator protocol and the self-containedness of clusters, recorded for TLC.
use crate::machine::Machine;
use crate::obs::guard;
use crate::seg::{lengths, random_text, SMALL};
use crate::sweep::par;
use crate::util::*;
use seshat::unicode::Segmentation;
use std::fmt::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

fn loc(s: &str, p: &str) -> String {
    let off = (p.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize);
    let off = if off <= s.len() { off as i64 } else { -1 };
    format!("[{},{}]", off, p.len())
}
fn opt(s: &str, p: Option<&str>) -> String { p.map_or("[]".into(), |p| loc(s, p)) }
fn list<'a>(s: &str, it: impl Iterator<Item = &'a str>, cap: usize) -> String {
    let mut o = String::from("[");
    for (n, p) in it.enumerate() {
        if n > 0 { o.push(',') }
        if n > cap { o.push_str("[-2,0]"); break }
        o.push_str(&loc(s, p));
    }
    o.push(']');
    o
}

/// One random way of driving an iterator: a list of [op, argument, result].
fn drive(s: &str, r: &mut Rng) -> String {
    let mut it = s.break_graphemes();
    let cap = s.len() + 2;
    let mut ops: Vec<String> = vec![];
    let n = r.below(14);
    for _ in 0..n {
        let k = r.below(4);
        ops.push(match r.below(9) {
            0..=3 => format!("[\"next\",0,{}]", opt(s, it.next())),
            4 => format!("[\"nth\",{},{}]", k, opt(s, it.nth(k))),
            5 => { let (a, b) = it.size_hint(); format!("[\"size_hint\",0,[{},{}]]", a.min(1 << 30), b.map_or(-1, |x| x.min(1 << 30) as i64)) }
            6 => format!("[\"take\",{},{}]", k, list(s, it.by_ref().take(k), cap)),
            7 => format!("[\"skip_next\",{},{}]", k, opt(s, it.by_ref().skip(k).next())),
            _ => { // short-circuiting consumption
                let p = it.by_ref().position(|x| x.len() > k);
                format!("[\"position\",{},{}]", k, p.map_or("[]".into(), |x| format!("[{}]", x)))
            }
        });
    }
    let k = 1 + r.below(3);
    ops.push(match r.below(8) {
        0 => format!("[\"count\",0,{}]", it.count()),
        1 => format!("[\"last\",0,{}]", opt(s, it.last())),
        2 => format!("[\"collect\",0,{}]", { let v: Vec<&str> = it.collect(); list(s, v.into_iter(), cap) }),
        3 => format!("[\"collect\",0,{}]", { let mut v = vec![]; it.for_each(|p| v.push(p)); list(s, v.into_iter(), cap) }),
        4 => format!("[\"step_by\",{},{}]", k, list(s, it.step_by(k), cap)),
        5 => format!("[\"collect\",0,{}]", list(s, it.fold(vec![], |mut v, p| { v.push(p); v }).into_iter(), cap)),
        6 => format!("[\"count\",0,{}]", it.map(|p| p.len()).filter(|l| *l > 0).fold(0, |n, _| n + 1)),
        _ => { // exhaust, then keep asking
            let mut v = vec![];
            for _ in 0..cap { match it.next() { Some(p) => v.push(p), None => break } }
            let mut o = format!("[\"collect\",0,{}]", list(s, v.into_iter(), cap));
            for _ in 0..3 { let _ = write!(o, ",[\"next\",0,{}]", opt(s, it.next())); }
            let _ = write!(o, ",[\"nth\",{},{}]", k, opt(s, it.nth(k)));
            let (a, b) = it.size_hint();
            let _ = write!(o, ",[\"size_hint\",0,[{},{}]]", a.min(1 << 30), b.map_or(-1, |x| x.min(1 << 30) as i64));
            o
        }
    });
    format!("[{}]", ops.join(","))
}

/// One way of consuming the rest after `skip` calls of next.
const WAYS: usize = 8;
fn fixed(s: &str, skip: usize, way: usize) -> String {
    let mut it = s.break_graphemes();
    let cap = s.len() + 2;
    let mut o = String::from("[");
    for _ in 0..skip { let _ = write!(o, "[\"next\",0,{}],", opt(s, it.next())); }
    match way {
        0 => { let _ = write!(o, "[\"count\",0,{}]", it.count()); }
        1 => { let _ = write!(o, "[\"last\",0,{}]", opt(s, it.last())); }
        2 => { let _ = write!(o, "[\"collect\",0,{}]", list(s, it.fold(vec![], |mut v, p| { v.push(p); v }).into_iter(), cap)); }
        3 => { let v: Vec<&str> = it.collect(); let _ = write!(o, "[\"collect\",0,{}]", list(s, v.into_iter(), cap)); }
        4 => loop {
            let (a, b) = it.size_hint();
            let p = it.next();
            let _ = write!(o, "[\"size_hint\",0,[{},{}]],[\"next\",0,{}]", a.min(1 << 30), b.map_or(-1, |x| x.min(1 << 30) as i64), opt(s, p));
            if p.is_none() || o.len() > 40 * cap { break }
            o.push(',');
        },
        w => { // nth, and what is left after it
            let _ = write!(o, "[\"nth\",{},{}],[\"next\",0,{}]", w - 5, opt(s, it.nth(w - 5)), opt(s, it.next()));
            let _ = write!(o, ",[\"count\",0,{}]", it.count());
        }
    }
    o.push(']');
    o
}
/// Does every way of consuming agree with a plain traversal?  (What does not goes to TLC.)
fn regular(s: &str) -> bool {
    watched(s, || guard(|| {
        let mut p = vec![];
        let mut it = s.break_graphemes();
        while let Some(x) = it.next() { p.push((x.as_ptr() as usize, x.len())); if p.len() > s.len() { return false } }
        let at = |x: Option<&str>| x.map(|x| (x.as_ptr() as usize, x.len()));
        let n = p.len();
        (0..3).all(|_| it.next().is_none()) && (0..=n.min(2)).all(|k| {
            let fresh = || { let mut i = s.break_graphemes(); for _ in 0..k { i.next(); } i };
            let hint = fresh().size_hint();
            fresh().count() == n - k && at(fresh().last()) == p[k..].last().cloned()
                && fresh().map(|x| (x.as_ptr() as usize, x.len())).collect::<Vec<_>>() == p[k..]
                && fresh().fold(vec![], |mut v, x| { v.push((x.as_ptr() as usize, x.len())); v }) == p[k..]
                && hint.0 <= n - k && hint.1.map_or(true, |u| n - k <= u)
                && (0..3).all(|j| { let mut i = fresh(); at(i.nth(j)) == p.get(k + j).cloned() && at(i.next()) == p.get(k + j + 1).cloned() })
        })
    }).unwrap_or(false))
}

fn complete_record(s: &str) -> String {
    watched(s, || guard(|| {
        let pieces = list(s, s.break_graphemes(), s.len() + 2);
        let d: Vec<String> = if s.break_graphemes().take(s.len() + 2).count() > s.len() { vec![] }
            else { (0..3 * WAYS).map(|k| fixed(s, k / WAYS, k % WAYS)).collect() };
        format!("{{\"s\":{},\"bytes\":{},\"pieces\":{},\"drives\":[{}]}}", compact(&cps(s)), s.len(), pieces, d.join(","))
    }).unwrap_or_else(|_| format!("{{\"s\":{},\"bytes\":{},\"pieces\":[[-1,-1]],\"drives\":[]}}", compact(&cps(s)), s.len())))
}

/// Small alphabets of which all short texts are driven in every way.
const TINY: &[&[u32]] = &[
    &[0x61, 0xD, 0xA, 0x0], &[0x61, 0xD, 0xA, 0x301], &[0xA, 0x200D, 0x1F468, 0x1F3FD], &[0x1F1E6, 0x1F1E7, 0x61],
    &[0x915, 0x94D, 0x200D, 0x937], &[0x1100, 0x1161, 0xAC00, 0x11A8], &[0x600, 0x31, 0x903], &[0xAD, 0x2028, 0xE9, 0xD],
    &[0x20, 0x7F, 0x85, 0xA], &[0x4E00, 0x3099, 0xFF9E, 0x20], &[0x10FFFF, 0xE0001, 0xFFFF, 0x80],
];
fn tiny(depth: u32) -> Vec<String> {
    let mut v = vec![];
    for al in TINY { for d in 1..=depth { for mut x in 0..al.len().pow(d) {
        v.push((0..d).map(|_| { let c = al[x % al.len()]; x /= al.len(); char::from_u32(c).unwrap() }).collect());
    } } }
    v
}

fn protocol_record(s: &str, r: &mut Rng, drives: usize) -> String {
    watched(s, || guard(|| {
        let pieces = list(s, s.break_graphemes(), s.len() + 2);
        let d: Vec<String> = if s.break_graphemes().take(s.len() + 2).count() > s.len() { vec![] }
            else { (0..drives).map(|_| drive(s, r)).collect() };
        format!("{{\"s\":{},\"bytes\":{},\"pieces\":{},\"drives\":[{}]}}", compact(&cps(s)), s.len(), pieces, d.join(","))
    }).unwrap_or_else(|_| format!("{{\"s\":{},\"bytes\":{},\"pieces\":[[-1,-1]],\"drives\":[]}}", compact(&cps(s)), s.len())))
}

fn pumped(m: &Machine, r: &mut Rng, max: usize) -> String {
    let mut s = String::new();
    let w: Vec<usize> = (0..1 + r.below(3)).map(|_| r.below(m.nc)).collect();
    for x in m.access[r.below(m.nq)].clone() { s.push(m.likely(x, r)); }
    for _ in 0..1 + r.below(max) { for x in &w { s.push(m.likely(*x, r)); } }
    s.push_str(&random_text(m, r, 4));
    s
}

fn any_text(r: &mut Rng) -> String {
    let n = r.below(12);
    (0..n).map(|_| char::from_u32(crate::norm::any_scalar(r)).unwrap()).collect()
}

/// A text with a cluster (or a run of clusters) of about 128, 256, 32768, 65536 bytes or more.
const HUGE: u32 = 240;
fn huge(k: usize, m: &Machine, r: &mut Rng) -> String {
    let size = [60, 120, 127, 128, 129, 254, 255, 256, 257, 32_767, 32_768, 32_769, 65_534, 65_535, 65_536, 65_537, 65_539, 70_000, 98_000, 131_070, 131_073, 200_001][k % 22];
    let (a, w, z): (&str, &str, &str) = [
        ("a", "\u{301}", "b"), ("\u{1F468}", "\u{200D}\u{1F468}", "x"), ("\u{915}", "\u{94D}\u{915}", "\u{915}"), ("\u{1100}", "\u{1100}", "\u{AC01}a"),
        ("\u{1100}", "\u{1161}", "\u{1100}"), ("\u{AC00}", "\u{11A8}", "\u{AC00}"), ("", "\u{600}", "a"), ("\r", "\n\r", ""), ("", "a", ""), ("\u{E9}", "\u{1F1E6}", "a"), ("x", "\u{200D}", "y"),
    ][r.below(11).min(10)];
    let (a, w, z) = if k < 22 { ("a", "\u{301}", "b") } else { (a, w, z) };
    let mut s = String::from(a);
    while s.len() + w.len() <= size { s.push_str(w); }
    while s.len() < size && k >= 11 { s.push('\u{7F}'); }
    s.push_str(z);
    if k % 3 == 2 { s.insert_str(0, &random_text(m, r, 6)); }
    if k % 5 == 4 { let u = s.clone(); s.push_str(&u); }
    s
}
/// A long text by its pieces alone: what Lossless reads.
fn long_record(s: &str) -> String {
    watched(s, || guard(|| format!("{{\"s\":{},\"bytes\":{},\"pieces\":{},\"drives\":[]}}",
        compact(&cps(s)[..cps(s).len().min(12)]), s.len(), list(s, s.break_graphemes().take(s.len() + 2), s.len() + 2)))
        .unwrap_or_else(|_| format!("{{\"s\":[],\"bytes\":{},\"pieces\":[[-1,-1]],\"drives\":[]}}", s.len())))
}

pub fn protocol(out: &str, table: &str, seed: u64, thorough: bool) {
    let m = Machine::load(table);
    let k = if thorough { 512 } else { 128 };
    let recs = par(k, |k| {
        let mut r = Rng::new(seed, 31_000_000 + k as u64);
        let mut v = vec![];
        if k == 0 { for _ in 0..10 { v.push(protocol_record("", &mut r, 3)); } }
        for j in 0..60 {
            let s = match j % 4 { 0 => any_text(&mut r), 1 => pumped(&m, &mut r, 6), _ => random_text(&m, &mut r, 16) };
            v.push(protocol_record(&s, &mut r, 3));
        }
        let s = pumped(&m, &mut r, 150);
        v.push(protocol_record(&s, &mut r, 2));
        v
    });
    // every class word of length <= 4 (5): structure only; anything irregular goes to TLC as well
    let depth = if thorough { 5 } else { 4 };
    let odd = par(m.nc as u32 * m.nc as u32, |k| {
        let mut r = Rng::new(seed, 32_000_000 + k as u64);
        let mut bad = vec![];
        let mut n = 0u64;
        let (a, b) = (k as usize / m.nc, k as usize % m.nc);
        for d in 0..=depth - 2 {
            for mut x in 0..m.nc.pow(d) {
                let mut s = String::new();
                s.push(m.likely(a, &mut r)); s.push(m.likely(b, &mut r));
                for _ in 0..d { s.push(m.likely(x % m.nc, &mut r)); x /= m.nc; }
                n += 1;
                if lengths(&s).first().map_or(true, |l| *l < 0) || !regular(&s) { bad.push(s); }
            }
        }
        (n, bad)
    });
    let small = tiny(if thorough { 7 } else { 6 });
    let per = 1 + small.len() / 64;
    let odd3 = par(64, |k| {
        let t: Vec<&String> = small.iter().skip(k as usize * per).take(per).collect();
        (t.len() as u64, t.into_iter().filter(|s| !regular(s)).cloned().collect::<Vec<_>>())
    });
    // every scalar value alone, and longer pumped contexts: structure only
    let odd2 = par(0x1100, |k| {
        let mut r = Rng::new(seed, 33_000_000 + k as u64);
        let mut bad = vec![];
        let mut n = 0u64;
        for c in k * 256..(k + 1) * 256 {
            if let Some(ch) = char::from_u32(c) {
                for s in [ch.to_string(), { let x = r.below(m.nc); let mut s = ch.to_string(); s.push(m.likely(x, &mut r)); s.push(ch); s }] {
                    n += 1;
                    if lengths(&s).first().map_or(true, |l| *l < 0) || !regular(&s) { bad.push(s); }
                }
            }
        }
        let big = [300usize, 3000, 70000][(k % 97 == 0) as usize + (k % 388 == 0) as usize];
        let s = pumped(&m, &mut r, big);
        n += 1;
        if lengths(&s).first().map_or(true, |l| *l < 0) { bad.push(s); }
        // clusters and texts whose lengths do not fit in 16 bits, and the ones about that size
        if k < HUGE {
            let s = huge(k as usize, &m, &mut r);
            n += 1;
            if lengths(&s).first().map_or(true, |l| *l < 0) { bad.push(s); }
        }
        (n, bad)
    });
    let n: u64 = odd.iter().chain(&odd2).chain(&odd3).map(|x| x.0).sum();
    let mut bad: Vec<&String> = odd.iter().chain(&odd2).chain(&odd3).flat_map(|x| x.1.iter()).collect();
    bad.sort_by_key(|s| s.len());
    let mut v: Vec<String> = bad.iter().take(20).map(|s| if s.len() > 8000 { long_record(s) } else { complete_record(s) }).collect();
    // the shortest ones are always consumed in every way under TLC's eyes
    v.extend(par(64, |k| tiny(3).iter().skip(k as usize).step_by(64).map(|s| complete_record(s)).collect::<Vec<_>>()).into_iter().flatten());
    v.extend(recs.into_iter().flatten());
    std::fs::write(out, format!("{{\"structural\":{},\"irregular\":{},\"texts\":[\n{}]}}\n", n, bad.len(), v.join(",\n"))).unwrap();
}

// ------------------------------------------------------------------------------------ P03
fn around(m: &Machine, r: &mut Rng) -> (String, String) {
    let app = random_text(m, r, 5);
    let mut ctl = random_text(m, r, 4);
    // a complete line: ends in LF, CR or another control
    ctl.push(match r.below(6) { 0 | 1 => '\n', 2 => '\r', 3 => '\u{2028}', 4 => '\u{0}', _ => '\u{200B}' });
    (app, ctl)
}
fn locality_record(s: &str, app: &str, ctl: &str) -> String {
    let l = lengths(s);
    let chars: Vec<char> = s.chars().collect();
    let (mut suf, mut alone, mut at) = (vec![], vec![], 0usize);
    if l.first().map_or(true, |x| *x > 0) {
        for n in &l {
            suf.push(lengths(&chars[at..].iter().collect::<String>()));
            alone.push(lengths(&chars[at..at + *n as usize].iter().collect::<String>()));
            at += *n as usize;
        }
    }
    let cat = |a: &str, b: &str| { let mut x = a.to_string(); x.push_str(b); lengths(&x) };
    format!("{{\"s\":{},\"l\":{},\"suf\":{},\"alone\":{},\"app\":{},\"appl\":{},\"ctl\":{},\"ctll\":{},\"ctlsl\":{}}}",
        compact(&cps(s)), compact(&l), compact(&suf), compact(&alone), compact(&cps(app)), compact(&cat(s, app)),
        compact(&cps(ctl)), compact(&lengths(ctl)), compact(&cat(ctl, s)))
}

/// Whether the laws of GraphemeLocal look broken for s: then it is worth recording.
fn suspicious(s: &str, app: &str, ctl: &str, r: &mut Rng) -> bool {
    let l = lengths(s);
    if s.is_empty() { return false }
    if l.is_empty() || l[0] < 1 { return true }
    let at: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
    let (mut k, n) = (0usize, l.len());
    let spot = r.below(n);
    for (j, c) in l.iter().enumerate() {
        let e = k + *c as usize;
        if e >= at.len() || lengths(&s[at[k]..at[e]]) != [*c] { return true }
        if j > 0 && (n <= 24 || j <= 3 || j + 4 >= n || j == spot) && lengths(&s[at[k]..]) != l[j..] { return true }
        k = e;
    }
    let mut x = s.to_string();
    x.push_str(app);
    let a = lengths(&x);
    if a.len() < n || a[..n - 1] != l[..n - 1] || a[n - 1] < l[n - 1] { return true }
    if !(ctl.ends_with('\r') && s.starts_with('\n')) {
        let (mut w, y) = (lengths(ctl), format!("{}{}", ctl, s));
        w.extend(&l);
        if lengths(&y) != w { return true }
    }
    false
}

/// Many texts searched for ones on which the laws look broken (shortest first).
fn scan(m: &Machine, seed: u64, effort: usize) -> (Vec<(String, String, String)>, u64) {
    let found: Mutex<Vec<(String, String, String)>> = Mutex::new(vec![]);
    let n = AtomicU64::new(0);
    let look = |s: &str, app: &str, ctl: &str, r: &mut Rng| {
        n.fetch_add(1, Relaxed);
        if suspicious(s, app, ctl, r) {
            let mut v = found.lock().unwrap();
            v.push((s.into(), app.into(), ctl.into()));
            if v.len() > 400 { v.sort_by_key(|x| x.0.len()); v.truncate(100); }
        }
    };
    // every scalar value at the start, in the middle and at the end
    par(0x110000 / 256, |k| {
        let mut r = Rng::new(seed, 42_000_000 + k as u64);
        for c in k * 256..(k + 1) * 256 {
            let ch = match char::from_u32(c) { Some(c) => c, None => continue };
            let plain = m.class[c as usize] == m.class['a' as usize] || (0xAC00..0xD7A4).contains(&c) || c > 0xE0200;
            for j in 0..if plain { effort } else { m.nq * 2 * effort } {
                let mut s = String::new();
                let where_ = r.below(4);
                if where_ > 0 { s.push_str(&random_text(m, &mut r, 4)); let q = if plain { r.below(m.nq) } else { j % m.nq }; for x in &m.access[q] { s.push(m.likely(*x, &mut r)); } }
                s.push(ch);
                if where_ < 2 || where_ == 3 && r.below(2) == 0 { s.push_str(&random_text(m, &mut r, 4)); }
                let (a, c) = around(m, &mut r);
                look(&s, &a, &c, &mut r);
            }
        }
    });
    // every word over the small alphabets
    for al in SMALL {
        par((al.len() * al.len()) as u32, |k| {
            let mut r = Rng::new(seed, 45_000_000 + k as u64);
            let ch = |x: usize| char::from_u32(al[x]).unwrap();
            for x in 0..al.len() { for y in 0..=al.len() { for _ in 0..effort {
                let mut s: String = [ch(k as usize / al.len()), ch(k as usize % al.len()), ch(x)].iter().collect();
                if y < al.len() { s.push(ch(y)) }
                let (_, mut c) = around(m, &mut r);
                if r.below(2) == 0 { c = ['a', '\n'].iter().collect() }
                let a: String = (0..r.below(3)).map(|_| ch(r.below(al.len()))).collect();
                look(&s, &a, &c, &mut r);
            } } }
        });
    }
    // every word of four classes, and longer texts
    par((m.nc * m.nc) as u32, |k| {
        let mut r = Rng::new(seed, 43_000_000 + k as u64);
        for x in 0..m.nc { for y in 0..m.nc { for _ in 0..effort {
            let s: String = [k as usize / m.nc, k as usize % m.nc, x, y].iter().map(|c| m.likely(*c, &mut r)).collect();
            let (a, c) = around(m, &mut r);
            look(&s, &a, &c, &mut r);
        } } }
        for _ in 0..300 * effort {
            let s = random_text(m, &mut r, 30);
            let (a, c) = around(m, &mut r);
            look(&s, &a, &c, &mut r);
        }
    });
    // something amid much plain text
    par(1500 * effort as u32, |k| {
        let mut r = Rng::new(seed, 44_000_000 + k as u64);
        let f = *r.pick(&['a', ' ', '\u{3042}', '\u{1F600}', '\n', '\u{E9}', '\u{915}', '\u{AC00}', '\u{301}', '\u{1F1E6}']);
        let len = |r: &mut Rng| [0, 0, 3, 30, 70, 140, 270, 400, 600, 1100][r.below(10)] + r.below(9);
        let (x, y, z) = (random_text(m, &mut r, 4), random_text(m, &mut r, 6), random_text(m, &mut r, 4));
        let (p, q) = (len(&mut r), len(&mut r));
        let s = format!("{}{}{}{}{}", x, f.to_string().repeat(p), y, f.to_string().repeat(q), z);
        let (mut a, mut c) = around(m, &mut r);
        if k % 3 == 0 { a = f.to_string().repeat(len(&mut r)) + &a }
        if k % 3 == 1 { c = f.to_string().repeat(len(&mut r)) + &c }
        look(&s, &a, &c, &mut r);
    });
    let mut v = found.into_inner().unwrap();
    v.sort_by_key(|x| (x.0.len() + x.1.len() + x.2.len(), x.clone()));
    v.dedup();
    v.truncate(60);
    (v, n.load(Relaxed))
}

pub fn locality(out: &str, table: &str, seed: u64, thorough: bool) {
    let m = Machine::load(table);
    let rec = |s: &str, r: &mut Rng, v: &mut Vec<String>| { let (a, c) = around(&m, r); v.push(locality_record(s, &a, &c)) };
    let words = par((m.nc * m.nc) as u32, |k| {
        let mut r = Rng::new(seed, 41_000_000 + k as u64);
        let (a, b) = (k as usize / m.nc, k as usize % m.nc);
        let mut v = vec![];
        for c in 0..=m.nc { for d in if c == m.nc || !thorough { 0..1 } else { 0..m.nc + 1 } {
            let mut s = String::new();
            for x in [a, b] { s.push(m.likely(x, &mut r)); }
            if c < m.nc { s.push(m.likely(c, &mut r)); }
            if thorough && c < m.nc && d < m.nc { s.push(m.likely(d, &mut r)); }
            rec(&s, &mut r, &mut v);
        } }
        for _ in 0..if thorough { 100 } else { 24 } {
            let s = random_text(&m, &mut r, 18);
            rec(&s, &mut r, &mut v);
        }
        for _ in 0..4 { let s = pumped(&m, &mut r, 14); rec(&s, &mut r, &mut v); }
        if k % 8 == 0 { let s = pumped(&m, &mut r, 90); rec(&s, &mut r, &mut v); }
        v
    });
    let mut v: Vec<String> = words.into_iter().flatten().collect();
    let (sus, n) = scan(&m, seed, if thorough { 12 } else { 1 });
    v.extend(sus.iter().map(|x| locality_record(&x.0, &x.1, &x.2)));
    std::fs::write(out, format!("{{\"scanned\":{},\"texts\":[\n{}]}}\n", n, v.join(",\n"))).unwrap();
}
