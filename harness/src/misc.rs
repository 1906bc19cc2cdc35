//! Recorders for names, mappings, aliases, code points, versions and two-stage tables.
use crate::idents::Ident;
use crate::obs::*;
use crate::sweep::par;
use crate::util::*;
use seshat::collections::TwoStageTable;
use seshat::unicode::props::*;
use seshat::unicode::{CodePoint, ToCodePoint, Ucd, UnicodeVersion, UNICODE_VERSION};
use std::fmt::Write;

/// Merge adjacent equal rows of a sweep over the code space.
fn rle<T: PartialEq + Send, F: Fn(u32) -> T + Sync>(f: F) -> Vec<(u32, u32, T)> {
    let chunks = par(0x1100, |k| {
        let mut v: Vec<(u32, u32, T)> = vec![];
        for c in k * 256..(k + 1) * 256 {
            let t = f(c);
            match v.last_mut() { Some(l) if l.2 == t => l.1 = c, _ => v.push((c, c, t)) }
        }
        v
    });
    let mut o: Vec<(u32, u32, T)> = vec![];
    for r in chunks.into_iter().flatten() {
        match o.last_mut() { Some(l) if l.2 == r.2 => l.1 = r.1, _ => o.push(r) }
    }
    o
}

// ------------------------------------------------------------------------------- names
/// (name or prefix, ends in the code point's hexadecimal number, what the char receiver says)
fn name_row(c: u32) -> (String, bool, String) {
    let n = match cp(c) { Ok(p) => call(|u: &CodePoint| u.na(), &p), Err(e) => e };
    let ch = match char::from_u32(c) {
        None => "surrogate".to_string(),
        Some(x) => { let m = call(|u: &char| u.na(), &x); if m == n { "same".into() } else { format!("char says {:?}", m) } }
    };
    match n.strip_suffix(&format!("{:04X}", c)) {
        Some(p) => (p.to_string(), true, ch),
        None => (n, false, ch),
    }
}
pub fn names(out: &str) {
    let rows = rle(name_row);
    let mut o = String::from("{\"rows\":[\n");
    for (j, (lo, hi, (n, pat, ch))) in rows.iter().enumerate() {
        if j > 0 { o.push_str(",\n") }
        let _ = write!(o, "[{},{},{},{},{}]", lo, hi, esc(n), pat, esc(ch));
    }
    o.push_str("]}\n");
    std::fs::write(out, o).unwrap();
}

// ---------------------------------------------------------------------------- mappings
fn ints(s: Result<String, ()>) -> Vec<i64> { s.map_or(vec![-1], |s| s.chars().map(|c| c as i64).collect()) }
pub fn mappings(out: &str) {
    let rows = rle(|c| {
        let a = match cp(c) { Ok(p) => ints(guard(|| p.dm())), Err(_) => vec![-3] };
        let b = match char::from_u32(c) { Some(x) => ints(guard(|| x.dm())), None => vec![-2] };
        (a, b)
    });
    let mut o = String::from("{\"rows\":[\n");
    for (j, (lo, hi, (a, b))) in rows.iter().enumerate() {
        if j > 0 { o.push_str(",\n") }
        let _ = write!(o, "[{},{},{},{}]", lo, hi, compact(a), compact(b));
    }
    o.push_str("]}\n");
    std::fs::write(out, o).unwrap();
}

// ------------------------------------------------------------------- total and agreeing
/// Queries whose values are too many for a sweep: only whether they return and agree.
pub fn agree(out: &str) {
    let rows = rle(|c| {
        let f = |a: Result<String, String>, b: Option<String>| match (a, b) {
            (Err(e), _) => e,
            (Ok(a), _) if a == "PANIC" => a,
            (_, None) => "surrogate".into(),
            (Ok(a), Some(b)) => if a == b { "same".into() } else if b == "PANIC" { b } else { "differs".into() },
        };
        let ch = char::from_u32(c);
        let n = f(cp(c).map(|p| call(|u: &CodePoint| u.na(), &p)), ch.map(|x| call(|u: &char| u.na(), &x)));
        let d = f(cp(c).map(|p| call(|u: &CodePoint| u.dm(), &p)), ch.map(|x| call(|u: &char| u.dm(), &x)));
        // the conversion is a third view of the same code point
        let t = match ch { None => "surrogate".to_string(), Some(x) => match guard(|| x.to_code_point().to_u32()) {
            Ok(v) if v == c => "same".into(), Ok(v) => format!("becomes {:X}", v), Err(_) => "PANIC".into() } };
        [n, d, t]
    });
    let mut o = String::from("{\"rows\":[\n");
    for (j, (lo, hi, v)) in rows.iter().enumerate() {
        if j > 0 { o.push_str(",\n") }
        let _ = write!(o, "[{},{},[{}]]", lo, hi, v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    }
    o.push_str("]}\n");
    std::fs::write(out, o).unwrap();
}

// ----------------------------------------------------------------------------- aliases
fn alias_rows<T: Ident + UnicodeProperty + Copy>(e: &str, o: &mut Vec<String>) {
    for v in T::all() {
        let r = guard(|| { let n = v.property_value_name(); (n.full.to_string(), n.abbr.to_string()) })
            .unwrap_or(("PANIC".into(), "PANIC".into()));
        o.push(format!("{{\"enum\":\"{}\",\"ident\":\"{}\",\"full\":{},\"abbr\":{}}}", e, v.ident(), esc(&r.0), esc(&r.1)));
    }
}
pub fn aliases(out: &str) {
    let mut o = vec![];
    macro_rules! all { ($($t:ident)*) => { $( alias_rows::<$t>(stringify!($t), &mut o); )* } }
    all!(Gc Gcb Hst Bc Dt Blk Sc Age Wb Insc Incb BinaryProperty Ccc);
    let f = |b: bool| guard(|| BinaryProperty::from(b).ident().to_string()).unwrap_or("PANIC".into());
    std::fs::write(out, format!("{{\"rows\":[\n{}],\"true\":\"{}\",\"false\":\"{}\"}}\n", o.join(",\n"), f(true), f(false))).unwrap();
}

// -------------------------------------------------------------------------- code points
pub fn codepoints(out: &str) {
    // every u32
    let chunks = par(0x10000, |k| {
        let mut v: Vec<(u32, u32, &'static str)> = vec![];
        for x in 0..0x10000u32 {
            let c = k << 16 | x;
            let s = match guard(|| CodePoint::new(c).map(|p| p.to_u32())) {
                Ok(Ok(y)) if y == c => "ok", Ok(Ok(_)) => "other", Ok(Err(_)) => "err", Err(_) => "PANIC" };
            match v.last() { Some(l) if l.2 == s => {}, _ if v.len() > 8 => {} // more than two runs are wrong anyway
                _ => v.push((k, x, s)) }
        }
        v
    });
    let mut rows: Vec<(u32, u32, &str)> = vec![];
    for r in chunks.into_iter().flatten() { if rows.last().map_or(true, |l| l.2 != r.2) { rows.push(r) } }
    rows.truncate(1000);
    // conversion from char
    let conv = rle(|c| match char::from_u32(c) {
        None => "surrogate".to_string(),
        Some(x) => match guard(|| x.to_code_point().to_u32()) { Ok(v) if v == c => "same".into(), Ok(v) => format!("becomes {:X}", v), Err(_) => "PANIC".into() },
    });
    // printing, sixteen to a row
    let shown = par(0x11000, |k| {
        let v: Vec<String> = (0..16).map(|j| match cp(k << 4 | j) {
            Ok(p) => guard(|| { let s = format!("{}", p); if s == p.to_string() { s } else { "?".into() } }).unwrap_or("PANIC".into()),
            Err(e) => e }).collect();
        let pre: String = { let mut x = v[0].clone(); x.pop(); x };
        if v.iter().all(|s| s.len() == pre.len() + 1 && s.is_ascii() && s.starts_with(&pre)) {
            format!("[{},{}]", esc(&pre), esc(&v.iter().map(|s| s.chars().last().unwrap()).collect::<String>()))
        } else { format!("[\"irregular\",{}]", esc(&v.join(" "))) }
    });
    let mut o = String::from("{\"new\":[");
    o.push_str(&rows.iter().map(|r| format!("[{},{},\"{}\"]", r.0, r.1, r.2)).collect::<Vec<_>>().join(","));
    o.push_str("],\n\"char\":[");
    o.push_str(&conv.iter().map(|r| format!("[{},{},{}]", r.0, r.1, esc(&r.2))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "],\n\"shown\":[{}]}}\n", shown.join(",\n"));
    std::fs::write(out, o).unwrap();
}

// ----------------------------------------------------------------------------- versions
pub fn versions(out: &str, seed: u64, thorough: bool) {
    let small = [0u32, 1, 9, 0x7FFF_FFFF, 0xFFFF_FFFF];
    let wide = [0u32, 1, 2, 6, 9, 10, 11, 15, 16, 63, 99, 100, 127, 128, 255, 256, 257, 999, 4095, 65535, 65536, 65537,
        0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFE, 0xFFFF_FFFF];
    let mut r = Rng::new(seed, 71);
    let mut pairs: Vec<([u32; 3], [u32; 3])> = vec![];
    let all = |d: &[u32]| { let mut v = vec![]; for a in d { for b in d { for c in d { v.push([*a, *b, *c]); } } } v };
    let g = all(&small);
    for a in &g { for b in &g { pairs.push((*a, *b)); } }
    for _ in 0..if thorough { 200_000 } else { 30_000 } {
        let mut p = || [*r.pick(&wide), *r.pick(&wide), *r.pick(&wide)];
        let (a, b) = (p(), p());
        let mut b = b;
        match r.below(4) { 0 => b[0] = a[0], 1 => { b[0] = a[0]; b[1] = a[1] } 2 => b = { let mut b = a; let k = r.below(3); b[k] = r.next() as u32; b }, _ => {} }
        pairs.push((a, b));
    }
    let mk = |a: &[u32; 3]| UnicodeVersion { major: a[0], minor: a[1], update: a[2] };
    let t = |b: bool| if b { 'T' } else { 'F' };
    let half = |a: &[u32; 3]| compact(&a.iter().map(|x| [x >> 16, x & 0xFFFF]).collect::<Vec<_>>());
    let rows: Vec<String> = pairs.iter().map(|(a, b)| {
        let obs = guard(|| {
            let (x, y) = (mk(a), mk(b));
            let c = match x.partial_cmp(&y) { Some(std::cmp::Ordering::Less) => "<", Some(std::cmp::Ordering::Equal) => "=", Some(_) => ">", None => "?" };
            (c.to_string(), [t(x < y), t(x <= y), t(x == y), t(x != y), t(x >= y), t(x > y)].iter().collect::<String>())
        }).unwrap_or(("PANIC".into(), "PANIC".into()));
        format!("[{},{},\"{}\",\"{}\"]", half(a), half(b), obs.0, obs.1)
    }).collect();
    let mut shown: Vec<[u32; 3]> = all(&small);
    for _ in 0..3000 { shown.push([*r.pick(&wide), *r.pick(&wide), *r.pick(&wide)]); shown.push([r.next() as u32, r.next() as u32 >> r.below(32), r.next() as u32 >> r.below(32)]); }
    let shown: Vec<String> = shown.iter().map(|a| format!("[{},{}]", half(a), esc(&guard(|| mk(a).to_string()).unwrap_or("PANIC".into())))).collect();
    // ages in use
    let mut ages: Vec<String> = rle(|c| cp(c).map_or_else(|e| e, |p| call(|u: &CodePoint| u.age().ident().to_string(), &p)))
        .into_iter().map(|x| x.2).collect();
    ages.sort(); ages.dedup();
    let v = UNICODE_VERSION;
    std::fs::write(out, format!("{{\"pairs\":[\n{}],\n\"shown\":[\n{}],\n\"ages\":[{}],\"current\":{},\"current_shown\":{}}}\n", rows.join(",\n"),
        shown.join(",\n"), ages.iter().map(|a| esc(a)).collect::<Vec<_>>().join(","), half(&[v.major, v.minor, v.update]), esc(&v.to_string()))).unwrap();
}

// ----------------------------------------------------------------------- two-stage tables
const M: u64 = 251;
fn content(b: u64, o: u64, salt: u64) -> u64 { (b * 7919 + o * 31 + salt) % M }

trait Elem: Copy { fn of(x: u64) -> Self; fn back(self) -> i64; }
impl Elem for u8 { fn of(x: u64) -> u8 { x as u8 } fn back(self) -> i64 { self as i64 } }
impl Elem for char { fn of(x: u64) -> char { (x as u8) as char } fn back(self) -> i64 { self as i64 } }
impl Elem for (u64, bool) { fn of(x: u64) -> (u64, bool) { (x << 40, x % 2 == 1) } fn back(self) -> i64 { if (self.0 >> 40) % 2 == self.1 as u64 { (self.0 >> 40) as i64 } else { -5 } } }
impl Elem for &'static str { fn of(x: u64) -> &'static str { NUMS.with(|n| n[x as usize]) } fn back(self) -> i64 { self.parse().unwrap() } }
thread_local! { static NUMS: Vec<&'static str> = (0..M).map(|x| &*Box::leak(x.to_string().into_boxed_str())).collect(); }

macro_rules! table { ($t:ty, $i:ty, $kind:expr, $bs:expr, $nb:expr, $nq:expr, $looks:expr, $r:expr) => { {
    let (bs, nb, nq, looks): (u64, u64, u64, usize) = ($bs, $nb, $nq, $looks);
    let salt = $r.below(M as usize) as u64;
    let blocks: Vec<Vec<$t>> = (0..nb).map(|b| (0..bs).map(|o| <$t as Elem>::of(content(b, o, salt))).collect()).collect();
    let s2: Vec<&[$t]> = blocks.iter().map(|b| &b[..]).collect();
    let s1n: Vec<u64> = (0..nq).map(|q| if q == 0 { nb - 1 } else { $r.below(nb as usize) as u64 }).collect();
    let s1: Vec<$i> = s1n.iter().map(|x| <$i>::try_from(*x).ok().unwrap()).collect();
    let t = TwoStageTable::new(&s1, &s2, bs as usize);
    let total = (bs * nq).min(1 << 32);
    let ps: Vec<u64> = if total as usize <= looks { (0..total).collect() } else {
        let mut v: Vec<u64> = vec![0, bs - 1, total - 1];
        for q in 1..nq.min(looks as u64 / 6) { v.push(q * bs - 1); v.push(q * bs); }
        while v.len() < looks { v.push(match $r.below(3) { 0 => $r.next() % total, 1 => ($r.next() % nq) * bs, _ => ($r.next() % nq) * bs + bs - 1 }); }
        v.retain(|p| *p < total);
        v
    };
    let rows: Vec<[i64; 3]> = ps.iter().map(|p| [(p / bs) as i64, (p % bs) as i64, guard(|| t.at(*p as u32)).map_or(-1, |x| x.back())]).collect();
    format!("{{\"kind\":\"{}\",\"bs\":{},\"blocks\":{},\"salt\":{},\"mul\":0,\"add\":0,\"stage1\":{},\"looks\":{}}}", $kind, bs, nb, salt, compact(&s1n), compact(&rows))
} } }

/// Tables too large to write down: stage 1 follows a rule (entry q is (q * mul + add) mod blocks).
macro_rules! large { ($i:ty, $kind:expr, $bs:expr, $nb:expr, $nq:expr, $r:expr) => { {
    let (bs, nb, nq): (u64, u64, u64) = ($bs, $nb, $nq);
    let (mul, add, salt) = (1 + $r.below(5000) as u64, $r.below(nb as usize) as u64, $r.below(M as usize) as u64);
    let flat: Vec<u8> = (0..nb).flat_map(|b| (0..bs).map(move |o| content(b, o, salt) as u8)).collect();
    let s2: Vec<&[u8]> = flat.chunks(bs as usize).collect();
    let at = |q: u64| (q % nb * mul + add) % nb;
    let s1: Vec<$i> = (0..nq).map(|q| at(q) as $i).collect();
    let t = TwoStageTable::new(&s1, &s2, bs as usize);
    let mut qs: Vec<u64> = vec![0, nq - 1];
    let mut e = 128; // both sides of every power of two, of the index and of what it refers to
    while e < nq { for d in [e - 1, e, e + 1] { if d < nq { qs.push(d); } } e *= 2; }
    while qs.len() < 400 { qs.push($r.next() % nq); }
    let rows: Vec<[i64; 3]> = qs.iter().map(|q| { let o = $r.next() % bs; [*q as i64, o as i64, guard(|| t.at((q * bs + o) as u32)).map_or(-1, |x| x as i64)] }).collect();
    format!("{{\"kind\":\"{}\",\"bs\":{},\"blocks\":{},\"salt\":{},\"mul\":{},\"add\":{},\"stage1\":[],\"looks\":{}}}", $kind, bs, nb, salt, mul, add, compact(&rows))
} } }

pub fn tables(out: &str, seed: u64, thorough: bool) {
    let n = if thorough { 4000 } else { 700 };
    let rows = par(n, |k| {
        let mut r = Rng::new(seed, 61_000_000 + k as u64);
        let looks = 160;
        if k % 50 == 48 {
            let (bs, nb) = (1 + r.below(9) as u64, [70_000u64, 131_073, 140_000, 262_145, 300_000, 530_000][k as usize / 50 % 6]);
            let nq = ([66_000u64, 70_000, 132_000, 300_000, 1_114_112, 2_200_000, 4_300_000][k as usize / 50 % 7]).min((1 << 32) / bs);
            return match k / 50 % 4 { 0 => large!(u32, "u8[u32], large", bs, nb, nq, &mut r), 1 => large!(u64, "u8[u64], large", bs, nb, nq, &mut r),
                2 => large!(i32, "u8[i32], large", bs, nb, nq, &mut r), _ => large!(usize, "u8[usize], large", bs, nb, nq, &mut r) };
        }
        if k % 50 == 47 {
            let bs = 1 + r.below(9) as u64;
            let nq = [66_000u64, 70_000, 1_114_112, 2_200_000, 4_300_000][r.below(5)];
            return if k % 100 == 47 { large!(u8, "u8[u8], large", bs, 256, nq, &mut r) } else { large!(u16, "u8[u16], large", bs, 65_536, nq, &mut r) };
        }
        if k % 100 == 99 { // the far end of the position space
            let bs = [1u64 << 24, 1 << 20, (1 << 22) + 1, 3_000_017][r.below(4)];
            let nq = ((1u64 << 32) + bs - 1) / bs;
            return table!(u8, u32, "u8[u32]", bs, 2, nq, 120, &mut r);
        }
        let bs = match r.below(5) { 0 => 1 + r.below(4) as u64, 1 => 1 << r.below(9), 2 => 128, 3 => 1 + r.below(300) as u64, _ => [127u64, 129, 255, 256, 257, 511, 1000][r.below(7)] };
        match r.below(9) {
            0 => { let nb = 1 + r.below(256) as u64; table!(u8, u8, "u8[u8]", bs, nb, 1 + r.below(40) as u64, looks, &mut r) }
            1 => { let nb = 1 + r.below(600) as u64; table!(u8, u16, "u8[u16]", bs, nb, 1 + r.below(40) as u64, looks, &mut r) }
            2 => { let nb = 200 + r.below(400) as u64; table!(char, u16, "char[u16]", bs, nb, 1 + r.below(400) as u64, looks, &mut r) }
            3 => { let nb = 1 + r.below(50) as u64; table!(char, u32, "char[u32]", bs, nb, 1 + r.below(30) as u64, looks, &mut r) }
            4 => { let nb = 1 + r.below(90) as u64; table!((u64, bool), u64, "pair[u64]", bs, nb, 1 + r.below(300) as u64, looks, &mut r) }
            5 => { let nb = 1 + r.below(90) as u64; table!(&'static str, usize, "str[usize]", bs, nb, 1 + r.below(20) as u64, looks, &mut r) }
            6 => { let nb = 1 + r.below(90) as u64; table!(u8, i32, "u8[i32]", bs, nb, 1 + r.below(20) as u64, looks, &mut r) }
            7 => { let nb = 1 + r.below(120) as u64; table!(u8, i8, "u8[i8]", bs, nb, 1 + r.below(20) as u64, looks, &mut r) }
            _ => { let nb = 66_000; table!(u8, u32, "u8[u32]", 1 + r.below(3) as u64, nb, 200, looks, &mut r) }
        }
    });
    std::fs::write(out, format!("{{\"tables\":[\n{}]}}\n", rows.join(",\n"))).unwrap();
}
