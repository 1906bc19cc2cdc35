//! Lockstep replay of the exported grapheme machine against the real iterator, and recording of
//! segmentation traces for TLC.
use crate::machine::Machine;
use crate::obs::guard;
use crate::sweep::par;
use crate::util::*;
use seshat::unicode::Segmentation;
use std::fmt::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

/// Cluster lengths (in characters) the library reports; [-1] panic, [-2] does not end,
/// [-3] the pieces are not the consecutive slices of the input.
pub fn lengths(s: &str) -> Vec<i64> {
    watched(s, || {
        guard(|| {
            let mut out = Vec::new();
            let (base, mut at) = (s.as_ptr() as usize, 0usize);
            for piece in s.break_graphemes() {
                if piece.as_ptr() as usize != base + at || piece.is_empty() || at + piece.len() > s.len() { return vec![-3]; }
                at += piece.len();
                out.push(piece.chars().count() as i64);
                if out.len() > s.len() { return vec![-2]; }
            }
            if at != s.len() { return vec![-3]; }
            out
        }).unwrap_or_else(|_| vec![-1])
    })
}

pub struct Rec { pub mism: Mutex<Vec<(Vec<u32>, Vec<i64>)>>, pub n: AtomicU64 }
impl Rec {
    pub fn new() -> Rec { Rec { mism: Mutex::new(vec![]), n: AtomicU64::new(0) } }
    fn check(&self, m: &Machine, s: &str) { self.check_as(s, &m.lengths_of(s)) }
    fn check_as(&self, s: &str, want: &[i64]) {
        self.n.fetch_add(1, Relaxed);
        let got = lengths(s);
        if got != want {
            let mut v = self.mism.lock().unwrap();
            if v.len() < 200 { v.push((cps(s), got)); }
        }
    }
}

/// Every class word of length <= depth, with a fixed and with a varying choice of members.
fn exhaustive(m: &Machine, depth: u32, seed: u64, rec: &Rec) {
    let total: u64 = (1..=depth).map(|d| (m.nc as u64).pow(d)).sum();
    let per = 4096u64;
    par(((total + per - 1) / per) as u32, |k| {
        let mut r = Rng::new(seed, 1000 + k as u64);
        let (mut s, mut t) = (String::new(), String::new());
        for mut x in k as u64 * per..((k as u64 + 1) * per).min(total) {
            let mut d = 1;
            while x >= (m.nc as u64).pow(d) { x -= (m.nc as u64).pow(d); d += 1; }
            let mut w = [0usize; 16];
            for j in 0..d as usize { w[j] = (x % m.nc as u64) as usize; x /= m.nc as u64; }
            s.clear(); t.clear();
            for j in 0..d as usize {
                s.push(char::from_u32(m.members[w[j]][0]).unwrap());
                t.push(m.likely(w[j], &mut r));
            }
            let want = m.lengths(w[..d as usize].iter().cloned());
            rec.check_as(&s, &want);
            rec.check_as(&t, &want);
        }
    });
}

/// Contexts (class prefix, class suffix) that together tell every pair of classes apart.
pub fn distinguishing(m: &Machine) -> Vec<(Vec<usize>, Vec<usize>)> {
    let mut cands = vec![];
    for q in 0..m.nq { for x in 0..=m.nc { for y in 0..=m.nc {
        let mut suf = vec![];
        if x < m.nc { suf.push(x) } else if y < m.nc { continue }
        if y < m.nc { suf.push(y) }
        let outs: Vec<Vec<bool>> = (0..m.nc).map(|c| {
            let mut st = q;
            let mut o = vec![];
            for k in std::iter::once(c).chain(suf.iter().cloned()) { o.push(m.brk[st][k]); st = m.delta[st][k]; }
            o
        }).collect();
        cands.push((q, suf, outs));
    } } }
    let mut todo: Vec<(usize, usize)> = (0..m.nc).flat_map(|a| (0..a).map(move |b| (a, b))).collect();
    let mut chosen = vec![];
    while !todo.is_empty() {
        let best = cands.iter().max_by_key(|c| todo.iter().filter(|(a, b)| c.2[*a] != c.2[*b]).count()).unwrap();
        let before = todo.len();
        todo.retain(|(a, b)| best.2[*a] == best.2[*b]);
        if todo.len() == before { break }
        chosen.push((m.access[best.0].clone(), best.1.clone()));
    }
    chosen
}

/// Every scalar value in every distinguishing context and in random ones.
fn every_code_point(m: &Machine, seed: u64, extra: usize, rec: &Rec) -> usize {
    let ctx = distinguishing(m);
    par(0x1100, |k| {
        let mut r = Rng::new(seed, 5_000_000 + k as u64);
        let mut s = String::new();
        for c in k * 256..(k + 1) * 256 {
            let ch = match char::from_u32(c) { Some(c) => c, None => continue };
            for (pre, suf) in &ctx {
                s.clear();
                for x in pre { s.push(char::from_u32(m.members[*x][0]).unwrap()); }
                s.push(ch);
                for x in suf { s.push(char::from_u32(m.members[*x][0]).unwrap()); }
                rec.check(m, &s);
            }
            for _ in 0..extra {
                s.clear();
                let q = r.below(m.nq);
                for x in &m.access[q] { s.push(m.likely(*x, &mut r)); }
                s.push(ch);
                for _ in 0..1 + r.below(3) { let x = r.below(m.nc); s.push(m.likely(x, &mut r)); }
                rec.check(m, &s);
            }
        }
    });
    ctx.len()
}

/// w u^n x: long look-behind contexts.
fn pumping(m: &Machine, seed: u64, sizes: &[usize], big: &[usize], words: usize, rec: &Rec) {
    par((m.nq * m.nc) as u32, |k| {
        let (q, c) = (k as usize / m.nc, k as usize % m.nc);
        let mut r = Rng::new(seed, 9_000_000 + k as u64);
        let mut pumps: Vec<Vec<usize>> = vec![vec![c]];
        for _ in 0..words { pumps.push((0..2 + r.below(2)).map(|j| if j == 0 { c } else { r.below(m.nc) }).collect()); }
        for (pi, u) in pumps.iter().enumerate() {
            for (n, isbig) in sizes.iter().map(|n| (*n, false)).chain(big.iter().map(|n| (*n, true))) {
                if isbig && pi > 0 { continue }
                let sufs: Vec<usize> = if n <= 70 && pi == 0 { (0..m.nc).collect() } else { (0..2).map(|_| r.below(m.nc)).collect() };
                let mut s = String::new();
                for x in &m.access[q] { s.push(m.likely(*x, &mut r)); }
                let fixed: Vec<char> = u.iter().map(|x| m.likely(*x, &mut r)).collect();
                let vary = r.below(2) == 0;
                for _ in 0..n { for (j, x) in u.iter().enumerate() { s.push(if vary { m.likely(*x, &mut r) } else { fixed[j] }); } }
                for x in sufs {
                    let mut t = s.clone();
                    t.push(m.likely(x, &mut r));
                    let y = r.below(m.nc);
                    t.push(m.likely(y, &mut r));
                    rec.check(m, &t);
                }
            }
        }
    });
}

/// W-method over the finer classes: access word, one or two fine characters, characterizing word.
fn wmethod(m: &Machine, seed: u64, fine2: usize, rec: &Rec) -> usize {
    let w = m.wset();
    let nf = m.fine.len();
    par((m.nq * nf) as u32, |k| {
        let (q, x) = (k as usize / nf, k as usize % nf);
        let mut r = Rng::new(seed, 13_000_000 + k as u64);
        let mut s = String::new();
        for y in 0..=nf {
            for _ in 0..if y == nf { 3 } else { fine2 } {
                s.clear();
                for c in &m.access[q] { s.push(m.likely(*c, &mut r)); }
                s.push(char::from_u32(*r.pick(&m.fine[x])).unwrap());
                if y < nf { s.push(char::from_u32(*r.pick(&m.fine[y])).unwrap()); }
                let n = s.len();
                for suf in &w {
                    s.truncate(n);
                    for c in suf { s.push(m.likely(*c, &mut r)); }
                    rec.check(m, &s);
                }
            }
        }
    });
    w.len()
}

/// Three fine characters, any order.
fn fine_words(m: &Machine, seed: u64, rec: &Rec) {
    let nf = m.fine.len();
    par((nf * nf) as u32, |k| {
        let mut r = Rng::new(seed, 15_000_000 + k as u64);
        let mut s = String::new();
        for z in 0..nf {
            s.clear();
            for f in [k as usize / nf, k as usize % nf, z] { s.push(char::from_u32(*r.pick(&m.fine[f])).unwrap()); }
            rec.check(m, &s);
        }
    });
}

/// Every ordered pair of the characters that any rule treats specially (all but a few Hangul
/// syllables and plain characters); when asked, also behind a third one.
fn pairs(m: &Machine, seed: u64, thorough: bool, rec: &Rec) {
    let plain = m.class['a' as usize];
    let mut v: Vec<char> = vec!['a', ' ', '0', '\u{AC00}', '\u{AC01}', '\u{B098}', '\u{D7A3}', '\u{4E00}', '\u{FFFF}', '\u{10FFFF}'];
    v.extend((0..0x110000u32).filter(|c| m.class[*c as usize] != plain && !(0xAC00..0xD7A4).contains(c)
        && !((0xE0080..0xE0100).contains(c) || (0xE01F0..0xE1000).contains(c)) && !((0x1F000..0x20000).contains(c) && c % 4 != 0 && c % 7 != 1 && *c > 0x1FAFF))
        .filter_map(char::from_u32));
    par(v.len() as u32, |k| {
        let mut r = Rng::new(seed, 21_000_000 + k as u64);
        let mut s = String::new();
        let a = v[k as usize];
        let (ca, mut w) = (m.class[a as usize] as usize, vec![0usize; 3]);
        for b in &v {
            let cb = m.class[*b as usize] as usize;
            s.clear();
            s.push(a);
            s.push(*b);
            let joined = !m.brk[m.delta[0][ca]][cb];
            rec.check_as(&s, if joined { &[2][..] } else { &[1, 1][..] });
            if thorough {
                s.clear();
                let c = *r.pick(&v);
                for x in [c, a, *b] { s.push(x) }
                w[0] = m.class[c as usize] as usize; w[1] = ca; w[2] = cb;
                rec.check_as(&s, &m.lengths(w.iter().cloned()));
            }
        }
    });
}

pub const SMALL: [&[u32]; 4] = [
    &[0x23, 0x31, 0xFE0F, 0xFE0E, 0x20E3, 0x1F3F4, 0xE0067, 0xE007F, 0x1F468, 0x200D, 0x1F3FB, 0x1F1E6, 0x1F1FA, 0x2764, 0x61, 0x301, 0xA9],
    &[0x915, 0x937, 0x94D, 0x93C, 0x200C, 0x200D, 0x93E, 0x902, 0x951, 0x995, 0x9CD, 0x600, 0xD4D, 0xD15, 0x61],
    &[0x1100, 0x1161, 0x11A8, 0xAC00, 0xAC01, 0xA960, 0xD7B0, 0xD7CB, 0x1160, 0x115F, 0x302E, 0x3131, 0x61, 0x200D],
    &[0xD, 0xA, 0x9, 0x20, 0x200B, 0xAD, 0x85, 0x2028, 0x600, 0x903, 0xE33, 0x301, 0x1F600, 0x200D, 0x61, 0xFEFF]];

/// Every word over the characters that emoji sequences are made of, and over those of conjuncts.
fn small_alphabets(m: &Machine, depth: u32, rec: &Rec) {
    for a in SMALL {
        let n = a.len() as u64;
        let total: u64 = (1..=depth).map(|d| n.pow(d)).sum();
        let per = 8192;
        par(((total + per - 1) / per) as u32, |k| {
            let mut s = String::new();
            for mut x in k as u64 * per..((k as u64 + 1) * per).min(total) {
                let mut d = 1;
                while x >= n.pow(d) { x -= n.pow(d); d += 1; }
                s.clear();
                for _ in 0..d { s.push(char::from_u32(a[(x % n) as usize]).unwrap()); x /= n; }
                rec.check(m, &s);
            }
        });
    }
}

/// Texts of one neighbourhood of the code space, with the marks and joiners that all scripts share.
fn neighbourhoods(m: &Machine, seed: u64, per: usize, rec: &Rec) {
    let shared = ['\u{200D}', '\u{200C}', '\u{301}', '\u{FE0F}', 'a', ' ', '\u{25CC}'];
    par(0x110000 / 64, |k| {
        let lo = k * 64;
        let own: Vec<char> = (lo.saturating_sub(64)..(lo + 128).min(0x110000)).filter_map(char::from_u32).collect();
        if own.is_empty() { return }
        let mut r = Rng::new(seed, 22_000_000 + k as u64);
        let dull = own.iter().all(|c| m.class[*c as usize] == m.class[own[0] as usize]);
        let marked: Vec<char> = own.iter().cloned().filter(|c| m.class[*c as usize] != m.class['a' as usize]).collect();
        let mut s = String::new();
        for _ in 0..if dull { 1 + per / 16 } else { per } {
            s.clear();
            for _ in 0..2 + r.below(8) {
                s.push(match r.below(8) { 0 => *r.pick(&shared), x if x < 4 && !marked.is_empty() => *r.pick(&marked), _ => *r.pick(&own) });
            }
            rec.check(m, &s);
        }
    });
}

/// Two characters that agree in their low bits (another plane, another block), in the contexts in which
/// one character can matter to a later one.
fn alike(m: &Machine, seed: u64, per: usize, rec: &Rec) {
    let plain = m.class['a' as usize];
    let v: Vec<u32> = (0..0x110000u32).filter(|c| m.class[*c as usize] != plain && !((0xAC00..0xD7A4).contains(c) && c % 28 > 2)
        && !(0xE0080..0xE0100).contains(c) && !(0xE01F0..0xE1000).contains(c) && char::from_u32(*c).is_some()).collect();
    let mids: [&[char]; 8] = [&[], &['\u{200D}'], &['\u{301}'], &['\u{FE0F}', '\u{200D}'], &['\u{94D}'], &['\u{200D}', '\u{94D}'], &['a'], &['\u{1F468}', '\u{200D}']];
    par(v.len() as u32, |k| {
        let b = v[k as usize];
        let mut r = Rng::new(seed, 23_000_000 + k as u64);
        let mut s = String::new();
        for y in 0..17 + per {
            let c = if y < 17 { y as u32 * 0x10000 + b % 0x10000 } else { let w = 7 + r.below(9); (r.below(0x110000 >> w) as u32) << w | (b & ((1 << w) - 1)) };
            let (b, c) = match (char::from_u32(b), char::from_u32(c)) { (Some(b), Some(c)) if b != c => (b, c), _ => continue };
            for mid in mids { for back in [false, true] {
                s.clear();
                s.push(if back { c } else { b });
                s.extend(mid);
                s.push(if back { b } else { c });
                rec.check(m, &s);
                if y < 17 { s.extend(mid); s.push(c); s.insert(0, b); rec.check(m, &s); }
            } }
        }
    });
}

/// Texts of hundreds to thousands of characters.
fn long_texts(m: &Machine, seed: u64, n: u32, rec: &Rec) {
    par(n, |k| {
        let mut r = Rng::new(seed, 17_000_000 + k as u64);
        let len = [100, 130, 260, 520, 1030, 2050, 4100, 8200][k as usize % 8] + r.below(20);
        let mut s = String::new();
        match r.below(3) {
            0 => while s.chars().count() < len { s.push_str(&random_text(m, &mut r, 40)); },
            1 => { let t = random_text(m, &mut r, 12) + "a"; while s.len() < len { s.push_str(&t); } }
            _ => { let f = ["a", " ", "\u{3042}", "\u{1F600}", "\n", "\u{E9}"][r.below(6)];
                   for _ in 0..r.below(len) { s.push_str(f); } s.push_str(&random_text(m, &mut r, 12)); for _ in 0..r.below(len) { s.push_str(f); } s.push_str(&random_text(m, &mut r, 12)); }
        }
        rec.check(m, &s);
    });
}

pub fn random_text(m: &Machine, r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    let mut s = String::new();
    // a small palette of classes makes long interacting contexts likely
    let pal: Vec<usize> = (0..2 + r.below(5)).map(|_| r.below(m.nc)).collect();
    for _ in 0..n {
        let c = if r.below(5) == 0 { r.below(m.nc) } else { *r.pick(&pal) };
        s.push(m.likely(c, r));
    }
    s
}

pub fn texts_json(v: &[(Vec<u32>, Vec<i64>)]) -> String {
    let mut o = String::from("[");
    for (j, (s, l)) in v.iter().enumerate() {
        if j > 0 { o.push_str(",\n") }
        let _ = write!(o, "{{\"s\":{},\"l\":{}}}", compact(s), compact(l));
    }
    o.push(']');
    o
}

/// P01. Output: traces for TLC (mismatches with the machine first), and the counts.
pub fn boundaries(out: &str, table: &str, seed: u64, thorough: bool) {
    let m = Machine::load(table);
    let rec = Rec::new();
    let mut counts = vec![];
    let mut lap = |name: &str, rec: &Rec, last: &mut u64| { let n = rec.n.load(Relaxed); counts.push((name.to_string(), n - *last)); *last = n; };
    let mut last = 0;
    exhaustive(&m, if thorough { 6 } else { 5 }, seed, &rec);
    lap("exhaustive_class_words", &rec, &mut last);
    every_code_point(&m, seed, if thorough { 60 } else { 6 }, &rec);
    lap("every_code_point_in_contexts", &rec, &mut last);
    let sizes: Vec<usize> = (2..20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513]).collect();
    pumping(&m, seed, &sizes, if thorough { &[1024, 4095, 4096, 65534, 65535, 65536, 65537, 65538][..] } else { &[1025, 65535, 65536, 65537][..] },
        if thorough { 24 } else { 4 }, &rec);
    lap("pumped_contexts", &rec, &mut last);
    wmethod(&m, seed, if thorough { 6 } else { 1 }, &rec);
    lap("w_method_fine_classes", &rec, &mut last);
    for k in 0..if thorough { 4 } else { 1 } { fine_words(&m, seed + 1000 * k, &rec); }
    lap("fine_class_triples", &rec, &mut last);
    pairs(&m, seed, thorough, &rec);
    lap("pairs_of_special_characters", &rec, &mut last);
    small_alphabets(&m, if thorough { 6 } else { 5 }, &rec);
    lap("words_over_small_alphabets", &rec, &mut last);
    neighbourhoods(&m, seed, if thorough { 4000 } else { 300 }, &rec);
    lap("neighbourhoods", &rec, &mut last);
    alike(&m, seed, if thorough { 400 } else { 12 }, &rec);
    lap("characters_alike_in_their_low_bits", &rec, &mut last);
    long_texts(&m, seed, if thorough { 24000 } else { 1600 }, &rec);
    lap("long_texts", &rec, &mut last);
    par(256, |k| {
        let mut r = Rng::new(seed, 20_000_000 + k as u64);
        for _ in 0..if thorough { 40000 } else { 2500 } { rec.check(&m, &random_text(&m, &mut r, 40)); }
    });
    lap("random_texts", &rec, &mut last);
    // recorded traces: validated by TLC against the declarative rules
    let mut v: Vec<(Vec<u32>, Vec<i64>)> = rec.mism.lock().unwrap().iter().filter(|x| x.0.len() <= 600).cloned().collect();
    v.sort_by_key(|x| (x.0.len(), x.0.clone()));
    v.truncate(40);
    let nm = rec.mism.lock().unwrap().len();
    let first = rec.mism.lock().unwrap().iter().min_by_key(|x| x.0.len()).map(|x| compact(&x.0)).unwrap_or("[]".into());
    let mut r = Rng::new(seed, 77);
    for _ in 0..if thorough { 60000 } else { 8000 } {
        let s = random_text(&m, &mut r, 14);
        let l = lengths(&s);
        v.push((cps(&s), l));
    }
    for q in 0..m.nq { for a in 0..m.nc { for b in 0..m.nc {
        let mut s = String::new();
        for x in m.access[q].iter().chain([a, b].iter()) { s.push(m.likely(*x, &mut r)); }
        v.push((cps(&s), lengths(&s)));
    } } }
    std::fs::write(out, format!("{{\"mismatches\":{},\"shortest\":{},\"counts\":{{{}}},\"texts\":{}}}\n", nm, first,
        counts.iter().map(|(n, c)| format!("\"{}\":{}", n, c)).collect::<Vec<_>>().join(","), texts_json(&v))).unwrap();
}
