//! A fast interpreter of the tables TLC exports (spec/NormExport.tla): mappings, combining classes
//! and pairs, applied as spec/Norm.tla says.  It decides nothing.  It only searches millions of texts
//! for ones worth recording: those on which it and the library disagree go into the traces that TLC
//! judges with the specification itself.
use crate::norm::*;
use crate::sweep::par;
use crate::util::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

pub struct Scout { ccc: Vec<u8>, can: HashMap<u32, Vec<u32>>, com: HashMap<u32, Vec<u32>>, pair: HashMap<(u32, u32), u32>, has: Vec<bool> }

impl Scout {
    pub fn new(a: &Alpha) -> Scout {
        let mut s = Scout { ccc: vec![0; 0x110000], can: HashMap::new(), com: HashMap::new(), pair: HashMap::new(), has: vec![false; 0x110000] };
        for (k, g) in &a.by_ccc { for c in g { s.ccc[*c as usize] = *k as u8 } }
        for d in &a.full { s.has[d.0 as usize] = true; s.can.insert(d.0, d.1.clone()); s.com.insert(d.0, d.2.clone()); }
        for p in &a.pairs { s.pair.insert((p.0, p.1), p.2); }
        s
    }
    fn put(&self, out: &mut Vec<u32>, c: u32) {
        // keep the run at the end in canonical order: insert behind the last mark of no greater class
        let k = self.ccc[c as usize];
        let mut at = out.len();
        if k > 0 { while at > 0 && self.ccc[out[at - 1] as usize] > k { at -= 1 } }
        out.insert(at, c);
    }
    pub fn nf(&self, f: usize, s: &[u32]) -> Vec<i64> {
        let mut d = Vec::with_capacity(s.len() * 2);
        for c in s {
            if (0xAC00..0xD7A4).contains(c) {
                let x = c - 0xAC00;
                self.put(&mut d, 0x1100 + x / 588);
                self.put(&mut d, 0x1161 + x % 588 / 28);
                if x % 28 > 0 { self.put(&mut d, 0x11A7 + x % 28) }
            } else if !self.has[*c as usize] { self.put(&mut d, *c) }
            else { for x in &(if f < 2 { &self.can } else { &self.com })[c] { self.put(&mut d, *x) } }
        }
        if f % 2 == 1 { d = self.compose(&d) }
        d.into_iter().map(|c| c as i64).collect()
    }
    fn compose(&self, d: &[u32]) -> Vec<u32> {
        let (mut out, mut st, mut prev): (Vec<u32>, Option<usize>, i32) = (Vec::with_capacity(d.len()), None, -1);
        for c in d {
            let k = self.ccc[*c as usize] as i32;
            if let Some(j) = st { if prev == -1 || (prev != 0 && prev < k) {
                let l = out[j];
                let p = if (0x1100..0x1113).contains(&l) && (0x1161..0x1176).contains(c) { Some(0xAC00 + (l - 0x1100) * 588 + (c - 0x1161) * 28) }
                    else if (0xAC00..0xD7A4).contains(&l) && (l - 0xAC00) % 28 == 0 && (0x11A8..0x11C3).contains(c) { Some(l + c - 0x11A7) }
                    else { self.pair.get(&(l, *c)).cloned() };
                if let Some(p) = p { out[j] = p; continue }
            } }
            if k == 0 { st = Some(out.len()); prev = -1 } else { prev = k }
            out.push(*c);
        }
        out
    }
}

/// One text of the search, by kind.
fn candidate(a: &Alpha, lists: &Lists, kind: usize, x: u64, r: &mut Rng) -> Vec<u32> {
    let Lists { firsts, seconds, marks, dec, reps, .. } = lists;
    match kind {
        0 => { let (f, s) = (x as usize / seconds.len(), x as usize % seconds.len()); vec![firsts[f], seconds[s]] }
        1 => { let x = x as usize; let (f, y) = (x / (reps.len() * seconds.len()), x % (reps.len() * seconds.len()));
               vec![firsts[f], *r.pick(&reps[y / seconds.len()]), seconds[y % seconds.len()]] }
        2 => { let x = x as usize; let (m, n) = (marks[x / marks.len()], marks[x % marks.len()]);
               match r.below(4) { 0 => vec![m, n], 1 => vec![0x61, m, n], 2 => vec![*r.pick(firsts), m, n], _ => vec![0x3B1, m, n, *r.pick(seconds)] } }
        3 => { let c = dec[x as usize % dec.len()];
               let o = |r: &mut Rng| match r.below(4) { 0 => *r.pick(seconds), 1 => *r.pick(marks), 2 => *r.pick(dec), _ => *r.pick(firsts) };
               match r.below(4) { 0 => vec![c, o(r)], 1 => vec![o(r), c], 2 => vec![o(r), c, o(r)], _ => vec![c, o(r), o(r)] } }
        4 => { let c = match char::from_u32(x as u32) { Some(c) => c as u32, None => return vec![] };
               let (p, q) = (mixed(a, r, 1), mixed(a, r, 1));
               match r.below(3) { 0 => [p, vec![c]].concat(), 1 => [vec![c], q].concat(), _ => [p, vec![c], q].concat() } }
        5 => mixed(a, r, 10),
        6 => mixed(a, r, 60),
        7 => { let n = 2 + r.below(40); let mut t = vec![*r.pick(firsts)]; t.extend(mark_run(a, r, n)); t }
        8 => (0..2 + r.below(7)).map(|_| hangul(r)).collect(),
        9 => { let c = dec[x as usize % dec.len()]; vec![c; 2 + r.below(9)] }
        10 => { let f = *r.pick(&a.sets["inert"]); let n = r.below(40); let mut t = vec![f; n]; t.extend(mixed(a, r, 4)); let n = r.below(40); t.extend(vec![f; n]); t }
        11 => { let base = *r.pick(&lists.acts); let w = [16, 64, 256][r.below(3)];
                (0..2 + r.below(9)).map(|_| loop { let y = base / w as u32 * w as u32 + r.below(w) as u32; if char::from_u32(y).is_some() { break y } }).collect() }
        13 => { let (x, g) = (x as usize, reps.len());
                let mut t = match r.below(3) { 0 => vec![], 1 => vec![*r.pick(firsts)], _ => vec![0x61] };
                for k in [x / g / g, x / g % g, x % g] { t.push(*r.pick(&reps[k])) }
                if r.below(3) == 0 { t.push(*r.pick(seconds)) }
                t }
        // something amid much plain text
        14 => {
            let al: Vec<u32> = match r.below(4) { 0 => (0x20..0x7F).collect(), 1 => (0..1 + r.below(6)).map(|_| *r.pick(&a.sets["inert"])).collect(),
                                                  2 => vec![0x61], _ => vec![*r.pick(&[0x20, 0x4E00, 0x3042, 0x1F600, 0x431, 0xAC00, 0xA])] };
            let len = |r: &mut Rng| [0, 1, 3, 20, 40, 70, 100, 130, 200, 260, 310, 400, 520, 700][r.below(14)] + r.below(12) + if r.below(60) == 0 { 1000 + 3100 * (r.below(8) / 7) } else { 0 };
            let mut t: Vec<u32> = (0..len(r)).map(|_| *r.pick(&al)).collect();
            t.extend(match x % 8 {
                0 => { let p = *r.pick(&a.pairs); vec![p.0, p.1] }
                1 => vec![*r.pick(dec)],
                2 => lists.excl2[(x / 8) as usize % lists.excl2.len()].clone(),
                3 => (0..1 + r.below(4)).map(|_| *r.pick(marks)).collect(),
                4 => (0..2 + r.below(3)).map(|_| hangul(r)).collect(),
                5 => vec![*r.pick(&a.sets["can"])],
                6 => vec![*r.pick(&a.sets["excl"])],
                _ => mixed(a, r, 5),
            });
            t.extend((0..len(r) / (1 + r.below(2) * 300)).map(|_| *r.pick(&al)).collect::<Vec<u32>>());
            t
        }
        // one unit many times
        17 => {
            let n = [15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 256, 512][r.below(18)];
            let u = match x % 5 { 0 | 1 => { let p = *r.pick(&a.pairs); vec![p.0, p.1] } 2 => vec![*r.pick(dec)], 3 => vec![*r.pick(dec), *r.pick(marks)], _ => vec![*r.pick(&a.sets["can"]), *r.pick(seconds)] };
            let mut t = vec![];
            if r.below(3) == 0 { t.push(one(a, r)) }
            for _ in 0..n { t.extend(&u) }
            if r.below(3) == 0 { t.push(one(a, r)) }
            t
        }
        // every decomposable character behind and before a mark of every class
        15 | 16 => {
            let (c, m) = (dec[x as usize / reps.len()], *r.pick(&reps[x as usize % reps.len()]));
            let mut t: Vec<u32> = match r.below(4) { 0 => vec![], 1 => vec![0x61; 1 + r.below(5)], 2 => vec![*r.pick(firsts)], _ => mixed(a, r, 5) };
            if kind == 15 { t.push(m) }
            t.push(c);
            if kind == 16 { t.push(m) }
            match r.below(4) { 0 => t.push(*r.pick(seconds)), 1 => t.push(*r.pick(marks)), 2 => t.extend(mixed(a, r, 3)), _ => {} }
            t
        }
        // one character before each of a handful of composing characters (18), of all trailing consonants (20);
        // behind a handful of composing ones (19); before all vowels and behind all leading consonants (21)
        18 | 19 => { let l = if kind == 18 { seconds } else { firsts };
                let (c, g) = (x as u32 % 0x110000, (x / 0x110000) as usize);
                if char::from_u32(c).is_none() { return vec![] }
                l.iter().skip(g * 12).take(12).flat_map(|y| if kind == 18 { [c, *y] } else { [*y, c] }).collect() }
        20 => { let c = x as u32; if char::from_u32(c).is_none() { return vec![] } (0x11A7..0x11C4).flat_map(|t| [c, t]).collect() }
        21 => { let c = x as u32; if char::from_u32(c).is_none() { return vec![] }
                let mut t: Vec<u32> = (0x1160..0x1177).flat_map(|v| [c, v]).collect();
                t.push(0x61);
                t.extend((0x10FF..0x1114).flat_map(|l| [l, c]));
                t.extend([0x61, 0xAC00 + 28 * r.below(399) as u32, c, 0x61, 0xAC00 + r.below(11172) as u32, c]);
                t }
        // two characters that agree in their low bits, perhaps something between them
        22 => {
            let b = lists.acts[x as usize / 24 % lists.acts.len()];
            let y = x as usize % 24;
            let c = if y < 17 { y as u32 * 0x10000 + b % 0x10000 } else { let w = [8, 10, 11, 12, 14, 15, 20][y - 17]; (r.below(0x110000 >> w.min(18)) as u32) << w.min(18) | (b & ((1 << w.min(18)) - 1)) };
            if char::from_u32(c).is_none() || c > 0x10FFFF { return vec![] }
            match r.below(6) { 0 => vec![b, c], 1 => vec![c, b], 2 => vec![b, one(a, r), c], 3 => vec![c, *r.pick(seconds), b], 4 => vec![c, *r.pick(marks), b, *r.pick(seconds)],
                               _ => { let mut t = vec![b]; t.extend(mixed(a, r, 3)); t.push(c); t.extend(mixed(a, r, 2)); t } }
        }
        // a canonical pair in which one is replaced by a character with the same low bits
        23 => {
            let p = &a.pairs[x as usize / 34 % a.pairs.len()];
            let y = x as usize % 34;
            let (l, h) = (y % 2, (y / 2) as u32 * 0x10000);
            let t = if l == 0 { [h + p.0 % 0x10000, p.1] } else { [p.0, h + p.1 % 0x10000] };
            if t.iter().any(|c| char::from_u32(*c).is_none()) { return vec![] }
            t.to_vec()
        }
        // very long texts: one material or tiled pieces, something active near the end and elsewhere
        24 => {
            let n = if x % 16 == 0 { 33_000 } else { [4200, 5000, 8200, 10_100, 16_500][x as usize % 5] } + r.below(40);
            let piece: Vec<u32> = match r.below(5) {
                0 => vec![*r.pick(&[0x61, 0x20, 0x4E00, 0x1F600, 0x431])],
                1 => { let p = *r.pick(&a.pairs); vec![p.0, p.1] }
                2 => vec![0x65, 0x301],
                3 => mixed(a, r, 6),
                _ => vec![*r.pick(&a.sets["can"]), *r.pick(marks)],
            };
            let mut t = Vec::with_capacity(n + 8);
            while !piece.is_empty() && t.len() < n {
                t.extend(&piece);
                if r.below(700) == 0 { t.extend(mixed(a, r, 4)) }
            }
            t.extend([0x65, 0x301, 0x323]);
            if r.below(3) == 0 { let m = 1 + r.below(6000); t.truncate(n); t.extend(mark_run(a, r, m)) }
            t
        }
        _ => { let mut t = vec![hangul(r)]; if r.below(2) == 0 { t.push(*r.pick(marks)) } t.push(hangul(r)); if r.below(2) == 0 { t.push(*r.pick(marks)) } t.push(hangul(r)); t }
    }
}
struct Lists { excl2: Vec<Vec<u32>>, firsts: Vec<u32>, seconds: Vec<u32>, marks: Vec<u32>, dec: Vec<u32>, reps: Vec<Vec<u32>>, acts: Vec<u32> }

/// Texts on which the library and the interpreter disagree, shortest first, at most `cap` for each form.
/// which: "all", "hangul", "marks" (the kinds of texts searched); effort multiplies the sampled ones.
pub fn suspects(a: &Alpha, which: &str, effort: u64, seed: u64, cap: usize, forms: &[&str]) -> (Vec<Vec<u32>>, u64) {
    let sc = Scout::new(a);
    let marks: Vec<u32> = a.by_ccc.iter().flat_map(|g| g.1.iter().cloned()).collect();
    let dec: Vec<u32> = a.sets["can"].iter().chain(&a.sets["compat"]).cloned().collect();
    let l = Lists { excl2: a.exclmap.iter().filter(|m| m.len() > 1).cloned().collect(), firsts: a.sets["firsts"].clone(), seconds: a.sets["seconds"].clone(), reps: a.by_ccc.iter().map(|g| g.1.clone()).collect(),
        acts: dec.iter().chain(&a.sets["firsts"]).chain(&marks).cloned().collect(), marks, dec };
    let (f, s, m, d, g) = (l.firsts.len() as u64, l.seconds.len() as u64, l.marks.len() as u64, l.dec.len() as u64, l.reps.len() as u64);
    let one = (forms.len() == 1 && !forms[0].ends_with('d')) as u64;
    // (kind, number of texts); kinds 0, 1, 2, 13, 15, 16 enumerate, the others sample
    let plan: Vec<(usize, u64)> = match which {
        "hangul" => vec![(8, 250_000 * effort), (12, 250_000 * effort), (20, 0x110000), (21, 0x110000)],
        "marks" => vec![(24, 24 + 8 * effort), (2, m * m), (13, g * g * g), (7, 30_000 * effort)],
        _ => vec![(24, 32 + 8 * effort), (0, f * s), (1, f * g * s), (2, m * m), (13, g * g * g), (3, 20 * d * effort), (4, 0x110000 * effort.min(16)), (5, 500_000 * effort), (6, 30_000 * effort),
                  (7, 15_000 * effort), (8, 150_000 * effort), (9, 2 * d), (10, 40_000 * effort), (11, 250_000 * effort), (12, 100_000 * effort), (14, 3000 * effort), (15, d * g), (16, d * g), (17, 2000 * effort),
                  (18, one * 0x110000 * ((s + 11) / 12)), (19, one * 0x110000 * ((f + 11) / 12)), (22, 24 * l.acts.len() as u64), (23, 34 * a.pairs.len() as u64)],
    };
    let found: Vec<Mutex<Vec<Vec<u32>>>> = (0..4).map(|_| Mutex::new(vec![])).collect();
    let n = AtomicU64::new(0);
    let per = |kind: usize| if kind == 24 { 1 } else if kind == 14 || kind == 17 { 64u64 } else { 2048 };
    let mut jobs: Vec<(usize, u64, u64)> = vec![];
    for (kind, total) in &plan { let mut x = 0; while x < *total { let y = (x + per(*kind)).min(*total); jobs.push((*kind, x, y)); x = y } }
    par(jobs.len() as u32, |j| {
        let (kind, lo, hi) = jobs[j as usize];
        let mut r = Rng::new(seed, 91_000_000 + j as u64);
        for x in lo..hi {
            let y = if kind == 4 { x % 0x110000 } else { x };
            // pairs of any character with a composing one: some of the big products on the quick tier, compositions only
            let comp = (18..22).contains(&kind);
            let big = effort >= 4;
            if comp && match kind { 18 => !big && (x / 0x110000 + x + seed) % 5 != 0, 19 => (x / 0x110000 * 5 + x + seed) % if effort >= 16 { 1 } else if big { 11 } else { 97 } != 0, 21 => !big && (x + seed) % 3 != 0, _ => false } { continue }
            let t = candidate(a, &l, kind, y, &mut r);
            let txt = string(&t);
            for (i, f) in FORMS.iter().enumerate() {
                if !forms.contains(f) || (comp && i % 2 == 0) { continue }
                if nf(f, &txt) != sc.nf(i, &t) {
                    // a pair of a long list that differs by itself is a better witness
                    let w: Vec<Vec<u32>> = if comp { t.windows(2).filter(|w| nf(f, &string(w)) != sc.nf(i, w)).take(4).map(|w| w.to_vec()).collect() } else { vec![] };
                    let mut v = found[i].lock().unwrap();
                    if w.is_empty() { v.push(t.clone()) } else { v.extend(w) }
                    if v.len() > 4 * cap + 64 { v.sort_by_key(|t| t.len()); v.truncate(2 * cap + 1); }
                }
            }
        }
        n.fetch_add(hi - lo, Relaxed);
    });
    let mut out: Vec<Vec<u32>> = vec![];
    for v in found { let mut v = v.into_inner().unwrap(); v.sort(); v.dedup(); v.sort_by_key(|t| t.len()); v.truncate(cap);
        let mut huge = 0;
        v.retain(|t| t.len() <= 3000 || { huge += 1; huge <= 2 });       // each of these takes long to judge
        out.extend(v); }
    out.sort(); out.dedup();
    (out, n.load(Relaxed))
}
