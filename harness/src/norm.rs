//! Recording of normalization traces for TLC.
use crate::obs::guard;
use crate::sweep::par;
use crate::util::*;
use seshat::unicode::Normalization;
use std::collections::HashMap;
use std::fmt::Write;

/// One public call; [-1] is a panic.
pub fn nf(form: &str, s: &str) -> Vec<i64> {
    watched(s, || guard(|| {
        let o = match form {
            "nfd" => s.to_nfd(),
            "nfc" => s.to_nfc(),
            "nfkd" => s.to_nfkd(),
            _ => s.to_nfkc(),
        };
        o.chars().map(|c| c as i64).collect()
    }).unwrap_or_else(|_| vec![-1]))
}

// ---------------------------------------------------------------- contexts over all code points
/// templates: "61,-1,301;..." ; output: per template the run-length encoded, abstracted outputs
pub fn contexts(out: &str, form: &str, templates: &str) {
    let mut o = format!("{{\"form\":\"{}\",\"contexts\":[\n", form);
    for (ti, t) in templates.split(';').enumerate() {
        let t: Vec<i64> = t.split(',').map(|x| if x == "-1" { -1 } else { i64::from_str_radix(x, 16).unwrap() }).collect();
        let chunks = par(0x1100, |k| {
            let mut runs: Vec<(u32, Vec<i64>)> = vec![];
            for c in k * 256..(k + 1) * 256 {
                let r = if char::from_u32(c).is_none() { vec![] } else {
                    let s: String = t.iter().map(|x| char::from_u32(if *x < 0 { c } else { *x as u32 }).unwrap()).collect();
                    let v = nf(form, &s);
                    if v == [-1] { vec![-99] } else { v.into_iter().map(|x| if x == c as i64 { -1 } else { x }).collect() }
                };
                if runs.last().map_or(true, |l| l.1 != r) { runs.push((c, r)); }
            }
            runs
        });
        let (mut lo, mut outs) = (vec![], vec![]);
        for (c, r) in chunks.into_iter().flatten() {
            if outs.last() != Some(&r) { lo.push(c); outs.push(r); }
        }
        if ti > 0 { o.push_str(",\n") }
        let _ = write!(o, "{{\"template\":{},\"lo\":{},\"out\":{}}}", compact(&t), compact(&lo), compact(&outs));
    }
    o.push_str("]}\n");
    std::fs::write(out, o).unwrap();
}

// ------------------------------------------------------------------------------- alphabets
pub struct Alpha {
    pub sets: HashMap<String, Vec<u32>>,
    pub by_ccc: Vec<(u32, Vec<u32>)>,
    pub pairs: Vec<(u32, u32, u32)>,
    pub exclmap: Vec<Vec<u32>>,
    pub full: Vec<(u32, Vec<u32>, Vec<u32>)>,
}
impl Alpha {
    pub fn load(path: &str) -> Alpha {
        let mut a = Alpha { sets: HashMap::new(), by_ccc: vec![], pairs: vec![], exclmap: vec![], full: vec![] };
        for line in std::fs::read_to_string(path).unwrap().lines() {
            let mut it = line.split(' ');
            let key = it.next().unwrap().to_string();
            let v: Vec<u32> = it.map(|x| x.parse().unwrap()).collect();
            match key.as_str() {
                "ccc" => a.by_ccc.push((v[0], v[1..].to_vec())),
                "pair" => a.pairs.push((v[0], v[1], v[2])),
                "full" => { let n = v[1] as usize; a.full.push((v[0], v[2..2 + n].to_vec(), v[2 + n..].to_vec())) }
                "exclmap" => a.exclmap.push(v),
                _ => { a.sets.insert(key, v); }
            }
        }
        a
    }
    pub fn mark(&self, r: &mut Rng) -> u32 { let g = r.pick(&self.by_ccc); *r.pick(&g.1) }
}

const JAMO: [u32; 21] = [0x10FF, 0x1100, 0x1112, 0x1113, 0x115F, 0x1160, 0x1161, 0x1175, 0x1176, 0x11A7, 0x11A8,
    0x11C2, 0x11C3, 0x11FF, 0xA960, 0xD7B0, 0xAC00, 0xAC01, 0xAC1C, 0xD788, 0xD7A3];

pub fn hangul(r: &mut Rng) -> u32 {
    match r.below(7) {
        0 => 0x1100 + r.below(19) as u32,
        1 => 0x1161 + r.below(21) as u32,
        2 => 0x11A8 + r.below(27) as u32,
        3 => 0xAC00 + 28 * r.below(399) as u32,
        4 => 0xAC00 + r.below(11172) as u32,
        5 => *r.pick(&JAMO),
        _ => 0x1100 + r.below(256) as u32,
    }
}

pub fn any_scalar(r: &mut Rng) -> u32 {
    loop {
        let c = match r.below(4) { 0 => r.below(0x110000), 1 => r.below(0x3400), 2 => r.below(0x80), _ => r.below(0x20000) } as u32;
        if char::from_u32(c).is_some() { return c }
    }
}

pub fn one(a: &Alpha, r: &mut Rng) -> u32 {
    match r.below(12) {
        0 => *r.pick(&a.sets["firsts"]),
        1 | 2 => *r.pick(&a.sets["seconds"]),
        3 | 4 | 5 => a.mark(r),
        6 => *r.pick(&a.sets["can"]),
        7 => *r.pick(&a.sets["compat"]),
        8 => hangul(r),
        9 => *r.pick(&a.sets["excl"]),
        10 => r.below(0x80) as u32,
        _ => any_scalar(r),
    }
}

/// Random text over everything normalization distinguishes.
pub fn mixed(a: &Alpha, r: &mut Rng, max: usize) -> Vec<u32> {
    let mut v = vec![];
    let n = 1 + r.below(max);
    while v.len() < n {
        match r.below(6) {
            0 => { // a composable pair, possibly with marks between and after
                let p = *r.pick(&a.pairs);
                v.push(p.0);
                for _ in 0..[0, 0, 1, 1, 2, 3][r.below(6)] { v.push(a.mark(r)); }
                v.push(p.1);
                if r.below(2) == 0 { v.push(*r.pick(&a.sets["seconds"])); }
            }
            1 => { // chained compositions: a composite that is itself a first
                let p = *r.pick(&a.pairs);
                v.push(p.0); v.push(p.1);
                let next: Vec<u32> = a.pairs.iter().filter(|q| q.0 == p.2).map(|q| q.1).collect();
                if !next.is_empty() { if r.below(3) == 0 { v.push(a.mark(r)); } v.push(*r.pick(&next)); }
            }
            2 => { let g = r.pick(&a.by_ccc).1.clone(); for _ in 0..1 + r.below(3) { v.push(*r.pick(&g)); } }
            3 => { for _ in 0..1 + r.below(4) { v.push(hangul(r)); } }
            _ => v.push(one(a, r)),
        }
    }
    v
}

/// Runs of marks of the given length in adversarial class patterns.
pub fn mark_run(a: &Alpha, r: &mut Rng, n: usize) -> Vec<u32> {
    let k = a.by_ccc.len();
    let kind = r.below(7);
    let few: Vec<usize> = (0..1 + r.below(4)).map(|_| r.below(k)).collect();
    (0..n).map(|j| {
        let g = match kind {
            0 => r.below(k),
            1 => j * k / n.max(1),           // ascending
            2 => k - 1 - j * k / n.max(1),   // descending
            3 => few[j % few.len()],         // alternating
            4 => few[0],                     // all equal
            5 => *r.pick(&few),
            _ => if j == n - 1 { 0 } else { k - 1 - (j % 2) },
        };
        *r.pick(&a.by_ccc[g].1)
    }).collect()
}

/// A long text: repeated tiles at every phase, one kind of material only, or everything mixed.
pub fn long_text(a: &Alpha, r: &mut Rng, n: usize, kind: usize) -> Vec<u32> {
    let f = *r.pick(&a.sets["inert"]);
    let mut t = vec![];
    let tile: Vec<u32> = match kind % 8 {
        0 => { let p = *r.pick(&a.pairs); vec![p.0, p.1] }
        1 => (0..1 + r.below(4)).map(|_| hangul(r)).collect(),
        2 => { let p = *r.pick(&a.pairs); let mut t = vec![p.0]; for _ in 0..1 + r.below(3) { t.push(a.mark(r)); } t.push(p.1); t }
        3 => vec![if r.below(2) == 0 { *r.pick(&a.sets["can"]) } else { *r.pick(&a.sets["compat"]) }],
        4 => r.pick(&a.exclmap).clone(),
        _ => vec![],
    };
    if !tile.is_empty() { for _ in 0..r.below(tile.len() + 2) { t.push(f); } }
    while t.len() < n {
        if !tile.is_empty() { t.extend(&tile); if r.below(9) == 0 { t.push(f); } continue }
        match kind % 8 {
            5 => { let k = r.below(40); for _ in 0..k { t.push(f); } t.push(one(a, r)); }
            6 => t.extend(mixed(a, r, 20)),
            _ => { let p = *r.pick(&a.pairs); t.push(p.0); t.push(p.1); } // composing pairs only
        }
    }
    t
}

/// Output of the text f^n core f^m with the pads taken off again but one each; [-2] if they are damaged.
fn padded(form: &str, t: &[u32], n: usize, m: usize) -> Vec<i64> {
    let (f, core) = (t[0], &t[1..t.len() - 1]);
    let mut s = vec![f; n];
    s.extend(core);
    s.extend(vec![f; m]);
    let o = nf(form, &string(&s));
    let g = f as i64;
    if o == [-1] { return o }
    if o.len() < n + m || o[..n].iter().any(|x| *x != g) || o[o.len() - m..].iter().any(|x| *x != g) { return vec![-2] }
    o[n - 1..o.len() - m + 1].to_vec()
}

pub static SCOUTED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Families of texts.  Every family is deterministic in (seed, size).
pub fn family(name: &str, a: &Alpha, seed: u64, size: usize, forms: &[&str]) -> Vec<Vec<u32>> {
    let mut r = Rng::new(seed, 31 + name.bytes().map(|b| b as u64).sum::<u64>() * 7919);
    let mut v: Vec<Vec<u32>> = vec![];
    match name {
        "empty" => v.push(vec![]),
        // every (first, second) and (first, mark-of-each-class, second) combination
        "pairs" => {
            for f in &a.sets["firsts"] { for s in &a.sets["seconds"] { v.push(vec![*f, *s]); } }
            while v.len() > size { let k = r.below(v.len()); v.swap_remove(k); }
            for p in &a.pairs { v.push(vec![p.0, p.1]); v.push(vec![p.2]); }
        }
        "blocked" => for _ in 0..size {
            let p = *r.pick(&a.pairs);
            let mut t = vec![p.0];
            for _ in 0..1 + r.below(3) {
                t.push(match r.below(4) { 0 => *r.pick(&a.sets["seconds"]), 1 => any_scalar(&mut r), _ => a.mark(&mut r) });
            }
            t.push(p.1);
            for _ in 0..r.below(3) { t.push(a.mark(&mut r)); }
            v.push(t);
        },
        // every ordered pair of combining classes after a starter, then a composing mark
        "classes" => {
            for x in &a.by_ccc { for y in &a.by_ccc {
                v.push(vec![0x61, *r.pick(&x.1), *r.pick(&y.1), *r.pick(&a.sets["seconds"])]);
                v.push(vec![*r.pick(&x.1), *r.pick(&y.1), 0x3042, *r.pick(&y.1), *r.pick(&x.1)]);
            } }
            for _ in 0..size { let t = (0..3 + r.below(4)).map(|_| a.mark(&mut r)).collect(); v.push(t); }
        }
        // full decompositions of primary composites, their marks in every order, and one mark more
        "chains" => {
            let split: HashMap<u32, (u32, u32)> = a.pairs.iter().map(|p| (p.2, (p.0, p.1))).collect();
            for p in &a.pairs {
                let mut base = p.2;
                let mut marks = vec![];
                while let Some(q) = split.get(&base) { marks.insert(0, q.1); base = q.0; }
                let orders: Vec<Vec<u32>> = match marks.len() {
                    1 => vec![marks.clone()],
                    2 => vec![marks.clone(), vec![marks[1], marks[0]]],
                    3 => [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]].iter().map(|o| o.iter().map(|j| marks[*j]).collect()).collect(),
                    _ => vec![marks.clone()],
                };
                for o in orders {
                    let mut t = vec![base];
                    t.extend(&o);
                    v.push(t.clone());
                    for _ in 0..size { let mut u = t.clone(); let k = 1 + r.below(t.len()); u.insert(k, if r.below(4) == 0 { *r.pick(&o) } else { a.mark(&mut r) }); v.push(u); }
                    // partly composed: every intermediate composite with the remaining marks
                    if o.len() > 1 { if let Some(q) = a.pairs.iter().find(|q| q.0 == base && q.1 == o[0]) { let mut u = vec![q.2]; u.extend(&o[1..]); v.push(u); } }
                }
            }
        }
        // what the interpreter of the exported tables and the library disagree on; TLC decides who is right
        "scout" | "scouthangul" | "scoutmarks" => {
            let which = match &name[5..] { "" => "all", w => w };
            let (t, n) = crate::scout::suspects(a, which, size as u64, seed, 60, forms);
            SCOUTED.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
            v = t;
        }
        "mixed" => for _ in 0..size { let t = mixed(a, &mut r, 9); v.push(t); },
        "runs" => for j in 0..size {
            let n = 2 + (j * 7) % 70;
            let mut t = if r.below(2) == 0 { vec![*r.pick(&a.sets["firsts"])] } else { vec![] };
            t.extend(mark_run(a, &mut r, n));
            if r.below(2) == 0 { t.push(0x62); let m = r.below(9); t.extend(mark_run(a, &mut r, m)); }
            v.push(t);
        },
        "longruns" => for j in 0..size {
            let n = [100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 512, 513, 700][j % 14];
            let mut t = vec![0x61];
            t.extend(mark_run(a, &mut r, n));
            if r.below(2) == 0 { t.push(0x62); t.extend(mark_run(a, &mut r, 20)); }
            v.push(t);
        },
        "hugeruns" => for j in 0..size {
            let mut t = vec![0x61];
            t.extend(mark_run(a, &mut r, [1024, 1500, 2049, 4100][j % 4]));
            v.push(t);
        },
        "jamo3" => {
            for x in JAMO { v.push(vec![x]); for y in JAMO { v.push(vec![x, y]); for z in JAMO { v.push(vec![x, y, z]); } } }
        }
        "jamo" => for _ in 0..size {
            let mut t: Vec<u32> = (0..2 + r.below(6)).map(|_| hangul(&mut r)).collect();
            if r.below(3) == 0 { let k = r.below(t.len() + 1); t.insert(k, a.mark(&mut r)); }
            v.push(t);
        },
        "lvt" => for l in 0x1100..0x1113u32 { for w in 0x1161..0x1176u32 { for t in 0x11A7..0x11C3u32 {
            if t == 0x11A7 { v.push(vec![l, w]) } else { v.push(vec![l, w, t]) }
            if t > 0x11A7 && (l * 7 + w * 3 + t) as usize % 29 < size { v.push(vec![0xAC00 + ((l - 0x1100) * 21 + w - 0x1161) * 28, t]) }
        } } },
        "hsyll" => for c in 0xAC00..0xD7A4u32 {
            v.push(vec![c]);
            if size > 1 { v.push(vec![c, hangul(&mut r)]); v.push(vec![hangul(&mut r), c]); }
        },
        "canon" => {
            for c in &a.sets["can"] { v.push(vec![*c]); }
            for _ in 0..size { v.push(vec![0xAC00 + r.below(11172) as u32]); }
        }
        // canonical mappings of excluded characters, as text: must not recompose
        "excluded" => {
            for m in &a.exclmap { v.push(m.clone()); let mut t = m.clone(); t.insert(0, 0x61); v.push(t.clone());
                t.push(*r.pick(&a.sets["seconds"])); v.push(t); }
            for c in &a.sets["excl"] { v.push(vec![*c]); v.push(vec![0x61, *c, a.mark(&mut r)]); }
            while v.len() > size { let k = r.below(v.len()); v.swap_remove(k); }
        }
        // each decomposable character amid others
        "decomposables" => for k in 0..size {
            let all = (a.sets["can"].len(), a.sets["compat"].len());
            let j = (k * 7919) % (all.0 + all.1);
            let c = if j < all.0 { a.sets["can"][j] } else { a.sets["compat"][j - all.0] };
            let mut t = vec![c];
            for _ in 0..r.below(3) { t.insert(0, one(a, &mut r)); }
            for _ in 0..1 + r.below(3) { t.push(one(a, &mut r)); }
            v.push(t);
        },
        "ascii" => {
            for c in 0..0x80u32 { v.push(vec![c]); }
            for _ in 0..size { let t = (0..1 + r.below(30)).map(|_| r.below(0x80) as u32).collect(); v.push(t); }
        }
        // characters that normalization passes through (TLC's choice) around a core: see `record`
        "padded" => for k in 0..size {
            let f = *r.pick(&a.sets["inert"]);
            let mut core = match k % 6 {
                0 => { let p = *r.pick(&a.pairs); vec![p.0, p.1] }
                1 => { let j = k * 7919; let (x, y) = (&a.sets["can"], &a.sets["compat"]); vec![if k % 4 < 2 { x[j % x.len()] } else { y[j % y.len()] }] }
                2 => (0..1 + r.below(3)).map(|_| hangul(&mut r)).collect(),
                3 => loop { let m = r.pick(&a.exclmap); if m.len() > 1 || r.below(8) == 0 { break m.clone() } },
                4 => { let n = 1 + r.below(4); mark_run(a, &mut r, n) }
                _ => mixed(a, &mut r, 5),
            };
            core.insert(0, f);
            core.push(f);
            v.push(core);
        },
        "longtext" => for k in 0..size {
            let n = [65, 66, 100, 127, 128, 129, 180, 255, 256, 257, 300, 511, 512, 513, 600, 1025][k % 16] * if k % 48 == 47 { 4 } else { 1 };
            v.push(long_text(a, &mut r, n, k / 16));
        },
        // texts of one material: neighbours in the code space, or one character many times
        "block" => {
            let acts: Vec<u32> = ["can", "compat", "firsts", "seconds"].iter().flat_map(|k| a.sets[*k].iter().cloned())
                .chain(a.by_ccc.iter().flat_map(|g| g.1.iter().cloned())).collect();
            for k in 0..size {
                let x = if k % 5 == 4 { any_scalar(&mut r) } else { *r.pick(&acts) };
                let w = [8, 32, 128, 1024][r.below(4)];
                let near: Vec<u32> = match r.below(4) {
                    0 => acts.iter().cloned().filter(|y| y / w == x / w).collect(),
                    1 => vec![x],
                    _ => (x / w * w..x / w * w + w).filter(|y| char::from_u32(*y).is_some()).collect(),
                };
                let n = [4, 10, 40][r.below(3)];
                let n = 1 + r.below(n);
                v.push((0..n).map(|_| if near.is_empty() { x } else { *r.pick(&near) }).collect());
            }
        }
        // all words over a small alphabet in which every mechanism interacts
        "words" => {
            let al: &[&[u32]] = &[
                &[0x61, 0x327, 0x30A, 0x301, 0x323],                     // base, ccc 202, two of 230, ccc 220
                &[0x1100, 0x1161, 0x11A8, 0xAC00, 0x301, 0x302E],
                &[0x915, 0x93C, 0x94D, 0x958, 0x301],                    // nukta, virama, exclusion
                &[0x9C7, 0x9BE, 0x9D7, 0x3C, 0x338],
                &[0xF71, 0xF72, 0xF73, 0xF74, 0x301],                    // non-starter decompositions
                &[0xFB01, 0x1E9B, 0x323, 0x307, 0x17F],                  // compatibility + marks
                &[0x212B, 0xC5, 0x41, 0x30A, 0x344],
                &[0x1F71, 0x3B1, 0x345, 0x301, 0x313],
                &[0x10A7, 0x1B06, 0x1B35, 0x1B05, 0x300],
            ];
            for s in al {
                let depth = if size > 5 { 5 } else { size };
                for d in 1..=depth {
                    for mut x in 0..s.len().pow(d as u32) {
                        v.push((0..d).map(|_| { let c = s[x % s.len()]; x /= s.len(); c }).collect());
                    }
                }
            }
        }
        _ => panic!("unknown family {}", name),
    }
    v
}

const PADS: [usize; 24] = [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1024, 4096];

/// Padded texts: the library reads them with their first and last character repeated.
fn record(forms: &[&str], texts: &[Vec<u32>], is_padded: &[bool]) -> Vec<Vec<Vec<i64>>> {
    let n = texts.len();
    let per = 64;
    par(((n + per - 1) / per) as u32, |k| {
        (k as usize * per..((k as usize + 1) * per).min(n)).map(|j| {
            let s = string(&texts[j]);
            let mut row = vec![texts[j].iter().map(|c| *c as i64).collect::<Vec<_>>()];
            let (n, m) = (PADS[j * 31 % 24], PADS[(j / 24 + j * 7) % 24]);
            for f in forms { row.push(if is_padded[j] { padded(f, &texts[j], n, m) } else { nf(f, &s) }); }
            row
        }).collect::<Vec<_>>()
    }).into_iter().flatten().collect()
}

/// strings OUT ALPHABET form,form fam:size,fam:size
pub fn strings(out: &str, alpha: &str, forms: &str, fams: &str, seed: u64) {
    let a = Alpha::load(alpha);
    let forms: Vec<&str> = forms.split(',').collect();
    let mut texts = vec![];
    let mut counts = vec![];
    for f in fams.split(',') {
        let (n, k) = f.split_once(':').unwrap();
        let t = family(n, &a, seed, k.parse().unwrap(), &forms);
        counts.push(format!("\"{}\":{}", n, t.len()));
        texts.extend(t.into_iter().map(|t| (t, n == "padded")));
    }
    counts.push(format!("\"scouted\":{}", SCOUTED.load(std::sync::atomic::Ordering::Relaxed)));
    // spread expensive (long) texts over TLC's chunks
    let mut r = Rng::new(seed, 4242);
    for k in (1..texts.len()).rev() { let j = r.below(k + 1); texts.swap(k, j); }
    let (texts, is_padded): (Vec<_>, Vec<_>) = texts.into_iter().unzip();
    let rows = record(&forms, &texts, &is_padded);
    let mut o = format!("{{\"forms\":{},\"counts\":{{{}}},\"texts\":[\n", format!("{:?}", forms), counts.join(","));
    for (j, row) in rows.iter().enumerate() {
        if j > 0 { o.push_str(",\n") }
        o.push_str(&compact(row));
    }
    o.push_str("]}\n");
    std::fs::write(out, o).unwrap();
}

// ------------------------------------------------------------------- laws between outputs
pub const FORMS: [&str; 4] = ["nfd", "nfc", "nfkd", "nfkc"];

fn apply(f: &str, v: &[i64]) -> Vec<i64> {
    if v.iter().any(|x| char::from_u32(*x as u32).is_none() || *x < 0) { return vec![-1] }
    nf(f, &v.iter().map(|x| char::from_u32(*x as u32).unwrap()).collect::<String>())
}

/// the four forms of s and the sixteen compositions of two forms
fn law_tuple(s: &[u32]) -> (Vec<Vec<i64>>, Vec<Vec<i64>>) {
    let t = string(s);
    let f: Vec<Vec<i64>> = FORMS.iter().map(|f| nf(f, &t)).collect();
    let mut g = vec![];
    for i in FORMS { for o in &f { g.push(apply(i, o)); } }
    (f, g)
}

fn templates(t: &str) -> Vec<Vec<i64>> {
    t.split(';').map(|t| t.split(',').map(|x| if x == "-1" { -1 } else { i64::from_str_radix(x, 16).unwrap() }).collect()).collect()
}
fn fill(t: &[i64], c: u32) -> Vec<u32> { t.iter().map(|x| if *x < 0 { c } else { *x as u32 }).collect() }
fn abs(v: &[i64], c: u32) -> Vec<i64> {
    if v == [-1] { vec![-99] } else { v.iter().map(|x| if *x == c as i64 { -1 } else { *x }).collect() }
}
fn unabs(v: &[i64], c: u32) -> Vec<i64> { v.iter().map(|x| if *x == -1 { c as i64 } else { *x }).collect() }

/// Run-length encode over all scalar values the abstracted tuple f(c); emit one record per run.
fn over_all<F: Fn(u32) -> Vec<Vec<i64>> + Sync>(f: F) -> Vec<(u32, u32, Vec<Vec<i64>>)> {
    let chunks = par(0x1100, |k| {
        let mut runs: Vec<(u32, u32, Vec<Vec<i64>>)> = vec![];
        for c in k * 256..(k + 1) * 256 {
            if char::from_u32(c).is_none() { continue }
            let t: Vec<Vec<i64>> = f(c).iter().map(|v| abs(v, c)).collect();
            match runs.last_mut() {
                Some(l) if l.2 == t && l.1 + 1 == c => l.1 = c,
                _ => runs.push((c, c, t)),
            }
        }
        runs
    });
    let mut out: Vec<(u32, u32, Vec<Vec<i64>>)> = vec![];
    for r in chunks.into_iter().flatten() {
        match out.last_mut() {
            Some(l) if l.2 == r.2 && l.1 + 1 == r.0 => l.1 = r.1,
            _ => out.push(r),
        }
    }
    out
}

/// laws OUT ALPHABET TEMPLATES fam:size,...
pub fn laws(out: &str, alpha: &str, tmpl: &str, fams: &str, seed: u64) {
    let a = Alpha::load(alpha);
    let mut recs: Vec<String> = vec![];
    let fmt = |s: &[u32], hi: u32, f: &[Vec<i64>], g: &[Vec<i64>]|
        format!("{{\"s\":{},\"hi\":{},\"f\":{},\"g\":{}}}", compact(s), hi, compact(f), compact(g));
    for t in templates(tmpl) {
        for (lo, hi, v) in over_all(|c| { let (mut f, g) = law_tuple(&fill(&t, c)); f.extend(g); f }) {
            let v: Vec<Vec<i64>> = v.iter().map(|x| unabs(x, lo)).collect();
            recs.push(fmt(&fill(&t, lo), hi, &v[..4], &v[4..]));
        }
    }
    let mut texts = vec![];
    for f in fams.split(',') {
        let (n, k) = f.split_once(':').unwrap();
        texts.extend(family(n, &a, seed, k.parse().unwrap(), &FORMS));
    }
    let n = texts.len();
    recs.extend(par(n as u32, |k| { let s = &texts[k as usize]; let (f, g) = law_tuple(s); fmt(s, 0, &f, &g) }));
    shuffle(&mut recs, seed);
    std::fs::write(out, format!("{{\"texts\":[\n{}]}}\n", recs.join(",\n"))).unwrap();
}

fn shuffle<T>(v: &mut [T], seed: u64) {
    let mut r = Rng::new(seed, 4242);
    for k in (1..v.len()).rev() { let j = r.below(k + 1); v.swap(k, j); }
}

/// pairs OUT FILE: lines "a b c|d e f" of canonically equivalent texts; all four forms of both
pub fn pairs(out: &str, file: &str) {
    let ls: Vec<String> = std::fs::read_to_string(file).unwrap().lines().map(|s| s.to_string()).collect();
    let parse = |x: &str| -> Vec<u32> { x.split_whitespace().map(|c| c.parse().unwrap()).collect() };
    let recs = par(3 * ls.len() as u32, |k| {
        let (x, y) = ls[k as usize / 3].split_once('|').unwrap();
        let (mut x, mut y) = (parse(x), parse(y));
        // both texts by themselves, in the plainest, and in arbitrary surroundings
        let mut r = Rng::new(7, k as u64);
        let f = if k % 3 == 1 { 0x20 } else { *r.pick(&[0x20, 0x31, 0x4E00, 0x3002, 0x1F600, 0x41, 0x1100, 0x301]) };
        let n = |r: &mut Rng| match (k % 3, r.below(12)) {
            (0, _) => 0, (1, _) => 1, (_, 0..=7) => 1 + r.below(4), (_, 8..=10) => 16 + r.below(60), _ => PADS[r.below(21)] };
        for (front, n) in [(true, n(&mut r)), (false, n(&mut r))] {
            for t in [&mut x, &mut y] { let p = vec![f; n]; if front { t.splice(0..0, p); } else { t.extend(p); } }
        }
        let f = |v: &[u32]| FORMS.iter().map(|f| nf(f, &string(v))).collect::<Vec<_>>();
        format!("{{\"s\":{},\"t\":{},\"fs\":{},\"ft\":{}}}", compact(&x), compact(&y), compact(&f(&x)), compact(&f(&y)))
    });
    std::fs::write(out, format!("{{\"texts\":[\n{}]}}\n", recs.join(",\n"))).unwrap();
}

// --------------------------------------------------------------------------- concatenation
fn seam(f: &str, a: &[u32], b: &[u32]) -> Vec<Vec<i64>> {
    let (x, y) = (nf(f, &string(a)), nf(f, &string(b)));
    let ab: Vec<u32> = a.iter().chain(b).cloned().collect();
    let xy: Vec<i64> = x.iter().chain(&y).cloned().collect();
    vec![x, y, nf(f, &string(&ab)), apply(f, &xy)]
}

/// concat OUT ALPHABET "A|B;A|B" N: the seam between a and b
pub fn concat(out: &str, alpha: &str, tmpl: &str, n: usize, seed: u64) {
    let a = Alpha::load(alpha);
    let mut recs: Vec<String> = vec![];
    let fmt = |f: &str, x: &[u32], y: &[u32], hi: u32, v: &[Vec<i64>]|
        format!("{{\"f\":\"{}\",\"a\":{},\"b\":{},\"hi\":{},\"v\":{}}}", f, compact(x), compact(y), hi, compact(v));
    for t in tmpl.split(';') {
        let (x, y) = t.split_once('|').unwrap();
        let (x, y) = (templates(x).remove(0), templates(y).remove(0));
        for f in FORMS {
            for (lo, hi, v) in over_all(|c| seam(f, &fill(&x, c), &fill(&y, c))) {
                let v: Vec<Vec<i64>> = v.iter().map(|x| unabs(x, lo)).collect();
                recs.push(fmt(f, &fill(&x, lo), &fill(&y, lo), if y.contains(&-1) { hi } else { 0 }, &v));
            }
        }
    }
    // random texts cut at every kind of position, composable pairs and marks across the seam
    let texts = par(n as u32, |k| {
        let mut r = Rng::new(seed, 51_000_000 + k as u64);
        let mut s = match k % 4 {
            0 => (0..2 + r.below(5)).map(|_| hangul(&mut r)).collect(),
            1 => { let p = *r.pick(&a.pairs); let mut s = vec![p.0]; for _ in 0..r.below(4) { s.push(a.mark(&mut r)); } s.push(p.1);
                   if r.below(2) == 0 { s.push(*r.pick(&a.sets["seconds"])); } s }
            _ => mixed(&a, &mut r, 9),
        };
        if r.below(4) == 0 { s.push(0x301); }
        let cut = r.below(s.len() + 1);
        let f = FORMS[r.below(4)];
        fmt(f, &s[..cut], &s[cut..], 0, &seam(f, &s[..cut], &s[cut..]))
    });
    recs.extend(texts);
    // every (first, second) composition straddling the seam, and every single ASCII character in context
    for p in &a.pairs { for f in ["nfc", "nfkc"] { recs.push(fmt(f, &[p.0], &[p.1], 0, &seam(f, &[p.0], &[p.1]))); } }
    let mut r = Rng::new(seed, 52_000_000);
    for _ in 0..n / 8 {
        let t: Vec<u32> = (0..r.below(40)).map(|_| r.below(0x80) as u32).collect();
        let k = r.below(t.len() + 1);
        for f in FORMS { recs.push(fmt(f, &t[..k], &t[k..], 0, &seam(f, &t[..k], &t[k..]))); }
    }
    // something in the middle of plain text, which one of the two sides is made of
    let plain = par((n / 4) as u32, |k| {
        let mut r = Rng::new(seed, 54_000_000 + k as u64);
        let core: Vec<u32> = match k % 6 {
            0 => vec![*r.pick(&a.sets["can"])], 1 => vec![*r.pick(&a.sets["compat"])], 2 => vec![*r.pick(&a.sets["excl"])],
            3 => { let p = *r.pick(&a.pairs); vec![p.0, p.1] }
            4 => { let x = a.mark(&mut r); vec![x, a.mark(&mut r)] }
            _ => vec![hangul(&mut r), hangul(&mut r)],
        };
        let mut side = |r: &mut Rng| -> Vec<u32> {
            let len = [0, 1, 2, 5, 12, 20, 40, 70][r.below(8)];
            let al: &[u32] = [&[0x61][..], &[0x20], &[0x61, 0x20, 0x65], &[0x4E00, 0x4E8C], &[0x3042], &[0x1F600], &[0x431, 0x434]][r.below(7)];
            (0..len).map(|_| if al.len() == 3 && r.below(2) == 0 { r.below(0x80) as u32 } else { *r.pick(al) }).collect()
        };
        let mut s = side(&mut r);
        let i = s.len();
        s.extend(&core);
        let j = s.len();
        s.extend(side(&mut r));
        let cut = match r.below(4) { 0 => i, 1 => j, 2 => i + 1, _ => r.below(s.len() + 1) };
        let f = FORMS[r.below(4)];
        fmt(f, &s[..cut], &s[cut..], 0, &seam(f, &s[..cut], &s[cut..]))
    });
    recs.extend(plain);
    // suspects cut everywhere
    let (sus, _) = crate::scout::suspects(&a, "all", if n > 100_000 { 8 } else { 1 }, seed, 40, &FORMS);
    let cuts: Vec<(usize, usize)> = sus.iter().enumerate().flat_map(|(j, s)| (0..=s.len())
        .filter(|k| s.len() <= 80 || *k == 0 || *k == s.len() || (s[*k] != s[*k - 1] && !((0x20..0x7F).contains(&s[*k]) && (0x20..0x7F).contains(&s[*k - 1]))))
        .filter(|k| s.len() <= 3000 || *k == s.len() || (*k > s.len() / 3 && *k % 7 == 1))
        .take(if s.len() <= 3000 { 90 } else { 2 }).map(|k| (j, k)).collect::<Vec<_>>()).collect();
    recs.extend(par(cuts.len() as u32, |k| {
        let (s, cut) = (&sus[cuts[k as usize].0], cuts[k as usize].1);
        FORMS.iter().map(|f| fmt(f, &s[..cut], &s[cut..], 0, &seam(f, &s[..cut], &s[cut..]))).collect::<Vec<_>>()
    }).into_iter().flatten());
    // long texts of one kind of material, and everything mixed, cut anywhere
    let longs = par((n / 100) as u32, |k| {
        let mut r = Rng::new(seed, 53_000_000 + k as u64);
        let m = [100, 130, 260, 520, 600, 900, 1100][k as usize % 7] * if k % 50 == 49 { 5 } else { 1 };
        let s = long_text(&a, &mut r, m, k as usize);
        let cut = [r.below(s.len() + 1), r.below(20), s.len() - r.below(20)][r.below(3)];
        let f = FORMS[r.below(4)];
        fmt(f, &s[..cut], &s[cut..], 0, &seam(f, &s[..cut], &s[cut..]))
    });
    recs.extend(longs);
    shuffle(&mut recs, seed);
    std::fs::write(out, format!("{{\"texts\":[\n{}]}}\n", recs.join(",\n"))).unwrap();
}

/// ntexts OUT ALPHABET fam:size,...: texts only (seeds for the rewriting machine)
pub fn texts(out: &str, alpha: &str, fams: &str, seed: u64) {
    let a = Alpha::load(alpha);
    let mut v = vec![];
    for f in fams.split(',') {
        let (n, k) = f.split_once(':').unwrap();
        v.extend(family(n, &a, seed, k.parse().unwrap(), &FORMS));
    }
    shuffle(&mut v, seed);
    std::fs::write(out, format!("{{\"texts\":{}}}\n", compact(&v))).unwrap();
}

// ---------------------------------------------------------------------- identifier closure
/// The library's own view of a text: 2 XID_Start (and continue), 1 XID_Continue only, 0 neither,
/// 3 start without continue, -1 a query panicked; for a panicking form [-1].
fn flags(v: &[i64]) -> Vec<i64> {
    use seshat::unicode::Ucd;
    v.iter().map(|x| match char::from_u32(*x as u32) {
        None => -1,
        Some(c) => guard(|| match (c.xids(), c.xidc()) { (true, true) => 2, (false, true) => 1, (false, false) => 0, (true, false) => 3 }).unwrap_or(-1),
    }).collect()
}
fn closure_row(s: &[u32]) -> Vec<Vec<i64>> {
    let t = string(s);
    let mut v = vec![flags(&s.iter().map(|c| *c as i64).collect::<Vec<_>>())];
    for f in FORMS { v.push(flags(&nf(f, &t))); }
    v
}
pub fn closure(out: &str, alpha: &str, n: usize, seed: u64) {
    use seshat::unicode::Ucd;
    let a = Alpha::load(alpha);
    let mut recs: Vec<String> = vec![];
    let fmt = |s: &[u32], hi: u32, v: &[Vec<i64>]| format!("{{\"s\":{},\"hi\":{},\"v\":{}}}", compact(s), hi, compact(v));
    for t in ["-1", "61,-1", "-1,301", "1100,-1", "AC00,-1", "61,-1,327", "-1,-1"] {
        let t = templates(t).remove(0);
        let chunks = par(0x1100, |k| {
            let mut runs: Vec<(u32, u32, Vec<Vec<i64>>)> = vec![];
            for c in k * 256..(k + 1) * 256 {
                if char::from_u32(c).is_none() { continue }
                let r = closure_row(&fill(&t, c));
                match runs.last_mut() { Some(l) if l.2 == r => l.1 = c, _ => runs.push((c, c, r)) }
            }
            runs
        });
        for (lo, hi, v) in chunks.into_iter().flatten() { recs.push(fmt(&fill(&t, lo), hi, &v)); }
    }
    let (mut starts, mut conts) = (vec![], vec![]);
    for c in (0..0x110000).filter_map(char::from_u32) {
        if guard(|| c.xids()).unwrap_or(false) { starts.push(c as u32) }
        if guard(|| c.xidc()).unwrap_or(false) { conts.push(c as u32) }
    }
    let active: Vec<u32> = ["firsts", "seconds", "can", "compat"].iter().flat_map(|k| a.sets[*k].iter()).cloned().collect();
    let (acts, actc): (Vec<u32>, Vec<u32>) = {
        let s: std::collections::HashSet<u32> = active.iter().cloned().collect();
        (starts.iter().filter(|c| s.contains(c)).cloned().collect(),
         conts.iter().filter(|c| s.contains(c) || a.by_ccc.iter().any(|g| g.1.contains(c))).cloned().collect())
    };
    if !starts.is_empty() && !conts.is_empty() && !acts.is_empty() && !actc.is_empty() {
        recs.extend(par(n as u32, |k| {
            let mut r = Rng::new(seed, 81_000_000 + k as u64);
            let mut s = vec![if r.below(2) == 0 { *r.pick(&starts) } else { *r.pick(&acts) }];
            for _ in 0..r.below(8) { s.push(if r.below(4) == 0 { *r.pick(&conts) } else { *r.pick(&actc) }); }
            fmt(&s, 0, &closure_row(&s))
        }));
        // many more, of which only those that look wrong are recorded
        recs.extend(par(30 * n as u32 / 512, |k| {
            let mut r = Rng::new(seed, 82_000_000 + k as u64);
            let mut odd = vec![];
            for _ in 0..512 {
                let mut s = vec![if r.below(3) == 0 { *r.pick(&starts) } else { *r.pick(&acts) }];
                for _ in 0..r.below(5) { s.push(match r.below(5) { 0 => *r.pick(&conts), 1 => *r.pick(&acts), _ => *r.pick(&actc) }); }
                let v = closure_row(&s);
                let is = |v: &Vec<i64>| v.first() == Some(&2) && v.iter().all(|x| *x == 1 || *x == 2);
                if is(&v[0]) && !v[1..].iter().all(is) { odd.push((s, v)) }
            }
            odd.sort_by_key(|x| x.0.len());
            odd.truncate(3);
            odd
        }).into_iter().flatten().take(300).map(|(s, v)| fmt(&s, 0, &v)));
    }
    shuffle(&mut recs, seed);
    std::fs::write(out, format!("{{\"starts\":{},\"continues\":{},\"texts\":[\n{}]}}\n", starts.len(), conts.len(), recs.join(",\n"))).unwrap();
}
