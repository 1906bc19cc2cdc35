//! H01: histories of interleaved calls, and the reference answers of the same calls each made in a
//! process of its own.
use crate::norm::{any_scalar, hangul, mixed, Alpha};
use crate::obs::*;
use crate::sweep::par;
use crate::util::*;
use seshat::unicode::{CodePoint, Normalization, Segmentation};
use std::collections::HashMap;
use std::fmt::Write;

const FORMS: [&str; 4] = ["nfd", "nfc", "nfkd", "nfkc"];

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Call { Query(usize, bool, u32), Form(usize, String), Seg(String), Digest(usize, bool, u32, u32) }

impl Call {
    fn encode(&self) -> String {
        match self {
            Call::Query(q, c, x) => format!("q {} {} {:X}", ALL[*q], if *c { "char" } else { "CodePoint" }, x),
            Call::Form(f, t) => format!("n {} {}", FORMS[*f], hexs(t)),
            Call::Seg(t) => format!("s {}", hexs(t)),
            Call::Digest(q, c, n, o) => format!("d {} {} {} {}", kind(*q), if *c { "char" } else { "CodePoint" }, n, o),
        }
    }
    fn decode(l: &str) -> Call {
        let v: Vec<&str> = l.split(' ').filter(|x| !x.is_empty()).collect();
        let text = |v: &[&str]| v.iter().map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect::<String>();
        match v[0] {
            "q" => Call::Query(ALL.iter().position(|n| *n == v[1]).unwrap(), v[2] == "char", u32::from_str_radix(v[3], 16).unwrap()),
            "n" => Call::Form(FORMS.iter().position(|n| *n == v[1]).unwrap(), text(&v[2..])),
            "d" => Call::Digest((0..KINDS).position(|q| kind(q) == v[1]).unwrap(), v[2] == "char", v[3].parse().unwrap(), v[4].parse().unwrap()),
            _ => Call::Seg(text(&v[1..])),
        }
    }
}

fn query(q: usize, as_char: bool, x: u32) -> String {
    if as_char {
        let c = char::from_u32(x).unwrap();
        call(col(ALL[q]).1, &c)
    } else {
        match cp(x) { Ok(p) => call(col::<CodePoint>(ALL[q]).1, &p), Err(e) => e }
    }
}
fn form(f: usize, s: &str) -> String {
    watched(s, || guard(|| match f { 0 => s.to_nfd(), 1 => s.to_nfc(), 2 => s.to_nfkd(), _ => s.to_nfkc() }))
        .map_or("PANIC".into(), |s| hexs(&s))
}
fn pieces(s: &str) -> String {
    watched(s, || guard(|| s.break_graphemes().take(s.len() + 2).map(|p| p.len()).collect::<Vec<_>>()))
        .map_or("PANIC".into(), |v| compact(&v))
}

const KINDS: usize = ALL.len() + 5;
fn kind(q: usize) -> &'static str { if q < ALL.len() { ALL[q] } else if q < ALL.len() + 4 { FORMS[q - ALL.len()] } else { "seg" } }
/// The answer of one kind of call for a code point (forms and segmentation: a short text with it).
fn about(q: usize, as_char: bool, c: u32) -> Option<String> {
    if q < ALL.len() {
        if as_char && char::from_u32(c).is_none() { return None }
        return Some(query(q, as_char, c))
    }
    let ch = char::from_u32(c)?;
    let t: String = [ch, '\u{301}', char::from_u32(c ^ 1).unwrap_or('b'), ch].iter().collect();
    Some(if q < ALL.len() + 4 { form(q - ALL.len(), &t) } else { pieces(&t) })
}
fn mix(c: u32, a: &str) -> u64 {
    let mut h = c as u64 ^ 0xCBF2_9CE4_8422_2325;
    for b in a.bytes() { h = (h ^ b as u64).wrapping_mul(0x100_0000_01B3); }
    (h ^ h >> 29).wrapping_mul(0x9E37_79B9_7F4A_7C15)
}
fn fingerprint(len: u32, panics: u64, sum: u64) -> String { format!("{} answers, {} panics, {:016X}", len, panics, sum) }
/// One query of every n-th code point, in one of three orders: a fingerprint of all the answers that
/// does not depend on the order.
fn digest(q: usize, as_char: bool, n: u32, o: u32, order: usize) -> String {
    let len = (0x110000 - o + n - 1) / n;
    let (mut sum, mut panics) = (0u64, 0u64);
    for k in 0..len {
        let j = match order { 0 => k, 1 => len - 1 - k, _ => (k as u64 * 611_953 % len as u64) as u32 };
        let c = o + j * n;
        let a = match about(q, as_char, c) { Some(a) => a, None => continue };
        if a == "PANIC" { panics += 1 }
        sum = sum.wrapping_add(mix(c, &a));
    }
    fingerprint(len, panics, sum)
}

/// All kinds of calls about every n-th code point, in an order in which every kind directly follows every
/// other (and itself), receivers at random; the fingerprints are those of `digest`.  An answer that is
/// not the same each time changes the fingerprint.
fn tour(n: u32, o: u32, seed: u64) -> Vec<(Call, String)> {
    let len = (0x110000 - o + n - 1) / n;
    let mut order = vec![];
    for i in 0..KINDS { order.push(i); for j in i + 1..KINDS { order.push(i); order.push(j); } }
    let per = 64;
    let parts = par((len + per - 1) / per, |k| {
        let mut r = Rng::new(seed, 88_000_000 + k as u64);
        let mut acc = vec![(0u64, 0u64); KINDS * 2];
        for j in k * per..((k + 1) * per).min(len) {
            let c = o + j * n;
            let mut first: Vec<Option<u64>> = vec![None; KINDS * 2];
            let mut ask = |q: usize, ch: bool, acc: &mut Vec<(u64, u64)>| {
                let a = match about(q, ch, c) { Some(a) => a, None => return };
                let (h, e) = (mix(c, &a), q * 2 + ch as usize);
                match first[e] {
                    None => { first[e] = Some(h); acc[e].0 += (a == "PANIC") as u64; acc[e].1 = acc[e].1.wrapping_add(h); }
                    Some(x) => if x != h { acc[e].1 = acc[e].1.wrapping_add(h ^ x | 1) }
                }
            };
            for q in &order { ask(*q, *q < ALL.len() && r.below(2) == 0, &mut acc) }
            for q in 0..KINDS { ask(q, false, &mut acc); if q < ALL.len() { ask(q, true, &mut acc) } }
        }
        acc
    });
    let mut out = vec![];
    for q in 0..KINDS { for ch in [false, true] {
        if q >= ALL.len() && ch { continue }
        let e = q * 2 + ch as usize;
        let (p, s) = parts.iter().fold((0u64, 0u64), |x, v| (x.0 + v[e].0, x.1.wrapping_add(v[e].1)));
        out.push((Call::Digest(q, ch, n, o), fingerprint(len, p, s)));
    } }
    out
}

fn stride(thorough: bool) -> u32 { if thorough { 1 } else { 3 } }

/// one CALL-LINE: the only library call this process makes
pub fn one(line: &str) {
    println!("{}", match Call::decode(line) {
        Call::Query(q, c, x) => query(q, c, x),
        Call::Form(f, t) => form(f, &t),
        Call::Seg(t) => pieces(&t),
        Call::Digest(q, c, n, o) => digest(q, c, n, o, 0),
    });
}

/// The flag of Do and Next: on a thread of its own.
enum Step { Do(Call, bool), Digest(Call, usize, bool), Many(Call, usize), Tour(u32, u32), Open(usize, usize, usize, Call), Next(usize, bool), Rest(usize), Drop(usize) }

/// An iterator handed to another thread, which is joined before anything else happens.
struct Handed<'a, 'b>(&'b mut (dyn Iterator<Item = &'a str> + 'a));
unsafe impl Send for Handed<'_, '_> {}
impl<'a> Handed<'a, '_> { fn next(self) -> Option<&'a str> { self.0.next() } }
fn elsewhere<T: Send>(other: bool, f: impl FnOnce() -> T + Send) -> T {
    if other { std::thread::scope(|s| s.spawn(f).join().unwrap()) } else { f() }
}
struct Session { backing: String, fresh: bool, steps: Vec<Step> }

/// code points that a careless key (low bits, block, surrogate halves, case bit) would confuse
fn collisions(a: &Alpha, r: &mut Rng) -> Vec<u32> {
    let base = match r.below(6) {
        0 => *r.pick(&a.sets["can"]), 1 => *r.pick(&a.sets["compat"]), 2 => a.mark(r), 3 => hangul(r), 4 => *r.pick(&a.sets["firsts"]), _ => any_scalar(r),
    };
    let mut v = vec![base];
    for _ in 0..9 {
        let x = *r.pick(&v);
        v.push(match r.below(9) {
            0 => (x & 0xFFFF) | (r.below(17) as u32) << 16,
            1 => (x & 0xFF) | (r.below(0x30) as u32) << 8,
            2 => x ^ (1 << r.below(21)),
            3 => x.wrapping_add(1), 4 => x.wrapping_sub(1),
            5 => (x & 0x7F) | (r.below(0x400) as u32) << 7,
            6 => (x & 0xFFF) | (r.below(0x110) as u32) << 12,
            7 => *r.pick(&a.sets["can"]),
            _ => any_scalar(r),
        });
        if *v.last().unwrap() > 0x10FFFF { v.pop(); }
    }
    v
}

fn backing(a: &Alpha, r: &mut Rng) -> String {
    let t: Vec<u32> = match r.below(4) {
        0 => { // emoji, flags, conjuncts: segmentation state
            let al = [0x1F468, 0x200D, 0x1F469, 0x1F1E6, 0x1F1E7, 0x915, 0x94D, 0x93C, 0xD, 0xA, 0x301, 0x1F3FB, 0x61, 0x600, 0x903, 0x1100, 0x1161, 0x11A8, 0xE33, 0xA9];
            (0..12 + r.below(18)).map(|_| *r.pick(&al)).collect()
        }
        1 => (0..10 + r.below(16)).map(|_| hangul(r)).collect(),
        _ => { let n = 6 + r.below(14); mixed(a, r, n) }
    };
    string(&t)
}

/// texts that a careless key (length, first or last character, character multiset) would confuse
fn related(a: &Alpha, r: &mut Rng, s: &str) -> String {
    let mut v: Vec<u32> = cps(s);
    if v.is_empty() { return String::new() }
    let (i, j) = (r.below(v.len()), r.below(v.len()));
    match r.below(6) {
        0 => v.swap(i, j),
        1 => v[i] = v[j],
        2 => { let same: Vec<u32> = (0..200).map(|_| any_scalar(r)).filter(|c| char::from_u32(*c).unwrap().len_utf8() == char::from_u32(v[i]).unwrap().len_utf8()).collect();
               if !same.is_empty() { v[i] = *r.pick(&same); } }
        3 => v[i] = a.mark(r),
        4 => v.reverse(),
        _ => { v.remove(i); }
    }
    string(&v)
}

fn plan(a: &Alpha, seed: u64, k: u64, len: usize) -> Session {
    let mut r = Rng::new(seed, 90_000 + k);
    let backing = backing(a, &mut r);
    let cuts: Vec<usize> = backing.char_indices().map(|x| x.0).chain([backing.len()]).collect();
    let cp = collisions(a, &mut r);
    let mut qs: Vec<usize> = (0..5).map(|_| r.below(ALL.len())).collect();
    for n in ["na", "dm", "ccc", "gcb"] { if r.below(2) == 0 { qs.push(ALL.iter().position(|x| *x == n).unwrap()); } }
    let mut texts: Vec<String> = vec![backing.clone(), String::new()];
    for _ in 0..9 { let t = r.pick(&texts).clone(); texts.push(related(a, &mut r, &t)); }
    let (mut steps, mut live): (Vec<Step>, Vec<usize>) = (vec![], vec![]);
    let mut id = 0;
    let mut spans: Vec<(usize, usize)> = vec![(0, backing.len())];
    for _ in 0..7 { let (x, y) = (*r.pick(&cuts), *r.pick(&cuts)); spans.push((x.min(y), x.max(y))); }
    while steps.len() < len {
        match r.below(12) {
            0..=2 => {
                let x = *r.pick(&cp);
                let c = r.below(2) == 0 && char::from_u32(x).is_some();
                steps.push(Step::Do(Call::Query(*r.pick(&qs), c, x), r.below(30) == 0));
                if r.below(40) == 0 { // many repetitions of one call
                    for _ in 0..260 { if let Some(Step::Do(c, _)) = steps.last() { let c = c.clone(); steps.push(Step::Do(c, false)); } }
                }
            }
            3 => for _ in 0..1 + r.below(4) { steps.push(Step::Do(Call::Form(r.below(4), r.pick(&texts).clone()), r.below(20) == 0)) },
            4 => { let (x, y) = *r.pick(&spans); steps.push(Step::Do(Call::Form(r.below(4), backing[x..y].to_string()), false)) }
            5 => steps.push(Step::Do(Call::Seg(r.pick(&texts).clone()), r.below(20) == 0)),
            6 if live.len() < 6 => {
                let (x, y) = *r.pick(&spans);
                id += 1;
                live.push(id);
                steps.push(Step::Open(id, x, y, Call::Seg(backing[x..y].to_string())));
            }
            7 if !live.is_empty() => { let j = r.below(live.len()); let i = live.swap_remove(j);
                steps.push(if r.below(2) == 0 { Step::Rest(i) } else { Step::Drop(i) }) }
            _ if !live.is_empty() => steps.push(Step::Next(*r.pick(&live), r.below(6) == 0)),
            _ => {}
        }
    }
    Session { backing, fresh: r.below(2) == 0, steps }
}

/// Every kind of call more often than 16 bits count.
fn soak(a: &Alpha, seed: u64) -> Session {
    let mut r = Rng::new(seed, 89_999);
    let mut steps = vec![];
    for q in 0..ALL.len() {
        let x = match r.below(3) { 0 => *r.pick(&a.sets["can"]), 1 => a.mark(&mut r), _ => any_scalar(&mut r) };
        steps.push(Step::Many(Call::Query(q, r.below(2) == 0, x), 66_000));
    }
    for f in 0..4 { for t in ["e\u{301}", "\u{AC01}\u{1E9B}\u{323}"] { steps.push(Step::Many(Call::Form(f, t.to_string()), 66_000)); } }
    for t in ["\u{915}\u{94D}\u{915}", "a\r\n\u{1F468}\u{200D}\u{1F469}\u{1F1E6}\u{1F1E7}\u{1F1E6}"] { steps.push(Step::Many(Call::Seg(t.to_string()), 66_000)); }
    Session { backing: String::new(), fresh: true, steps }
}

/// Every kind of query over the whole code space, in some order, on this thread or another.
fn digests(seed: u64, n: u32, orders: &[usize]) -> Session {
    let mut steps = vec![];
    for q in 0..KINDS { for c in [false, true] {
        if q >= ALL.len() && c { continue }
        let call = Call::Digest(q, c, n, seed as u32 % n);
        for o in orders { steps.push(Step::Digest(call.clone(), *o, *o == 1)); }
    } }
    Session { backing: String::new(), fresh: true, steps }
}

fn tour_calls(n: u32, o: u32) -> Vec<Call> {
    (0..KINDS).flat_map(|q| [false, true].into_iter().filter(move |c| q < ALL.len() || !c).map(move |c| Call::Digest(q, c, n, o))).collect()
}

/// Long texts that share their beginning, their end, their length or their characters.
fn long_ones(a: &Alpha, seed: u64, k: u64) -> Session {
    let mut r = Rng::new(seed, 89_000 + k);
    let len = [150, 1300, 300, 40, 600, 1100][k as usize % 6] + r.below(20);
    let base = crate::norm::long_text(a, &mut r, len, k as usize);
    let other = crate::norm::long_text(a, &mut r, len, k as usize + 1);
    let mut texts = vec![base.clone(), other.clone()];
    for j in 0..12 {
        let mut t = if j % 3 == 2 { texts[r.below(texts.len())].clone() } else { base.clone() };
        if t.len() < 12 { t = base.clone() }
        let (n, edge) = (t.len(), 16.min(t.len() / 3));
        let (x, y) = (edge + r.below(n - 2 * edge), edge + r.below(n - 2 * edge));
        match j % 6 {
            0 => t.swap(x, y),
            1 => t[x] = *r.pick(&other),
            2 => { t.truncate(n - 1 - r.below(n * 3 / 4)) }
            3 => { for i in x.min(y)..x.max(y) { t[i] = other[i % other.len()] } }
            4 => t.extend_from_slice(&other[..r.below(other.len())]),
            _ => { t = t.split_off(r.below(n / 2)); }
        }
        texts.push(t);
    }
    let texts: Vec<String> = texts.iter().map(|t| string(t)).collect();
    let mut steps = vec![];
    for j in 0..130 {
        let t = r.pick(&texts).clone();
        steps.push(Step::Do(if j % 9 == 8 { Call::Seg(t) } else { Call::Form(r.below(4), t) }, r.below(30) == 0));
    }
    Session { backing: String::new(), fresh: k % 2 == 0, steps }
}

pub fn session(out: &str, alpha: &str, seed: u64, sessions: u64, len: usize, thorough: bool) {
    let a = Alpha::load(alpha);
    let mut plans: Vec<Session> = (0..sessions).map(|k| plan(&a, seed, k, len)).collect();
    // one long history between the sessions that run alone and those that run concurrently
    plans.insert(plans.len() / 2, soak(&a, seed));
    plans.insert(plans.len() / 2, digests(seed, stride(thorough), &[2, 1]));
    let (tn, to) = if thorough { (13, seed as u32 % 13) } else { (67, seed as u32 % 67) };
    plans.insert(plans.len() / 2, Session { backing: String::new(), fresh: true, steps: vec![Step::Tour(tn, to)] });
    for k in 0..if thorough { 48 } else { 12 } { plans.push(long_ones(&a, seed, k)); }
    for o in [0, 1, 2, 1] { plans.push(digests(seed, stride(thorough), &[o])); }
    // the distinct calls, and their reference answers from one process each
    let mut ids: HashMap<Call, usize> = HashMap::new();
    let mut calls: Vec<Call> = vec![];
    for p in &plans { for s in &p.steps {
        if let Step::Tour(n, o) = s { for c in tour_calls(*n, *o) { if !ids.contains_key(&c) { calls.push(c.clone()); ids.insert(c, calls.len()); } } }
        if let Step::Do(c, _) | Step::Digest(c, _, _) | Step::Many(c, _) | Step::Open(_, _, _, c) = s {
            if !ids.contains_key(c) { calls.push(c.clone()); ids.insert(c.clone(), calls.len()); }
        }
    } }
    let exe = std::env::current_exe().unwrap();
    let refs: Vec<String> = par(calls.len() as u32, |k| {
        let o = std::process::Command::new(&exe).arg("one").arg("-").arg(calls[k as usize].encode()).output().unwrap();
        if o.status.code() == Some(42) { print!("{}", String::from_utf8_lossy(&o.stdout)); std::process::exit(42) }
        if o.status.success() { String::from_utf8_lossy(&o.stdout).trim_end_matches('\n').to_string() } else { format!("CRASH {:?}", o.status) }
    });
    let run = |p: &Session| -> String {
        let mut its: HashMap<usize, (usize, usize, Box<dyn Iterator<Item = &str> + '_>)> = HashMap::new();
        let mut buf = String::with_capacity(4096); // the same address for every text
        let mut ev = vec![];
        for s in &p.steps {
            if let Step::Tour(n, o) = s {
                for (c, a) in tour(*n, *o, seed) { ev.push(format!("[\"call\",{},{}]", ids[&c], esc(&a))) }
                continue
            }
            ev.push(match s {
                Step::Tour(..) => unreachable!(),
                Step::Digest(c, o, other) => {
                    let (q, ch, n, f) = match c { Call::Digest(q, ch, n, f) => (*q, *ch, *n, *f), _ => unreachable!() };
                    format!("[\"call\",{},{}]", ids[c], esc(&elsewhere(*other, || digest(q, ch, n, f, *o))))
                }
                Step::Many(c, n) => {
                    let mut seen: Vec<String> = vec![];
                    for _ in 0..*n {
                        let a = match c { Call::Query(q, ch, x) => query(*q, *ch, *x), Call::Form(f, t) => form(*f, t), Call::Seg(t) => pieces(t), Call::Digest(..) => unreachable!() };
                        if seen.last() != Some(&a) && seen.len() < 9 { seen.push(a); }
                    }
                    let seg = matches!(c, Call::Seg(_));
                    format!("[\"many\",{},[{}]]", ids[c], seen.iter().map(|a| if seg && a != "PANIC" { a.clone() } else { esc(a) }).collect::<Vec<_>>().join(","))
                }
                Step::Do(c, other) => {
                    let res = elsewhere(*other, || match c {
                        Call::Query(q, ch, x) => query(*q, *ch, *x),
                        Call::Form(f, t) => if p.fresh { form(*f, &t.clone()) } else { buf.clear(); buf.push_str(t); form(*f, &buf) },
                        Call::Seg(t) => if p.fresh { pieces(&t.clone()) } else { buf.clear(); buf.push_str(t); pieces(&buf) },
                        Call::Digest(..) => unreachable!(),
                    });
                    format!("[\"call\",{},{}]", ids[c], if matches!(c, Call::Seg(_)) && res != "PANIC" { res } else { esc(&res) })
                }
                Step::Open(i, x, y, c) => {
                    its.insert(*i, (*x, *y, Box::new(p.backing[*x..*y].break_graphemes())));
                    format!("[\"open\",{},{}]", i, ids[c])
                }
                Step::Next(i, other) => {
                    let (x, y, it) = its.get_mut(i).unwrap();
                    let h = Handed(it.as_mut());
                    match elsewhere(*other, move || watched(&p.backing[*x..*y], || guard(move || h.next()))) {
                        Err(_) => format!("[\"next\",{},[-2]]", i),
                        Ok(None) => format!("[\"next\",{},[]]", i),
                        Ok(Some(s)) => format!("[\"next\",{},[{}]]", i, s.len()),
                    }
                }
                Step::Rest(i) => {
                    let (x, y, it) = its.remove(i).unwrap();
                    let v = watched(&p.backing[x..y], || guard(|| it.take(y - x + 2).map(|s| s.len() as i64).collect::<Vec<_>>())).unwrap_or(vec![-2]);
                    format!("[\"rest\",{},{}]", i, compact(&v))
                }
                Step::Drop(i) => { its.remove(i); format!("[\"drop\",{},0]", i) }
            });
        }
        format!("[{}]", ev.join(",\n"))
    };
    // half the sessions run alone, one after the other; the rest concurrently on eight threads
    let half = plans.len() / 2 + 1;
    let mut logs: Vec<String> = plans[..half].iter().map(|p| run(p)).collect();
    logs.extend(par((plans.len() - half) as u32, |k| run(&plans[half + k as usize])));
    let mut o = String::from("{\"refs\":[\n");
    for (j, c) in calls.iter().enumerate() {
        if j > 0 { o.push_str(",\n") }
        let seg = matches!(c, Call::Seg(_)) && refs[j].starts_with('[');
        let _ = write!(o, "{{\"call\":{},\"answer\":{}}}", esc(&c.encode()), if seg { refs[j].clone() } else { esc(&refs[j]) });
    }
    let _ = write!(o, "],\"sessions\":[\n{}]}}\n", logs.join(",\n"));
    std::fs::write(out, o).unwrap();
}
