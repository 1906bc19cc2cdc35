//! The grapheme machine exported by TLC (spec/GraphemeExport.tla), in the plain form check.py writes.
use crate::util::Rng;

pub struct Machine {
    pub nc: usize,              // classes
    pub nq: usize,              // states, 0 = start
    pub delta: Vec<Vec<usize>>, // delta[q][c]
    pub brk: Vec<Vec<bool>>,    // boundary before c in state q
    pub members: Vec<Vec<u32>>, // scalar values of each class
    pub fine: Vec<Vec<u32>>,    // scalar values of each finer class
    pub fine_class: Vec<usize>, // the class a finer class lies in
    pub class: Vec<u8>,         // class of each code point
    pub access: Vec<Vec<usize>>, // a shortest class word reaching each state
}

impl Machine {
    pub fn load(path: &str) -> Machine {
        let txt = std::fs::read_to_string(path).unwrap();
        let mut it = txt.split_ascii_whitespace().map(|x| x.parse::<usize>().unwrap());
        let mut n = || it.next().unwrap();
        let (nc, nq, na, nf) = (n(), n(), n(), n());
        let delta: Vec<Vec<usize>> = (0..nq).map(|_| (0..nc).map(|_| n()).collect()).collect();
        let brk: Vec<Vec<bool>> = (0..nq).map(|_| (0..nc).map(|_| n() == 1).collect()).collect();
        let atoms: Vec<(usize, usize, usize)> = (0..na).map(|_| (n(), n(), n())).collect();
        let mut fine = vec![vec![]; nf];
        let mut class = vec![0u8; 0x110000];
        for (k, (lo, c, f)) in atoms.iter().enumerate() {
            let hi = if k + 1 < na { atoms[k + 1].0 } else { 0x110000 };
            for x in *lo..hi { class[x] = *c as u8; if char::from_u32(x as u32).is_some() { fine[*f].push(x as u32); } }
        }
        let mut members = vec![vec![]; nc];
        for c in 0..0x110000u32 {
            if char::from_u32(c).is_some() { members[class[c as usize] as usize].push(c); }
        }
        fine.retain(|v: &Vec<u32>| !v.is_empty());
        let fine_class = fine.iter().map(|v| class[v[0] as usize] as usize).collect();
        let mut access = vec![None; nq];
        access[0] = Some(vec![]);
        let mut queue = vec![0];
        while !queue.is_empty() {
            let mut nx = vec![];
            for q in queue {
                for c in 0..nc {
                    let r = delta[q][c];
                    if access[r].is_none() {
                        let mut w: Vec<usize> = access[q].clone().unwrap();
                        w.push(c);
                        access[r] = Some(w);
                        nx.push(r);
                    }
                }
            }
            queue = nx;
        }
        Machine { nc, nq, delta, brk, members, fine, fine_class, class, access: access.into_iter().map(|a| a.unwrap()).collect() }
    }

    /// A characterizing set: class words that together tell every two states apart.
    pub fn wset(&self) -> Vec<Vec<usize>> {
        let mut words: Vec<Vec<usize>> = vec![vec![]];
        for d in 0..3 { for w in words.clone() { if w.len() == d { for c in 0..self.nc { let mut x = w.clone(); x.push(c); words.push(x); } } } }
        let out = |q: usize, w: &[usize]| { let mut q = q; w.iter().map(|c| { let b = self.brk[q][*c]; q = self.delta[q][*c]; b }).collect::<Vec<bool>>() };
        let mut todo: Vec<(usize, usize)> = (1..self.nq).flat_map(|a| (1..a).map(move |b| (a, b))).collect();
        let mut chosen = vec![];
        loop {
            let best = words.iter().map(|w| (todo.iter().filter(|(a, b)| out(*a, w) != out(*b, w)).count(), w)).max_by_key(|x| (x.0, 9 - x.1.len())).unwrap();
            if best.0 == 0 { break }
            todo.retain(|(a, b)| out(*a, best.1) == out(*b, best.1));
            chosen.push(best.1.clone());
        }
        chosen
    }

    /// Cluster lengths the machine decides for a class word.
    pub fn lengths(&self, w: impl Iterator<Item = usize>) -> Vec<i64> {
        let (mut q, mut out) = (0, vec![]);
        for c in w {
            if self.brk[q][c] { out.push(1) } else { *out.last_mut().unwrap() += 1 }
            q = self.delta[q][c];
        }
        out
    }
    pub fn lengths_of(&self, s: &str) -> Vec<i64> { self.lengths(s.chars().map(|c| self.class[c as usize] as usize)) }
    pub fn member(&self, c: usize, r: &mut Rng) -> char { char::from_u32(*r.pick(&self.members[c])).unwrap() }
    /// Half of the time a small member of the class, so that common scripts are well represented.
    pub fn likely(&self, c: usize, r: &mut Rng) -> char {
        let m = &self.members[c];
        let n = if r.below(2) == 0 { m.len() } else { m.len().min(400) };
        char::from_u32(m[r.below(n)]).unwrap()
    }
}
