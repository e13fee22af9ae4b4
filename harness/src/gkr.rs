//! Layered arithmetic circuits: generator and reference evaluation (Libra, Hyrax).
use crate::*;
use ark_ff::PrimeField;

#[derive(Clone, Debug, PartialEq)]
pub struct Raw {
    pub ni: usize,
    pub na: usize,
    /// gate = (op: 0 add, 1 mul; left; right)
    pub layers: Vec<Vec<(u8, usize, usize)>>,
}
impl Raw {
    pub fn half(&self) -> usize {
        self.ni.max(self.na).max(1).next_power_of_two()
    }
    /// private inputs in the first half, public ones in the second
    pub fn input_layer<F: PrimeField>(&self, inputs: &[F], aux: &[F]) -> Vec<F> {
        let h = self.half();
        let mut v = aux.to_vec();
        v.resize(h, F::zero());
        v.extend_from_slice(inputs);
        v.resize(2 * h, F::zero());
        v
    }
    pub fn eval<F: PrimeField>(&self, inputs: &[F], aux: &[F]) -> Vec<Vec<F>> {
        let mut all = vec![self.input_layer(inputs, aux)];
        for l in &self.layers {
            let p = all.last().unwrap();
            let v = l.iter().map(|&(op, a, b)| if op == 0 { p[a] + p[b] } else { p[a] * p[b] }).collect();
            all.push(v);
        }
        all
    }
    pub fn width(&self, layer: usize) -> usize {
        if layer == 0 {
            2 * self.half()
        } else {
            self.layers[layer - 1].len()
        }
    }
}

/// `public_only`: the first gate layer reads public inputs only, so the outputs are determined
pub fn gen_raw(s: &mut Src, max_depth: usize, max_width: usize, public_only: bool) -> Raw {
    let (ni, na) = match s.below(6) {
        0 => (s.range(0, 2), s.range(0, 2)),
        1 => (s.range(1, 3), s.range(3, 8)),
        2 => (s.range(3, 8), s.range(1, 3)),
        3 => (s.range(0, 1), s.range(1, 9)),
        4 => (s.range(1, 9), s.range(0, 1)),
        _ => {
            let k = s.range(1, 8);
            (k, k)
        }
    };
    // now and then well beyond the usual sizes
    let (mut ni, mut na, mut max_depth, mut max_width) = (ni, na, max_depth, max_width);
    let mut big = 0;
    if s.chance(1, 24) {
        s.label("wide");
        match s.below(3) {
            0 => max_depth = 9,
            1 => {
                ni = s.range(1, 40);
                na = s.range(1, 40);
            }
            _ => {
                max_width = 40;
                big = 40;
            }
        }
    }
    let mut r = Raw { ni, na, layers: vec![] };
    let depth = s.range(1, max_depth);
    for d in 0..depth {
        let prev = r.width(d);
        let w = match s.below(5) {
            0 => 1,
            1 => 2,
            2 => s.range(1, max_width),
            3 if big > 0 => s.range(1, big),
            3 => *s.pick(&[4usize, 8, 3, 5]),
            _ => s.range(1, 4),
        }
        .min(max_width);
        let mode = s.below(5);
        let lo = if d == 0 && public_only { r.half() } else { 0 };
        let node = |s: &mut Src| lo + s.below(prev - lo);
        let mut l = vec![];
        for g in 0..w {
            let op = match mode {
                0 => 0,
                1 => 1,
                _ => s.below(2) as u8,
            };
            let (a, b) = match s.below(6) {
                // fan-out of one node, squares, last node, neighbours
                0 => {
                    let a = node(s);
                    (a, a)
                }
                1 => (prev - 1, node(s)),
                2 => (lo + g % (prev - lo), lo + (g + 1) % (prev - lo)),
                _ => (node(s), node(s)),
            };
            l.push((op, a, b));
        }
        r.layers.push(l);
    }
    s.label(format!("depth {}", depth));
    let w: Vec<usize> = (0..=depth).map(|d| r.width(d)).collect();
    if w.iter().any(|x| !x.is_power_of_two()) {
        s.label("layer of another size than a power of two");
    }
    if ni != na {
        s.label("public and private parts differ in size");
    }
    s.note(format!("ni={} na={} layers={:?}", ni, na, r.layers));
    if r.layers.iter().flatten().any(|g| g.0 == 1) && depth > 1 {
        s.nontrivial();
    }
    r
}
pub fn gen_vals<F: PrimeField>(s: &mut Src, n: usize) -> Vec<F> {
    (0..n).map(|_| s.field()).collect()
}
/// one gate rewired or its operation swapped
pub fn rewire(s: &mut Src, r: &Raw, public_only: bool) -> Raw {
    let mut q = r.clone();
    let d = s.below(r.layers.len());
    let g = s.below(r.layers[d].len());
    let prev = r.width(d);
    let lo = if d == 0 && public_only { r.half() } else { 0 };
    let t = &mut q.layers[d][g];
    match s.below(3) {
        0 => t.0 ^= 1,
        1 => t.1 = lo + s.below(prev - lo),
        _ => t.2 = lo + s.below(prev - lo),
    }
    q
}
