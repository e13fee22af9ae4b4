//! Structure-aware view of serialized proofs: a small type language, parsing, and mutation.
//! types: f = scalar, g = G1/curve point, h = G2 point, u = u64, w = u32, b = one byte,
//! [T] = length-prefixed list, {name:T,...} = record, ?T = option, <K,V> = map.
use crate::*;
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{PrimeField, UniformRand};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Leaf(char),
    List(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Opt(Box<Ty>),
    Rec(Vec<(String, Ty)>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Leaf(char, Vec<u8>),
    List(Box<Ty>, Vec<Node>),
    Opt(Box<Ty>, Option<Box<Node>>),
    Rec(Vec<(String, Node)>),
}
#[derive(Clone, Copy)]
pub struct Ops {
    pub fs: usize,
    pub gs: usize,
    pub hs: usize,
    pub mf: fn(&[u8], &mut Src) -> Vec<u8>,
    pub mg: fn(&[u8], &mut Src) -> Vec<u8>,
    pub mh: fn(&[u8], &mut Src) -> Vec<u8>,
}
pub fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.serialize(&mut v).expect("serialize");
    v
}
pub fn de<T: CanonicalDeserialize>(b: &[u8]) -> Option<T> {
    quiet(|| T::deserialize(b).ok()).ok().flatten()
}
fn mut_f<F: PrimeField>(b: &[u8], s: &mut Src) -> Vec<u8> {
    let x = F::deserialize(b).expect("scalar");
    let y = match s.below(5) {
        0 => x + F::one(),
        1 => F::zero(),
        2 => -x,
        3 => s.rand_field(),
        _ => x + s.nonzero::<F>(),
    };
    ser(&y)
}
fn mut_p<A: AffineCurve>(b: &[u8], s: &mut Src) -> Vec<u8> {
    let x = A::deserialize(b).expect("point");
    let p = x.into_projective();
    let mut r = s.rng();
    // (some wrappers lack a projective generator; a random point serves)
    let d = A::Projective::rand(&mut r);
    let y: A::Projective = match s.below(5) {
        0 => p + &d,
        1 => A::Projective::default(),
        2 => -p,
        3 => d,
        _ => p + &p,
    };
    ser(&y.into_affine())
}
pub fn ops<A: AffineCurve>() -> Ops {
    Ops {
        fs: A::ScalarField::default().serialized_size(),
        gs: A::default().serialized_size(),
        hs: 0,
        mf: mut_f::<A::ScalarField>,
        mg: mut_p::<A>,
        mh: mut_p::<A>,
    }
}
pub fn ops2<A: AffineCurve, B: AffineCurve>() -> Ops {
    Ops { hs: B::default().serialized_size(), mh: mut_p::<B>, ..ops::<A>() }
}

impl Ty {
    pub fn p(text: &str) -> Ty {
        let t: Vec<char> = text.chars().filter(|c| !c.is_whitespace()).collect();
        let mut i = 0;
        let r = Self::go(&t, &mut i);
        assert!(i == t.len(), "schema trailing at {} in {}", i, text);
        r
    }
    fn go(t: &[char], i: &mut usize) -> Ty {
        match t[*i] {
            '[' => {
                *i += 1;
                let r = Self::go(t, i);
                assert!(t[*i] == ']');
                *i += 1;
                Ty::List(Box::new(r))
            }
            '<' => {
                *i += 1;
                let k = Self::go(t, i);
                assert!(t[*i] == ',');
                *i += 1;
                let v = Self::go(t, i);
                assert!(t[*i] == '>');
                *i += 1;
                Ty::Map(Box::new(k), Box::new(v))
            }
            '?' => {
                *i += 1;
                Ty::Opt(Box::new(Self::go(t, i)))
            }
            '{' => {
                *i += 1;
                let mut fs = vec![];
                while t[*i] != '}' {
                    let mut n = String::new();
                    while t[*i] != ':' {
                        n.push(t[*i]);
                        *i += 1;
                    }
                    *i += 1;
                    fs.push((n, Self::go(t, i)));
                    if t[*i] == ',' {
                        *i += 1;
                    }
                }
                *i += 1;
                Ty::Rec(fs)
            }
            c if "fghuwb".contains(c) => {
                *i += 1;
                Ty::Leaf(c)
            }
            c => panic!("schema char {}", c),
        }
    }
    pub fn parse(&self, b: &[u8], o: &Ops) -> Result<Node, Fail> {
        let mut p = 0;
        let n = self.rd(b, &mut p, o).ok_or(Fail { sig: "layout".into(), msg: "serialized form does not follow the documented field order".into() })?;
        if p != b.len() {
            return fail("layout", format!("{} bytes left over after parsing {}", b.len() - p, b.len()));
        }
        Ok(n)
    }
    fn rd(&self, b: &[u8], p: &mut usize, o: &Ops) -> Option<Node> {
        let mut take = |n: usize| -> Option<Vec<u8>> {
            if b.len() - *p < n {
                return None;
            }
            let r = b[*p..*p + n].to_vec();
            *p += n;
            Some(r)
        };
        Some(match self {
            Ty::Leaf(c) => {
                let n = match c {
                    'f' => o.fs,
                    'g' => o.gs,
                    'h' => o.hs,
                    'u' => 8,
                    'w' => 4,
                    _ => 1,
                };
                Node::Leaf(*c, take(n)?)
            }
            Ty::List(t) => {
                let n = u64::from_le_bytes(take(8)?.try_into().ok()?) as usize;
                if n > 1 << 24 {
                    return None;
                }
                let mut v = vec![];
                for _ in 0..n {
                    v.push(t.rd(b, p, o)?);
                }
                Node::List(t.clone(), v)
            }
            Ty::Map(k, x) => {
                let n = u64::from_le_bytes(take(8)?.try_into().ok()?) as usize;
                let t = Ty::Rec(vec![("k".into(), (**k).clone()), ("v".into(), (**x).clone())]);
                let mut v = vec![];
                for _ in 0..n {
                    v.push(t.rd(b, p, o)?);
                }
                Node::List(Box::new(t), v)
            }
            Ty::Opt(t) => {
                let f = take(1)?[0];
                if f == 0 {
                    Node::Opt(t.clone(), None)
                } else {
                    Node::Opt(t.clone(), Some(Box::new(t.rd(b, p, o)?)))
                }
            }
            Ty::Rec(fs) => {
                let mut v = vec![];
                for (n, t) in fs {
                    v.push((n.clone(), t.rd(b, p, o)?));
                }
                Node::Rec(v)
            }
        })
    }
}

impl Node {
    pub fn ser(&self) -> Vec<u8> {
        let mut v = vec![];
        self.w(&mut v);
        v
    }
    fn w(&self, out: &mut Vec<u8>) {
        match self {
            Node::Leaf(_, b) => out.extend(b),
            Node::List(_, v) => {
                out.extend(&(v.len() as u64).to_le_bytes());
                for n in v {
                    n.w(out);
                }
            }
            Node::Opt(_, None) => out.push(0),
            Node::Opt(_, Some(n)) => {
                out.push(1);
                n.w(out);
            }
            Node::Rec(v) => {
                for (_, n) in v {
                    n.w(out);
                }
            }
        }
    }
    /// every leaf in serialization order, with its path
    pub fn leaves(&self) -> Vec<(String, char, Vec<u8>)> {
        let mut v = vec![];
        self.lv("", &mut v);
        v
    }
    fn lv(&self, p: &str, out: &mut Vec<(String, char, Vec<u8>)>) {
        match self {
            Node::Leaf(c, b) => out.push((p.to_string(), *c, b.clone())),
            Node::List(_, v) => v.iter().enumerate().for_each(|(i, n)| n.lv(&format!("{}[{}]", p, i), out)),
            Node::Opt(_, o) => {
                if let Some(n) = o {
                    n.lv(&format!("{}?", p), out)
                }
            }
            Node::Rec(v) => v.iter().for_each(|(k, n)| n.lv(&format!("{}.{}", p, k), out)),
        }
    }
    pub fn leaf_mut(&mut self, k: &mut usize) -> Option<(&mut char, &mut Vec<u8>)> {
        match self {
            Node::Leaf(c, b) => {
                if *k == 0 {
                    return Some((c, b));
                }
                *k -= 1;
                None
            }
            Node::List(_, v) => {
                for n in v {
                    let r = n.leaf_mut(k);
                    if r.is_some() {
                        return r;
                    }
                }
                None
            }
            Node::Opt(_, o) => o.as_mut().and_then(|n| n.leaf_mut(k)),
            Node::Rec(v) => {
                for (_, n) in v {
                    let r = n.leaf_mut(k);
                    if r.is_some() {
                        return r;
                    }
                }
                None
            }
        }
    }
    pub fn set_leaf(&mut self, k: usize, b: Vec<u8>) {
        let mut k = k;
        *self.leaf_mut(&mut k).expect("leaf").1 = b;
    }
    fn lists<'a>(&'a mut self, p: String, out: &mut Vec<(String, *mut Vec<Node>)>) {
        match self {
            Node::Leaf(..) => {}
            Node::List(_, v) => {
                out.push((p.clone(), v as *mut _));
                for (i, n) in v.iter_mut().enumerate() {
                    n.lists(format!("{}[{}]", p, i), out);
                }
            }
            Node::Opt(_, o) => {
                if let Some(n) = o {
                    n.lists(p, out)
                }
            }
            Node::Rec(v) => {
                for (k, n) in v {
                    n.lists(format!("{}.{}", p, k), out)
                }
            }
        }
    }
    pub fn at(&self, path: &str) -> &Node {
        let mut n = self;
        for k in path.split('.').filter(|x| !x.is_empty()) {
            n = match n {
                Node::Rec(v) => &v.iter().find(|(a, _)| a == k).unwrap_or_else(|| panic!("no field {}", k)).1,
                Node::List(_, v) => &v[k.parse::<usize>().expect("index")],
                Node::Opt(_, Some(x)) => x,
                _ => panic!("path {}", path),
            };
        }
        n
    }
    pub fn at_mut(&mut self, path: &str) -> &mut Node {
        let mut n = self;
        for k in path.split('.').filter(|x| !x.is_empty()) {
            n = match n {
                Node::Rec(v) => &mut v.iter_mut().find(|(a, _)| a == k).unwrap_or_else(|| panic!("no field {}", k)).1,
                Node::List(_, v) => &mut v[k.parse::<usize>().expect("index")],
                Node::Opt(_, Some(x)) => x,
                _ => panic!("path {}", path),
            };
        }
        n
    }
    pub fn get<T: CanonicalDeserialize>(&self, path: &str) -> T {
        T::deserialize(&self.at(path).ser()[..]).expect("leaf value")
    }
    pub fn set<T: CanonicalSerialize>(&mut self, path: &str, x: &T) {
        let b = ser(x);
        match self.at_mut(path) {
            Node::Leaf(_, l) => {
                assert!(l.len() == b.len());
                *l = b
            }
            _ => panic!("set on non-leaf"),
        }
    }

    /// changes exactly one leaf to a different value; None if the mutation was the identity
    pub fn mutate_leaf(&self, s: &mut Src, o: &Ops) -> Option<(Node, String)> {
        let lv = self.leaves();
        if lv.is_empty() {
            return None;
        }
        let k = s.below(lv.len());
        self.mutate_leaf_at(k, s, o)
    }
    pub fn mutate_leaf_at(&self, k: usize, s: &mut Src, o: &Ops) -> Option<(Node, String)> {
        let lv = self.leaves();
        let (p, c, b) = &lv[k];
        let nb = if s.chance(1, 5) {
            // another component of the same kind
            let same: Vec<usize> = (0..lv.len()).filter(|j| lv[*j].1 == *c && lv[*j].2 != *b).collect();
            if same.is_empty() {
                return None;
            }
            lv[*s.pick(&same)].2.clone()
        } else {
            match c {
                'f' => (o.mf)(b, s),
                'g' => (o.mg)(b, s),
                'h' => (o.mh)(b, s),
                _ => {
                    let mut x = b.clone();
                    let d = s.range(1, 3) as u8;
                    x[0] = x[0].wrapping_add(d);
                    x
                }
            }
        };
        if nb == *b {
            return None;
        }
        let mut n = self.clone();
        n.set_leaf(k, nb);
        Some((n, format!("leaf {} ", p)))
    }
    /// changes the length or order of one list
    pub fn mutate_list(&self, s: &mut Src) -> Option<(Node, String)> {
        let mut n = self.clone();
        let mut ls = vec![];
        n.lists(String::new(), &mut ls);
        if ls.is_empty() {
            return None;
        }
        let i = s.below(ls.len());
        let (p, v) = (ls[i].0.clone(), unsafe { &mut *ls[i].1 });
        let op = s.below(7);
        let what = match op {
            0 => {
                v.pop()?;
                "pop"
            }
            1 => {
                let x = v.last()?.clone();
                v.push(x);
                "duplicate last"
            }
            2 => {
                if v.is_empty() {
                    return None;
                }
                v.clear();
                "clear"
            }
            3 => {
                if v.is_empty() {
                    return None;
                }
                v.remove(0);
                "drop first"
            }
            4 => {
                v.reverse();
                "reverse"
            }
            5 => {
                if v.len() < 2 {
                    return None;
                }
                let a = s.below(v.len());
                let b = s.below(v.len());
                v.swap(a, b);
                "swap"
            }
            _ => {
                let x = v.first()?.clone();
                for _ in 0..s.range(1, 5) {
                    v.push(x.clone());
                }
                "extend"
            }
        };
        if n == *self {
            return None;
        }
        Some((n, format!("list {} {}", p, what)))
    }
    /// pairs of neighbouring lists of the same kind (inside a list, or adjacent fields of a record)
    fn pairs<'a>(&'a mut self, p: String, out: &mut Vec<(String, *mut Vec<Node>, *mut Vec<Node>)>) {
        fn lp(n: &mut Node) -> Option<(Ty, *mut Vec<Node>)> {
            match n {
                Node::List(t, v) => Some(((**t).clone(), v as *mut _)),
                _ => None,
            }
        }
        let (names, kids): (Vec<String>, Vec<&mut Node>) = match self {
            Node::Leaf(..) => return,
            Node::Opt(_, o) => {
                if let Some(n) = o {
                    n.pairs(p, out)
                }
                return;
            }
            Node::List(_, v) => v.iter_mut().enumerate().map(|(i, n)| (format!("{}[{}]", p, i), n)).unzip(),
            Node::Rec(v) => v.iter_mut().map(|(k, n)| (format!("{}.{}", p, k), n)).unzip(),
        };
        let mut prev: Option<(Ty, *mut Vec<Node>)> = None;
        for (nm, k) in names.into_iter().zip(kids) {
            let cur = lp(k);
            if let (Some((a, x)), Some((b, y))) = (&prev, &cur) {
                if a == b {
                    out.push((nm.clone(), *x, *y));
                }
            }
            prev = cur;
            k.pairs(nm, out);
        }
    }
    /// moves elements across the border of two neighbouring lists: the flattened form is unchanged
    pub fn regroup(&self, s: &mut Src) -> Option<(Node, String)> {
        let mut n = self.clone();
        let mut ps = vec![];
        n.pairs(String::new(), &mut ps);
        if ps.is_empty() {
            return None;
        }
        let (p, x, y) = ps[s.below(ps.len())].clone();
        let (x, y) = unsafe { (&mut *x, &mut *y) };
        let fwd = s.bool();
        let all = s.bool();
        if (fwd && x.is_empty()) || (!fwd && y.is_empty()) {
            return None;
        }
        let k = if all { if fwd { x.len() } else { y.len() } } else { 1 };
        for _ in 0..k {
            if fwd {
                y.insert(0, x.pop()?);
            } else {
                x.push(y.remove(0));
            }
        }
        Some((n, format!("regroup {} {}", p, if all { "all" } else { "one" })))
    }
    pub fn mutate(&self, s: &mut Src, o: &Ops) -> Option<(Node, String)> {
        match s.below(10) {
            0 | 1 => self.mutate_list(s),
            2 => self.regroup(s).or_else(|| self.mutate_list(s)),
            _ => self.mutate_leaf(s, o),
        }
    }
}
