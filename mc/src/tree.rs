//! Independent model of IC hash trees: digests, encoding and lookup written from the interface
//! specification, sharing no code with the crates under test.
use ic_certification::{HashTree, HashTreeNode};
use sha2::{Digest, Sha256};

pub type H = [u8; 32];

pub fn sha(parts: &[&[u8]]) -> H {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
fn sep(s: &str, parts: &[&[u8]]) -> H {
    let mut h = Sha256::new();
    h.update([s.len() as u8]);
    h.update(s.as_bytes());
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum T {
    E,
    F(Box<T>, Box<T>),
    L(Vec<u8>, Box<T>),
    V(Vec<u8>),
    P(H),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Look {
    Absent,
    Unknown,
    Error,
    Found(Vec<u8>),
}
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Sub {
    Absent,
    Unknown,
    Found(T),
}
pub enum Find<'a> {
    Absent,
    Unknown,
    Found(&'a T),
}

pub fn f(a: T, b: T) -> T {
    T::F(Box::new(a), Box::new(b))
}
pub fn l(a: impl AsRef<[u8]>, b: T) -> T {
    T::L(a.as_ref().to_vec(), Box::new(b))
}
pub fn v(a: impl AsRef<[u8]>) -> T {
    T::V(a.as_ref().to_vec())
}

impl T {
    pub fn digest(&self) -> H {
        match self {
            T::E => sep("ic-hashtree-empty", &[]),
            T::F(a, b) => sep("ic-hashtree-fork", &[&a.digest(), &b.digest()]),
            T::L(l, t) => sep("ic-hashtree-labeled", &[l, &t.digest()]),
            T::V(v) => sep("ic-hashtree-leaf", &[v]),
            T::P(h) => *h,
        }
    }
    pub fn to_impl(&self) -> HashTree {
        match self {
            T::E => ic_certification::empty(),
            T::F(a, b) => ic_certification::fork(a.to_impl(), b.to_impl()),
            T::L(l, t) => ic_certification::labeled(l.as_slice(), t.to_impl()),
            T::V(v) => ic_certification::leaf(v.clone()),
            T::P(h) => ic_certification::pruned(*h),
        }
    }
    pub fn from_node(n: &HashTreeNode) -> T {
        match n {
            HashTreeNode::Empty() => T::E,
            HashTreeNode::Fork(b) => f(T::from_node(&b.0), T::from_node(&b.1)),
            HashTreeNode::Labeled(lb, t) => l(lb.as_bytes(), T::from_node(t)),
            HashTreeNode::Leaf(x) => T::V(x.clone()),
            HashTreeNode::Pruned(h) => T::P(*h),
        }
    }
    pub fn from_impl(t: &HashTree) -> T {
        T::from_node(t.as_ref())
    }
    pub fn enc(&self, o: &mut Vec<u8>) {
        match self {
            T::E => o.extend([0x81, 0]),
            T::F(a, b) => {
                o.extend([0x83, 1]);
                a.enc(o);
                b.enc(o)
            }
            T::L(lb, t) => {
                o.extend([0x83, 2]);
                bytes(lb, o);
                t.enc(o)
            }
            T::V(x) => {
                o.extend([0x82, 3]);
                bytes(x, o)
            }
            T::P(h) => {
                o.extend([0x82, 4]);
                bytes(h, o)
            }
        }
    }
    /// CBOR with the self-describe tag.
    pub fn cbor(&self) -> Vec<u8> {
        let mut o = vec![0xd9, 0xd9, 0xf7];
        self.enc(&mut o);
        o
    }
    fn flat<'a>(&'a self, o: &mut Vec<&'a T>) {
        match self {
            T::E => {}
            T::F(a, b) => {
                a.flat(o);
                b.flat(o)
            }
            t => o.push(t),
        }
    }
    pub fn flatten(&self) -> Vec<&T> {
        let mut o = vec![];
        self.flat(&mut o);
        o
    }
    /// Labels strictly increasing within every forest, values only on their own, recursively.
    pub fn well_formed(&self) -> bool {
        let fl = self.flatten();
        if fl.len() > 1 && fl.iter().any(|t| matches!(t, T::V(_))) {
            return false;
        }
        if matches!(self, T::F(..)) && fl.iter().any(|t| matches!(t, T::V(_))) {
            return false;
        }
        let labels: Vec<&Vec<u8>> = fl.iter().filter_map(|t| if let T::L(l, _) = t { Some(l) } else { None }).collect();
        labels.windows(2).all(|w| w[0] < w[1])
            && fl.iter().all(|t| if let T::L(_, s) = t { s.well_formed() } else { true })
    }
    /// `find_label` of the interface specification.
    pub fn find(&self, lb: &[u8]) -> Find<'_> {
        let fl = self.flatten();
        for t in &fl {
            if let T::L(l, s) = t {
                if l == lb {
                    return Find::Found(s);
                }
            }
        }
        let lab = |i: usize| if let Some(T::L(l, _)) = fl.get(i) { Some(l.as_slice()) } else { None };
        if fl.is_empty() || (fl.len() == 1 && matches!(fl[0], T::V(_))) {
            return Find::Absent;
        }
        if lab(0).is_some_and(|x| lb < x) || lab(fl.len() - 1).is_some_and(|x| x < lb) {
            return Find::Absent;
        }
        for i in 1..fl.len() {
            if let (Some(a), Some(b)) = (lab(i - 1), lab(i)) {
                if a < lb && lb < b {
                    return Find::Absent;
                }
            }
        }
        Find::Unknown
    }
    pub fn lookup<P: AsRef<[u8]>>(&self, path: &[P]) -> Look {
        if path.is_empty() {
            return match self {
                T::E => Look::Absent,
                T::V(x) => Look::Found(x.clone()),
                T::P(_) => Look::Unknown,
                _ => Look::Error,
            };
        }
        match self.find(path[0].as_ref()) {
            Find::Absent => Look::Absent,
            Find::Unknown => Look::Unknown,
            Find::Found(t) => t.lookup(&path[1..]),
        }
    }
    pub fn subtree<P: AsRef<[u8]>>(&self, path: &[P]) -> Sub {
        if path.is_empty() {
            return Sub::Found(self.clone());
        }
        match self.find(path[0].as_ref()) {
            Find::Absent => Sub::Absent,
            Find::Unknown => Sub::Unknown,
            Find::Found(t) => t.subtree(&path[1..]),
        }
    }
    pub fn paths(&self) -> Vec<(Vec<Vec<u8>>, Vec<u8>)> {
        fn go(t: &T, p: &mut Vec<Vec<u8>>, o: &mut Vec<(Vec<Vec<u8>>, Vec<u8>)>) {
            match t {
                T::F(a, b) => {
                    go(a, p, o);
                    go(b, p, o)
                }
                T::L(l, t) => {
                    p.push(l.clone());
                    go(t, p, o);
                    p.pop();
                }
                T::V(x) => o.push((p.clone(), x.clone())),
                _ => {}
            }
        }
        let mut o = vec![];
        go(self, &mut vec![], &mut o);
        o
    }
    /// Whether `w` is `self` with some subtrees replaced by their digests.
    pub fn is_pruning(&self, w: &T) -> bool {
        match (self, w) {
            (a, T::P(h)) => a.digest() == *h,
            (T::F(a, b), T::F(c, d)) => a.is_pruning(c) && b.is_pruning(d),
            (T::L(l, a), T::L(m, b)) => l == m && a.is_pruning(b),
            (a, b) => a == b,
        }
    }
    /// All trees obtained from `self` by pruning any set of subtrees.
    pub fn prunings(&self) -> Vec<T> {
        let mut o = match self {
            T::F(a, b) => {
                let (pa, pb) = (a.prunings(), b.prunings());
                let mut o = vec![];
                for x in &pa {
                    for y in &pb {
                        o.push(f(x.clone(), y.clone()));
                    }
                }
                o
            }
            T::L(lb, a) => a.prunings().into_iter().map(|x| l(lb, x)).collect(),
            T::P(_) => return vec![self.clone()],
            t => vec![t.clone()],
        };
        o.push(T::P(self.digest()));
        o
    }
    pub fn size(&self) -> usize {
        match self {
            T::F(a, b) => 1 + a.size() + b.size(),
            T::L(_, a) => 1 + a.size(),
            _ => 1,
        }
    }
    pub fn show(&self) -> String {
        let s = |b: &[u8]| {
            if b.iter().all(|c| c.is_ascii_graphic()) {
                String::from_utf8_lossy(b).into_owned()
            } else {
                crate::ctx::hx(&b[..b.len().min(4)])
            }
        };
        match self {
            T::E => "E".into(),
            T::F(a, b) => format!("F({},{})", a.show(), b.show()),
            T::L(lb, a) => format!("{:?}:{}", s(lb), a.show()),
            T::V(x) => format!("V{:?}", s(x)),
            T::P(h) => format!("P{}", crate::ctx::hx(&h[..3])),
        }
    }
}

/// A balanced tree over sorted labeled children.
pub fn balanced(c: &[T]) -> T {
    match c.len() {
        0 => T::E,
        1 => c[0].clone(),
        n => f(balanced(&c[..n / 2]), balanced(&c[n / 2..])),
    }
}

/// All tree shapes (binary trees) over the given sequence of items.
pub fn shapes(c: &[T]) -> Vec<T> {
    match c.len() {
        0 => vec![T::E],
        1 => vec![c[0].clone()],
        n => {
            let mut o = vec![];
            for i in 1..n {
                let (ls, rs) = (shapes(&c[..i]), shapes(&c[i..]));
                for a in &ls {
                    for b in &rs {
                        o.push(f(a.clone(), b.clone()));
                    }
                }
            }
            o
        }
    }
}

// ---- minimal CBOR writer ----
pub fn head(major: u8, n: u64, o: &mut Vec<u8>) {
    let m = major << 5;
    match n {
        0..=23 => o.push(m | n as u8),
        24..=0xff => o.extend([m | 24, n as u8]),
        0x100..=0xffff => {
            o.push(m | 25);
            o.extend((n as u16).to_be_bytes())
        }
        0x10000..=0xffff_ffff => {
            o.push(m | 26);
            o.extend((n as u32).to_be_bytes())
        }
        _ => {
            o.push(m | 27);
            o.extend(n.to_be_bytes())
        }
    }
}
pub fn bytes(b: &[u8], o: &mut Vec<u8>) {
    head(2, b.len() as u64, o);
    o.extend_from_slice(b);
}
pub fn text(b: &str, o: &mut Vec<u8>) {
    head(3, b.len() as u64, o);
    o.extend_from_slice(b.as_bytes());
}
