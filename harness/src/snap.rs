//! Projection of nodes and whole trees to plain data.

use crate::api::{Gen, Slot};
use masstree::TreeLeafNode;
use masstree::internode::InternodeNode;
use masstree::leaf24::LeafNode24;
use masstree::nodeversion::NodeVersion;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ent {
    pub slot: usize,
    pub ik: u64,
    /// 0..=8 inline length, 64 suffix, 128 layer
    pub kind: u8,
    pub suf: Vec<u8>,
    /// value id, or layer node address
    pub val: u64,
    pub null: bool,
}

#[derive(Clone, Debug)]
pub enum Node {
    Leaf {
        addr: usize,
        ver: u32,
        parent: usize,
        prev: usize,
        next: usize,
        marked: bool,
        frozen: bool,
        bound: u64,
        ents: Vec<Ent>,
        perm: Vec<usize>,
    },
    Inner { addr: usize, ver: u32, parent: usize, height: u32, keys: Vec<u64>, kids: Vec<usize> },
}

pub const LOCK: u32 = 1;
pub const INS: u32 = 2;
pub const SPLIT: u32 = 4;

pub fn leaf<S: Slot>(addr: usize) -> Node {
    let l = unsafe { &*(addr as *const LeafNode24<S>) };
    let ver = l.version().value();
    let (perm, frozen) = match TreeLeafNode::permutation_try(l) {
        Ok(p) => (p, false),
        Err(()) => {
            return Node::Leaf {
                addr,
                ver,
                parent: l.parent() as usize,
                prev: l.prev() as usize,
                next: l.safe_next() as usize,
                marked: l.next_is_marked(),
                frozen: true,
                bound: l.ikey_bound(),
                ents: vec![],
                perm: vec![],
            };
        }
    };
    let mut ents = Vec::new();
    for i in 0..perm.size() {
        let s = perm.get(i);
        let kl = l.keylenx(s);
        let p = l.leaf_value_ptr(s);
        let kind = if kl >= 128 { 128 } else { kl };
        let suf = if kl == 64 { l.ksuf(s).unwrap_or(b"<missing>").to_vec() } else { vec![] };
        let val = if p.is_null() {
            0
        } else if kind == 128 {
            p as u64
        } else {
            unsafe { S::raw(p) }
        };
        ents.push(Ent { slot: s, ik: l.ikey(s), kind, suf, val, null: p.is_null() });
    }
    Node::Leaf {
        addr,
        ver,
        parent: l.parent() as usize,
        prev: l.prev() as usize,
        next: l.safe_next() as usize,
        marked: l.next_is_marked(),
        frozen,
        bound: l.ikey_bound(),
        ents,
        perm: (0..24).map(|i| perm.get(i)).collect(),
    }
}

pub fn inner<S: Slot>(addr: usize) -> Node {
    let n = unsafe { &*(addr as *const InternodeNode<S, 15>) };
    let k = n.nkeys().min(15);
    Node::Inner {
        addr,
        ver: n.version().value(),
        parent: n.parent() as usize,
        height: n.height(),
        keys: (0..k).map(|i| n.ikey(i)).collect(),
        kids: (0..=k).map(|i| n.child(i) as usize).collect(),
    }
}

/// Tell the scheduler where the fields are.
pub fn learn_fields<S: Slot>(leaf: usize, inner: usize) {
    use crate::sched::{field, probe};
    let l = unsafe { &*(leaf as *const LeafNode24<S>) };
    let n = unsafe { &*(inner as *const InternodeNode<S, 15>) };
    let at = |c: u8, a: usize| field(0, leaf, a, c);
    at(1, l.version() as *const NodeVersion as usize);
    at(2, probe(|| drop(std::hint::black_box(TreeLeafNode::permutation_try(l)))));
    at(3, probe(|| drop(std::hint::black_box(l.next_is_marked()))));
    at(4, probe(|| drop(std::hint::black_box(l.prev()))));
    at(5, probe(|| drop(std::hint::black_box(l.parent()))));
    let at = |c: u8, a: usize| field(1, inner, a, c);
    at(7, n.version() as *const NodeVersion as usize);
    at(8, probe(|| drop(std::hint::black_box(n.nkeys()))));
    at(9, probe(|| drop(std::hint::black_box(n.parent()))));
}

pub fn is_leaf(addr: usize) -> bool {
    unsafe { (*(addr as *const NodeVersion)).is_leaf() }
}

pub fn node<S: Slot>(addr: usize) -> Node {
    if is_leaf(addr) { leaf::<S>(addr) } else { inner::<S>(addr) }
}

/// Root of the layer that contains `addr`, following parent links.
pub fn layer_top<S: Slot>(mut addr: usize) -> usize {
    for _ in 0..64 {
        let p = match node::<S>(addr) {
            Node::Leaf { parent, .. } | Node::Inner { parent, .. } => parent,
        };
        if p == 0 {
            break;
        }
        addr = p;
    }
    addr
}

/// One layer of a snapshot.
pub struct Layer {
    pub root: usize,
    /// node and slot entry that refers to it (0 for the main tree)
    pub entry: usize,
    pub prefix: Vec<u8>,
}

pub struct Snap {
    pub nodes: Vec<Node>,
    pub layers: Vec<Layer>,
    pub broken: Option<String>,
}

impl Node {
    pub fn addr(&self) -> usize {
        match self {
            Node::Leaf { addr, .. } | Node::Inner { addr, .. } => *addr,
        }
    }
}

/// Walk everything reachable: children, sibling links, layers.
pub fn walk<S: Slot>(root: usize) -> Snap {
    let mut s = Snap { nodes: vec![], layers: vec![], broken: None };
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    let mut lq: Vec<(usize, usize, Vec<u8>)> = vec![(root, 0, vec![])];
    while let Some((entry, from, prefix)) = lq.pop() {
        let top = if from == 0 { entry } else { layer_top::<S>(entry) };
        s.layers.push(Layer { root: top, entry: from, prefix: prefix.clone() });
        let mut q = vec![top];
        while let Some(a) = q.pop() {
            if a == 0 || !seen.insert(a) {
                continue;
            }
            if seen.len() > 200_000 {
                s.broken = Some("too many nodes".into());
                return s;
            }
            let n = node::<S>(a);
            match &n {
                Node::Leaf { next, ents, .. } => {
                    if *next != 0 {
                        q.push(*next);
                    }
                    for e in ents {
                        if e.kind == 128 && !e.null {
                            let mut p = prefix.clone();
                            p.extend(e.ik.to_be_bytes());
                            lq.push((e.val as usize, a, p));
                        }
                    }
                }
                Node::Inner { kids, .. } => {
                    for &k in kids.iter().rev() {
                        q.push(k);
                    }
                }
            }
            s.nodes.push(n);
        }
    }
    s
}

/// Ids for nodes, ranks for slices, ids for suffixes of one recording.
#[derive(Default)]
pub struct Names {
    pub ids: HashMap<usize, usize>,
    iks: BTreeSet<u64>,
    rank: HashMap<u64, usize>,
    pub sufs: Vec<Vec<u8>>,
    suf_id: HashMap<Vec<u8>, usize>,
}

impl Names {
    pub fn id(&mut self, addr: usize) -> usize {
        if addr == 0 {
            return 0;
        }
        let n = self.ids.len() + 1;
        *self.ids.entry(addr).or_insert(n)
    }
    pub fn note(&mut self, n: &Node) {
        match n {
            Node::Leaf { bound, ents, .. } => {
                self.iks.insert(*bound);
                for e in ents {
                    self.iks.insert(e.ik);
                }
            }
            Node::Inner { keys, .. } => self.iks.extend(keys.iter().copied()),
        }
    }
    /// The slices of a key, so that they have ranks.
    pub fn note_key(&mut self, k: &[u8]) {
        self.iks.extend(chunks(k).iter().map(|c| c.0));
    }
    /// A key layer by layer: slice, kind, what remains after the slice.
    pub fn chunks_json(&mut self, k: &[u8]) -> String {
        let v: Vec<String> = chunks(k)
            .into_iter()
            .map(|(ik, kind, rest)| {
                let s = if kind == 64 { self.suf(rest) } else { 0 };
                format!("[{},{kind},{s}]", self.rank(ik))
            })
            .collect();
        format!("[{}]", v.join(","))
    }
    pub fn freeze(&mut self) {
        self.rank = self.iks.iter().enumerate().map(|(i, k)| (*k, i + 1)).collect();
    }
    pub fn rank(&self, ik: u64) -> usize {
        self.rank[&ik]
    }
    pub fn suf(&mut self, s: &[u8]) -> usize {
        if let Some(&i) = self.suf_id.get(s) {
            return i;
        }
        self.sufs.push(s.to_vec());
        self.suf_id.insert(s.to_vec(), self.sufs.len());
        self.sufs.len()
    }
    pub fn slices_json(&self) -> String {
        let v: Vec<String> = self.iks.iter().map(|k| bytes(&k.to_be_bytes())).collect();
        format!("[{}]", v.join(","))
    }
    pub fn sufs_json(&self) -> String {
        let v: Vec<String> = self.sufs.iter().map(|k| bytes(k)).collect();
        format!("[{}]", v.join(","))
    }
    pub fn node_json(&mut self, n: &Node) -> String {
        match n {
            Node::Leaf { addr, ver, parent, prev, next, marked, frozen, bound, ents, .. } => {
                let es: Vec<String> = ents
                    .iter()
                    .map(|e| {
                        let s = if e.kind == 64 { self.suf(&e.suf) } else { 0 };
                        let v = if e.null {
                            -1
                        } else if e.kind == 128 {
                            self.id(e.val as usize) as i64
                        } else {
                            e.val as i64
                        };
                        format!("[{},{},{},{}]", self.rank(e.ik), e.kind, s, v)
                    })
                    .collect();
                format!(
                    "{{\"t\":\"L\",\"id\":{},\"lk\":{},\"dirty\":{},\"del\":{},\"root\":{},\"par\":{},\"prev\":{},\"next\":{},\"mark\":{},\"frz\":{},\"bound\":{},\"ents\":[{}]}}",
                    self.id(*addr),
                    ver & LOCK,
                    u32::from(ver & (INS | SPLIT) != 0),
                    (ver >> 29) & 1,
                    (ver >> 30) & 1,
                    self.id(*parent),
                    self.id(*prev),
                    self.id(*next),
                    u8::from(*marked),
                    u8::from(*frozen),
                    self.rank(*bound),
                    es.join(",")
                )
            }
            Node::Inner { addr, ver, parent, height, keys, kids } => {
                let ks: Vec<String> = keys.iter().map(|k| self.rank(*k).to_string()).collect();
                let cs: Vec<String> = kids.iter().map(|k| self.id(*k).to_string()).collect();
                format!(
                    "{{\"t\":\"I\",\"id\":{},\"lk\":{},\"dirty\":{},\"del\":{},\"root\":{},\"par\":{},\"h\":{},\"keys\":[{}],\"kids\":[{}]}}",
                    self.id(*addr),
                    ver & LOCK,
                    u32::from(ver & (INS | SPLIT) != 0),
                    (ver >> 29) & 1,
                    (ver >> 30) & 1,
                    self.id(*parent),
                    height,
                    ks.join(","),
                    cs.join(",")
                )
            }
        }
    }
}

fn chunks(k: &[u8]) -> Vec<(u64, u8, &[u8])> {
    let mut out = vec![];
    let mut r = k;
    loop {
        let mut b = [0u8; 8];
        let n = r.len().min(8);
        b[..n].copy_from_slice(&r[..n]);
        let ik = u64::from_be_bytes(b);
        if r.len() <= 8 {
            out.push((ik, n as u8, &r[n..]));
            return out;
        }
        out.push((ik, 64, &r[8..]));
        r = &r[8..];
    }
}

pub fn bytes(b: &[u8]) -> String {
    let v: Vec<String> = b.iter().map(u8::to_string).collect();
    format!("[{}]", v.join(","))
}

/// Whole-tree snapshot as one JSON object. `expect` is the sorted list of (key, value id).
pub fn snapshot_json<S: Slot>(tree: &Gen<S>, expect: &[(Vec<u8>, u64)], len: usize) -> String
where
    Gen<S>: crate::api::TreeOps,
{
    let root = crate::api::TreeOps::root(tree) as usize;
    let s = walk::<S>(root);
    let mut nm = Names::default();
    for n in &s.nodes {
        nm.id(n.addr());
        nm.note(n);
    }
    nm.freeze();
    let ns: Vec<String> = s.nodes.iter().map(|n| nm.node_json(n)).collect();
    let ls: Vec<String> = s
        .layers
        .iter()
        .map(|l| format!("{{\"root\":{},\"from\":{},\"prefix\":{}}}", nm.id(l.root), nm.id(l.entry), bytes(&l.prefix)))
        .collect();
    let ex: Vec<String> = expect.iter().map(|(k, v)| format!("[{},{}]", bytes(k), v)).collect();
    format!(
        "{{\"kind\":\"snap\",\"root\":{},\"len\":{},\"broken\":{},\"slices\":{},\"sufs\":{},\"nodes\":[{}],\"layers\":[{}],\"expect\":[{}]}}",
        nm.id(root),
        len,
        u8::from(s.broken.is_some()),
        nm.slices_json(),
        nm.sufs_json(),
        ns.join(","),
        ls.join(","),
        ex.join(",")
    )
}
