//! Independent walker over the structure of a tree, through its public API.
use crate::rng::mix;
use crate::tok::Tok;
use raw_btree::{Address, Node, RawBTree, Storage, M};
use std::cmp::Ordering;

pub struct NodeRec<N> {
	pub id: N,
	pub parent: Option<usize>,
	pub recorded_parent: Option<N>,
	pub depth: usize,
	pub leaf: bool,
	pub items: Vec<(i64, u64)>,
	pub children: Vec<usize>,
	/// Rank of the first item of the subtree, and one past the last.
	pub lo: usize,
	pub hi: usize,
	/// Rank before each offset `0..=n`: item rank, or end of subtree for `n`.
	pub rank: Vec<usize>,
}

pub struct Walk<N> {
	/// In-order (key, uid).
	pub items: Vec<(i64, u64)>,
	pub addrs: Vec<Address<N>>,
	/// Preorder; the root is node 0.
	pub nodes: Vec<NodeRec<N>>,
	pub height: usize,
}

/// Address with what it designates: number of items before it, and whether it
/// is occupied.
pub struct Pos<N> {
	pub addr: Address<N>,
	pub rank: usize,
	pub occupied: bool,
	pub leaf: bool,
	/// -1 for before-first
	pub off: i64,
	pub count: usize,
}

pub fn walk<T: Tok, S: Storage<T>>(t: &RawBTree<T, S>) -> Walk<S::Node> {
	walk_from(&|id| unsafe { t.node(id) }, t.root(), t.len())
}

/// The nodes under `root`, expected to hold `len` items.
pub fn walk_from<'a, T: Tok + 'a, S: Storage<T> + 'a>(get: &impl Fn(S::Node) -> &'a Node<T, S>, root: Option<S::Node>, len: usize) -> Walk<S::Node> {
	let mut w = Walk { items: vec![], addrs: vec![], nodes: vec![], height: 0 };
	if let Some(r) = root {
		rec(get, r, None, 0, &mut w, len);
	}
	w
}

fn rec<'a, T: Tok + 'a, S: Storage<T> + 'a>(get: &impl Fn(S::Node) -> &'a Node<T, S>, id: S::Node, parent: Option<usize>, depth: usize, w: &mut Walk<S::Node>, len: usize) -> usize {
	crate::ensure!(depth < 64 && w.nodes.len() < len * 2 + 64, "the structure of the tree is cyclic or unbounded ({} nodes, depth {}, len {})", w.nodes.len(), depth, len);
	let node = get(id);
	let me = w.nodes.len();
	w.height = w.height.max(depth + 1);
	let n = node.item_count();
	crate::ensure!(n <= M + 1, "a node claims to hold {n} items");
	let kids: Vec<S::Node> = node.children().collect();
	w.nodes.push(NodeRec {
		id,
		parent,
		recorded_parent: node.parent(),
		depth,
		leaf: matches!(node, Node::Leaf(_)),
		items: vec![],
		children: vec![],
		lo: w.items.len(),
		hi: 0,
		rank: vec![],
	});
	for i in 0..=n.max(kids.len()) {
		if let Some(c) = kids.get(i) {
			let ci = rec(get, *c, Some(me), depth + 1, w, len);
			w.nodes[me].children.push(ci);
		}
		w.nodes[me].rank.push(w.items.len());
		if i < n {
			match node.item(i.into()) {
				Some(x) => {
					let it = (x.key(), x.uid());
					w.nodes[me].items.push(it);
					w.items.push(it);
					w.addrs.push(Address::new(id, i.into()));
				}
				None => crate::viol!("a node with {n} items has none at offset {i}"),
			}
		}
	}
	w.nodes[me].hi = w.items.len();
	me
}

impl<N: Copy + PartialEq + std::fmt::Debug> Walk<N> {
	pub fn uids(&self) -> Vec<u64> {
		self.items.iter().map(|x| x.1).collect()
	}
	pub fn keys(&self) -> Vec<i64> {
		self.items.iter().map(|x| x.0).collect()
	}

	/// Digest of the shape (fill of every node, in preorder), not of the keys.
	pub fn hash(&self) -> u64 {
		let mut h = self.height as u64;
		for n in &self.nodes {
			h = mix(h ^ (n.items.len() as u64) << 8 ^ n.depth as u64);
		}
		h
	}

	/// All the valid addresses, in no particular order.
	pub fn positions(&self) -> Vec<Pos<N>> {
		let mut out = vec![];
		for n in &self.nodes {
			let c = n.items.len();
			let mut before = Address::new(n.id, raw_btree::Offset::before());
			before.node = n.id;
			out.push(Pos { addr: before, rank: n.lo, occupied: false, leaf: n.leaf, off: -1, count: c });
			for i in 0..=c {
				out.push(Pos { addr: Address::new(n.id, i.into()), rank: if i < c { n.rank[i] } else { n.hi }, occupied: i < c, leaf: n.leaf, off: i as i64, count: c });
			}
		}
		out
	}

	/// Position designated by an address; `None` if it is not a valid address.
	pub fn locate(&self, a: Address<N>) -> Option<Pos<N>> {
		let n = self.nodes.iter().find(|n| n.id == a.node)?;
		let c = n.items.len();
		match a.offset.value() {
			None => Some(Pos { addr: a, rank: n.lo, occupied: false, leaf: n.leaf, off: -1, count: c }),
			Some(i) if i <= c => Some(Pos { addr: a, rank: if i < c { n.rank[i] } else { n.hi }, occupied: i < c, leaf: n.leaf, off: i as i64, count: c }),
			_ => None,
		}
	}

	/// Structural invariants that do not depend on the order.
	pub fn structure(&self, len: usize) -> Result<(), String> {
		if self.items.len() != len {
			return Err(format!("len() is {len} but the nodes hold {} items", self.items.len()));
		}
		let mut leaf_depth = None;
		for (i, n) in self.nodes.iter().enumerate() {
			let c = n.items.len();
			if i == 0 {
				if n.recorded_parent.is_some() {
					return Err("the root records a parent".into());
				}
				if c == 0 {
					return Err("the root holds no item".into());
				}
			} else {
				let p = &self.nodes[n.parent.unwrap()];
				if n.recorded_parent != Some(p.id) {
					return Err(format!("node {:?} is a child of {:?} but records parent {:?}", n.id, p.id, n.recorded_parent));
				}
				if c < M / 2 - 1 {
					return Err(format!("node {:?} (depth {}, leaf {}) holds {c} items, less than {}", n.id, n.depth, n.leaf, M / 2 - 1));
				}
			}
			if c > M {
				return Err(format!("node {:?} holds {c} items, more than {}", n.id, M));
			}
			if n.leaf {
				if !n.children.is_empty() {
					return Err("a leaf has children".into());
				}
				match leaf_depth {
					None => leaf_depth = Some(n.depth),
					Some(d) if d != n.depth => return Err(format!("leaves at depths {d} and {}", n.depth)),
					_ => (),
				}
			} else if n.children.len() != c + 1 {
				return Err(format!("an internal node has {c} items and {} children", n.children.len()));
			}
		}
		// No node is reachable twice: from two parents, its recorded parent would
		// be wrong for one of them; from the same parent, siblings coincide.
		for n in &self.nodes {
			for (i, a) in n.children.iter().enumerate() {
				for b in &n.children[i + 1..] {
					if self.nodes[*a].id == self.nodes[*b].id {
						return Err(format!("node {:?} has the same child {:?} twice", n.id, self.nodes[*a].id));
					}
				}
			}
		}
		Ok(())
	}

	pub fn sorted(&self, ord: impl Fn(i64) -> i64) -> Result<(), String> {
		for w in self.items.windows(2) {
			if ord(w[0].0).cmp(&ord(w[1].0)) != Ordering::Less {
				return Err(format!("in-order traversal is not strictly increasing: {} then {}", w[0].0, w[1].0));
			}
		}
		Ok(())
	}

	/// Height bound implied by the minimal fill.
	pub fn height_bound(len: usize) -> usize {
		// root >= 1 item, every other node >= M/2-1 items.
		let d = M / 2;
		let mut h = 1;
		let mut width = 2usize; // nodes at the next level
		let mut least = 1usize;
		loop {
			let next = least + width * (d - 1);
			if next > len {
				return h;
			}
			least = next;
			width *= d;
			h += 1;
		}
	}
}
