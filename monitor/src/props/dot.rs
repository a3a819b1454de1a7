//! C16: the DOT export is parsed back and compared to the tree.
use crate::ctx::{count, count_max, expecting, note, Case, Ctx};
use crate::gen::{build, STYLES};
use crate::rng::Rng;
use crate::shape::{walk, Walk};
use crate::store::MonStorage;
use crate::tok::{Tok, TokB, TokL, TokS};
use crate::{ensure, viol};
use raw_btree::storage::BoxStorage;
use raw_btree::{RawBTree, Storage};
use std::io::Write;

#[derive(Debug)]
enum Lex {
	Word(String),
	Str(String),
	Sym(&'static str),
}

/// Tokens of a DOT file.
fn lex(s: &str) -> Result<Vec<Lex>, String> {
	let b: Vec<char> = s.chars().collect();
	let mut i = 0;
	let mut out = vec![];
	while i < b.len() {
		let c = b[i];
		if c.is_whitespace() {
			i += 1
		} else if c == '-' && b.get(i + 1) == Some(&'>') {
			out.push(Lex::Sym("->"));
			i += 2
		} else if c == '"' {
			let mut t = String::new();
			i += 1;
			loop {
				match b.get(i) {
					None => return Err("unterminated string".into()),
					Some('"') => break,
					Some('\\') if b.get(i + 1) == Some(&'"') => {
						// still a literal quote for the label
						t.push('"');
						i += 2
					}
					Some('\\') if b.get(i + 1) == Some(&'\\') => {
						t.push_str("\\\\");
						i += 2
					}
					Some(c) => {
						t.push(*c);
						i += 1
					}
				}
			}
			i += 1;
			out.push(Lex::Str(t))
		} else if let Some(k) = "{}[]=;,".find(c) {
			out.push(Lex::Sym(["{", "}", "[", "]", "=", ";", ","][k]));
			i += 1
		} else if c.is_alphanumeric() || c == '_' || c == '.' || c == '-' {
			let mut t = String::new();
			while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_' || b[i] == '.') || t.is_empty() && b[i] == '-' {
				t.push(b[i]);
				i += 1
			}
			out.push(Lex::Word(t))
		} else if c == '/' && b.get(i + 1) == Some(&'/') {
			while i < b.len() && b[i] != '\n' {
				i += 1
			}
		} else {
			return Err(format!("unexpected character {c:?}"));
		}
	}
	Ok(out)
}

#[derive(Default, Debug)]
struct Graph {
	nodes: Vec<(String, String)>,
	edges: Vec<(String, String)>,
}

/// The subset of the grammar that a digraph of nodes and edges needs.
fn parse(s: &str) -> Result<Graph, String> {
	let t = lex(s)?;
	let mut i = 0;
	let mut g = Graph::default();
	let sym = |t: &[Lex], i: usize, s: &str| matches!(t.get(i), Some(Lex::Sym(x)) if *x == s);
	let ident = |t: &[Lex], i: usize| match t.get(i) {
		Some(Lex::Word(w)) => Some(w.clone()),
		Some(Lex::Str(w)) => Some(w.clone()),
		_ => None,
	};
	match t.first() {
		Some(Lex::Word(w)) if w == "digraph" => i += 1,
		Some(Lex::Word(w)) if w == "strict" => i += 2,
		_ => return Err("not a digraph".into()),
	}
	if ident(&t, i).is_some() {
		i += 1
	}
	if !sym(&t, i, "{") {
		return Err("no opening brace".into());
	}
	i += 1;
	loop {
		if sym(&t, i, "}") {
			i += 1;
			break;
		}
		if sym(&t, i, ";") {
			i += 1;
			continue;
		}
		let Some(name) = ident(&t, i) else { return Err(format!("statement expected at token {i}: {:?}", t.get(i))) };
		i += 1;
		if sym(&t, i, "=") {
			i += 2;
			continue;
		}
		let mut chain = vec![name];
		while sym(&t, i, "->") {
			let Some(n) = ident(&t, i + 1) else { return Err("edge without target".into()) };
			chain.push(n);
			i += 2;
		}
		let mut label = None;
		while sym(&t, i, "[") {
			i += 1;
			while !sym(&t, i, "]") {
				let Some(k) = ident(&t, i) else {
					if sym(&t, i, ",") || sym(&t, i, ";") {
						i += 1;
						continue;
					}
					return Err(format!("attribute expected: {:?}", t.get(i)));
				};
				i += 1;
				if sym(&t, i, "=") {
					let Some(v) = ident(&t, i + 1) else { return Err("attribute without value".into()) };
					if k == "label" {
						label = Some(v)
					}
					i += 2;
				}
			}
			i += 1;
		}
		if chain.len() == 1 {
			if !["node", "edge", "graph"].contains(&chain[0].as_str()) {
				g.nodes.push((chain[0].clone(), label.unwrap_or_default()));
			}
		} else {
			for w in chain.windows(2) {
				g.edges.push((w[0].clone(), w[1].clone()));
			}
		}
	}
	if i != t.len() {
		return Err("text after the closing brace".into());
	}
	Ok(g)
}

/// Items (`k<key>u<uid>`) of a label, in order, and the other integers of it,
/// ports (`<c0>`) excluded. Fails on unbalanced braces.
fn label(s: &str) -> Result<(Vec<String>, Vec<u64>), String> {
	let b: Vec<char> = s.chars().collect();
	let (mut items, mut ints) = (vec![], vec![]);
	let mut depth = 0;
	let mut i = 0;
	while i < b.len() {
		match b[i] {
			'{' => {
				depth += 1;
				i += 1
			}
			'}' => {
				depth -= 1;
				if depth < 0 {
					return Err("unbalanced braces in a label".into());
				}
				i += 1
			}
			'<' => {
				while i < b.len() && b[i] != '>' {
					i += 1
				}
				if i == b.len() {
					return Err("unterminated port".into());
				}
				i += 1
			}
			c if c.is_alphanumeric() || c == '-' => {
				let mut t = String::new();
				while i < b.len() && (b[i].is_alphanumeric() || b[i] == '-') {
					t.push(b[i]);
					i += 1
				}
				if t.starts_with('k') {
					items.push(t)
				} else if let Ok(n) = t.trim_start_matches('n').parse() {
					ints.push(n)
				} else {
					return Err(format!("unknown text {t:?} in a label"));
				}
			}
			_ => i += 1,
		}
	}
	if depth != 0 {
		return Err("unbalanced braces in a label".into());
	}
	Ok((items, ints))
}

/// The same for items written as `§...¶`, with anything in between, which must
/// not be taken for the structure of the label.
fn label_of_texts(s: &str) -> Result<(Vec<String>, Vec<u64>), String> {
	let b: Vec<char> = s.chars().collect();
	let (mut items, mut rest) = (vec![], String::new());
	let mut item: Option<String> = None;
	let mut i = 0;
	while i < b.len() {
		let (c, escaped) = match (b[i], b.get(i + 1)) {
			('\\', Some(c)) if "\\\"{}|<> ".contains(*c) => {
				i += 1;
				(*c, true)
			}
			(c, _) => (c, false),
		};
		i += 1;
		if !escaped && c == '§' && item.is_none() {
			item = Some(String::new())
		}
		match &mut item {
			Some(t) => {
				if !escaped && "{}|<>\\".contains(c) {
					return Err(format!("{c:?} in the text of an item is taken for a part of the label's structure"));
				}
				t.push(c);
				if c == '¶' {
					items.push(item.take().unwrap());
				}
			}
			None => rest.push(c),
		}
	}
	if item.is_some() {
		return Err("the text of an item is cut".into());
	}
	let (more, ints) = label(&rest)?;
	if !more.is_empty() {
		return Err("unknown text in a label".into());
	}
	Ok((items, ints))
}

fn compare<N: Copy + PartialEq + std::fmt::Debug + Into<usize>>(text: &str, w: &Walk<N>) {
	compare_as(text, w, label, |x| format!("k{}u{}", x.0, x.1))
}

fn compare_as<N: Copy + PartialEq + std::fmt::Debug + Into<usize>>(text: &str, w: &Walk<N>, label: fn(&str) -> Result<(Vec<String>, Vec<u64>), String>, show: impl Fn(&(i64, u64)) -> String) {
	let g = match parse(text) {
		Ok(g) => g,
		Err(e) => viol!("dot_write does not emit a well-formed digraph: {e}"),
	};
	ensure!(g.nodes.len() == w.nodes.len(), "{} node statements for a tree of {} nodes", g.nodes.len(), w.nodes.len());
	let mut name = std::collections::HashMap::new();
	let mut by_items = std::collections::HashMap::new();
	for (n, l) in &g.nodes {
		match label(l) {
			Ok((items, ints)) => by_items.insert(items, (n, ints)),
			Err(e) => viol!("node {n}: {e}: {l}"),
		};
	}
	for (k, nd) in w.nodes.iter().enumerate() {
		let own: usize = nd.id.into();
		let want: Vec<String> = nd.items.iter().map(&show).collect();
		let Some((n, ints)) = by_items.get(&want) else { viol!("no node of the graph shows the items {want:?} in order") };
		let mut expect = vec![own as u64];
		if let Some(p) = nd.parent {
			let p: usize = w.nodes[p].id.into();
			expect.push(p as u64);
		}
		let mut got = ints.clone();
		got.sort();
		expect.sort();
		ensure!(got == expect, "node {:?} (parent {:?}) is labelled with identifiers {ints:?} instead of {expect:?}", nd.id, nd.parent.map(|p| w.nodes[p].id));
		ensure!(name.insert(n.to_string(), k).is_none(), "node {n} appears several times");
	}
	ensure!(name.len() == g.nodes.len(), "a node appears several times");
	let mut edges = 0;
	let mut seen = std::collections::HashSet::new();
	for (a, b) in &g.edges {
		let (Some(i), Some(j)) = (name.get(a), name.get(b)) else { viol!("the edge {a} -> {b} links an unknown node") };
		ensure!(w.nodes[*i].children.contains(j), "the edge {a} -> {b} does not link a node to one of its children");
		ensure!(seen.insert((*i, *j)), "the edge {a} -> {b} appears twice");
		edges += 1;
	}
	let want: usize = w.nodes.iter().map(|n| n.children.len()).sum();
	ensure!(edges == want, "{edges} edges instead of {want}");
	count("nodes_compared", w.nodes.len() as u64);
	count("edges_compared", edges as u64);
}

/// Fails after `left` bytes, writing at most `step` bytes at a time.
struct Fail {
	left: usize,
	/// How often it fails before it works again.
	times: usize,
	step: usize,
	out: Vec<u8>,
	failed: usize,
	kind: std::io::ErrorKind,
}
impl Write for Fail {
	fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
		if self.left == 0 && !b.is_empty() {
			self.failed += 1;
			if self.failed == self.times {
				self.left = usize::MAX;
			}
			return Err(std::io::Error::new(self.kind, "injected"));
		}
		let n = b.len().min(self.left).min(self.step);
		self.left -= n;
		self.out.extend_from_slice(&b[..n]);
		Ok(n)
	}
	fn flush(&mut self) -> std::io::Result<()> {
		Ok(())
	}
}

fn export<T: Tok + std::fmt::Display, S: Storage<T>>(c: &mut Case, style: usize, n: usize, fails: usize)
where
	S::Node: Into<usize>,
{
	let t: RawBTree<T, S> = build(&mut Rng::new(c.rng.next()), style, n);
	let w = walk(&t);
	c.shape(w.hash());
	note("export", style as i64, w.nodes.len() as i64);
	let mut out = vec![];
	let r = t.dot_write(&mut out);
	ensure!(r.is_ok(), "dot_write fails although the writer does not: {r:?}");
	let text = String::from_utf8_lossy(&out).to_string();
	compare(&text, &w);
	// a writer that takes a few bytes at a time
	let step = 1 + c.rng.below(5);
	let mut f = Fail { left: usize::MAX, times: 0, step, out: vec![], failed: 0, kind: std::io::ErrorKind::Other };
	let r = t.dot_write(&mut f);
	ensure!(r.is_ok() && f.out == out, "dot_write to a writer taking {step} bytes at a time differs");
	// a writer that fails after each prefix
	let mut points: Vec<usize> = (0..out.len()).collect();
	if points.len() > fails {
		c.rng.shuffle(&mut points);
		points.truncate(fails);
		points.extend([0, 1, out.len() - 1, out.len() - 2]);
	}
	for p in points {
		let kind = *c.rng.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::PermissionDenied]);
		// for good, or for one call only
		let times = if c.rng.pct(50) { 1 } else { usize::MAX };
		let mut f = Fail { left: p, times, step: usize::MAX, out: vec![], failed: 0, kind };
		note("fail-at", p as i64, times as i64);
		let r = expecting(|| t.dot_write(&mut f));
		match r {
			Err(p) => viol!("dot_write panicked on a write error: {}", crate::ctx::panic_msg(&*p)),
			Ok(Ok(())) => viol!("dot_write reports success although the writer failed after {p} of {} bytes", out.len()),
			Ok(Err(e)) => ensure!(e.kind() == kind && e.to_string() == "injected", "dot_write reports another error: {e}"),
		}
		ensure!(times == 1 || out.starts_with(&f.out), "after a write error at byte {p}, what was written is not a prefix of the export");
		count("write_errors_injected", 1);
	}
	let w2 = walk(&t);
	ensure!(w2.items == w.items && w2.hash() == w.hash(), "exporting changed the tree");
	c.nontrivial = w.nodes.len() > 1;
	c.label = format!("style {style} n {} nodes {} bytes {}", w.items.len(), w.nodes.len(), out.len());
	count_max("max_height", w.height as u64);
}

/// An item whose text holds whatever has a meaning in the DOT language.
struct Text(i64, String);
impl std::fmt::Display for Text {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		// in pieces
		let cut = self.1.char_indices().nth(self.1.chars().count() / 2).map_or(0, |x| x.0);
		f.write_str(&self.1[..cut])?;
		write!(f, "{}", &self.1[cut..])
	}
}

fn text(rng: &mut Rng, key: i64) -> String {
	const PARTS: &[&str] = &["\"", "\\", "{", "}", "|", "<", ">", "->", "];", "\\n", "\\\"", "[label=\"", "é", "//", "a b", "x", "=", "\\\\", "<c1>", "0", "(7)", ""];
	let mut s = format!("§{key}");
	for _ in 0..rng.below(4) {
		s.push_str(rng.pick(PARTS));
	}
	s.push('¶');
	s
}

fn texts<S: Storage<Text>>(c: &mut Case, n: usize)
where
	S::Node: Into<usize>,
{
	let mut rng = Rng::new(c.rng.next());
	let mut t: RawBTree<Text, S> = RawBTree::new();
	let mut keys: Vec<i64> = (0..n as i64).collect();
	rng.shuffle(&mut keys);
	let mut shown = std::collections::BTreeMap::new();
	for k in keys {
		let s = text(&mut rng, k);
		shown.insert(k, s.clone());
		t.insert(|a, b| a.0.cmp(&b.0), Text(k, s));
	}
	// what the nodes hold
	let mut w: Walk<S::Node> = Walk { items: vec![], addrs: vec![], nodes: vec![], height: 0 };
	fn rec<S: Storage<Text>>(t: &RawBTree<Text, S>, id: S::Node, parent: Option<usize>, w: &mut Walk<S::Node>) -> usize {
		let node = unsafe { t.node(id) };
		let me = w.nodes.len();
		let items = (0..node.item_count()).map(|i| (node.item(i.into()).unwrap().0, 0)).collect();
		w.nodes.push(crate::shape::NodeRec { id, parent, recorded_parent: node.parent(), depth: 0, leaf: false, items, children: vec![], lo: 0, hi: 0, rank: vec![] });
		for k in node.children() {
			let k = rec(t, k, Some(me), w);
			w.nodes[me].children.push(k);
		}
		me
	}
	if let Some(r) = t.root() {
		rec(&t, r, None, &mut w);
	}
	note("texts", n as i64, w.nodes.len() as i64);
	let mut out = vec![];
	let r = t.dot_write(&mut out);
	ensure!(r.is_ok(), "dot_write fails although the writer does not: {r:?}");
	let out = match String::from_utf8(out) {
		Ok(s) => s,
		Err(_) => viol!("dot_write does not write UTF-8 text"),
	};
	compare_as(&out, &w, label_of_texts, |x| shown[&x.0].clone());
	count("texts_compared", n as u64);
	c.nontrivial = n > 0;
	c.observe(crate::ctx::hash_str(&out));
	c.label = format!("{n} items of arbitrary text");
}

pub fn run(x: &mut Ctx) {
	for i in 0..x.reps(x.nm(40, 1), 6) {
		let n = x.nm((i % 41) as usize, 10);
		x.case("dot-text", i, |c| match i % 3 {
			0 => texts::<BoxStorage>(c, n),
			1 => texts::<MonStorage<Text, 1>>(c, n),
			_ => texts::<MonStorage<Text, 2>>(c, n * 5),
		});
	}
	let sizes: Vec<usize> = if x.miri {
		vec![0, 1, 12]
	} else {
		let mut v: Vec<usize> = (0..=40).collect();
		v.extend([45, 50, 60, 64, 73, 80, 90, 100, 128, 150, 200, 300, 500]);
		if x.thorough {
			v.extend(41..=120);
			v.extend([1000, 2000]);
		}
		v
	};
	for r in 0..x.reps(x.nm(2, 1), 4) {
		for style in 0..STYLES {
			for n in &sizes {
				let n = *n;
				if x.miri && style % 4 != 0 {
					continue;
				}
				let i = (r * 100 + style as u64) * 100_000 + n as u64;
				let k = i / 100_000 + i % 100_000;
				x.case("dot", i, |c| {
					let fails = if c.miri { 3 } else if n < 20 { 4000 } else { 60 };
					match k % 4 {
						0 => export::<TokS, BoxStorage>(c, style, n, fails),
						1 => export::<TokS, MonStorage<TokS, 1>>(c, style, n, fails),
						2 => export::<TokB, MonStorage<TokB, 2>>(c, style, n, fails),
						_ => export::<TokL, BoxStorage>(c, style, n, fails),
					}
				});
			}
		}
	}
	if x.huge() {
		x.case("dot-huge", 0, |c| export::<TokS, BoxStorage>(c, 2, crate::gen::HUGE, 2));
		x.case("dot-huge", 1, |c| export::<TokB, MonStorage<TokB, 1>>(c, 0, crate::gen::HUGE, 2));
	}
}
