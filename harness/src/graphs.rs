//! The graphs the crate is run on, and the reference model they are compared with.
use crate::case::*;
use gamma::graph::*;
use std::collections::*;

/// nodes, neighbors and edges in order; plain data
#[derive(Clone, Default, Debug)]
pub struct Model { pub nodes: Vec<usize>, pub nbr: HashMap<usize, Vec<usize>>, pub edges: Vec<(usize, usize)> }

impl Model {
    pub fn has(&self, u: usize) -> bool { self.nbr.contains_key(&u) }
    pub fn adj(&self, u: usize, v: usize) -> bool { self.nbr.get(&u).map_or(false, |n| n.contains(&v)) }
    pub fn add_node(&mut self, u: usize) -> Result<(), Error> {
        if self.has(u) { return Err(Error::DuplicateNode(u)) }
        self.nodes.push(u);
        self.nbr.insert(u, vec![]);
        Ok(())
    }
    pub fn add_edge(&mut self, a: usize, b: usize) -> Result<(), Error> {
        if !self.has(a) { return Err(Error::MissingNode(a)) }
        if !self.has(b) { return Err(Error::MissingNode(b)) }
        if self.adj(a, b) { return Err(Error::DuplicateEdge(a, b)) }
        self.nbr.get_mut(&a).unwrap().push(b);
        if a != b { self.nbr.get_mut(&b).unwrap().push(a); }
        self.edges.push((a, b));
        Ok(())
    }
    pub fn from_pairs(p: &[(usize, usize)]) -> Result<Model, Error> {
        let mut m = Model::default();
        for &(a, b) in p {
            if !m.has(a) { m.add_node(a)? }
            if !m.has(b) { m.add_node(b)? }
            m.add_edge(a, b)?;
        }
        Ok(m)
    }
    /// nodes and edges of the component of u
    pub fn component(&self, u: usize) -> (BTreeSet<usize>, BTreeSet<(usize, usize)>) {
        let mut s = BTreeSet::new();
        let mut q = vec![u];
        s.insert(u);
        while let Some(x) = q.pop() { for &y in &self.nbr[&x] { if s.insert(y) { q.push(y) } } }
        let e = self.edges.iter().filter(|e| s.contains(&e.0)).map(|e| norm(*e)).collect();
        (s, e)
    }
    pub fn dist(&self, u: usize) -> HashMap<usize, usize> {
        let mut d = HashMap::new();
        d.insert(u, 0);
        let mut q = VecDeque::new();
        q.push_back(u);
        while let Some(x) = q.pop_front() { let k = d[&x]; for &y in &self.nbr[&x] { if !d.contains_key(&y) { d.insert(y, k + 1); q.push_back(y) } } }
        d
    }
}
pub fn norm(e: (usize, usize)) -> (usize, usize) { (e.0.min(e.1), e.0.max(e.1)) }

/// a lawful graph of the harness's own: other orders than DefaultGraph can produce
pub struct Own { m: Model }
impl Own {
    pub fn new(mut m: Model, seed: usize) -> Own {
        let mut r = Rng(seed as u64);
        let nodes = m.nodes.clone();
        for u in nodes { r.shuffle(m.nbr.get_mut(&u).unwrap()) }
        r.shuffle(&mut m.edges);
        for e in m.edges.iter_mut() { if r.chance(1, 2) { *e = (e.1, e.0) } }
        Own { m }
    }
}
impl Graph for Own {
    fn is_empty(&self) -> bool { self.m.nodes.is_empty() }
    fn order(&self) -> usize { self.m.nodes.len() }
    fn size(&self) -> usize { self.m.edges.len() }
    fn nodes(&self) -> Box<dyn Iterator<Item = usize> + '_> { Box::new(self.m.nodes.iter().cloned()) }
    fn neighbors(&self, id: usize) -> Result<Box<dyn Iterator<Item = usize> + '_>, Error> {
        match self.m.nbr.get(&id) { Some(n) => Ok(Box::new(n.iter().cloned())), None => Err(Error::MissingNode(id)) }
    }
    fn has_node(&self, id: usize) -> bool { self.m.has(id) }
    fn degree(&self, id: usize) -> Result<usize, Error> { self.m.nbr.get(&id).map(|n| n.len()).ok_or(Error::MissingNode(id)) }
    fn edges(&self) -> Box<dyn Iterator<Item = (usize, usize)> + '_> { Box::new(self.m.edges.iter().cloned()) }
    fn has_edge(&self, a: usize, b: usize) -> Result<bool, Error> {
        if !self.m.has(a) { return Err(Error::MissingNode(a)) }
        if !self.m.has(b) { return Err(Error::MissingNode(b)) }
        Ok(self.m.adj(a, b))
    }
}

pub fn model_of(c: &Case) -> Option<Model> {
    let mut m = Model::default();
    for &n in c.get("nodes") { m.add_node(n).ok()? }
    for (a, b) in c.pairs("edges") { m.add_edge(a, b).ok()? }
    Some(m)
}
pub fn default_of(c: &Case) -> Option<DefaultGraph> {
    let mut g = DefaultGraph::new();
    for &n in c.get("nodes") { g.add_node(n).ok()? }
    for (a, b) in c.pairs("edges") { g.add_edge(a, b).ok()? }
    Some(g)
}
/// what a graph says about itself, if its queries agree with each other
pub fn read<G: Graph>(g: &G) -> Result<Model, String> {
    let mut m = Model::default();
    for n in g.nodes() { if m.add_node(n).is_err() { return Err(format!("node {} is listed twice", n)) } }
    if g.order() != m.nodes.len() { return Err(format!("order is {} but {} nodes are listed", g.order(), m.nodes.len())) }
    if g.is_empty() != m.nodes.is_empty() { return Err(format!("is_empty is {} with {} nodes", g.is_empty(), m.nodes.len())) }
    m.edges = g.edges().collect();
    if g.size() != m.edges.len() { return Err(format!("size is {} but {} edges are listed", g.size(), m.edges.len())) }
    let mut set = HashSet::new();
    for &(a, b) in &m.edges {
        if !set.insert(norm((a, b))) { return Err(format!("edge {:?} is listed twice", (a, b))) }
        if !m.has(a) || !m.has(b) { return Err(format!("edge {:?} has an end that is not a node", (a, b))) }
    }
    let mut ends = 0;
    for i in 0..m.nodes.len() {
        let n = m.nodes[i];
        if !g.has_node(n) { return Err(format!("has_node({}) is false for a listed node", n)) }
        let v: Vec<usize> = match g.neighbors(n) { Ok(v) => v.collect(), Err(e) => return Err(format!("neighbors({}) fails: {:?}", n, e)) };
        if g.degree(n) != Ok(v.len()) { return Err(format!("degree({}) is {:?} but {} neighbors are listed", n, g.degree(n), v.len())) }
        let mut seen = HashSet::new();
        for &x in &v {
            if !seen.insert(x) { return Err(format!("neighbor {} of {} is listed twice", x, n)) }
            if !set.contains(&norm((n, x))) { return Err(format!("{} is a neighbor of {} but the edge is not listed", x, n)) }
        }
        ends += v.iter().map(|x| if *x == n { 2 } else { 1 }).sum::<usize>();
        m.nbr.insert(n, v);
    }
    if ends != 2 * m.edges.len() { return Err(format!("{} edges are listed but the neighbor lists account for {} ends", m.edges.len(), ends)) }
    let check = |a: usize, b: usize| -> Result<(), String> {
        let w = set.contains(&norm((a, b)));
        if g.has_edge(a, b) != Ok(w) { return Err(format!("has_edge({}, {}) is {:?}, the edge list says {}", a, b, g.has_edge(a, b), w)) }
        Ok(())
    };
    if m.nodes.len() <= 14 { for &a in &m.nodes { for &b in &m.nodes { check(a, b)? } } }
    else { for &(a, b) in &m.edges { check(a, b)?; check(b, a)? } for i in 0..m.nodes.len() { check(m.nodes[i], m.nodes[m.nodes.len() - 1 - i])? } }
    Ok(m)
}
