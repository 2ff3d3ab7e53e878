//! Independent reference model: the graph as a map of its cheapest edges, plain Dijkstra in u128.
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};

#[derive(Clone, Debug)]
pub struct Model {
    pub n: usize,
    pub edges: BTreeMap<(usize, usize), usize>,
    pub adj: Vec<Vec<(usize, usize)>>,
}

impl Model {
    /// builds the model from raw edges: loops and zero weights are dropped, duplicates keep the minimum
    pub fn new(raw: &[(usize, usize, usize)]) -> Model {
        let (n, edges) = Model::canonical(raw);
        Model::from_map(n, edges)
    }
    /// number of nodes and cheapest edges, for any node ids
    pub fn canonical(raw: &[(usize, usize, usize)]) -> (usize, BTreeMap<(usize, usize), usize>) {
        let mut edges = BTreeMap::new();
        let mut n = 0;
        for &(u, v, w) in raw {
            if u == v || w == 0 {
                continue;
            }
            n = n.max(u + 1).max(v + 1);
            let e = edges.entry((u, v)).or_insert(w);
            if w < *e {
                *e = w;
            }
        }
        (n, edges)
    }
    pub fn from_map(n: usize, edges: BTreeMap<(usize, usize), usize>) -> Model {
        let mut adj = vec![vec![]; n];
        for (&(u, v), &w) in &edges {
            adj[u].push((v, w));
        }
        Model { n, edges, adj }
    }
    /// distances from a set of weighted sources; totals that reach `cap` count as unreachable
    pub fn dist_multi(&self, sources: &[(usize, usize)], cap: u128) -> Vec<Option<u128>> {
        let mut dist: Vec<Option<u128>> = vec![None; self.n];
        let mut heap = BinaryHeap::new();
        for &(s, w) in sources {
            let w = w as u128;
            if w < cap && dist[s].map_or(true, |d| w < d) {
                dist[s] = Some(w);
                heap.push(Reverse((w, s)));
            }
        }
        while let Some(Reverse((d, u))) = heap.pop() {
            if dist[u] != Some(d) {
                continue;
            }
            for &(v, w) in &self.adj[u] {
                let nd = d + w as u128;
                if nd < cap && dist[v].map_or(true, |x| nd < x) {
                    dist[v] = Some(nd);
                    heap.push(Reverse((nd, v)));
                }
            }
        }
        dist
    }
    pub fn dist(&self, s: usize) -> Vec<Option<u128>> {
        self.dist_multi(&[(s, 0)], usize::MAX as u128)
    }
    /// sum of the cheapest edges along the nodes, or what is wrong with them
    pub fn path_weight(&self, nodes: &[usize]) -> Result<u128, String> {
        if nodes.is_empty() {
            return Err("empty node list".into());
        }
        if let Some(x) = nodes.iter().find(|x| **x >= self.n) {
            return Err(format!("node {} does not exist", x));
        }
        let mut sum = 0u128;
        for p in nodes.windows(2) {
            // the adjacency lists are sorted
            match self.adj[p[0]].binary_search_by_key(&p[1], |e| e.0) {
                Ok(i) => sum += self.adj[p[0]][i].1 as u128,
                Err(_) => return Err(format!("there is no edge {} -> {}", p[0], p[1])),
            }
        }
        Ok(sum)
    }
    pub fn edge_list(&self) -> Vec<(usize, usize, usize)> {
        self.edges.iter().map(|(&(u, v), &w)| (u, v, w)).collect()
    }
}
