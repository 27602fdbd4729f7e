//! The state graph TLC prints: one line per transition.
use crate::rec::intern;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub op: &'static str,
    pub x: i32,
    pub y: i32,
    pub nf: i32,
    pub s: Vec<i32>,
}
impl Op {
    pub fn new(op: &'static str, x: i32, y: i32, nf: i32) -> Op {
        Op { op, x, y, nf, s: vec![] }
    }
}

pub type State = Vec<i32>;

#[derive(Default)]
pub struct Graph {
    pub ids: HashMap<State, usize>,
    pub states: Vec<State>,
    pub out: Vec<Vec<(Op, usize)>>,
    /// for states that are not initial: (predecessor, edge index)
    pub from: Vec<Option<(usize, usize)>>,
    pub edges: usize,
}

impl Graph {
    fn id(&mut self, s: State) -> usize {
        if let Some(i) = self.ids.get(&s) {
            return *i;
        }
        let i = self.states.len();
        self.ids.insert(s.clone(), i);
        self.states.push(s);
        self.out.push(vec![]);
        self.from.push(None);
        i
    }
    /// line: kind, n, m, pre..., op, x, y, nf, s, <<script>>, e, post...   (pre and post equally long)
    pub fn load(text: &str) -> Graph {
        let mut g = Graph::default();
        for line in text.lines() {
            let Some(l) = line.strip_prefix("\"<<\\\"T\\\", ") else { continue };
            let l = l.trim_end_matches('"').trim_end_matches(">>");
            let mut nums: Vec<i32> = vec![];
            let mut opname = "";
            let mut pre: Vec<i32> = vec![];
            let mut args: Vec<i32> = vec![];
            let mut script: Vec<i32> = vec![];
            for tok in l.split(',') {
                let t = tok.trim().trim_start_matches("<<").trim_end_matches(">>");
                if let Some(name) = t.strip_prefix("\\\"") {
                    let name = name.trim_end_matches('"').trim_end_matches('\\');
                    match name {
                        "s" => args = std::mem::take(&mut nums),
                        "e" => script = std::mem::take(&mut nums),
                        _ => {
                            opname = intern(name);
                            pre = std::mem::take(&mut nums);
                        }
                    }
                } else if !t.is_empty() {
                    nums.push(t.parse().unwrap_or_else(|_| panic!("bad graph line {line}")));
                }
            }
            let fixed = 3; // kind and capacities do not change
            let mut post = pre[..fixed].to_vec();
            post.extend(nums);
            assert_eq!(pre.len(), post.len(), "bad graph line {line}");
            assert_eq!(args.len(), 3, "bad graph line {line}");
            let a = g.id(pre);
            let b = g.id(post);
            g.out[a].push((Op { op: opname, x: args[0], y: args[1], nf: args[2], s: script }, b));
            g.edges += 1;
        }
        for v in &mut g.out {
            v.sort_by(|p, q| (p.0.op, p.0.x, p.0.y, p.0.nf, &p.0.s).cmp(&(q.0.op, q.0.x, q.0.y, q.0.nf, &q.0.s)));
        }
        g
    }
    /// breadth first predecessor tree from `root`; returns states in BFS order
    pub fn bfs(&mut self, root: usize) -> Vec<usize> {
        let mut seen = vec![false; self.states.len()];
        let mut q = vec![root];
        seen[root] = true;
        let mut i = 0;
        while i < q.len() {
            let s = q[i];
            i += 1;
            for e in 0..self.out[s].len() {
                let t = self.out[s][e].1;
                if !seen[t] {
                    seen[t] = true;
                    self.from[t] = Some((s, e));
                    q.push(t);
                }
            }
        }
        q
    }
    pub fn path(&self, mut s: usize) -> Vec<(usize, usize)> {
        let mut p = vec![];
        while let Some((f, e)) = self.from[s] {
            p.push((f, e));
            s = f;
        }
        p.reverse();
        p
    }
}
