//! SMT queries over the graph.
use poulpy_hal::verif::{Aig, Lit, Node, F, T};
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::process::{Command, Stdio};
use std::time::Instant;

#[derive(Debug, Clone)]
pub enum Verdict {
    Holds,
    /// values of the variables (by node) in the query's cone
    Cex(HashMap<u32, bool>),
    Unknown(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    /// obligations discharged by a query of the same form
    pub cached: u64,
    pub trivial: u64,
    pub unsat: u64,
    pub cubes: u64,
    pub sat: u64,
    pub unknown: u64,
    pub nodes: u64,
    pub max_nodes: u64,
    pub time: f64,
    pub max_time: f64,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.queries += o.queries;
        self.cached += o.cached;
        self.trivial += o.trivial;
        self.unsat += o.unsat;
        self.cubes += o.cubes;
        self.sat += o.sat;
        self.unknown += o.unknown;
        self.nodes += o.nodes;
        self.max_nodes = self.max_nodes.max(o.max_nodes);
        self.time += o.time;
        self.max_time = self.max_time.max(o.max_time);
    }
}

fn lit(l: Lit) -> String {
    match l {
        F => "false".into(),
        T => "true".into(),
        _ if l & 1 == 1 => format!("(not n{})", l >> 1),
        _ => format!("n{}", l >> 1),
    }
}

pub struct Query {
    pub text: String,
    pub size: u64,
    pub vars: Vec<u32>,
    /// cut variables in the cone that were left undefined
    pub free_cuts: usize,
}

/// Hash of the query after renaming nodes in the order of a fixed traversal: queries with the same
/// form are the same formula up to the names of their variables.
pub fn canonical(g: &Aig, assume: &[Lit], goals: &[Lit], defs: &HashMap<Lit, Lit>, expand: bool) -> u128 {
    let mut num: HashMap<u32, u32> = HashMap::new();
    num.insert(0, 0);
    let mut next = 1u32;
    let mut out: Vec<u32> = vec![];
    for (tag, root) in assume.iter().map(|l| (1, *l)).chain(goals.iter().map(|l| (2, *l))) {
        // post-order, numbers given when a node is finished
        let mut stack = vec![(root >> 1, false)];
        while let Some((i, done)) = stack.pop() {
            if num.contains_key(&i) {
                continue;
            }
            let node = g.nodes[i as usize];
            let def = if expand { defs.get(&(i << 1)) } else { None };
            let kids: Vec<Lit> = match node {
                Node::Const => vec![],
                Node::Var(_) => def.into_iter().copied().collect(),
                Node::And(a, b) | Node::Xor(a, b) => vec![a, b],
                Node::Ite(c, a, b) => vec![c, a, b],
            };
            if !done {
                stack.push((i, true));
                for k in kids.iter().rev() {
                    stack.push((k >> 1, false));
                }
                continue;
            }
            out.push(match node {
                Node::Const => 10,
                Node::Var(_) if def.is_some() => 11,
                Node::Var(_) => 12,
                Node::And(..) => 13,
                Node::Xor(..) => 14,
                Node::Ite(..) => 15,
            });
            for k in &kids {
                out.push(num[&(k >> 1)] << 1 | (k & 1));
            }
            num.insert(i, next);
            next += 1;
        }
        out.push(20 + tag);
        out.push(num[&(root >> 1)] << 1 | (root & 1));
    }
    // two independent 64-bit hashes
    let (mut a, mut b) = (0xcbf29ce484222325u64, 0x9E3779B97F4A7C15u64);
    for x in out {
        a = (a ^ x as u64).wrapping_mul(0x100000001b3);
        a ^= a >> 29;
        b = (b.rotate_left(23) ^ x as u64).wrapping_mul(0xD6E8FEB86659FD93);
        b ^= b >> 32;
    }
    (a as u128) << 64 | b as u128
}

/// assume /\ OR(goals) satisfiable?  `defs`: definitions of cut variables to expand.
pub fn build(g: &Aig, assume: &[Lit], goals: &[Lit], defs: &HashMap<Lit, Lit>, expand: bool) -> Query {
    let mut text = String::from("(set-logic QF_BV)\n");
    let mut seen: HashSet<u32> = HashSet::new();
    let mut order: Vec<u32> = vec![];
    let mut stack: Vec<u32> = assume.iter().chain(goals).map(|l| l >> 1).collect();
    let mut free_cuts = 0;
    while let Some(i) = stack.pop() {
        if i == 0 || !seen.insert(i) {
            continue;
        }
        order.push(i);
        match g.nodes[i as usize] {
            Node::Const => {}
            Node::Var(_) => {
                if let Some(d) = defs.get(&(i << 1)) {
                    if expand {
                        stack.push(d >> 1);
                    } else {
                        free_cuts += 1;
                    }
                }
            }
            Node::And(a, b) | Node::Xor(a, b) => stack.extend([a >> 1, b >> 1]),
            Node::Ite(c, a, b) => stack.extend([c >> 1, a >> 1, b >> 1]),
        }
    }
    order.sort_unstable();
    let mut vars = vec![];
    for i in &order {
        writeln!(text, "(declare-const n{i} Bool)").unwrap();
    }
    for i in &order {
        let i = *i;
        match g.nodes[i as usize] {
            Node::Const => {}
            Node::Var(_) => {
                vars.push(i);
                if expand {
                    if let Some(d) = defs.get(&(i << 1)) {
                        writeln!(text, "(assert (= n{i} {}))", lit(*d)).unwrap();
                    }
                }
            }
            Node::And(a, b) => writeln!(text, "(assert (= n{i} (and {} {})))", lit(a), lit(b)).unwrap(),
            Node::Xor(a, b) => writeln!(text, "(assert (= n{i} (xor {} {})))", lit(a), lit(b)).unwrap(),
            Node::Ite(c, a, b) => writeln!(text, "(assert (= n{i} (ite {} {} {})))", lit(c), lit(a), lit(b)).unwrap(),
        }
    }
    for a in assume {
        writeln!(text, "(assert {})", lit(*a)).unwrap();
    }
    text.push_str("(assert (or false");
    for l in goals {
        write!(text, " {}", lit(*l)).unwrap();
    }
    text.push_str("))\n(check-sat)\n");
    Query { text, size: order.len() as u64, vars, free_cuts }
}

fn run_solver(bin: &str, args: &[&str], input: &str) -> String {
    let mut ch = Command::new(bin)
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| panic!("{bin}: {e}"));
    let mut si = ch.stdin.take().unwrap();
    let s = input.to_string();
    let h = std::thread::spawn(move || {
        let _ = si.write_all(s.as_bytes());
    });
    let out = ch.wait_with_output().unwrap();
    let _ = h.join();
    String::from_utf8_lossy(&out.stdout).into_owned()
}

pub fn solver_name() -> String {
    std::env::var("SYMEX_SOLVER").unwrap_or_else(|_| "z3-new".into())
}

pub fn solve(q: &Query, timeout_s: u64) -> (Verdict, f64) {
    let t = Instant::now();
    let mut text = q.text.clone();
    if !q.vars.is_empty() {
        text.push_str("(get-value (");
        for v in &q.vars {
            write!(text, "n{v} ").unwrap();
        }
        text.push_str("))\n");
    }
    let s = solver_name();
    let out = if s == "cvc5" {
        run_solver("cvc5", &["--produce-models", &format!("--tlimit={}", timeout_s * 1000), "-"], &text)
    } else {
        run_solver(&s, &["-in", &format!("-T:{timeout_s}")], &text)
    };
    let first = out.lines().next().unwrap_or("").trim().to_string();
    let v = match first.as_str() {
        "unsat" => Verdict::Holds,
        "sat" => {
            let mut m = HashMap::new();
            let body = &out[3..];
            for part in body.split('(') {
                let mut it = part.split(|c: char| c.is_whitespace() || c == ')');
                if let (Some(n), Some(v)) = (it.next(), it.next()) {
                    if let Some(id) = n.strip_prefix('n') {
                        if let Ok(id) = id.parse::<u32>() {
                            m.insert(id, v == "true");
                        }
                    }
                }
            }
            Verdict::Cex(m)
        }
        o => Verdict::Unknown(o.to_string()),
    };
    (v, t.elapsed().as_secs_f64())
}

/// A part of the graph with some variables fixed (and cut variables replaced by their definitions).
pub struct Local<'a> {
    pub g: Aig,
    src: &'a Aig,
    fix: &'a HashMap<u32, bool>,
    defs: Option<&'a HashMap<Lit, Lit>>,
    map: HashMap<u32, Lit>,
    /// local variable -> variable of the source
    pub back: HashMap<u32, u32>,
}

impl<'a> Local<'a> {
    pub fn new(src: &'a Aig, fix: &'a HashMap<u32, bool>, defs: Option<&'a HashMap<Lit, Lit>>) -> Self {
        let mut g = Aig::new();
        g.nosim = true;
        Local { g, src, fix, defs, map: HashMap::new(), back: HashMap::new() }
    }
    /// The definitions of the fixed cut variables, as assumptions.
    pub fn fixed_defs(&mut self) -> Vec<Lit> {
        let Some(defs) = self.defs else { return vec![] };
        let mut r = vec![];
        for (v, b) in self.fix {
            if let Some(d) = defs.get(&(v << 1)) {
                let l = self.import(*d);
                r.push(l ^ !*b as u32);
            }
        }
        r.retain(|l| *l != T);
        r.sort_unstable();
        r
    }
    pub fn import(&mut self, root: Lit) -> Lit {
        let mut stack = vec![root >> 1];
        while let Some(&i) = stack.last() {
            if i == 0 || self.map.contains_key(&i) {
                stack.pop();
                continue;
            }
            let get = |m: &HashMap<u32, Lit>, l: Lit| if l < 2 { Some(l) } else { m.get(&(l >> 1)).map(|x| x ^ (l & 1)) };
            let r = match self.src.nodes[i as usize] {
                Node::Const => F,
                Node::Var(_) => {
                    if let Some(b) = self.fix.get(&i) {
                        *b as u32
                    } else if let Some(d) = self.defs.and_then(|d| d.get(&(i << 1))) {
                        match get(&self.map, *d) {
                            Some(l) => l,
                            None => {
                                stack.push(d >> 1);
                                continue;
                            }
                        }
                    } else {
                        let l = self.g.var_with(Default::default());
                        self.back.insert(l >> 1, i);
                        l
                    }
                }
                Node::And(a, b) | Node::Xor(a, b) => match (get(&self.map, a), get(&self.map, b)) {
                    (Some(x), Some(y)) => {
                        if matches!(self.src.nodes[i as usize], Node::And(..)) {
                            self.g.and(x, y)
                        } else {
                            self.g.xor(x, y)
                        }
                    }
                    _ => {
                        stack.push(b >> 1);
                        stack.push(a >> 1);
                        continue;
                    }
                },
                Node::Ite(c, a, b) => match get(&self.map, c) {
                    None => {
                        stack.push(c >> 1);
                        continue;
                    }
                    // only the branch that matters
                    Some(T) if get(&self.map, a).is_none() => {
                        stack.push(a >> 1);
                        continue;
                    }
                    Some(F) if get(&self.map, b).is_none() => {
                        stack.push(b >> 1);
                        continue;
                    }
                    Some(T) => get(&self.map, a).unwrap(),
                    Some(F) => get(&self.map, b).unwrap(),
                    Some(x) => match (get(&self.map, a), get(&self.map, b)) {
                        (Some(y), Some(z)) => self.g.ite(x, y, z),
                        _ => {
                            stack.push(b >> 1);
                            stack.push(a >> 1);
                            continue;
                        }
                    },
                },
            };
            self.map.insert(i, r);
            stack.pop();
        }
        if root < 2 {
            root
        } else {
            self.map[&(root >> 1)] ^ (root & 1)
        }
    }
}
