//! What is observed of trees, recorded histories, and the choice among them.

use std::collections::HashMap;
use std::fmt::{Debug, Write};

pub type IBox = (Vec<i32>, Vec<i32>);
pub fn ibox_json(b: &IBox) -> String {
    format!("[{:?},{:?}]", b.0, b.1)
}

/// kid, ser, vid
pub type Ent = [i32; 3];

#[derive(Clone, Debug, PartialEq)]
pub struct Nd {
    pub b: IBox,
    pub l: i32,
    pub c: Vec<Nd>,
    pub e: Vec<Ent>,
}
impl Nd {
    pub fn json(&self, s: &mut String) {
        let _ = write!(s, "{{\"b\":{},\"l\":{},\"c\":[", ibox_json(&self.b), self.l);
        for (i, c) in self.c.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            c.json(s);
        }
        let _ = write!(s, "],\"e\":{:?}}}", self.e);
    }
    /// The arrangement up to the identity of key objects and values.
    pub fn shape(&self, s: &mut String) {
        s.push('(');
        for c in &self.c {
            c.shape(s);
        }
        for e in &self.e {
            let _ = write!(s, "{} ", e[0]);
        }
        s.push(')');
    }
    pub fn each<'a>(&'a self, f: &mut impl FnMut(&'a Nd)) {
        f(self);
        for c in &self.c {
            c.each(f);
        }
    }
    pub fn bounds(&self) -> Vec<IBox> {
        let mut v = vec![];
        self.each(&mut |n| {
            if !v.contains(&n.b) {
                v.push(n.b.clone())
            }
        });
        v
    }
    pub fn size(&self) -> usize {
        let mut k = 0;
        self.each(&mut |n| k += 1 + n.e.len());
        k
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub root: Nd,
    pub it: Vec<Ent>,
    pub len: i64,
    pub emp: bool,
    /// what count() and size_hint() of an iteration say
    pub cnt: i64,
    pub hint: (i64, i64),
    /// another iteration, drawn in part, and whether it was as it should be
    pub part: Aside,
}
/// What was seen of an iteration in passing. It is no part of the state.
#[derive(Clone, Debug)]
pub struct Aside(pub Option<(String, bool)>);
impl PartialEq for Aside {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl Snap {
    pub fn json(&self) -> String {
        let mut s = String::from("{\"root\":");
        self.root.json(&mut s);
        let _ = write!(s, ",\"it\":{:?},\"len\":{},\"emp\":{},\"cnt\":{},\"hint\":[{},{}]}}", self.it, self.len, self.emp, self.cnt, self.hint.0, self.hint.1);
        s
    }
    pub fn first(&self, kid: i32) -> Option<Ent> {
        self.it.iter().find(|e| e[0] == kid).cloned()
    }
    pub fn shape(&self) -> String {
        let mut s = String::new();
        self.root.shape(&mut s);
        s
    }
}

/// One recorded history, in the form that TraceRTree.tla reads.
pub struct Rec {
    pub id: String,
    keys: Vec<String>,
    cfg: Vec<(usize, usize)>,
    tight: Vec<bool>,
    clones: Vec<usize>,
    st: Vec<String>,
    index: HashMap<String, usize>,
    init: Vec<(usize, usize)>,
    pub alt: bool,
    pub ev: Vec<String>,
    /// roughly what it costs to check this history
    pub cost: usize,
    /// too deep for the reader of the traces
    pub deep: bool,
}

impl Rec {
    pub fn new(id: String, slots: &[(String, (usize, usize), bool)], clones: Vec<usize>) -> Rec {
        Rec {
            id,
            keys: slots.iter().map(|s| s.0.clone()).collect(),
            cfg: slots.iter().map(|s| s.1).collect(),
            tight: slots.iter().map(|s| s.2).collect(),
            clones,
            st: vec![],
            index: HashMap::new(),
            init: vec![],
            alt: false,
            ev: vec![],
            cost: 0,
            deep: false,
        }
    }
    pub fn state(&mut self, s: &Snap) -> usize {
        let j = s.json();
        if let Some(i) = self.index.get(&j) {
            return *i;
        }
        self.deep |= s.root.l > 100;
        self.st.push(j.clone());
        self.index.insert(j, self.st.len());
        self.cost += s.root.size();
        self.st.len()
    }
    pub fn init(&mut self, slots: &[(usize, &Snap)]) {
        self.init = slots.iter().map(|(s, t)| (*s, self.state(t))).collect();
    }
    /// `fields`: the JSON fields of the step; `post`: the trees after it, if it may change any.
    pub fn event(&mut self, fields: String, post: Option<&[(usize, &Snap)]>) {
        let mut e = format!("{{{fields}");
        if let Some(post) = post {
            let p: Vec<(usize, usize)> = post.iter().map(|(s, t)| (*s, self.state(t))).collect();
            let _ = write!(e, ",\"post\":{}", pairs(&p));
        }
        e.push('}');
        self.cost += e.len() / 20;
        self.ev.push(e);
    }
    pub fn steps(&self) -> usize {
        self.ev.len()
    }
    /// The fields of the last step, without its post-state.
    pub fn fields_of_last(&self) -> String {
        let e = self.ev.last().cloned().unwrap_or_default();
        let e = e.strip_prefix('{').unwrap_or(&e).to_string();
        match e.rfind(",\"post\":") {
            Some(i) => e[..i].to_string(),
            None => e.trim_end_matches('}').to_string(),
        }
    }
    pub fn line(&self) -> String {
        let tight: Vec<String> = self.tight.iter().map(|b| b.to_string()).collect();
        let cfg: Vec<(usize, usize)> = self.cfg.iter().map(|c| (c.0.min(1_000_000), c.1.min(1_000_000))).collect();
        format!(
            "{{\"id\":\"{}\",\"keys\":[{}],\"cfg\":{},\"tight\":[{}],\"clones\":{:?},\"alt\":{},\"init\":{},\"st\":[{}],\"ev\":[{}]}}",
            self.id,
            self.keys.join(","),
            pairs(&cfg),
            tight.join(","),
            self.clones,
            self.alt,
            pairs(&self.init),
            self.st.join(","),
            self.ev.join(",")
        )
    }
}

pub fn pairs<A: Debug, B: Debug>(p: &[(A, B)]) -> String {
    let v: Vec<String> = p.iter().map(|(a, b)| format!("[{a:?},{b:?}]")).collect();
    format!("[{}]", v.join(","))
}
pub fn opt_json(o: Option<i32>) -> String {
    match o {
        Some(v) => format!("[{v}]"),
        None => "[]".into(),
    }
}

/// Chooses which histories go to the model checker: all suspicious ones up to a limit, and a
/// sample of the others within a budget, at least one for every class that was seen.
pub struct Sink {
    suspicious: Vec<Rec>,
    must: Vec<Rec>,
    classes: HashMap<String, Vec<Rec>>,
    per_class: usize,
    rng: crate::rng::Rng,
    seen: HashMap<String, usize>,
    features: HashMap<String, usize>,
    pub cases: usize,
    pub steps: usize,
}
impl Sink {
    pub fn new(seed: u64, per_class: usize) -> Sink {
        Sink {
            suspicious: vec![],
            must: vec![],
            classes: HashMap::new(),
            per_class,
            rng: crate::rng::Rng::new(seed ^ 0x51_4b),
            seen: HashMap::new(),
            features: HashMap::new(),
            cases: 0,
            steps: 0,
        }
    }
    /// A history that goes to the model checker in any case.
    pub fn keep(&mut self, r: Rec) {
        self.cases += 1;
        self.steps += r.steps();
        self.must.push(r);
    }
    pub fn put(&mut self, class: String, suspicious: bool, r: Rec) {
        self.cases += 1;
        self.steps += r.steps();
        if r.deep {
            return;
        }
        if suspicious {
            if self.suspicious.len() < 6 {
                self.suspicious.push(r);
            }
            return;
        }
        let seen = self.seen.entry(class.clone()).or_default();
        *seen += 1;
        let v = self.classes.entry(class).or_default();
        if v.len() < self.per_class {
            v.push(r);
        } else {
            let i = self.rng.below(*seen);
            if i < v.len() {
                v[i] = r;
            }
        }
    }
    pub fn count(&self, feature: &str) -> usize {
        self.features.get(feature).cloned().unwrap_or(0)
    }
    pub fn note(&mut self, feature: &str) {
        *self.features.entry(feature.to_string()).or_default() += 1;
    }
    pub fn features(&self) -> usize {
        self.features.len().max(self.classes.len())
    }
    pub fn suspects(&self) -> usize {
        self.suspicious.len()
    }
    /// Writes the histories; returns how many and how many steps.
    pub fn write(mut self, out: &str, budget: usize) -> std::io::Result<(usize, usize)> {
        let mut lines = String::new();
        let (mut n, mut steps, mut cost) = (0, 0, 0);
        for r in self.suspicious.iter().chain(self.must.iter()) {
            lines.push_str(&r.line());
            lines.push('\n');
            n += 1;
            steps += r.steps();
        }
        let mut names: Vec<String> = self.classes.keys().cloned().collect();
        names.sort();
        // in a random order, one of each class in turn
        for i in (1..names.len()).rev() {
            names.swap(i, self.rng.below(i + 1));
        }
        'all: for round in 0..self.per_class {
            for c in &names {
                if let Some(r) = self.classes[c].get(round) {
                    if cost > budget {
                        break 'all;
                    }
                    cost += r.cost;
                    lines.push_str(&r.line());
                    lines.push('\n');
                    n += 1;
                    steps += r.steps();
                }
            }
        }
        std::fs::write(out, lines)?;
        Ok((n, steps))
    }
}
