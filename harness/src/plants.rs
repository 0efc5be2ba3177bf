//! Plant files and what they mean.
use crate::gen::{self, Place, Shape};
use crate::model::{Rule, Rules, Vocab};
use crate::rng::Rng;

pub struct Plant {
    pub n: usize,
    pub delta: f32,
    pub axiom: Vec<usize>,
    /// As added, one alternative each.
    pub lines: Vec<Rule>,
    pub text: String,
}

impl Plant {
    pub fn rules(&self) -> Rules {
        let mut m = Rules::default();
        for r in &self.lines {
            m.add(r);
        }
        m
    }
}

pub const TURTLE: [&str; 7] = ["Forward", "Move", "X", "+", "-", "[", "]"];

/// The turtle's names and some others.
pub fn vocab(rng: &mut Rng, others: usize) -> Result<Vocab, String> {
    let mut names: Vec<String> = TURTLE.iter().map(|s| s.to_string()).collect();
    for n in gen::names(rng, others, Place::Plant) {
        if !names.contains(&n) {
            names.push(n);
        }
    }
    Vocab::new(names)
}

const COMMENTS: &[&str] = &[
    "# a comment", "#", "## n = 9", "# A -> B C", "# initial: Q", "#n = 7", "#delta=3", "# =", "# -> ->", "#\t日本", "# ; < >", "# # #",
];

fn indent(rng: &mut Rng) -> &'static str {
    rng.pick(&["", "", "", " ", "\t", "    ", " \t "])
}

fn finish(rng: &mut Rng, line: String) -> String {
    let mut l = format!("{}{line}", indent(rng));
    if rng.chance(1, 4) {
        l += rng.pick(&[" ", "\t", "   "]);
    }
    if rng.chance(1, 4) {
        // A comment may be attached.
        l += rng.pick(&["", " ", "\t"]);
        l += rng.pick(COMMENTS);
    }
    l
}

pub fn n_line(rng: &mut Rng, n: &str) -> String {
    let name = *rng.pick(&["n", "N"]);
    setting(rng, name, n)
}

pub fn delta_line(rng: &mut Rng, d: &str) -> String {
    let name = *rng.pick(&["delta", "d", "D", "∂"]);
    setting(rng, name, d)
}

fn setting(rng: &mut Rng, name: &str, value: &str) -> String {
    let ws = |rng: &mut Rng| *rng.pick(&["", " ", " ", "\t", "   "]);
    let (a, b) = (ws(rng), ws(rng));
    let l = format!("{name}{a}={b}{value}");
    finish(rng, l)
}

pub fn initial_line(rng: &mut Rng, v: &Vocab, axiom: &[usize]) -> String {
    let mut text = gen::string_text_in(rng, v, axiom, false);
    if rng.chance(1, 6) {
        // Any white space will do within a string.
        text = text.replace(' ', rng.pick(&["\u{a0}", "\u{3000}", "\u{2003}", " \u{2028}"]));
    }
    let l = format!("initial:{}{text}", rng.pick(&["", " ", "\t", "  "]));
    finish(rng, l)
}

pub fn rule_line(rng: &mut Rng, v: &Vocab, r: &Rule) -> String {
    let t = gen::rule_text(rng, v, r, &r.bodies[0], false);
    finish(rng, t)
}

pub fn delta_text(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => rng.pick(&["0", "90", "-90", "360", "22.5", "60", "120", "180", "45", ".5", "90.", "1e2", "-0", "1E1", "+30", "0.001", "720"]).to_string(),
        1 => format!("{}", rng.range(0, 360)),
        2 => format!("-{}", rng.unit() * 180.0),
        3 => format!("{:.3}", rng.unit() * 1000.0),
        _ => format!("{:.1}", rng.unit() * 180.0),
    }
}

/// The lines in any order that keeps the rules', the axioms' and each setting's own order.
pub fn weave(rng: &mut Rng, mut queues: Vec<Vec<String>>) -> Vec<String> {
    let mut out = vec![];
    for q in queues.iter_mut() {
        q.reverse();
    }
    loop {
        let total: usize = queues.iter().map(|q| q.len()).sum();
        if total == 0 {
            return out;
        }
        let mut k = rng.below(total);
        for q in queues.iter_mut() {
            if k < q.len() {
                out.push(q.pop().unwrap());
                break;
            }
            k -= q.len();
        }
    }
}

pub fn join(rng: &mut Rng, lines: &[String]) -> String {
    let crlf = rng.below(3);
    let mut t = String::new();
    for _ in 0..rng.below(2) {
        t += "\n";
    }
    for (i, l) in lines.iter().enumerate() {
        t += l;
        let last = i + 1 == lines.len();
        if last && rng.chance(1, 2) {
            break;
        }
        t += match crlf {
            0 => "\n",
            1 => "\r\n",
            _ => {
                if rng.chance(1, 2) {
                    "\n"
                } else {
                    "\r\n"
                }
            }
        };
    }
    t
}

/// What a plant is to be like.
#[derive(Clone, Copy)]
pub struct Kind {
    pub rules: usize,
    pub random: bool,
    pub contexts: usize,
    pub body: usize,
    pub axiom: usize,
    pub max_n: usize,
    /// Bodies keep every branch closed.
    pub balanced: bool,
}

/// A list of symbols in which every branch is closed.
pub fn balanced(rng: &mut Rng, v: &Vocab, len: usize) -> Vec<usize> {
    let (push, pop) = (v.names.iter().position(|n| n == "[").unwrap(), v.names.iter().position(|n| n == "]").unwrap());
    let mut out = vec![];
    let mut open = 0;
    for _ in 0..len {
        let s = rng.below(v.len());
        if s == pop {
            if open > 0 {
                open -= 1;
                out.push(pop);
            }
        } else {
            if s == push {
                open += 1;
            }
            out.push(s);
        }
    }
    out.extend(std::iter::repeat_n(pop, open));
    out
}

pub fn plant(rng: &mut Rng, v: &Vocab, kind: Kind) -> Plant {
    let mut rules: Vec<Rule> = vec![];
    let branch = |i: usize| v.names[i] == "[" || v.names[i] == "]";
    for _ in 0..rng.range(1, kind.rules.max(1)) {
        let mut r = gen::rule(rng, v, Shape { contexts: kind.contexts, alternatives: if kind.random { 3 } else { 1 }, body: kind.body, over: false });
        if kind.balanced {
            while branch(r.target) {
                r.target = rng.below(v.len());
            }
            for b in r.bodies.iter_mut() {
                b.syms = balanced(rng, v, b.syms.len());
            }
        }
        if !kind.random && rules.iter().any(|x| x.same_head(&r)) {
            continue;
        }
        if r.bodies.iter().any(|b| !gen::body_as_text(v, b)) {
            continue;
        }
        rules.push(r);
    }
    if rules.is_empty() {
        rules.push(Rule { pre: None, target: 0, post: None, bodies: vec![crate::model::Body { chance: None, syms: vec![0, 0] }] });
    }
    // Alternatives of the same rule may be lines far apart, but in order.
    let mut lines: Vec<Rule> = vec![];
    for r in &rules {
        for b in &r.bodies {
            lines.push(Rule { bodies: vec![b.clone()], ..r.clone() });
        }
    }
    if rng.chance(1, 2) {
        // Any order is a plant, if another one: the model follows the lines.
        rng.shuffle(&mut lines);
    }
    let len = rng.range(1, kind.axiom.max(1));
    let axiom = if kind.balanced { balanced(rng, v, len) } else { gen::string_for(rng, v.len(), &rules, len) };
    let axiom = if axiom.is_empty() { vec![0] } else { axiom };
    let mut p = Plant { n: 2, delta: 5.0, axiom, lines, text: String::new() };
    let mut settings_n = vec![];
    let mut settings_d = vec![];
    for _ in 0..*rng.pick(&[0, 1, 1, 1, 2, 3]) {
        p.n = rng.range(0, kind.max_n);
        let t = if rng.chance(1, 8) { format!("0{}", p.n) } else { p.n.to_string() };
        settings_n.push(n_line(rng, &t));
    }
    if settings_n.is_empty() && kind.max_n < 2 {
        p.n = kind.max_n;
        settings_n.push(n_line(rng, &kind.max_n.to_string()));
    }
    for _ in 0..*rng.pick(&[0, 1, 1, 1, 2, 3]) {
        let t = delta_text(rng);
        p.delta = t.parse().expect("an angle");
        settings_d.push(delta_line(rng, &t));
    }
    let mut axioms = vec![];
    if rng.chance(1, 5) {
        let other = vec![rng.below(v.len())];
        axioms.push(initial_line(rng, v, &other));
    }
    axioms.push(initial_line(rng, v, &p.axiom));
    let rule_lines: Vec<String> = p.lines.iter().map(|r| rule_line(rng, v, r)).collect();
    let noise: Vec<String> = (0..rng.below(6))
        .map(|_| if rng.chance(1, 2) { indent(rng).to_string() } else { format!("{}{}", indent(rng), rng.pick(COMMENTS)) })
        .collect();
    let lines = if rng.chance(1, 3) {
        [settings_n, settings_d, axioms, rule_lines, noise].concat()
    } else {
        weave(rng, vec![settings_n, settings_d, axioms, rule_lines, noise])
    };
    p.text = join(rng, &lines);
    p
}
