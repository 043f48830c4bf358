//! Graph expressions: replay of behaviours of Expr.tla into statically typed graphs,
//! networks, and mixtures of both.
use crate::dispatch::*;
use crate::net::input_at;
use crate::util::*;
use crate::{Cfg, Sys};
use fundsp::net::{Net, NodeId};
use fundsp::realnet::NetBackend;
use fundsp::setting::SettingSender;
use std::collections::{HashMap, HashSet};

type B = Box<dyn AudioUnit>;

#[derive(Clone, Debug)]
enum Step {
    Left,
    Right,
    Index(usize),
    Node(NodeId),
}
fn address(mut s: Setting, path: &[Step]) -> Setting {
    for p in path {
        s = match p {
            Step::Left => s.left(),
            Step::Right => s.right(),
            Step::Index(i) => s.index(*i),
            Step::Node(id) => s.node(*id),
        };
    }
    s
}

enum Graph {
    Unit(B),
    Net(Net),
}
/// One form of an expression, with the address of every leaf in it.
struct Form {
    g: Graph,
    path: HashMap<usize, Vec<Step>>,
    /// listeners: leaf -> (listener number, address seen from there)
    ears: HashMap<usize, (usize, Vec<Step>)>,
    /// whether a setting without a fitting address must do nothing
    composite: bool,
}
impl Form {
    fn unit(&mut self) -> &mut dyn AudioUnit {
        match &mut self.g {
            Graph::Unit(u) => u.as_mut(),
            Graph::Net(n) => n,
        }
    }
    fn prefix(&mut self, s: &Step) {
        for p in self.path.values_mut() {
            p.insert(0, s.clone());
        }
    }
    /// As a boxed unit (a network can be a unit of a static graph).
    fn boxed(self) -> (B, HashMap<usize, Vec<Step>>, HashMap<usize, (usize, Vec<Step>)>) {
        match self.g {
            Graph::Unit(u) => (u, self.path, self.ears),
            Graph::Net(n) => (Box::new(n), self.path, self.ears),
        }
    }
}

struct Item {
    forms: Vec<Option<Form>>,
    back: Option<NetBackend>,
}

pub struct ExprSys {
    items: Vec<Option<Item>>,
    senders: Vec<SettingSender>,
    nid: HashMap<i64, NodeId>,
    part: Part,
    rng: Rng,
    rates: HashMap<usize, i64>,
    /// what one unit of the specification's values is
    scale: f32,
}

// forms: 0 statically typed, 1 network, 2 mixed
const FORMS: usize = 3;

fn leaf(i: usize, o: usize, b: i64) -> B {
    let mut p = Probe::new(i, o, b).rated();
    p.set_sample_rate(44100.0);
    Box::new(p)
}

impl ExprSys {
    pub fn new(cfg: &Cfg) -> Box<dyn Sys> {
        Box::new(Self::plain(cfg))
    }
    fn plain(cfg: &Cfg) -> ExprSys {
        ExprSys {
            items: vec![],
            senders: vec![],
            nid: HashMap::new(),
            part: Part::new(cfg.variant, cfg.seed + 1),
            rng: Rng::new(cfg.seed + 5),
            rates: HashMap::new(),
            scale: 1.0,
        }
    }
    fn item(&mut self, p: usize) -> &mut Item {
        self.items[p].as_mut().expect("harness: item")
    }
    fn bin_static(op: &str, x: B, y: B, alt: bool) -> B {
        match op {
            "pipe" => s_pipe(x, y, alt),
            "stack" => s_stack(x, y, alt),
            "branch" => s_branch(x, y, alt),
            "bus" => s_bus(x, y, alt),
            "sum" => s_sum(x, y, alt),
            "sub" => s_sub(x, y, alt),
            "mul" => s_mul(x, y, alt),
            _ => panic!("harness: op {op}"),
        }
        .expect("harness: arity")
    }
    fn bin_net(op: &str, x: Net, y: Net, alt: bool) -> Net {
        match (op, alt) {
            ("pipe", false) => x >> y,
            ("stack", false) => x | y,
            ("branch", false) => x ^ y,
            ("bus", false) => x & y,
            ("sum", false) => x + y,
            ("sub", _) => x - y,
            ("mul", false) => x * y,
            ("pipe", true) => Net::pipe(x, y),
            ("stack", true) => Net::stack(x, y),
            ("branch", true) => Net::branch(x, y),
            ("bus", true) => Net::bus(x, y),
            ("sum", true) => Net::sum(x, y),
            ("mul", true) => Net::product(x, y),
            _ => panic!("harness: op {op}"),
        }
    }
    fn un_static(op: &str, x: B, c: f32, alt: bool) -> B {
        match op {
            "thru" => s_thru(x, alt),
            "neg" => s_neg(x),
            "addc" => s_addc(x, c),
            "cadd" => s_cadd(x, c),
            "subc" => s_subc(x, c),
            "csub" => s_csub(x, c),
            "mulc" => s_mulc(x, c),
            "cmul" => s_cmul(x, c),
            _ => panic!("harness: op {op}"),
        }
        .expect("harness: arity")
    }
    fn un_net(op: &str, x: Net, c: f32) -> Net {
        match op {
            "thru" => !x,
            "neg" => -x,
            "addc" => x + c,
            "cadd" => c + x,
            "subc" => x - c,
            "csub" => c - x,
            "mulc" => x * c,
            "cmul" => c * x,
            "listen" => x,
            _ => panic!("harness: op {op}"),
        }
    }
    /// Wrap a unit in a network; its addresses go through the new node.
    fn wrapped(f: Form) -> Form {
        let (u, mut path, ears) = f.boxed();
        let (net, id) = Net::wrap_id(u);
        for p in path.values_mut() {
            p.insert(0, Step::Node(id));
        }
        Form { g: Graph::Net(net), path, ears, composite: true }
    }
    fn combine(&mut self, form: usize, op: &str, mut x: Form, mut y: Form) -> Form {
        let alt = self.rng.chance(1, 2);
        let as_static = match form {
            0 => true,
            1 => false,
            _ => self.rng.chance(1, 2),
        };
        if as_static {
            x.prefix(&Step::Left);
            y.prefix(&Step::Right);
            let (xu, mut path, mut ears) = x.boxed();
            let (yu, p2, e2) = y.boxed();
            path.extend(p2);
            ears.extend(e2);
            return Form { g: Graph::Unit(Self::bin_static(op, xu, yu, alt)), path, ears, composite: true };
        }
        // networks, or a network with a statically typed operand
        let xn = matches!(x.g, Graph::Net(_));
        let yn = matches!(y.g, Graph::Net(_));
        if !xn && (!yn || self.rng.chance(1, 2)) {
            x = Self::wrapped(x);
        }
        if !yn && matches!(x.g, Graph::Net(_)) && self.rng.chance(1, 2) {
            y = Self::wrapped(y);
        }
        let mut ears = x.ears;
        ears.extend(y.ears);
        let mut path = x.path;
        let before: HashSet<NodeId> = match (&x.g, &y.g) {
            (Graph::Net(a), Graph::Net(b)) => a.ids().chain(b.ids()).copied().collect(),
            (Graph::Net(a), _) | (_, Graph::Net(a)) => a.ids().copied().collect(),
            _ => panic!("harness: no network"),
        };
        let clash: HashSet<NodeId> = match (&x.g, &y.g) {
            (Graph::Net(a), Graph::Net(b)) => b.ids().filter(|i| a.contains(**i)).copied().collect(),
            _ => HashSet::new(),
        };
        let mut ypath = y.path;
        // nodes of the right operand that get a new id cannot be addressed any more
        ypath.retain(|_, p| !matches!(p.first(), Some(Step::Node(id)) if clash.contains(id)));
        let net = match (x.g, y.g) {
            (Graph::Net(a), Graph::Net(b)) => {
                path.extend(ypath);
                Self::bin_net(op, a, b, alt)
            }
            (Graph::Net(a), Graph::Unit(b)) => {
                let n = mixed_right(op, a, b);
                let id = Self::find_new(&n, &before, &ypath);
                for (u, mut p) in ypath {
                    if let Some(id) = id {
                        p.insert(0, Step::Node(id));
                        path.insert(u, p);
                    }
                }
                n
            }
            (Graph::Unit(a), Graph::Net(b)) => {
                let n = mixed_left(op, a, b);
                let id = Self::find_new(&n, &before, &path);
                if let Some(id) = id {
                    for p in path.values_mut() {
                        p.insert(0, Step::Node(id));
                    }
                } else {
                    path.clear();
                }
                path.extend(ypath);
                n
            }
            _ => panic!("harness: no network"),
        };
        Form { g: Graph::Net(net), path, ears, composite: true }
    }
    /// The node that holds the statically typed operand: the only new one, if the
    /// operator adds no others.
    fn find_new(n: &Net, before: &HashSet<NodeId>, path: &HashMap<usize, Vec<Step>>) -> Option<NodeId> {
        if path.is_empty() {
            return None;
        }
        let mut new = n.ids().filter(|i| !before.contains(*i));
        let a = new.next().copied();
        if new.next().is_some() {
            None
        } else {
            a
        }
    }
    fn arity(&mut self, p: usize, op: &Value) -> Result<(), String> {
        let (i, o) = (op["ar"][0].as_u64().unwrap() as usize, op["ar"][1].as_u64().unwrap() as usize);
        for (k, f) in self.item(p).forms.iter_mut().enumerate() {
            if let Some(f) = f {
                let u = f.unit();
                if (u.inputs(), u.outputs()) != (i, o) {
                    return Err(format!("form {k}: {} inputs, {} outputs instead of {i}, {o}", u.inputs(), u.outputs()));
                }
            }
        }
        Ok(())
    }
    fn push_leaf(&mut self, u: usize, make: &dyn Fn() -> B) -> Vec<Option<Form>> {
        let (net, id) = Net::wrap_id(make());
        self.nid.insert(u as i64, id);
        let p0: HashMap<usize, Vec<Step>> = [(u, vec![])].into();
        let p1: HashMap<usize, Vec<Step>> = [(u, vec![Step::Node(id)])].into();
        let st = || Form { g: Graph::Unit(make()), path: p0.clone(), ears: HashMap::new(), composite: false };
        let mixed = if self.rng.chance(1, 2) { st() } else { Self::wrapped(st()) };
        vec![Some(st()), Some(Form { g: Graph::Net(net), path: p1, ears: HashMap::new(), composite: true }), Some(mixed)]
    }
}

fn us(v: &Value, k: &str) -> usize {
    gi(v, k) as usize
}

/// A network combined with a statically typed operand through the operators.
fn mixed_right(op: &str, a: Net, b: B) -> Net {
    on_an!(b, b, match op {
        "pipe" => a >> b,
        "stack" => a | b,
        "branch" => a ^ b,
        "bus" => a & b,
        "sum" => a + b,
        "sub" => a - b,
        "mul" => a * b,
        _ => panic!("harness: op {op}"),
    })
}
fn mixed_left(op: &str, a: B, b: Net) -> Net {
    on_an!(a, a, match op {
        "pipe" => a >> b,
        "stack" => a | b,
        "branch" => a ^ b,
        "bus" => a & b,
        "sum" => a + b,
        "sub" => a - b,
        "mul" => a * b,
        _ => panic!("harness: op {op}"),
    })
}

/// Gives the boxed unit $b its static arity and evaluates the expression.
#[macro_export]
macro_rules! on_an {
    ($b:ident, $x:ident, $e:expr) => {{
        use fundsp::hacker32::unit;
        use fundsp::typenum::*;
        macro_rules! arm { ($i:ty, $o:ty) => {{ let $x = unit::<$i, $o>($b); $e }}; }
        match ($b.inputs(), $b.outputs()) {
            (0, 0) => arm!(U0, U0), (0, 1) => arm!(U0, U1), (0, 2) => arm!(U0, U2), (0, 3) => arm!(U0, U3),
            (1, 0) => arm!(U1, U0), (1, 1) => arm!(U1, U1), (1, 2) => arm!(U1, U2), (1, 3) => arm!(U1, U3),
            (2, 0) => arm!(U2, U0), (2, 1) => arm!(U2, U1), (2, 2) => arm!(U2, U2), (2, 3) => arm!(U2, U3),
            (3, 0) => arm!(U3, U0), (3, 1) => arm!(U3, U1), (3, 2) => arm!(U3, U2), (3, 3) => arm!(U3, U3),
            _ => panic!("harness: arity"),
        }
    }};
}
use on_an;

impl Sys for ExprSys {
    fn step(&mut self, op: &Value) -> Result<(), String> {
        let a = gs(op, "a");
        match a {
            "leaf" => {
                let make = || match op.get("k") {
                    Some(k) => routed(k.as_str().unwrap(), gi(op, "d"), gi(op, "u")),
                    None => leaf(us(op, "i"), us(op, "o"), gi(op, "b")),
                };
                let forms = self.push_leaf(us(op, "u"), &make);
                self.items.push(Some(Item { forms, back: None }));
                self.rates.insert(self.items.len() - 1, 44);
            }
            "multi" => {
                let (n, u, i, o) = (us(op, "n"), us(op, "u"), us(op, "i"), us(op, "o"));
                let make = |j: usize| match op.get("k") {
                    Some(k) => routed(k.as_str().unwrap(), op["d"][j].as_i64().unwrap(), (u + j) as i64),
                    None => leaf(i, o, op["b"][j].as_i64().unwrap()),
                };
                let name = gs(op, "op");
                let build = |frac: bool| -> B {
                    match name {
                        "stacki" => s_stacki(n, i, o, frac, &make),
                        "branchi" => s_branchi(n, i, o, frac, &make),
                        "busi" => s_busi(n, i, o, frac, &make),
                        "sumi" => s_sumi(n, i, o, frac, &make),
                        "pipei" => s_pipei(n, i, o, frac, &make),
                        _ => panic!("harness: op {name}"),
                    }
                    .expect("harness: arity")
                };
                let path: HashMap<usize, Vec<Step>> = (0..n).map(|k| (u + k, vec![Step::Index(k)])).collect();
                let st = |frac: bool| Form { g: Graph::Unit(build(frac)), path: path.clone(), ears: HashMap::new(), composite: true };
                let frac = self.rng.chance(1, 2);
                let mixed = if self.rng.chance(1, 2) { st(!frac) } else { Self::wrapped(st(!frac)) };
                // the network form is the same thing said with binary operators
                let bin = match name {
                    "stacki" => "stack",
                    "branchi" => "branch",
                    "busi" => "bus",
                    "sumi" => "sum",
                    _ => "pipe",
                };
                let mut net: Option<Net> = None;
                let mut npath = HashMap::new();
                for k in 0..n {
                    let (m, id) = Net::wrap_id(make(k));
                    self.nid.insert((u + k) as i64, id);
                    npath.insert(u + k, vec![Step::Node(id)]);
                    net = Some(match net {
                        None => m,
                        Some(x) => Self::bin_net(bin, x, m, k % 2 == 0),
                    });
                }
                let nf = Form { g: Graph::Net(net.unwrap()), path: npath, ears: HashMap::new(), composite: true };
                self.items.push(Some(Item { forms: vec![Some(st(frac)), Some(nf), Some(mixed)], back: None }));
                let p = self.items.len() - 1;
                self.rates.insert(p, 44);
                self.arity(p, op)?;
            }
            "bin" => {
                let (p, q) = (us(op, "p") - 1, us(op, "q") - 1);
                let name = gs(op, "op");
                let x = self.items[p].take().unwrap();
                let y = self.items[q].take().unwrap();
                let mut forms = vec![];
                for (k, (f, g)) in x.forms.into_iter().zip(y.forms).enumerate() {
                    forms.push(match (f, g) {
                        (Some(f), Some(g)) => {
                            let mut r = self.combine(k, name, f, g);
                            if k != 1 {
                                // only networks know their rate
                                r.unit().set_sample_rate(gi(op, "r") as f64 * 1000.0);
                            }
                            Some(r)
                        }
                        _ => None,
                    });
                }
                self.items[p] = Some(Item { forms, back: x.back.or(y.back) });
                self.rates.insert(p, gi(op, "r"));
                self.arity(p, op)?;
                // identifiers of both operands are valid in the result
                let nid = self.nid.clone();
                if let Some(Form { g: Graph::Net(n), .. }) = &mut self.item(p).forms[1] {
                    for (u, id) in op["ids"].as_array().unwrap().iter().enumerate() {
                        let id = id.as_i64().unwrap();
                        if id > 0 && !n.contains(nid[&id]) {
                            return Err(format!("node of leaf {} is gone from the combined network", u + 1));
                        }
                    }
                    n.check();
                    if n.error().is_some() {
                        return Err("combined network reports a cycle".into());
                    }
                }
            }
            "un" => {
                let p = us(op, "p") - 1;
                let name = gs(op, "op");
                let c = gi(op, "c") as f32 * if name == "mulc" || name == "cmul" { 1.0 } else { self.scale };
                let it = self.items[p].take().unwrap();
                let mut forms = vec![];
                for (k, f) in it.forms.into_iter().enumerate() {
                    let alt = self.rng.chance(1, 2);
                    let stat = k == 0 || (k == 2 && self.rng.chance(1, 2));
                    forms.push(match f {
                        None => None,
                        Some(f) => Some(if name == "listen" && stat {
                            let composite = f.composite;
                            let (u, path, mut ears) = f.boxed();
                            let n = self.senders.len();
                            let (s, x) = s_listen(u).expect("harness: arity");
                            self.senders.push(s);
                            // the innermost listener keeps its leaves
                            for (u, p) in path.iter() {
                                ears.entry(*u).or_insert((n, p.clone()));
                            }
                            Form { g: Graph::Unit(x), path, ears, composite }
                        } else if name == "listen" {
                            f
                        } else if stat {
                            let comp = f.composite;
                            let (u, path, ears) = f.boxed();
                            Form { g: Graph::Unit(Self::un_static(name, u, c, alt)), path, ears, composite: comp }
                        } else {
                            let f = if matches!(f.g, Graph::Net(_)) { f } else { Self::wrapped(f) };
                            match f.g {
                                Graph::Net(n) => {
                                    let n = Self::un_net(name, n, c);
                                    Form { g: Graph::Net(n), path: f.path, ears: f.ears, composite: true }
                                }
                                _ => panic!("harness: net"),
                            }
                        }),
                    });
                }
                let r = self.rates[&p] as f64 * 1000.0;
                for (k, f) in forms.iter_mut().enumerate() {
                    // mixed graphs start over at the default rate
                    if k == 2 {
                        if let Some(f) = f {
                            f.unit().set_sample_rate(r);
                        }
                    }
                }
                self.items[p] = Some(Item { forms, back: it.back });
                self.arity(p, op)?;
            }
            "dup" => {
                let p = us(op, "p") - 1;
                let from: Vec<usize> = op["from"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                let to = us(op, "to");
                let mut forms = vec![];
                for f in self.item(p).forms.iter() {
                    forms.push(match f {
                        // copies of listeners hear nothing, and do not get what is on its way
                        Some(f) if f.ears.is_empty() => {
                            let mut path = HashMap::new();
                            for (k, u) in from.iter().enumerate() {
                                if let Some(x) = f.path.get(u) {
                                    path.insert(to + k, x.clone());
                                }
                            }
                            let g = match &f.g {
                                Graph::Unit(u) => Graph::Unit(u.clone()),
                                Graph::Net(n) => Graph::Net(n.clone()),
                            };
                            Some(Form { g, path, ears: HashMap::new(), composite: f.composite })
                        }
                        _ => None,
                    });
                }
                let r = self.rates[&p];
                self.items.push(Some(Item { forms, back: None }));
                self.rates.insert(self.items.len() - 1, r);
            }
            "can" => {
                let (p, q) = (us(op, "p") - 1, us(op, "q") - 1);
                if let (Some(Form { g: Graph::Net(n), .. }), Some(Form { g: Graph::Net(m), .. })) =
                    (&self.items[p].as_ref().unwrap().forms[1], &self.items[q].as_ref().unwrap().forms[1])
                {
                    let got = [
                        ("pipe", Net::can_pipe(n, m)),
                        ("stack", Net::can_stack(n, m)),
                        ("branch", Net::can_branch(n, m)),
                        ("bus", Net::can_bus(n, m)),
                        ("sum", Net::can_sum(n, m)),
                        ("sub", Net::can_binary(n, m)),
                        ("mul", Net::can_product(n, m)),
                    ];
                    for (name, g) in got {
                        if op["x"][name].as_bool().unwrap() != g {
                            return Err(format!("can {name}: {g}"));
                        }
                    }
                }
            }
            "play" => {
                let p = us(op, "p") - 1;
                let n = us(op, "n");
                let x = op["x"].as_array().unwrap();
                let t = gi(op, "t");
                let mut part = self.part.clone();
                self.part.rng.next();
                let it = self.items[p].as_mut().unwrap();
                let mut judge = |name: String, u: &mut dyn AudioUnit| -> Result<(), String> {
                    let input: Vec<Vec<f32>> = (0..u.inputs()).map(|c| (0..n).map(|i| input_at(t + i as i64, c as i64) as f32).collect()).collect();
                    let out = render(u, &input, n, &mut part);
                    for i in 0..n {
                        for c in 0..out.len() {
                            let want = x[i][c].as_i64().unwrap() as f64;
                            if out[c][i] as f64 != want {
                                return Err(format!("{name}: sample {i} of {n}, output {c}: got {}, specification says {want}", out[c][i]));
                            }
                        }
                    }
                    Ok(())
                };
                if let Some(b) = &mut it.back {
                    return judge("backend".into(), b);
                }
                for (k, f) in it.forms.iter_mut().enumerate() {
                    if let Some(f) = f {
                        judge(format!("form {k}"), f.unit())?;
                    }
                }
            }
            "reset" => {
                let p = us(op, "p") - 1;
                for f in self.item(p).forms.iter_mut().flatten() {
                    f.unit().reset();
                }
            }
            "rate" => {
                let p = us(op, "p") - 1;
                let r = gi(op, "r");
                self.rates.insert(p, r);
                for f in self.item(p).forms.iter_mut().flatten() {
                    f.unit().set_sample_rate(r as f64 * 1000.0);
                }
            }
            "set" => {
                let p = us(op, "p") - 1;
                let u = us(op, "u");
                let s = Setting::value(gi(op, "b") as f32);
                let senders = self.senders.clone();
                let it = self.items[p].as_mut().unwrap();
                for k in 0..FORMS {
                    let mut lost = false;
                    if let Some(f) = &mut it.forms[k] {
                        if let Some((e, path)) = f.ears.get(&u) {
                            if path.len() > 4 {
                                lost = true;
                            } else if senders[*e].try_send(address(s.clone(), path)).is_err() {
                                return Err("setting could not be sent".into());
                            }
                        } else {
                            match f.path.get(&u) {
                                Some(path) if path.len() <= 4 => {
                                    let s = address(s.clone(), path);
                                    f.unit().set(s);
                                }
                                _ => lost = true,
                            }
                        }
                    }
                    if lost {
                        it.forms[k] = None;
                    }
                }
            }
            "setnone" => {
                let p = us(op, "p") - 1;
                let other = NodeId::new();
                let r = self.rng.next();
                let it = self.items[p].as_mut().unwrap();
                for f in it.forms.iter_mut().flatten() {
                    if f.composite {
                        let s = Setting::value(777.0);
                        let net = matches!(f.g, Graph::Net(_));
                        let first = f.path.values().next().and_then(|p| p.first()).cloned();
                        let s = match (r % 3, net, first) {
                            (0, _, _) => s,
                            (1, true, _) => s.left(),
                            (1, false, Some(Step::Index(_))) => s.right(),
                            (1, false, _) => s.index(0),
                            (_, _, _) => s.node(other),
                        };
                        f.unit().set(s);
                    }
                }
            }
            "front" => {
                let p = us(op, "p") - 1;
                let it = self.items[p].as_mut().unwrap();
                it.forms[0] = None;
                it.forms[2] = None;
                match &mut it.forms[1] {
                    Some(Form { g: Graph::Net(n), .. }) => it.back = Some(n.backend()),
                    _ => panic!("harness: network lost"),
                }
            }
            "commit" => {
                let p = us(op, "p") - 1;
                match &mut self.item(p).forms[1] {
                    Some(Form { g: Graph::Net(n), .. }) => n.commit(),
                    _ => panic!("harness: network lost"),
                }
            }
            _ => panic!("harness: unknown action {a}"),
        }
        Ok(())
    }
}

// --- Signal flow analysis (Routing.tla) ----------------------------------------------------------------

/// Values are this small so that limiters stay idle.
const TINY: f32 = 1.0 / 1048576.0;

/// Leaves with known latency, response and paths. Times are in units of 1/1024 s.
fn routed(k: &str, d: i64, u: i64) -> B {
    use fundsp::hacker32::*;
    use fundsp::typenum::U2 as N2;
    let df = d as f32;
    let time = df / 1024.0;
    match k {
        "pass" => Box::new(pass()),
        "mpass" => Box::new(multipass::<N2>()),
        "tick" => Box::new(tick()),
        "delay" => Box::new(delay(time)),
        "gain" => Box::new(mul(df)),
        "offs" => Box::new(add(df * TINY)),
        "dc" => Box::new(dc(df * TINY)),
        "one" => Box::new(dc(df)),
        "gen" => {
            let w: Vec<f32> = (0..5).map(|i| ((3 * i + 100 + u) % 5) as f32 * TINY).collect();
            Box::new(wavech(&std::sync::Arc::new(Wave::from_samples(1024.0, &w)), 0, Some(0)))
        }
        "rev" => Box::new(reverse::<N2>()),
        "split" => Box::new(split::<N2>()),
        "join" => Box::new(join::<N2>() * 2.0),
        "sink" => Box::new(sink()),
        "lim" => Box::new(limiter(time, time)),
        "lim2" => Box::new(limiter_stereo(time, time)),
        "lp" => Box::new(limiter(time, time) | pass()),
        "shape" => Box::new(shape_fn(|x| x)),
        "fir" => Box::new(fir((2.0, df, 1.0))),
        "mix" => Box::new(An(Mixer::<N2, N2>::new([[1.0, df].into(), [3.0, -2.0].into()].into()))),
        "res" => Box::new(resynth::<U1, U1, _>(32, |fft| {
            for i in 0..fft.bins() {
                fft.set(0, i, fft.at(0, i));
            }
        })),
        "flt" => filter(d),
        "res2" => Box::new(resynth::<N2, N2, _>(32, |fft| {
            for i in 0..fft.bins() {
                fft.set(0, i, fft.at(1, i));
                fft.set(1, i, fft.at(0, i));
            }
        })),
        "ms" => Box::new(
            multisplit::<N2, N2>() >> (pass() | mul(2.0) | mul(3.0) | mul(5.0)) >> multijoin::<N2, N2>() >> (mul(2.0) | mul(2.0)),
        ),
        "j3" => Box::new(split::<U3>() >> (pass() | mul(2.0) | mul(3.0)) >> join::<U3>() >> mul(3.0)),
        "nz" => {
            // the second output is not connected
            let mut n = Net::new(1, 2);
            let id = n.push(Box::new(pass()));
            n.connect_input(0, id, 0);
            n.connect_output(id, 0, 0);
            Box::new(n)
        }
        "nu" => {
            // an input is not connected
            let mut n = Net::new(1, 1);
            let id = n.push(Box::new(join::<N2>() * 2.0));
            n.connect_input(0, id, 1);
            n.connect_output(id, 0, 0);
            Box::new(n)
        }
        "sj" => Box::new((split::<N2>() | split::<N2>()) >> stacki::<N2, _, _>(|_| join::<N2>() * 2.0)),
        "rj" => Box::new((split::<N2>() | split::<N2>()) >> sumi::<N2, _, _>(|_| join::<N2>() * 2.0)),
        "fb" => Box::new(feedback(limiter(time, time) * 0.5)),
        "fb2" => Box::new(feedback2(limiter(time, time), pass() * 0.5)),
        "fb3" => Box::new(feedback2(pass() * 0.5, limiter(time, time))),
        "over" => Box::new(oversample(limiter(time, time))),
        _ => panic!("harness: leaf {k}"),
    }
}

/// Linear filters. They are symbols to the specification.
fn filter(d: i64) -> B {
    use fundsp::hacker32::*;
    fn set(mut u: B, s: Setting) -> B {
        u.set(s);
        u
    }
    match d {
        0 => Box::new(lowpole_hz(150.0)),
        1 => Box::new(highpole_hz(150.0)),
        2 => Box::new(allpole_delay(0.7)),
        3 => Box::new(dcblock_hz(80.0)),
        4 => Box::new(pinkpass()),
        5 => Box::new(lowpass_hz(200.0, 1.0)),
        6 => Box::new(highpass_hz(200.0, 1.0)),
        7 => Box::new(bandpass_hz(200.0, 1.0)),
        8 => Box::new(notch_hz(200.0, 1.0)),
        9 => Box::new(peak_hz(200.0, 1.0)),
        10 => Box::new(bell_hz(200.0, 1.0, 2.0)),
        11 => Box::new(lowshelf_hz(200.0, 1.0, 2.0)),
        12 => Box::new(highshelf_hz(200.0, 1.0, 0.5)),
        13 => Box::new(allpass_hz(200.0, 1.0)),
        14 => Box::new(butterpass_hz(200.0)),
        15 => Box::new(resonator_hz(200.0, 100.0)),
        16 => Box::new(morph_hz(200.0, 1.0, 0.3)),
        17 => Box::new(follow(0.003)),
        18 => Box::new(biquad(0.17, 0.4, 0.1, 0.5, 0.3)),
        19 => Box::new(fir3(0.3)),
        20 => Box::new(lowrez_hz(200.0, 0.3)),
        21 => Box::new(bandrez_hz(200.0, 0.3)),
        22 => Box::new((pass() | dc(200.0)) >> lowpole()),
        23 => Box::new((pass() | dc((200.0, 1.0))) >> lowpass()),
        24 => Box::new((pass() | dc((200.0, 50.0))) >> resonator()),
        25 => Box::new((pass() | dc(200.0)) >> butterpass()),
        26 => Box::new((pass() | dc((200.0, 1.0, 2.0))) >> bell()),
        27 => Box::new((pass() | dc(0.7)) >> allpole()),
        28 => Box::new((pass() | dc(200.0)) >> highpole()),
        29 => Box::new(pan(0.3) >> join::<U2>()),
        30 => Box::new(afollow(0.003, 0.003)),
        31 => Box::new(declick_s(0.004)),
        32 => Box::new((pass() | dc((150.0, 1.5))) >> highpass()),
        33 => Box::new((pass() | dc((150.0, 1.5))) >> bandpass()),
        34 => Box::new((pass() | dc((150.0, 1.5))) >> notch()),
        35 => Box::new((pass() | dc((150.0, 1.5))) >> peak()),
        36 => Box::new((pass() | dc((150.0, 1.5))) >> allpass()),
        37 => Box::new((pass() | dc((150.0, 1.5, 0.4))) >> lowshelf()),
        38 => Box::new((pass() | dc((150.0, 1.5, 0.4))) >> highshelf()),
        39 => Box::new((pass() | dc(150.0)) >> lowpass_q(1.5)),
        40 => set(Box::new(lowpole_hz(300.0)), Setting::center(150.0)),
        41 => set(Box::new(lowpass_hz(300.0, 2.0)), Setting::center_q(200.0, 1.0)),
        42 => set(Box::new(bell_hz(100.0, 2.0, 0.5)), Setting::center_q_gain(200.0, 1.0, 2.0)),
        43 => set(Box::new(allpole_delay(0.2)), Setting::delay(0.7)),
        44 => set(Box::new(dcblock_hz(100.0)), Setting::center(60.0)),
        45 => set(Box::new(butterpass_hz(100.0)), Setting::center(200.0)),
        46 => set(Box::new(highpole_hz(100.0)), Setting::center(200.0)),
        47 => set(Box::new(follow(0.01)), Setting::time(0.003)),
        48 => set(Box::new(biquad(0.0, 0.0, 1.0, 0.0, 0.0)), Setting::biquad(0.17, 0.4, 0.1, 0.5, 0.3)),
        _ => panic!("harness: filter {d}"),
    }
}
type Spectrum = Vec<(f64, f64)>;
/// The response of a filter as measured: spectrum of what it makes of an impulse.
fn measured(d: i64, m: i64) -> Spectrum {
    static CACHE: std::sync::Mutex<Option<HashMap<(i64, i64), Spectrum>>> = std::sync::Mutex::new(None);
    if let Some(s) = CACHE.lock().unwrap().get_or_insert_with(HashMap::new).get(&(d, m)) {
        return s.clone();
    }
    let rate = m as f64 * 1024.0;
    let mut u = filter(d);
    u.set_sample_rate(rate);
    u.reset();
    let mut o = [0.0f32];
    for _ in 0..m * 64 {
        u.tick(&[0.0], &mut o);
    }
    let h: Vec<f64> = (0..8192)
        .map(|k| {
            u.tick(&[if k == 0 { 1.0 } else { 0.0 }], &mut o);
            o[0] as f64
        })
        .collect();
    let s: Spectrum = FREQ
        .iter()
        .map(|f| {
            h.iter().enumerate().fold((0.0, 0.0), |z, (k, x)| {
                let a = -std::f64::consts::TAU * f * k as f64;
                (z.0 + x * a.cos(), z.1 + x * a.sin())
            })
        })
        .collect();
    CACHE.lock().unwrap().as_mut().unwrap().insert((d, m), s.clone());
    s
}
/// Frequencies at which responses are compared, as fractions of the rate.
const FREQ: [f64; 6] = [0.0, 0.25, 0.5, 0.01, 0.0977, 0.4];

pub struct RouteSys(ExprSys, HashMap<i64, i64>);
impl RouteSys {
    pub fn new(cfg: &Cfg) -> Box<dyn Sys> {
        let mut x = ExprSys::plain(cfg);
        x.scale = TINY;
        Box::new(RouteSys(x, HashMap::new()))
    }
}
fn source(s: i64, k: i64) -> f32 {
    ((k * (s + 2) + s) % 7) as f32 * TINY
}
fn matches(op: &Value, got: &dyn Fn(usize, usize) -> f32, outs: usize, n: usize) -> Result<(), String> {
    for c in 0..outs {
        let Some(x) = op["x"][c].as_array().filter(|x| !x.is_empty()) else { continue };
        let tol = 1e-3 * (1.0 + op["o"][c]["mass"].as_f64().unwrap() * 7.0);
        for i in 0..n {
            let want = x[i].as_i64().unwrap() as f64;
            let y = (got(c, i) / TINY) as f64;
            if !((y - want).abs() <= tol) {
                return Err(format!("output {c}, sample {i} of {n}: {y}, specification says {want}"));
            }
        }
    }
    Ok(())
}
fn ask(u: &mut dyn AudioUnit, op: &Value, filters: &HashMap<i64, i64>, part: &mut Part) -> Result<(), String> {
    use fundsp::signal::{Signal, SignalFrame};
    let rate = gi(op, "m") as f64 * 1024.0;
    u.set_sample_rate(rate);
    let (ins, outs) = (u.inputs(), u.outputs());
    // Filters with parameter inputs know their parameters only when they have been played.
    u.reset();
    let n = us(op, "n");
    let input: Vec<Vec<f32>> = (0..ins).map(|c| (0..n).map(|k| source(c as i64 + 1, k as i64)).collect()).collect();
    let got = render(u, &input, n, part);
    matches(op, &|c, i| got[c][i], outs, n)?;
    let want = gi(op, "lat");
    let want = if want < 0 { None } else { Some(want as f64) };
    if u.latency() != want {
        return Err(format!("latency {:?}, specification says {want:?}", u.latency()));
    }
    let mut frame = SignalFrame::new(ins);
    frame.fill(Signal::Latency(7.0));
    let frame = u.route(&frame, 1.0);
    let mut heard = SignalFrame::new(ins);
    heard.fill(Signal::Response({
        let mut p = fundsp::hacker32::pass();
        AudioUnit::response(&mut p, 0, 1.0).unwrap()
    }, 5.0));
    let heard = u.route(&heard, 1.0);
    for c in 0..outs {
        let o = &op["o"][c];
        let want = o["lat"].as_i64().unwrap();
        if let (Signal::Response(_, l) | Signal::Latency(l), true) = (heard.at(c), want >= 0) {
            if l > want as f64 + 5.0 || l < want as f64 {
                return Err(format!("output {c}: latency {l} with the response for inputs 5 samples late, specification says at most {}", want + 5));
            }
        }
        // generators are not later for the inputs being late
        if let (Signal::Latency(l), true) = (frame.at(c), want >= 0) {
            if l > want as f64 + 7.0 {
                return Err(format!("output {c}: latency {l} for inputs 7 samples late, specification says at most {}", want + 7));
            }
        }
        let q = gi(o, "q");
        let sym = o["sym"].as_array().unwrap();
        for (f, freq) in FREQ.iter().enumerate() {
            let w = if sym.is_empty() && f < 3 {
                (op["resp"][c][f][0].as_i64().unwrap() as f64, op["resp"][c][f][1].as_i64().unwrap() as f64)
            } else if sym.is_empty() {
                continue;
            } else {
                sym.iter().fold((0.0, 0.0), |z, t| {
                    let (d, g) = (t[0].as_i64().unwrap() as f64, t[2].as_i64().unwrap() as f64);
                    let a = -std::f64::consts::TAU * freq * d;
                    let mut h = (g * a.cos(), g * a.sin());
                    for u in t[1].as_array().unwrap() {
                        let r = measured(filters[&u.as_i64().unwrap()], gi(op, "m"))[f];
                        h = (h.0 * r.0 - h.1 * r.1, h.0 * r.1 + h.1 * r.0);
                    }
                    (z.0 + h.0, z.1 + h.1)
                })
            };
            let r = u.response(c, rate * freq);
            let tol = 1e-3 * (1.0 + o["mass"].as_f64().unwrap());
            let ok = match (q, r) {
                (0, Some(z)) | (1, Some(z)) => (z.re - w.0).abs() < tol && (z.im - w.1).abs() < tol,
                (0, None) | (3, Some(_)) => false,
                _ => true,
            };
            if !ok {
                return Err(format!("output {c}: response at {freq} of the rate is {r:?}, specification says {w:?} (class {q})"));
            }
            let db = u.response_db(c, rate * freq);
            match (r, db) {
                (None, None) => (),
                (Some(z), Some(d)) if z.norm() < 1e-9 || close(d, 20.0 * z.norm().log10(), 1e-6) => (),
                _ => return Err(format!("output {c}: response {r:?} is {db:?} dB")),
            }
        }
    }
    Ok(())
}
impl Sys for RouteSys {
    fn step(&mut self, op: &Value) -> Result<(), String> {
        let items = self.0.items.len();
        match gs(op, "a") {
            "leaf" | "multi" => {
                if gs(op, "k") == "flt" {
                    for j in 0..op.get("n").map_or(1, |n| n.as_i64().unwrap()) {
                        let d = if gs(op, "a") == "leaf" { gi(op, "d") } else { op["d"][j as usize].as_i64().unwrap() };
                        self.1.insert(gi(op, "u") + j, d);
                    }
                }
                self.0.step(op)
            }
            "bin" => {
                self.0.step(op)?;
                self.0.items.pop();
                Ok(())
            }
            "un" if gs(op, "op") == "mdc" || gs(op, "op") == "dcm" => {
                let (c, p) = (gi(op, "c"), us(op, "p"));
                let forms = self.0.push_leaf(1000, &|| routed("one", c, 0));
                self.0.items.push(Some(Item { forms, back: None }));
                if gs(op, "op") == "dcm" {
                    self.0.items.swap(p - 1, items);
                }
                let bin = serde_json::json!({"a": "bin", "op": "mul", "p": p, "q": items + 1, "ar": op["ar"], "ids": [], "r": 44});
                self.0.step(&bin)?;
                self.0.items.pop();
                Ok(())
            }
            "un" => self.0.step(op),
            "swap" => {
                self.0.items.swap(items - 1, items - 2);
                Ok(())
            }
            "ask" => {
                let mut part = self.0.part.clone();
                self.0.part.rng.next();
                for (k, f) in self.0.items[us(op, "p") - 1].as_mut().unwrap().forms.iter_mut().enumerate() {
                    if let Some(f) = f {
                        ask(f.unit(), op, &self.1, &mut part).map_err(|e| format!("form {k}: {e}"))?;
                        if let (Graph::Net(n), true) = (&f.g, k == 1) {
                            let mut net = n.clone();
                            net.set_sample_rate(gi(op, "m") as f64 * 1024.0);
                            let mut b = net.backend();
                            if gi(op, "lat") != b.latency().map_or(-1, |x| x as i64) {
                                return Err(format!("backend: latency {:?}, specification says {}", b.latency(), gi(op, "lat")));
                            }
                        }
                    }
                }
                Ok(())
            }
            "ready" => {
                let mut part = self.0.part.clone();
                self.0.part.rng.next();
                for (k, f) in self.0.items[us(op, "p") - 1].as_mut().unwrap().forms.iter_mut().enumerate() {
                    if let Some(f) = f {
                        let u = f.unit();
                        u.set_sample_rate(gi(op, "m") as f64 * 1024.0);
                        let input = |n: usize| -> Vec<Vec<f32>> { vec![(0..n).map(|k| source(1, k as i64)).collect(); u.inputs()] };
                        let (before, after) = (input(us(op, "r")), input(us(op, "n")));
                        if us(op, "r") > 1 {
                            u.reset();
                            render(u, &before, us(op, "r"), &mut part);
                        }
                        u.allocate();
                        mem_clear();
                        render(u, &after, us(op, "n"), &mut part);
                        let first = mem_events();
                        mem_clear();
                        rt(|| u.reset());
                        let reset = mem_events();
                        mem_clear();
                        render(u, &after, us(op, "n"), &mut part);
                        for (what, (a, f)) in [("rendering", first), ("reset", reset), ("rendering after reset", mem_events())] {
                            if a + f > 0 {
                                return Err(format!("form {k}: {what} allocated memory {a} times and freed memory {f} times although it was allocated in advance"));
                            }
                        }
                    }
                }
                Ok(())
            }
            "render" => {
                let rate = gi(op, "m") as f64 * 1024.0;
                let n = us(op, "n");
                let played = self.0.rng.below(3);
                for (k, f) in self.0.items[us(op, "p") - 1].as_mut().unwrap().forms.iter_mut().enumerate() {
                    if let Some(f) = f {
                        let u = f.unit();
                        let secs = n as f64 / rate;
                        let w = if u.inputs() == 0 {
                            // rendering starts over
                            for _ in 0..played * 17 {
                                u.tick(&[], &mut vec![0.0; u.outputs()]);
                            }
                            fundsp::wave::Wave::render_latency(rate, secs, u)
                        } else {
                            u.reset();
                            let mut w = fundsp::wave::Wave::new(0, rate);
                            for c in 0..u.inputs() {
                                let x: Vec<f32> = (0..n + 300).map(|k| source(c as i64 + 1, k as i64)).collect();
                                w.push_channel(&x);
                            }
                            w.filter_latency(secs, u)
                        };
                        if (w.channels(), w.length(), w.sample_rate()) != (u.outputs(), n, rate) {
                            return Err(format!("form {k}: rendered {} channels of length {}", w.channels(), w.length()));
                        }
                        matches(op, &|c, i| w.at(c, i), w.channels(), n).map_err(|e| format!("form {k}: compensated: {e}"))?;
                    }
                }
                Ok(())
            }
            a => panic!("harness: unknown action {a}"),
        }
    }
}
