//! C14: visual block programs, run by the Code node, against an interpreter of the diagram.
use crate::core::*;
use crate::eng::*;
use crate::ensure;
use hexodsp::matrix_repr::*;
use hexodsp::wblockdsp::BlockCodeView;
use hexodsp::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};

/// The documented blocks: name, rows, inputs and outputs.
type Def = (&'static str, &'static [&'static str], &'static [&'static str]);
const DEFS: &[Def] = &[
    ("zero", &[], &[""]),
    ("π", &[], &[""]),
    ("2π", &[], &[""]),
    ("value", &[], &[""]),
    ("->", &[""], &[""]),
    ("->2", &[""], &["", ""]),
    ("->3", &[""], &["", "", ""]),
    ("set", &[""], &[]),
    ("get", &[], &[""]),
    ("+", &["", ""], &[""]),
    ("*", &["", ""], &[""]),
    ("-", &["a", "b"], &[""]),
    ("/", &["a", "b"], &[""]),
    ("sin", &[""], &[""]),
    ("/%", &["a", "b"], &["di", "re"]),
    ("accum", &["in", "re"], &["su"]),
    ("phase", &["fr", "re"], &["ph"]),
    ("s&h", &["in", "se"], &["va"]),
    ("atomr", &["in"], &["va"]),
    ("atomw", &["in", "va"], &["va"]),
];

#[derive(Clone, Debug)]
struct B {
    uid: u64,
    typ: &'static str,
    lbl: String,
    x: i64,
    y: i64,
    rows: usize,
    /// per row: index of the port
    ins: Vec<Option<usize>>,
    outs: Vec<Option<usize>>,
}

fn def(t: &str) -> &'static Def {
    DEFS.iter().find(|d| d.0 == t).unwrap()
}

#[derive(Clone, Default)]
struct Prog {
    blocks: Vec<B>,
    next: u64,
}

#[derive(Clone, Default)]
struct State {
    accum: HashMap<u64, f64>,
    phase: HashMap<u64, (f64, bool)>,
    sh: HashMap<u64, (f64, bool)>,
    pers: HashMap<String, f64>,
    atoms: HashMap<usize, f32>,
}

struct Frame<'a> {
    p: &'a Prog,
    st: &'a mut State,
    vars: BTreeMap<String, f64>,
    memo: HashMap<(u64, usize), f64>,
    srate: f64,
    /// an atom access other than a single one in one statement
    atoms_in_stmt: usize,
    clash: bool,
}

fn constant(n: &str) -> Option<f64> {
    match n {
        "PI" => Some(std::f64::consts::PI),
        "TAU" => Some(std::f64::consts::TAU),
        _ => None,
    }
}

fn trig(t: &mut bool, v: f64) -> bool {
    let v = v as f32;
    if *t {
        if v <= 0.25 {
            *t = false;
        }
        false
    } else if v > 0.5 {
        *t = true;
        true
    } else {
        false
    }
}

impl Prog {
    fn at(&self, x: i64, y: i64) -> Option<(&B, usize)> {
        self.blocks.iter().find(|b| b.x == x && y >= b.y && y < b.y + b.rows as i64).map(|b| (b, (y - b.y) as usize))
    }
    fn free(&self, x: i64, y: i64, rows: usize) -> bool {
        (0..rows).all(|r| self.at(x, y + r as i64).is_none())
    }
    /// (y, x, block, output port)
    fn sinks(&self) -> Vec<(i64, i64, usize, Option<usize>)> {
        let mut v = vec![];
        for (i, b) in self.blocks.iter().enumerate() {
            if b.outs.iter().all(|o| o.is_none()) {
                v.push((b.y, b.x, i, None));
            }
            for (r, o) in b.outs.iter().enumerate() {
                if o.is_some() {
                    let y = b.y + r as i64;
                    let con = self.at(b.x + 1, y).map(|(n, nr)| n.ins.get(nr).cloned().flatten().is_some()).unwrap_or(false);
                    if !con {
                        v.push((y, b.x, i, Some(r)));
                    }
                }
            }
        }
        v.sort();
        v
    }
    /// whether the diagram is well formed
    fn well(&self) -> bool {
        self.blocks.iter().all(|b| match b.typ {
            "value" => b.lbl.parse::<f64>().is_ok(),
            "if" => false,
            "get" => {
                let l = &b.lbl[..];
                if l.starts_with('$') {
                    return l == "$srate" || l == "$israte" || l == "$reset";
                }
                if l.starts_with('&') {
                    return l == "&sig1" || l == "&sig2";
                }
                // (a variable nobody sets is zero)
                !l.starts_with('%')
            }
            _ => true,
        })
    }
}

impl<'a> Frame<'a> {
    /// values of the inputs in the order of the ports
    fn args(&mut self, b: &B) -> Vec<f64> {
        let mut v = vec![0.0; def(b.typ).1.len()];
        for (r, i) in b.ins.iter().enumerate() {
            if let Some(i) = i {
                let y = b.y + r as i64;
                let src = self.p.at(b.x - 1, y).map(|(s, sr)| (s.clone(), sr));
                v[*i] = match src {
                    Some((s, sr)) if s.outs.get(sr).cloned().flatten().is_some() => self.eval(&s, s.outs[sr].unwrap()),
                    _ => 0.0,
                };
            }
        }
        v
    }
    fn atom(&mut self, f: f64) -> usize {
        self.atoms_in_stmt += 1;
        if self.atoms_in_stmt > 1 {
            self.clash = true;
        }
        f.floor() as usize % 512
    }
    fn eval(&mut self, b: &B, port: usize) -> f64 {
        if let Some(v) = self.memo.get(&(b.uid, port)) {
            return *v;
        }
        let a = self.args(b);
        let mut outs = vec![];
        match b.typ {
            "zero" => outs.push(0.0),
            "π" => outs.push(std::f64::consts::PI),
            "2π" => outs.push(std::f64::consts::TAU),
            "value" => outs.push(b.lbl.parse().unwrap()),
            "->" => outs.push(a[0]),
            "->2" => outs = vec![a[0]; 2],
            "->3" => outs = vec![a[0]; 3],
            "get" => {
                let l = &b.lbl[..];
                outs.push(match l {
                    "$srate" => self.srate,
                    "$israte" => 1.0 / self.srate,
                    _ if l.starts_with('*') => self.st.pers.get(l).cloned().unwrap_or(0.0),
                    _ => constant(l).unwrap_or_else(|| self.vars.get(l).cloned().unwrap_or(0.0)),
                })
            }
            "+" => outs.push(a[0] + a[1]),
            "*" => outs.push(a[0] * a[1]),
            "-" => outs.push(a[0] - a[1]),
            "/" => outs.push(a[0] / a[1]),
            "sin" => outs.push(a[0].sin()),
            "/%" => outs = vec![a[0] / a[1], a[0] % a[1]],
            "accum" => {
                let s = self.st.accum.entry(b.uid).or_insert(0.0);
                if a[1] > 0.5 {
                    *s = 0.0
                } else {
                    *s += a[0]
                }
                outs.push(*s)
            }
            "phase" => {
                let s = self.st.phase.entry(b.uid).or_insert((0.0, false));
                if trig(&mut s.1, a[1]) {
                    s.0 = 0.0
                }
                outs.push(s.0);
                s.0 += a[0] * (1.0 / self.srate);
                s.0 = s.0.fract();
            }
            "s&h" => {
                let s = self.st.sh.entry(b.uid).or_insert((0.0, false));
                if trig(&mut s.1, a[1]) {
                    s.0 = a[0]
                }
                outs.push(s.0)
            }
            "atomr" => {
                let i = self.atom(a[0]);
                outs.push(self.st.atoms.get(&i).cloned().unwrap_or(0.0) as f64)
            }
            "atomw" => {
                let i = self.atom(a[0]);
                self.st.atoms.insert(i, a[1] as f32);
                outs.push(a[1])
            }
            t => panic!("unknown block {}", t),
        }
        for (i, o) in outs.iter().enumerate() {
            self.memo.insert((b.uid, i), *o);
        }
        outs[port]
    }
}

/// One sample: (sig1, sig2, result, whether the order inside a statement would matter)
fn exec(p: &Prog, st: &mut State, inp: &[f32; 6], srate: f64) -> (f32, f32, f32, bool) {
    let mut f = Frame { p, st, vars: BTreeMap::new(), memo: HashMap::new(), srate, atoms_in_stmt: 0, clash: false };
    for (i, n) in ["in1", "in2", "alpha", "beta", "delta", "gamma"].iter().enumerate() {
        f.vars.insert(n.to_string(), inp[i] as f64);
    }
    let mut res = 0.0;
    for (_, _, i, port) in p.sinks() {
        f.atoms_in_stmt = 0;
        let b = &p.blocks[i];
        match port {
            Some(r) => res = f.eval(b, b.outs[r].unwrap()),
            None => {
                let v = f.args(b)[0];
                if b.lbl.starts_with('*') {
                    f.st.pers.insert(b.lbl.clone(), v);
                } else {
                    f.vars.insert(b.lbl.clone(), v);
                }
            }
        }
    }
    let g = |n: &str| f.vars.get(n).cloned().unwrap_or(0.0) as f32;
    (g("&sig1"), g("&sig2"), res as f32, f.clash)
}

struct Gen {
    ill: f32,
    sets: Vec<&'static str>,
}

/// adds a random block to the program and the function
fn add(rng: &mut Rng, g: &Gen, p: &mut Prog, fun: &mut wblockdsp::BlockFun) -> Res {
    let t = loop {
        let d = rng.pick(DEFS);
        let w = match d.0 {
            "zero" | "->" | "π" | "2π" => 0.4,
            "get" | "set" | "->2" | "->3" => 1.0,
            "atomr" | "atomw" => 0.25,
            _ => 0.8,
        };
        if rng.chance(w) {
            break d;
        }
    };
    let rows = t.1.len().max(t.2.len()).max(1);
    let (x, y) = if !p.blocks.is_empty() && rng.chance(0.85) {
        let b = rng.pick(&p.blocks);
        let dx = if rng.chance(0.7) { 1 } else { -1 };
        (b.x + dx, b.y + rng.range(-(rows as i64), b.rows as i64))
    } else {
        (rng.range(-2, 9), rng.range(-2, 9))
    };
    let lbl = match t.0 {
        "value" => {
            if rng.chance(g.ill) {
                rng.pick(&["abc", "", "1.0.0", "--1"]).to_string()
            } else {
                rng.pick(&["1", "-0.5", "0.25", "2.75", "1e3", "-3.0", "0", "440"]).to_string()
            }
        }
        "set" => rng.pick(&g.sets).to_string(),
        "get" => {
            if rng.chance(g.ill) {
                rng.pick(&["$foo", "&sig9", "%9"]).to_string()
            } else {
                rng.pick(&["in1", "in2", "alpha", "beta", "delta", "gamma", "x", "y", "zed", "*p", "&sig1", "$srate", "$israte", "PI"]).to_string()
            }
        }
        _ => String::new(),
    };
    let ui = if ["value", "set", "get"].contains(&t.0) { Some(lbl.clone()) } else { None };
    let ok = fun.instanciate_at(0, x, y, t.0, ui).is_ok();
    let want = p.free(x, y, rows);
    ensure!(ok == want, "place", "placing {} at {},{} gave {} but the space is {}", t.0, x, y, ok, want);
    if !ok {
        return Ok(());
    }
    let mut b = B {
        uid: p.next,
        typ: t.0,
        lbl,
        x,
        y,
        rows,
        ins: (0..t.1.len()).map(Some).collect(),
        outs: (0..t.2.len()).map(Some).collect(),
    };
    p.next += 1;
    if rows > 1 && rng.chance(0.35) {
        for _ in 0..rng.range(1, 3) {
            let out = rng.chance(0.5);
            let v = if out { &mut b.outs } else { &mut b.ins };
            let row = rng.below(rows);
            fun.shift_port(0, x, y + rng.below(rows) as i64, row, out);
            // the port moves one row down, wrapping around at the end
            v.resize(rows, None);
            let el = v.remove(row);
            v.insert((row + 1) % rows, el);
        }
    }
    p.blocks.push(b);
    Ok(())
}

pub fn run(rep: &mut Report) {
    rep.wide = true;
    rep.rule = "one evaluation = one session of random block programs (grown, edited, broken, saved and loaded) played by the Code node; every output sample compared exactly with an interpreter of the diagram".into();
    rep.assumptions.push("several accesses to the shared atoms within one statement have no promised order; such programs are only run, not compared".into());
    rep.assumptions.push("the if block and the s&h~ block are not used: the compiler refuses the former, the latter is broken in the third-party library".into());
    let n = rep.opts.n(2500, 60000);
    rep.run("programs", n, |rng, _c, obs| {
        let srate = *rng.pick(&[44100.0f32, 48000.0, 22050.0]);
        let mut e = Eng::new(12, 12, srate);
        let code = NodeId::Code(0);
        let build = |e: &mut Eng, rng: &mut Rng, old: Option<Vec<f32>>| -> Result<(Vec<ProbeRef>, Vec<f32>), Fail> {
            let nodes: Vec<NodeId> = std::iter::once(code).chain((0..6).map(NodeId::Rust1x1)).collect();
            let mut edges = vec![];
            let mut ports = vec!["in1", "in2", "alpha"];
            rng.shuffle(&mut ports);
            for (i, p) in ["in1", "in2", "alpha"].iter().enumerate() {
                edges.push(edge(NodeId::Rust1x1(i as u8), "sig", code, p));
            }
            for (i, o) in ["sig", "sig1", "sig2"].iter().enumerate() {
                edges.push(edge(code, o, NodeId::Rust1x1(3 + i as u8), "inp"));
            }
            let mut consts = vec![];
            match old {
                Some(c) => consts = c,
                None => {
                    for p in ["beta", "delta", "gamma"] {
                        let v = rng.f(-1.0, 1.0);
                        e.set(code, p, v);
                        consts.push(v);
                    }
                }
            }
            place_edges(&mut e.m, &nodes, &edges);
            if let Err(x) = e.m.sync() {
                return fail("sync", format!("{:?}", x));
            }
            let mut recs = vec![];
            for i in 0..6 {
                let mut r = Rng::new(rng.u64());
                let kind = i % 3;
                let (d, rec) = probe_fn(true, move |_, out| {
                    for o in out.iter_mut() {
                        *o = match kind {
                            0 => r.f(-1.0, 1.0),
                            1 => *r.pick(&[0.0, 1.0, 0.3, -2.0]),
                            _ => r.f(-1.0, 1.0) * *r.pick(&[1.0f32, 1.0e-3, 1000.0]),
                        };
                    }
                });
                e.m.set_dynamic_node1x1(i, d);
                recs.push(rec);
            }
            Ok((recs, consts))
        };
        let late = rng.chance(0.3);
        let (mut recs, mut consts) = if late { (vec![], vec![]) } else { build(&mut e, rng, None)? };
        let mut g = Gen { ill: 0.0, sets: vec!["x", "y", "&sig1", "&sig2", "*p", "in1"] };
        if rng.chance(0.2) {
            g.ill = 0.1;
        }
        if rng.chance(0.3) {
            g.sets.push("zed");
        }
        let fun = match e.m.get_block_function(0) {
            Some(f) => f,
            None => return fail("no-fun", "no block function 0".into()),
        };
        let mut p = Prog { blocks: vec![], next: 1 };
        let mut running: Option<Prog> = None;
        let mut st = State::default();
        let steps = rng.range(1, 5);
        let mut pos = 0usize;
        let mut last_ok = true;
        let mut checked_gen = 0;
        let mut compared = 0;
        for step in 0..steps {
            // 1. edit
            {
                let mut f = fun.lock().unwrap();
                match rng.below(8) {
                    0 if step > 0 && !p.blocks.is_empty() => {
                        let i = rng.below(p.blocks.len());
                        let b = p.blocks.remove(i);
                        ensure!(f.remove_at(0, b.x, b.y + rng.below(b.rows) as i64).is_ok(), "remove", "removing {:?} failed", b);
                    }
                    1 if step > 0 => {
                        f.reset();
                        p.blocks.clear();
                        st = State { pers: st.pers.clone(), atoms: st.atoms.clone(), ..Default::default() };
                        for _ in 0..rng.range(2, 8) {
                            add(rng, &g, &mut p, &mut f)?;
                        }
                    }
                    2 if step > 0 => {
                        let s = f.save_snapshot();
                        add(rng, &g, &mut p.clone(), &mut f)?;
                        f.load_snapshot(&s);
                        // (blocks start afresh)
                        st = State { pers: st.pers.clone(), atoms: st.atoms.clone(), ..Default::default() };
                    }
                    _ => {
                        let top = if rng.chance(0.2) { 40 } else { 14 };
                        for _ in 0..rng.range(2, top) {
                            add(rng, &g, &mut p, &mut f)?;
                        }
                    }
                }
            }
            let well = p.well();
            let gen = fun.lock().unwrap().generation();
            let edited = gen != checked_gen;
            checked_gen = gen;
            match e.m.check_block_function(0) {
                Ok(()) => {
                    ensure!(well || !edited, "accepted", "an ill-formed program was accepted: {:?}", p.blocks);
                    if edited {
                        running = Some(p.clone());
                    }
                    obs.count("programs run", 1);
                    obs.count("blocks compiled", p.blocks.len() as u64);
                    last_ok |= edited;
                }
                Err(x) => {
                    ensure!(!well, "refused", "a well-formed program was refused: {:?}: {:?}", x, p.blocks);
                    obs.count("programs refused", 1);
                    last_ok = false;
                }
            }
            if late && step == 0 {
                let r = build(&mut e, rng, None)?;
                recs = r.0;
                consts = r.1;
                let r = e.m.check_block_function(0);
                ensure!(!last_ok || r.is_ok(), "late", "second check gave {:?}", r);
            } else if last_ok && rng.chance(0.12) {
                // everything is rebuilt, the function stays
                let save = rng.chance(0.5);
                if save {
                    let s = save_patch_to_mem(&mut e.m);
                    if rng.chance(0.5) {
                        fun.lock().unwrap().reset();
                        let _ = e.m.check_block_function(0);
                    }
                    if let Err(x) = load_patch_from_mem(&mut e.m, &s) {
                        return fail("load", format!("{:?}", x));
                    }
                    st = State { pers: st.pers.clone(), atoms: st.atoms.clone(), ..Default::default() };
                }
                if !save {
                    e.m.clear();
                    if let Err(x) = e.m.sync() {
                        return fail("sync", format!("{:?}", x));
                    }
                }
                e.block(16);
                let r = build(&mut e, rng, if save { Some(consts.clone()) } else { None })?;
                recs = r.0;
                consts = r.1;
                pos = 0;
                let r = e.m.check_block_function(0);
                ensure!(r.is_ok(), "recheck", "check after rebuilding gave {:?}", r);
                obs.count("graphs rebuilt", 1);
                // what is left of states then is not promised
                if p.blocks.iter().any(|b| ["accum", "phase", "s&h", "atomr"].contains(&b.typ) || b.lbl.starts_with('*')) {
                    running = None;
                    for _ in 0..4 {
                        e.block(64);
                        pos += 64;
                    }
                    break;
                }
            }
            // 2. play
            let (mut cmp, mut skip) = (0u64, false);
            for _ in 0..rng.range(1, 4) {
                let nf = rng.range(1, 64) as usize;
                e.block(nf);
                let r: Vec<_> = recs.iter().map(|r| r.lock().unwrap()).collect();
                for k in pos..pos + nf {
                    let inp = [r[0].out[k], r[1].out[k], r[2].out[k], consts[0], consts[1], consts[2]];
                    let want = match &running {
                        Some(p) => {
                            let w = exec(p, &mut st, &inp, srate as f64);
                            skip |= w.3;
                            (w.2, w.0, w.1)
                        }
                        None => (0.0, 0.0, 0.0),
                    };
                    if skip {
                        continue;
                    }
                    let got = (r[3].ins[0][k], r[4].ins[0][k], r[5].ins[0][k]);
                    let same = |a: f32, b: f32| a == b || (a.is_nan() && b.is_nan());
                    if !(same(got.0, want.0) && same(got.1, want.1) && same(got.2, want.2)) {
                        return fail(
                            "value",
                            format!("frame {} (step {}): outputs {:?}, the diagram says {:?} for inputs {:?}; program {:?}", k, step, got, want, inp, running.map(|p| p.blocks)),
                        );
                    }
                    cmp += 1;
                }
                pos += nf;
                if skip {
                    break;
                }
            }
            obs.count("samples compared", cmp);
            compared += cmp;
            if skip {
                obs.count("programs with unordered atoms", 1);
                break;
            }
        }
        obs.nontrivial = compared > 0 && p.blocks.len() > 2;
        obs.fingerprint = format!("{:x}", hash64(&format!("{:?} {}", p.blocks, compared)));
        obs.sample = Some(json!({"blocks": p.blocks.len(), "samples": compared, "steps": steps, "node placed after the program": late}));
        Ok(())
    });

    // Every identifier the language offers means something.
    rep.run("identifiers", 16, |rng, c, obs| {
        let srate = [44100.0f32, 96000.0, 8000.0, 48000.0][c % 4];
        let mut e = Eng::new(8, 8, srate);
        let code = NodeId::Code((c % 3) as u8);
        let rec = NodeId::Rust1x1(0);
        let mut vals: BTreeMap<String, f32> = BTreeMap::new();
        for p in ["in1", "in2", "alpha", "beta", "delta", "gamma"] {
            let v = rng.f(-1.0, 1.0);
            e.set(code, p, v);
            vals.insert(p.into(), v);
        }
        vals.insert("srate".into(), srate);
        vals.insert("israte".into(), (1.0 / srate as f64) as f32);
        vals.insert("&sig1".into(), 0.0);
        vals.insert("&sig2".into(), 0.0);
        place_edges(&mut e.m, &[code, rec], &[edge(code, "sig", rec, "inp")]);
        if let Err(x) = e.m.sync() {
            return fail("sync", format!("{:?}", x));
        }
        let (d, r) = recorder();
        e.m.set_dynamic_node1x1(0, d);
        let fun = e.m.get_block_function(code.instance()).unwrap();
        let lang = fun.lock().unwrap().block_language();
        let ids = lang.borrow().list_identifiers();
        ensure!(ids.len() >= 10, "few", "only {:?}", ids);
        let mut pos = 0;
        for id in ids {
            {
                let mut f = fun.lock().unwrap();
                let _ = f.remove_at(0, 1, 1);
                let ok = f.instanciate_at(0, 1, 1, "get", Some(id.clone())).is_ok();
                ensure!(ok, "place", "could not place get {}", id);
            }
            if let Err(x) = e.m.check_block_function(code.instance()) {
                return fail("refused", format!("get {}: {:?}", id, x));
            }
            e.block(5);
            pos += 5;
            let got = r.lock().unwrap().ins[0][pos - 1];
            if let Some(want) = vals.get(id.trim_start_matches('$')) {
                ensure!(got == *want, "ident", "get {} gives {} instead of {} at {} Hz", id, got, want, srate);
                obs.count("identifiers compared", 1);
            }
        }
        obs.nontrivial = pos > 10;
        obs.fingerprint = format!("{} {}", c, srate);
        obs.sample = Some(json!({"srate": srate}));
        Ok(())
    });
}
