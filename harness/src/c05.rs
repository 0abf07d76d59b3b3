//! C05: parameter, amount and setting changes always arrive, smoothly, last one wins.
use crate::core::*;
use crate::eng::*;
use crate::ensure;
use hexodsp::*;
use serde_json::json;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug)]
struct P {
    start: f32,
    target: f32,
    prev: Option<f32>,
    since: u64,
    /// false if more parameters were moving at once than there is smoothing capacity
    smooth: bool,
    /// the start was not observed
    fuzzy: bool,
}
impl P {
    fn fixed(v: f32) -> Self {
        P { start: v, target: v, prev: Some(v), since: 1 << 40, smooth: true, fuzzy: false }
    }
    fn set(&mut self, v: f32, smooth: bool) {
        // between two observations only the last target matters
        if let Some(p) = self.prev {
            self.start = p;
            self.fuzzy = false;
        } else {
            // unobserved: the start is somewhere in the parameter's range
            self.start = if v > 0.0 { -1.0 } else { 1.0 };
            self.fuzzy = true;
        }
        self.target = v;
        self.since = 0;
        self.smooth = smooth;
    }
}

struct W {
    np: usize,
    recs: Vec<ProbeRef>,
    par: HashMap<(usize, usize), P>,
    atoms: HashMap<usize, f32>,
    amts: HashMap<(usize, usize), f32>,
    edges: Vec<E>,
    placed: Vec<bool>,
    tests: Vec<bool>,
    created: Vec<bool>,
}

fn pid(i: usize, inp: usize) -> ParamId {
    NodeId::Rust1x1(i as u8).param_by_idx(inp).expect("harness: param")
}

/// Builds a graph: some probes, some Test nodes feeding probes, some filler nodes that shift
/// the positions of everything else.
fn build(rng: &mut Rng, e: &mut Eng, w: &mut W, first_after_clear: bool) -> Res {
    let (gw, gh) = e.m.size();
    w.edges.clear();
    let mut nodes = vec![];
    for i in 0..w.np {
        w.placed[i] = rng.chance(0.8);
        if w.placed[i] {
            nodes.push(NodeId::Rust1x1(i as u8));
        }
    }
    for t in 0..w.tests.len() {
        w.tests[t] = false;
    }
    for i in 0..w.np {
        if !w.placed[i] {
            continue;
        }
        if rng.chance(0.4) {
            let t = rng.below(w.tests.len());
            w.tests[t] = true;
            w.edges.push(E { from: NodeId::Test(t as u8), out: 0, to: NodeId::Rust1x1(i as u8), inp: rng.below(5) as u8 });
        }
    }
    for _ in 0..rng.below(5) {
        nodes.push(match rng.below(4) {
            0 => NodeId::Mix3(rng.below(4) as u8),
            1 => NodeId::Amp(rng.below(6) as u8),
            2 => NodeId::Mux9(rng.below(3) as u8),
            _ => NodeId::PVerb(0),
        });
    }
    let lay = match layout(rng, gw, gh, &nodes, &w.edges) {
        Some(l) => l,
        None => return fail("harness", "no layout".into()),
    };
    lay.apply(&mut e.m);
    let r = e.m.sync();
    ensure!(r.is_ok(), "sync", "sync failed {:?}", r);
    let _ = first_after_clear;
    // lower instances are created along with higher ones
    if let Some(hi) = (0..w.np).rev().find(|i| w.placed[*i]) {
        for i in 0..=hi {
            if !w.created[i] {
                w.created[i] = true;
                for k in 0..5 {
                    let t = w.par[&(i, k)].target;
                    w.par.insert((i, k), P::fixed(t));
                }
            }
        }
    }
    Ok(())
}

fn give_probes(e: &mut Eng, w: &W) {
    for i in 0..w.np {
        let rec = w.recs[i].clone();
        e.m.set_dynamic_node1x1(i, Box::new(Probe { rec, fun: Box::new(|_i, o| o.fill(0.0)), append: false }));
    }
}

fn watch(e: &mut Eng, w: &mut W, n: usize, slope: u64, obs: &mut Obs) -> Res {
    for r in w.recs.iter() {
        let mut r = r.lock().unwrap();
        r.calls = 0;
    }
    e.block(n);
    let src: HashMap<(usize, usize), NodeId> = w.edges.iter().map(|e| ((e.to.instance() as usize, e.inp as usize), e.from)).collect();
    for i in 0..w.np {
        let rec = w.recs[i].lock().unwrap().clone();
        for inp in 0..5 {
            let p = w.par.get_mut(&(i, inp)).unwrap();
            let amt = w.amts.get(&(i, inp)).copied();
            let seen: Option<Vec<f32>> = if !w.placed[i] {
                None
            } else {
                ensure!(rec.calls == 1, "exec", "probe {} ran {} times", i, rec.calls);
                match src.get(&(i, inp)) {
                    None => Some(rec.ins[inp].clone()),
                    Some(t) => {
                        let av = w.atoms.get(&(t.instance() as usize)).copied().unwrap_or(0.0);
                        match amt {
                            None => {
                                for f in 0..n {
                                    ensure!(rec.ins[inp][f] == av, "setting",
                                        "Test({}) setting is {} but its reader hears {}", t.instance(), av, rec.ins[inp][f]);
                                }
                                obs.count("setting_samples", n as u64);
                                None
                            }
                            Some(a) => {
                                // param + amount * setting: settled parameters only
                                if p.since > slope + 2 {
                                    for f in 0..n {
                                        let want = p.target + a * av;
                                        ensure!((rec.ins[inp][f] - want).abs() < 1e-5, "amount",
                                            "probe {} input {}: parameter {} + amount {} * setting {} but hears {}", i, inp, p.target, a, av, rec.ins[inp][f]);
                                    }
                                    obs.count("amount_samples", n as u64);
                                }
                                None
                            }
                        }
                    }
                }
            };
            match seen {
                None => {
                    p.since = p.since.saturating_add(n as u64);
                    p.prev = if p.since > slope + 2 { Some(p.target) } else { None };
                }
                Some(v) => {
                    let d = p.target - p.start;
                    let eps = 2e-4 * (1.0 + d.abs());
                    let (lo, hi) = (p.start.min(p.target) - eps, p.start.max(p.target) + eps);
                    for (f, x) in v.iter().enumerate() {
                        p.since = p.since.saturating_add(1);
                        let who = || format!("parameter {} of probe {} ({} frames after it was set from {} to {}, previous sample {:?}) frame {}", PROBE_IN[inp], i, p.since, p.start, p.target, p.prev, f);
                        if p.since > slope + 2 {
                            ensure!(*x == p.target, "not-arrived", "{}: is {}, should have arrived", who(), x);
                        } else {
                            ensure!((*x >= lo && *x <= hi) || (p.fuzzy && x.abs() <= 1.0 + eps), "overshoot", "{}: {} is outside the range", who(), x);
                            if let Some(pv) = p.prev {
                                ensure!(p.fuzzy || (x - pv) * d.signum() >= -eps, "not-monotone", "{}: {} moves backwards", who(), x);
                                if p.smooth {
                                    ensure!((x - pv).abs() <= 4.0 * d.abs() / (slope as f32) + eps, "jump", "{}: jumps to {}", who(), x);
                                }
                            }
                            obs.count("moving_samples", 1);
                        }
                        p.prev = Some(*x);
                    }
                    obs.count("param_samples", v.len() as u64);
                }
            }
        }
    }
    Ok(())
}

fn case(rng: &mut Rng, obs: &mut Obs, burst: bool) -> Res {
    let np = if burst { 24 } else { rng.range(2, 9) as usize };
    let sr = *rng.pick(&[8000.0f32, 22050.0, 44100.0, 48000.0, 96000.0]);
    let slope = ((sr * 10.0) / 1000.0).ceil() as u64;
    let mut e = Eng::new(14, 14, sr);
    let mut w = W {
        np, recs: (0..np).map(|_| Default::default()).collect(), par: HashMap::new(),
        atoms: HashMap::new(), amts: HashMap::new(), edges: vec![], placed: vec![false; np], tests: vec![false; 4], created: vec![false; np],
    };
    let reset = |w: &mut W| {
        for i in 0..w.np {
            for k in 0..5 {
                w.par.insert((i, k), P::fixed(0.0));
            }
        }
        w.atoms.clear();
        w.amts.clear();
        w.created.iter_mut().for_each(|c| *c = false);
    };
    reset(&mut w);
    build(rng, &mut e, &mut w, true)?;
    give_probes(&mut e, &w);
    let mut fp = String::new();
    let steps = rng.range(10, 40);
    // number of parameters that might still hold a smoother, with their age in frames
    let mut inflight: HashMap<(usize, usize), u64> = HashMap::new();
    let mut since_batch = 0usize;
    for _ in 0..steps {
        let op = rng.below(if burst { 6 } else { 10 });
        match op {
            0 | 1 | 2 | 3 => {
                let n = if burst { rng.range(1, 130) } else { rng.range(1, 6) } as usize;
                for _ in 0..n {
                    if since_batch > 380 { break; }
                    let (i, k) = (rng.below(np), rng.below(5));
                    let v = if rng.chance(0.25) { *rng.pick(&[-1.0f32, 0.0, 1.0]) } else { rng.f(-1.0, 1.0) };
                    e.m.set_param(pid(i, k), SAtom::param(v));
                    since_batch += 1;
                    inflight.insert((i, k), 0);
                    let few = inflight.len() <= 34;
                    w.par.get_mut(&(i, k)).unwrap().set(v, few);
                    let got = e.m.get_param(&pid(i, k));
                    ensure!(got.as_ref().map(|a| a.f()) == Some(v), "read-back", "set {:?} to {} reads {:?}", pid(i, k), v, got);
                    obs.count("param_sets", 1);
                }
                fp.push_str(&format!("p{}", n));
            }
            4 => {
                let t = rng.below(4);
                let v = rng.f(-1.0, 1.0);
                e.m.set_param(NodeId::Test(t as u8).inp_param("p").unwrap(), SAtom::param(v));
                since_batch += 1;
                // a setting of a node that does not exist yet is remembered, too
                w.atoms.insert(t, v);
                obs.count("setting_sets", 1);
                fp.push('a');
            }
            5 => {
                let (i, k) = (rng.below(np), rng.below(5));
                let a = if rng.chance(0.2) { None } else { Some(rng.f(-1.0, 1.0)) };
                let r = e.m.set_param_modamt(pid(i, k), a);
                ensure!(r.is_ok(), "sync", "set_param_modamt failed {:?}", r);
                since_batch += 1;
                match a {
                    Some(a) => { w.amts.insert((i, k), a); }
                    None => { w.amts.remove(&(i, k)); }
                }
                ensure!(e.m.get_param_modamt(&pid(i, k)) == a, "read-back", "amount of {:?} reads {:?} not {:?}", pid(i, k), e.m.get_param_modamt(&pid(i, k)), a);
                obs.count("amount_sets", 1);
                fp.push('m');
            }
            6 | 7 => {
                build(rng, &mut e, &mut w, false)?;
                // probes whose node was created just now
                give_probes(&mut e, &w);
                since_batch += 1;
                obs.count("graph_edits", 1);
                fp.push('g');
            }
            8 => {
                // a completely new patch while parameters may still be moving
                e.m.clear();
                reset(&mut w);
                inflight.clear();
                build(rng, &mut e, &mut w, true)?;
                give_probes(&mut e, &w);
                since_batch += 2;
                obs.count("clears", 1);
                fp.push('c');
            }
            _ => {}
        }
        if rng.chance(0.75) || since_batch > 380 {
            for _ in 0..rng.range(1, 4) {
                let n = rng.range(1, MAXB as i64) as usize;
                watch(&mut e, &mut w, n, slope, obs)?;
                since_batch = 0;
                for (_, age) in inflight.iter_mut() { *age += n as u64; }
                inflight.retain(|_, age| *age < slope + 3 + MAXB as u64);
            }
        }
    }
    // finally everything has to settle
    for _ in 0..(slope as usize / MAXB + 3) {
        watch(&mut e, &mut w, MAXB, slope, obs)?;
    }
    for i in 0..np {
        for k in 0..5 {
            let p = w.par[&(i, k)];
            if let Some(g) = e.m.get_param(&pid(i, k)) {
                ensure!(g.f() == p.target, "read-back", "{:?} reads {:?} instead of {}", pid(i, k), g, p.target);
            }
        }
    }
    obs.nontrivial = obs.counters.get("moving_samples").copied().unwrap_or(0) > 100;
    obs.fingerprint = fp.clone();
    obs.sample = Some(json!({"probes": np, "sample_rate": sr, "ops": fp}));
    Ok(())
}

pub fn run(rep: &mut Report) {
    rep.wide = true;
    rep.rule = "a case is a random history of parameter, setting and amount changes, graph edits, clears and audio blocks; every sample of every unconnected parameter input is checked against the smoothing contract (range, monotone, no jump, arrival) and every setting/amount against its last value. Non-trivial: more than 100 samples observed in motion.".into();
    rep.assumptions.push("fewer than 400 changes between two audio blocks (the message queue holds 512)".into());
    rep.assumptions.push("steps are only required to be gradual while at most 34 parameters move at once (there are 40 smoothers)".into());
    let n = rep.opts.n(700, 20000);
    rep.run("histories", n, |rng, _c, obs| case(rng, obs, false));
    let n = rep.opts.n(200, 5000);
    rep.run("bursts", n, |rng, _c, obs| case(rng, obs, true));
}
