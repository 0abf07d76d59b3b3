//! C01 routing and ordering; C23 modulation semantics share the graph machinery.
use crate::core::*;
use crate::eng::*;
use crate::ensure;
use hexodsp::*;
use serde_json::json;
use std::collections::HashMap;

/// Random graph state the monitor compares the observed block against.
pub struct World {
    pub nprobes: usize,
    pub recs: Vec<ProbeRef>,
    pub edges: Vec<E>,
    pub nodes: Vec<NodeId>,
    /// (probe, input) -> current parameter value
    pub params: HashMap<(usize, usize), f32>,
    pub amts: HashMap<(usize, usize), f32>,
}

fn pid(i: usize, inp: usize) -> ParamId {
    NodeId::Rust1x1(i as u8).param_by_idx(inp).expect("harness: param")
}

/// Sources with several outputs and their observable constant/streamed output.
fn multi_sources() -> Vec<(NodeId, u8)> {
    vec![
        (NodeId::Inp(0), 0),
        (NodeId::Inp(0), 1),
        (NodeId::ExtA(0), 0),
        (NodeId::ExtA(0), 1),
        (NodeId::ExtA(0), 2),
        (NodeId::Test(0), 0),
    ]
}

pub struct Ext {}
impl hexodsp::nodes::ExternalParams for Ext {
    fn a1(&self) -> f32 {
        0.125
    }
    fn a2(&self) -> f32 {
        0.25
    }
    fn a3(&self) -> f32 {
        0.5
    }
}

pub fn random_edges(rng: &mut Rng, np: usize, dens: f32, max_edges: usize) -> Vec<E> {
    // random linear order, edges only forward in it
    let mut ord: Vec<usize> = (0..np).collect();
    rng.shuffle(&mut ord);
    let mut edges = vec![];
    for (pos, &i) in ord.iter().enumerate() {
        for inp in 0..5u8 {
            if !rng.chance(dens) {
                continue;
            }
            let to = NodeId::Rust1x1(i as u8);
            if pos == 0 || rng.chance(0.12) {
                let (n, o) = *rng.pick(&multi_sources());
                edges.push(E { from: n, out: o, to, inp });
            } else {
                // long chains and fan out: prefer the direct predecessor sometimes
                let j = if rng.chance(0.3) { ord[pos - 1] } else { ord[rng.below(pos)] };
                edges.push(E { from: NodeId::Rust1x1(j as u8), out: 0, to, inp });
            }
            if edges.len() >= max_edges {
                return edges;
            }
        }
    }
    edges
}

pub fn check_block(w: &World, n: usize, il: &[f32], ir: &[f32], calls: u64, amt_ok: bool) -> Result<u64, Fail> {
    let mut checked = 0;
    let mut outs: HashMap<(NodeId, u8), Vec<f32>> = HashMap::new();
    for i in 0..w.nprobes {
        let r = w.recs[i].lock().unwrap();
        ensure!(r.calls == calls, "exec-count",
            "node Rust1x1({}) ran {} times, expected {}", i, r.calls, calls);
        ensure!(r.out.len() == n, "frame-count", "node {} got {} frames of {}", i, r.out.len(), n);
        outs.insert((NodeId::Rust1x1(i as u8), 0), r.out.clone());
    }
    outs.insert((NodeId::Inp(0), 0), il[0..n].to_vec());
    outs.insert((NodeId::Inp(0), 1), ir[0..n].to_vec());
    outs.insert((NodeId::ExtA(0), 0), vec![0.125; n]);
    outs.insert((NodeId::ExtA(0), 1), vec![0.25; n]);
    outs.insert((NodeId::ExtA(0), 2), vec![0.5; n]);
    outs.insert((NodeId::Test(0), 0), vec![0.0; n]);
    let mut src: HashMap<(usize, usize), (NodeId, u8)> = HashMap::new();
    for e in w.edges.iter() {
        if let NodeId::Rust1x1(i) = e.to {
            src.insert((i as usize, e.inp as usize), (e.from, e.out));
        }
    }
    for i in 0..w.nprobes {
        let r = w.recs[i].lock().unwrap();
        for inp in 0..5 {
            let p = w.params.get(&(i, inp)).copied().unwrap_or(0.0);
            match src.get(&(i, inp)) {
                None => {
                    for f in 0..n {
                        ensure!(r.ins[inp][f] == p, "unconnected",
                            "unconnected input {} of Rust1x1({}) frame {} sees {} instead of its parameter {}",
                            PROBE_IN[inp], i, f, r.ins[inp][f], p);
                    }
                }
                Some(s) => {
                    let so = &outs[s];
                    let amt = w.amts.get(&(i, inp)).copied();
                    if amt.is_some() && !amt_ok {
                        continue;
                    }
                    for f in 0..n {
                        let exp = match amt {
                            None => so[f],
                            Some(a) => p + a * so[f],
                        };
                        ensure!((r.ins[inp][f] - exp).abs() <= 1e-6 * (1.0 + exp.abs()) && (amt.is_some() || !matches!(s.0, NodeId::Rust1x1(_)) || r.ins[inp][f] == exp), "routing",
                            "input {} of Rust1x1({}) (from {:?} out {}, amount {:?}, param {}) frame {}: sees {} expected {}",
                            PROBE_IN[inp], i, s.0, s.1, amt, p, f, r.ins[inp][f], exp);
                    }
                }
            }
            checked += n as u64;
        }
    }
    Ok(checked)
}

/// `mods`: also use modulation amounts heavily.
pub fn scenario(rng: &mut Rng, obs: &mut Obs, mods: bool, big: bool) -> Res {
    let np = if big { rng.range(40, 120) as usize } else { rng.range(2, 14) as usize };
    let (gw, gh) = if big { (40, 40) } else { (rng.range(10, 16) as usize, rng.range(9, 16) as usize) };
    let sr = *rng.pick(&[44100.0, 48000.0, 8000.0, 96000.0]);
    let mut e = Eng::new(gw, gh, sr);
    e.ex.set_external_params(std::sync::Arc::new(Ext {}));
    let mut w = World {
        nprobes: np, recs: vec![], edges: vec![], nodes: vec![],
        params: HashMap::new(), amts: HashMap::new(),
    };
    for i in 0..np {
        let id = i as f32;
        let mut t = 0u64;
        let seed = rng.u64();
        // a node with its own unmistakable signal, which also depends on what it hears
        let (node, rec) = probe_fn(false, move |ins, out| {
            for f in 0..out.len() {
                t += 1;
                let own = ((((t.wrapping_mul(0x9E3779B97F4A7C15) ^ seed) >> 40) & 0xffff) as f32) / 65536.0;
                let heard = ins[0][f] * 0.31 + ins[1][f] * 0.23 - ins[2][f] * 0.17 + ins[3][f] * 0.11 - ins[4][f] * 0.07;
                out[f] = own + 0.01 * id + heard;
            }
        });
        e.m.set_dynamic_node1x1(i, node);
        w.recs.push(rec);
    }
    let mut nodes: Vec<NodeId> = (0..np).map(|i| NodeId::Rust1x1(i as u8)).collect();
    nodes.push(NodeId::Inp(0));
    nodes.push(NodeId::ExtA(0));
    nodes.push(NodeId::Test(0));
    let edits = if big { 2 } else { rng.range(2, 6) };
    let mut fp = String::new();
    let mut calls = 0u64;
    for edit in 0..edits {
        let dens = if big { 0.5 } else { rng.f(0.1, 0.9) };
        w.edges = random_edges(rng, np, dens, gw * gh / 4);
        let lay = match layout(rng, gw, gh, &nodes, &w.edges) {
            Some(l) => l,
            None => continue,
        };
        // amounts may be given before or after the edge exists
        if mods {
            for _ in 0..rng.range(1, 12) {
                let (i, inp) = (rng.below(np), rng.below(5));
                let a = match rng.below(6) { 0 => None, 1 => Some(0.0), 2 => Some(1.0), 3 => Some(-1.0), _ => Some(rng.f(-1.0, 1.0)) };
                let _ = e.m.set_param_modamt(pid(i, inp), a);
                match a { Some(a) => { w.amts.insert((i, inp), a); } None => { w.amts.remove(&(i, inp)); } }
                obs.count("amount_changes", 1);
            }
        }
        let l2 = &lay;
        let r = e.m.change_matrix(|m| l2.apply(m));
        ensure!(r.is_ok(), "legal-refused", "acyclic graph refused: {:?} edges={:?}", r, w.edges);
        let r = e.m.sync();
        ensure!(r.is_ok(), "legal-refused", "sync refused an acyclic graph: {:?}", r);
        if edit == 0 {
            // probes were announced before their first use
        }
        fp.push_str(&format!("{:?};", w.edges.iter().map(|e| (e.from.to_string(), e.out, e.to.to_string(), e.inp)).collect::<Vec<_>>()));
        // parameters
        let nparam = rng.below(8);
        for _ in 0..nparam {
            let (i, inp) = (rng.below(np), rng.below(5));
            let v = if rng.chance(0.2) { *rng.pick(&[-1.0f32, 1.0, 0.0]) } else { rng.f(-1.0, 1.0) };
            e.m.set_param(pid(i, inp), SAtom::param(v));
            w.params.insert((i, inp), v);
        }
        if mods && rng.chance(0.7) {
            for _ in 0..rng.range(1, 8) {
                let (i, inp) = (rng.below(np), rng.below(5));
                let a = match rng.below(5) { 0 => None, 1 => Some(0.0), _ => Some(rng.f(-1.0, 1.0)) };
                let _ = e.m.set_param_modamt(pid(i, inp), a);
                match a { Some(a) => { w.amts.insert((i, inp), a); } None => { w.amts.remove(&(i, inp)); } }
                obs.count("amount_changes", 1);
            }
        }
        // let the smoothing finish (when parameters changed), then watch blocks; without
        // parameter changes the very first block after the edit is already watched.
        let settle = nparam > 0;
        if settle {
            let frames = (sr * 0.0125) as usize + 2 * MAXB;
            let nb = frames / MAXB + 1;
            for _ in 0..nb {
                e.block(MAXB);
                calls += 1;
            }
        }
        for _ in 0..rng.range(2, 5) {
            let n = rng.range(1, MAXB as i64) as usize;
            for f in 0..n {
                e.ctx.inp[0][f] = rng.f(-1.0, 1.0);
                e.ctx.inp[1][f] = rng.f(-1.0, 1.0);
            }
            e.block(n);
            calls += 1;
            let (il, ir) = (e.ctx.inp[0].clone(), e.ctx.inp[1].clone());
            let c = check_block(&w, n, &il, &ir, calls, true)?;
            obs.count("input_samples_compared", c);
            obs.count("blocks", 1);
        }
        obs.count("edges", w.edges.len() as u64);
        obs.count("edits", 1);
        if mods {
            let ma = w.edges.iter().filter(|e| if let NodeId::Rust1x1(i) = e.to { w.amts.contains_key(&(i as usize, e.inp as usize)) } else { false }).count();
            obs.count("modulated_edges", ma as u64);
            if ma > 0 { obs.nontrivial = true; }
        } else if w.edges.len() > 1 {
            obs.nontrivial = true;
        }
    }
    obs.fingerprint = fp.clone();
    if w.edges.len() < 12 && w.edges.len() > 2 {
        obs.sample = Some(json!({"nodes": np, "last_edges": w.edges.iter().map(|e| format!("{} out{} -> {} in{}", e.from, e.out, e.to, e.inp)).collect::<Vec<_>>(), "edits": edits}));
    }
    Ok(())
}

/// One source heard by very many nodes.
fn fan_out(rng: &mut Rng, obs: &mut Obs) -> Res {
    let np = rng.range(30, 140) as usize;
    let mut e = Eng::new(40, 40, 44100.0);
    let mut w = World { nprobes: np, recs: vec![], edges: vec![], nodes: vec![], params: HashMap::new(), amts: HashMap::new() };
    for i in 0..np {
        let mut t = 0.0;
        let (node, rec) = probe_fn(false, move |ins, out| for f in 0..out.len() { t += 0.001; out[f] = t + i as f32 + 0.5 * ins[0][f]; });
        e.m.set_dynamic_node1x1(i, node);
        w.recs.push(rec);
    }
    for i in 1..np {
        w.edges.push(E { from: NodeId::Rust1x1(0), out: 0, to: NodeId::Rust1x1(i as u8), inp: rng.below(5) as u8 });
    }
    let lay = match layout(rng, 40, 40, &[], &w.edges) { Some(l) => l, None => return Ok(()) };
    let r = e.m.change_matrix(|m| lay.apply(m));
    ensure!(r.is_ok(), "legal-refused", "fan-out to {} refused: {:?}", np, r);
    let r = e.m.sync();
    ensure!(r.is_ok(), "legal-refused", "fan-out to {} refused: {:?}", np, r);
    for k in 0..2 {
        e.block(17);
        let z = vec![0.0; 17];
        let c = check_block(&w, 17, &z, &z, k + 1, true)?;
        obs.count("input_samples_compared", c);
    }
    obs.max("fan_out", np as u64 - 1);
    obs.nontrivial = true;
    obs.fingerprint = format!("{}", np);
    Ok(())
}

pub fn run_c01(rep: &mut Report) {
    rep.wide = true;
    rep.rule = "a case is a random acyclic graph of user supplied probe nodes plus multi-output source nodes, embedded on the grid, re-edited several times; every input slice every probe hears in every watched block is compared with the source output of the same block or the parameter. Non-trivial: more than one edge and at least two watched blocks.".into();
    rep.assumptions.push("graphs stay within 256 node instances".into());
    let n = rep.opts.n(900, 20000);
    rep.run("random-graphs", n, |rng, _c, obs| scenario(rng, obs, false, false));
    let n = rep.opts.n(16, 300);
    rep.run("large-graphs", n, |rng, _c, obs| scenario(rng, obs, false, true));
    let n = rep.opts.n(8, 60);
    rep.run("fan-out", n, |rng, _c, obs| fan_out(rng, obs));
    let n = rep.opts.n(300, 5000);
    rep.run("with-amounts", n, |rng, _c, obs| scenario(rng, obs, true, false));
}

pub fn run_c23(rep: &mut Report) {
    rep.wide = true;
    rep.rule = "a case is a random graph with modulation amounts set, changed, zeroed and removed before and after connecting; each watched input must equal parameter + amount * source sample by sample (source alone without an amount, parameter alone when unconnected). Non-trivial: at least one connected input with an amount was watched.".into();
    let n = rep.opts.n(4000, 20000);
    rep.run("amounts", n, |rng, _c, obs| scenario(rng, obs, true, false));
    let n = rep.opts.n(12, 200);
    rep.run("amounts-large", n, |rng, _c, obs| scenario(rng, obs, true, true));
}
