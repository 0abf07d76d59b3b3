//! C18: the same synthesizer described with the constructor API, with the chain builder and
//! by hand on the grid.
use crate::core::*;
use crate::ensure;
use crate::eng::*;
use crate::gen::*;
use hexodsp::build::*;
use hexodsp::synth_constructor::SynthError;
use hexodsp::*;
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

/// Description of the graph; everything is added through here to both sides.
#[derive(Clone, Default)]
struct Spec {
    nodes: Vec<NodeId>,
    edges: Vec<E>,
    /// current values in musical units, and the amounts
    vals: BTreeMap<ParamId, (f32, Option<f32>)>,
    sets: BTreeMap<ParamId, i64>,
}

struct Root(ConstructorNode);
impl ConstructorNodeBuilder for Root {
    fn id(&self) -> NodeId {
        self.0.node_id
    }
    fn build(&self) -> ConstructorNode {
        self.0.clone()
    }
}

fn mk(n: NodeId) -> ConstructorNode {
    ConstructorNode { node_id: n, ops: Rc::new(RefCell::new(vec![])) }
}

fn param_ops(c: &ConstructorNode, s: &Spec, only: Option<&HashSet<ParamId>>) {
    let n = c.node_id;
    let mut ops = c.ops.borrow_mut();
    for (p, (v, ma)) in s.vals.iter() {
        if p.node_id() == n && only.map(|o| o.contains(p)).unwrap_or(true) {
            ops.push(match ma {
                Some(ma) => ConstructorOp::SetDenormModAmt(p.name().into(), *v, *ma),
                None => ConstructorOp::SetDenorm(p.name().into(), *v),
            });
        }
    }
    for (p, v) in s.sets.iter() {
        if p.node_id() == n && only.map(|o| o.contains(p)).unwrap_or(true) {
            ops.push(ConstructorOp::SetSetting(p.name().into(), *v));
        }
    }
}

/// One tree per sink of the graph; nodes used several times are shared or written out again.
fn constr(rng: &mut Rng, s: &Spec, edges: &[E]) -> Vec<ConstructorNode> {
    let mut made: HashMap<NodeId, ConstructorNode> = HashMap::new();
    for n in s.nodes.iter() {
        let c = mk(*n);
        param_ops(&c, s, None);
        made.insert(*n, c);
    }
    // (edges lead from earlier to later nodes)
    for n in s.nodes.iter() {
        for e in edges.iter().filter(|e| e.to == *n) {
            let src = if rng.chance(0.8) {
                made[&e.from].clone()
            } else {
                // the same node written again
                ConstructorNode { node_id: e.from, ops: Rc::new(RefCell::new(made[&e.from].ops.borrow().clone())) }
            };
            let inp = n.inp_name_by_idx(e.inp).unwrap().to_string();
            let out = e.from.out_name_by_idx(e.out).unwrap().to_string();
            made[n].ops.borrow_mut().push(ConstructorOp::Input(inp, src, out));
        }
    }
    let mut roots: Vec<ConstructorNode> = s.nodes.iter().filter(|n| !edges.iter().any(|e| e.from == **n)).map(|n| made[n].clone()).collect();
    rng.shuffle(&mut roots);
    roots
}

struct Side {
    ex: NodeExecutor,
    ctx: Ctx,
}
impl Side {
    fn block(&mut self, n: usize) -> (Vec<f32>, Vec<f32>) {
        self.ex.process_graph_updates();
        self.ctx.n = n;
        for ch in 0..2 {
            self.ctx.out[ch].iter_mut().for_each(|v| *v = 0.0);
        }
        self.ex.process(&mut self.ctx);
        (self.ctx.out[0][0..n].to_vec(), self.ctx.out[1][0..n].to_vec())
    }
}

fn stable_types() -> Vec<NodeId> {
    // (the feedback nodes act on each other beside the graph; of several outputs the last one is heard)
    all_types().into_iter().filter(|n| !["fbwr", "fbrd", "scope", "out"].contains(&n.name())).collect()
}

fn rand_val(rng: &mut Rng, p: ParamId) -> f32 {
    p.denorm(rand_param(rng, p))
}

fn rand_mod(rng: &mut Rng) -> Option<f32> {
    let r = rng.f(-1.0, 1.0);
    *rng.pick(&[None, None, Some(1.0), Some(0.0), Some(r)])
}

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one random graph described with the constructor API and placed by hand, rendered side by side with updates, re-uploads and refused uploads in between, or one chain placed by the chain builder on a used grid, compared cell by cell, value by value and by its sound".into();
    rep.assumptions = vec![
        "nodes of instance 0..2 (the start phase of further instances is random)".into(),
        "without feedback and scope nodes (they act beside the graph)".into(),
        "chains that fit on the grid; grid synchronised before a chain is placed".into(),
    ];
    let types = stable_types();
    let n = rep.opts.n(250, 6000);
    rep.run("constructor", n, |rng, case, obs| {
        let k = rng.range(1, 8) as usize;
        let (mut nodes, mut edges) = rand_graph(rng, &types, k, true);
        nodes.retain(|n| n.instance() < 3);
        edges.retain(|e| e.from.instance() < 3 && e.to.instance() < 3);
        let mut s = Spec { nodes: nodes.clone(), ..Default::default() };
        for n in nodes.iter() {
            for p in params_of(*n) {
                if rng.chance(0.5) {
                    let v = rand_val(rng, p);
                    s.vals.insert(p, (v, rand_mod(rng)));
                }
            }
            for p in atoms_of(*n) {
                if let SAtom::Setting(_) = p.as_atom_def() {
                    if n.name() == "fvafilt" && p.name() == "ftype" {
                        continue;
                    }
                    if rng.chance(0.5) {
                        s.sets.insert(p, rand_atom(rng, p, &[]).i());
                    }
                }
            }
        }
        let mut sc = SynthConstructor::new();
        let mut ex = match sc.executor() {
            Some(e) => e,
            None => return fail("executor", "no executor".into()),
        };
        ensure!(sc.executor().is_none(), "executor", "two executors");
        ex.no_logging();
        ex.set_sample_rate(44100.0);
        let mut c = Side { ex, ctx: Ctx::new() };
        let (w, h) = (14usize, 14usize);
        let mut e = Eng::new(w, h, 44100.0);
        // a part of the connections may come later
        let late: Vec<E> = edges.iter().copied().filter(|_| rng.chance(0.2)).collect();
        let mut cur: Vec<E> = edges.iter().copied().filter(|e| !late.contains(e)).collect();
        let upload = |rng: &mut Rng, sc: &mut SynthConstructor, s: &Spec, cur: &[E]| -> Res {
            for r in constr(rng, s, cur) {
                if let Err(err) = sc.upload(&Root(r)) {
                    return fail("refused", format!("a legal graph was refused: {:?}", err));
                }
            }
            Ok(())
        };
        let by_hand = |rng: &mut Rng, e: &mut Eng, s: &Spec, cur: &[E]| -> Res {
            let lay = match layout(rng, w, h, &s.nodes, cur) {
                Some(l) => l,
                None => return fail("harness", "no room".into()),
            };
            lay.apply(&mut e.m);
            if e.m.sync().is_err() {
                return fail("sync", "a legal graph was refused on the grid".into());
            }
            Ok(())
        };
        upload(rng, &mut sc, &s, &cur)?;
        for (p, (v, ma)) in s.vals.iter() {
            e.m.set_param(*p, SAtom::param(p.norm(*v)));
            if ma.is_some() {
                let _ = e.m.set_param_modamt(*p, *ma);
            }
        }
        for (p, v) in s.sets.iter() {
            e.m.set_param(*p, SAtom::setting(*v));
        }
        by_hand(rng, &mut e, &s, &cur)?;
        let mut loud = 0u64;
        let mut log: Vec<String> = vec![];
        let steps = rng.range(2, 7);
        for step in 0..steps {
            for _ in 0..rng.range(1, 12) {
                let n = if rng.chance(0.7) { 64 } else { rng.range(1, 128) as usize };
                for ch in 0..2 {
                    for f in 0..n {
                        let v = rng.f(-0.7, 0.7);
                        c.ctx.inp[ch][f] = v;
                        e.ctx.inp[ch][f] = v;
                    }
                }
                let (a, b) = c.block(n);
                let (l, r) = e.block(n);
                if let Some(i) = bits_eq(&a, l).or(bits_eq(&b, r)) {
                    return fail("audio", format!("after {:?} the sound differs at frame {}: {} {} versus {} {} by hand (nodes {:?})", log, i, a[i], b[i], l[i], r[i], s.nodes));
                }
                loud += a.iter().chain(b.iter()).filter(|v| **v != 0.0).count() as u64;
                obs.count("frames_compared", n as u64);
            }
            if step + 1 == steps {
                break;
            }
            match rng.below(6) {
                0 | 1 | 2 => {
                    // update some parameters
                    let mut ch: HashSet<ParamId> = HashSet::new();
                    let n = *rng.pick(&s.nodes);
                    for p in params_of(n) {
                        if rng.chance(0.4) {
                            let v = rand_val(rng, p);
                            let old = s.vals.get(&p).and_then(|v| v.1);
                            let ma = if rng.chance(0.6) { old } else { rand_mod(rng) };
                            s.vals.insert(p, (v, ma));
                            ch.insert(p);
                        }
                    }
                    for p in atoms_of(n) {
                        if let (SAtom::Setting(_), true) = (p.as_atom_def(), rng.chance(0.3)) {
                            if n.name() == "fvafilt" && p.name() == "ftype" {
                                continue;
                            }
                            s.sets.insert(p, rand_atom(rng, p, &[]).i());
                            ch.insert(p);
                        }
                    }
                    let node = mk(n);
                    param_ops(&node, &s, Some(&ch));
                    let again = match sc.update_params(&Root(node)) {
                        Ok(b) => b,
                        Err(err) => return fail("update", format!("updating parameters failed: {:?}", err)),
                    };
                    let mut rebuilt = false;
                    let mut chv: Vec<ParamId> = ch.into_iter().collect();
                    chv.sort();
                    for p in chv {
                        if p.is_atom() {
                            if e.m.get_param(&p) != Some(SAtom::setting(s.sets[&p])) {
                                e.m.set_param(p, SAtom::setting(s.sets[&p]));
                            }
                            continue;
                        }
                        let (v, ma) = s.vals[&p];
                        let nv = SAtom::param(p.norm(v));
                        let old = e.m.get_param_modamt(&p);
                        if e.m.get_param(&p) != Some(nv.clone()) || old != ma {
                            e.m.set_param(p, nv);
                        }
                        if old != ma {
                            rebuilt |= old.is_some() != ma.is_some();
                            let _ = e.m.set_param_modamt(p, ma);
                        }
                    }
                    ensure!(again == rebuilt, "reupload", "update_params reports {}, although amounts appeared or vanished: {}", again, rebuilt);
                    log.push(format!("update {}", n));
                    obs.count("updates", 1);
                }
                3 => {
                    // add the late connections
                    cur = edges.clone();
                    upload(rng, &mut sc, &s, &cur)?;
                    by_hand(rng, &mut e, &s, &cur)?;
                    log.push("connect".into());
                    obs.count("reuploads", 1);
                }
                4 => {
                    // upload once more without a change
                    upload(rng, &mut sc, &s, &cur)?;
                    log.push("again".into());
                    obs.count("reuploads", 1);
                }
                _ => {
                    // a cycle: refused, and nothing changes
                    let cand: Vec<E> = cur.iter().copied().filter(|e| n_outs(e.to) > 0 && !params_of(e.from).is_empty()).collect();
                    if cand.is_empty() {
                        continue;
                    }
                    let ed = *rng.pick(&cand);
                    let (a, b) = (mk(ed.from), mk(ed.to));
                    let free: Vec<ParamId> = params_of(ed.from).into_iter().filter(|p| !cur.iter().any(|e| e.to == ed.from && e.inp == p.inp())).collect();
                    let p = if free.is_empty() { continue } else { *rng.pick(&free) };
                    let oname = ed.to.out_name_by_idx(0).unwrap().to_string();
                    b.ops.borrow_mut().push(ConstructorOp::Input(ed.to.inp_name_by_idx(ed.inp).unwrap().into(), a.clone(), ed.from.out_name_by_idx(ed.out).unwrap().into()));
                    let closed = rng.chance(0.5);
                    let bb = if closed { b.clone() } else { mk(ed.to) };
                    a.ops.borrow_mut().push(ConstructorOp::Input(p.name().into(), bb, oname));
                    match sc.upload(&Root(if rng.chance(0.5) { b.clone() } else { a.clone() })) {
                        // (the second way to write it may only show one half of the cycle, but the
                        // other half is uploaded already)
                        Err(SynthError::CycleDetected) => {}
                        r => return fail("cycle", format!("a cycle was answered by {:?}", r)),
                    }
                    // break the reference loop of the description
                    a.ops.borrow_mut().clear();
                    b.ops.borrow_mut().clear();
                    log.push("cycle".into());
                    obs.count("cycles_refused", 1);
                }
            }
        }
        obs.count("nonsilent", (loud > 0) as u64);
        obs.nontrivial = s.nodes.len() > 1;
        obs.fingerprint = format!("{:x}", hash64(&format!("{:?}{:?}{:?}{:?}", s.nodes, edges, s.vals.values().collect::<Vec<_>>(), log)));
        if case < 2 {
            obs.sample = Some(json!({"nodes": format!("{:?}", s.nodes), "edges": edges.len(), "values": s.vals.len(), "steps": log}));
        }
        Ok(())
    });
    typed(rep);
    chains(rep);
}

/// The typed builder functions describe what they say.
fn typed(rep: &mut Report) {
    let n = rep.opts.n(40, 400);
    rep.run("typed", n, |rng, _case, obs| {
        let f = rng.f(50.0, 4000.0);
        let v = rng.f(0.0, 1.0);
        let ma = rng.f(-1.0, 1.0);
        let i = rng.below(3) as u8;
        let osc = sin(i).set().freq(f);
        let lfo = tslfo(i).set().time(50.0);
        let filt = sfilter(i).set().freq(f * 0.5).set().ftype(3).set_mod().res(v, ma).input().inp(&osc.output().sig()).input().res(&lfo.output().sig());
        let g = out(0).set().vol(v).input().ch1(&filt.output().sig()).input().ch2(&osc.output().sig());
        let mut e = Eng::new(8, 8, 44100.0);
        let (s, l, fi, o) = (NodeId::Sin(i), NodeId::TsLFO(i), NodeId::SFilter(i), NodeId::Out(0));
        e.set_denorm(s, "freq", f);
        e.set_denorm(l, "time", 50.0);
        e.set_denorm(fi, "freq", f * 0.5);
        e.seti(fi, "ftype", 3);
        e.set_denorm(fi, "res", v);
        let _ = e.m.set_param_modamt(fi.inp_param("res").unwrap(), Some(ma));
        e.set_denorm(o, "vol", v);
        place_edges(&mut e.m, &[], &[edge(s, "sig", fi, "inp"), edge(l, "sig", fi, "res"), edge(fi, "sig", o, "ch1"), edge(s, "sig", o, "ch2")]);
        ensure!(e.m.sync().is_ok(), "sync", "refused");
        let mut sc = SynthConstructor::new();
        let mut ex = sc.executor().unwrap();
        ex.no_logging();
        ex.set_sample_rate(44100.0);
        let mut c = Side { ex, ctx: Ctx::new() };
        if rng.chance(0.3) {
            // used before for something else
            let other = out(0).input().ch1(&noise(0).output().sig());
            ensure!(sc.upload(&other).is_ok(), "upload", "refused");
            c.block(64);
            sc.clear();
            c.block(64);
        }
        ensure!(sc.upload(&g).is_ok(), "upload", "refused");
        let mut loud = 0;
        for k in 0..30 {
            if k == 12 {
                let nf = f * 0.5;
                ensure!(sc.update_params(&sin(i).set().freq(nf)).ok() == Some(false), "update", "a value change needs a new upload");
                e.set_denorm(s, "freq", nf);
            }
            let (a, b) = c.block(64);
            let (l, r) = e.block(64);
            if let Some(q) = bits_eq(&a, l).or(bits_eq(&b, r)) {
                return fail("typed-audio", format!("block {} frame {}: {} {} versus {} {}", k, q, a[q], b[q], l[q], r[q]));
            }
            loud += a.iter().chain(b.iter()).filter(|v| **v != 0.0).count();
            obs.count("frames_compared", 64);
        }
        // feedback access
        sc.poll();
        e.m.update_filters();
        let idx = s.out("sig").unwrap();
        ensure!(sc.output_feedback(&s, idx).map(|v| v.to_bits()) == e.m.out_fb_for(&s, idx).map(|v| v.to_bits()), "feedback", "{:?} versus {:?}", sc.output_feedback(&s, idx), e.m.out_fb_for(&s, idx));
        ensure!(sc.led_value(&s) == e.m.led_value_for(&s) && sc.phase_value(&l) == e.m.phase_value_for(&l), "led", "led or phase values differ");
        // closing a loop with the typed functions is refused, too
        let a = amp(i);
        let b = amp(i + 1).input().inp(&a.output().sig());
        let a = a.input().att(&b.output().sig());
        let r = sc.upload(&out(0).input().ch1(&a.output().sig()));
        ensure!(r == Err(SynthError::CycleDetected), "cycle", "a cycle was answered by {:?}", r);
        a.build().ops.borrow_mut().clear();
        // a long line of nodes, each using the former twice
        let mut last = ax1(0);
        for k in 1..60u8 {
            last = ax1(k).input().inp(&last.output().sig()).input().att(&last.output().sig());
        }
        ensure!(sc.upload(&out(0).input().ch1(&last.output().sig())).is_ok(), "upload", "a long line of nodes is refused");
        obs.nontrivial = loud > 0;
        obs.fingerprint = format!("{} {} {}", f, v, i);
        Ok(())
    });
}
fn ax1(i: u8) -> Amp {
    amp(i)
}

fn chains(rep: &mut Report) {
    let types = stable_types();
    let dirs = [CellDir::TR, CellDir::BR, CellDir::B, CellDir::BL, CellDir::TL, CellDir::T];
    let n = rep.opts.n(400, 8000);
    rep.run("chain", n, move |rng, case, obs| {
        let (w, h) = *rng.pick(&[(10usize, 10usize), (16, 8), (7, 13)]);
        let mut e = Eng::new(w, h, 44100.0);
        let mut hand: Vec<(usize, usize, Cell)> = vec![];
        let mut vals: BTreeMap<ParamId, SAtom> = BTreeMap::new();
        let chains = rng.range(1, 3);
        let mut desc = vec![];
        for _ in 0..chains {
            let dir = *rng.pick(&dirs);
            let k = rng.range(1, 5) as usize;
            // where it leads
            let (sx, sy) = (rng.below(w), rng.below(h));
            let mut path = vec![];
            let mut p = (sx as i64, sy as i64);
            for _ in 0..k {
                path.push(p);
                p = hex_step(dir, p.0, p.1);
            }
            if path.iter().any(|p| p.0 < 0 || p.1 < 0 || p.0 >= w as i64 || p.1 >= h as i64) {
                continue;
            }
            let path: Vec<(usize, usize)> = path.iter().map(|p| (p.0 as usize, p.1 as usize)).collect();
            if path.iter().any(|p| hand.iter().any(|c| (c.0, c.1) == *p)) {
                continue;
            }
            let (idir, odir) = if dir.is_output() { (dir.flip(), dir) } else { (dir, dir.flip()) };
            let mut ch = MatrixCellChain::new(dir);
            let mut want: Vec<(NodeId, Option<u8>, Option<u8>, BTreeMap<&'static str, SAtom>)> = vec![];
            for i in 0..k {
                let end = if dir.is_output() { i + 1 == k } else { i == 0 };
                let t = loop {
                    if end && rng.chance(0.7) && !hand.iter().any(|c| c.2.node_id() == NodeId::Out(0)) {
                        break NodeId::Out(0);
                    }
                    let t = if rng.chance(0.3) && i > 0 { want[rng.below(i)].0 } else { *rng.pick(&types) };
                    if t != NodeId::Nop && !params_of(t).is_empty() && n_outs(t) > 0 {
                        break t.to_instance(0);
                    }
                };
                let ins = params_of(t);
                let ip = ins[rng.below(ins.len())];
                let (mut wi, mut wo) = (None, None);
                let form = rng.below(4);
                if n_outs(t) == 0 || form == 0 {
                    ch.node_inp(t.name(), ip.name());
                    wi = Some(ip.inp());
                } else {
                    let oi = rng.below(n_outs(t)) as u8;
                    let on = t.out_name_by_idx(oi).unwrap();
                    match form {
                        1 => {
                            ch.node_out(t.name(), on);
                            wo = Some(oi);
                        }
                        2 => {
                            ch.node(t.name());
                        }
                        _ => {
                            ch.node_io(t.name(), ip.name(), on);
                            wi = Some(ip.inp());
                            wo = Some(oi);
                        }
                    }
                }
                want.push((t, wi, wo, BTreeMap::new()));
                for _ in 0..rng.below(3) {
                    // values for this or for an earlier node
                    let j = if rng.chance(0.7) { i } else { rng.below(i + 1) };
                    ch.params_for_idx(j);
                    let t = want[j].0;
                    let ps = params_of(t);
                    let at: Vec<ParamId> = atoms_of(t).into_iter().filter(|p| matches!(p.as_atom_def(), SAtom::Setting(_)) && p.name() != "ftype").collect();
                    match rng.below(3) {
                        0 => {
                            let p = *rng.pick(&ps);
                            let v = rand_val(rng, p);
                            ch.set_denorm(p.name(), v);
                            want[j].3.insert(p.name(), SAtom::param(p.norm(v)));
                        }
                        1 => {
                            let p = *rng.pick(&ps);
                            let v = rand_param(rng, p);
                            ch.set_norm(p.name(), v);
                            want[j].3.insert(p.name(), SAtom::param(v));
                        }
                        _ => {
                            if !at.is_empty() {
                                let p = *rng.pick(&at);
                                let v = rand_atom(rng, p, &[]);
                                ch.set_atom(p.name(), v.clone());
                                want[j].3.insert(p.name(), v);
                            }
                        }
                    }
                }
            }
            // a chain with an error is not placed at all
            if rng.chance(0.25) {
                let mut bad = if rng.chance(0.5) { ch.clone() } else { MatrixCellChain::new(dir) };
                match rng.below(4) {
                    0 => {
                        bad.node_out("nonode", "sig").set_norm("freq", 0.1);
                    }
                    1 => {
                        bad.node_inp("sin", "nosuch").set_denorm("freq", 100.0);
                    }
                    2 => {
                        bad.node_out("sin", "nosuch");
                    }
                    _ => {
                        bad.node_out("sin", "sig").set_norm("nosuch", 0.2).node_inp("amp", "inp");
                    }
                }
                let before = crate::gen::view(&mut e.m, &hand.iter().map(|c| c.2.node_id()).collect::<Vec<_>>(), &[], &[], &[]);
                let r = bad.place(&mut e.m, sx, sy);
                ensure!(r.is_err(), "error", "a chain with unknown names was placed");
                let after = crate::gen::view(&mut e.m, &hand.iter().map(|c| c.2.node_id()).collect::<Vec<_>>(), &[], &[], &[]);
                if let Some((k, d)) = crate::gen::view_diff(&before, &after, 0.0) {
                    return fail("error", format!("a refused chain changed {}: {}", k, d));
                }
                obs.count("refused", 1);
            }
            if let Err(err) = ch.place(&mut e.m, sx, sy) {
                return fail("place", format!("{:?}", err));
            }
            let used: HashSet<NodeId> = hand.iter().map(|c| c.2.node_id()).collect();
            let mut mine: HashSet<NodeId> = HashSet::new();
            for (i, (t, wi, wo, v)) in want.iter().enumerate() {
                let (x, y) = path[i];
                let c = match e.m.get(x, y) {
                    Some(c) => *c,
                    None => return fail("cell", format!("no cell at {} {}", x, y)),
                };
                ensure!(c.node_id().eq_variant(t), "cell", "node {} of the chain at {} {} is {:?}, not {:?}", i, x, y, c, t);
                ensure!(!used.contains(&c.node_id()), "shared", "{} is in use already and was used for the chain again", c.node_id());
                ensure!(mine.insert(c.node_id()), "shared", "{} is there twice in the chain", c.node_id());
                for d in dirs.iter() {
                    let wp = if *d == idir { *wi } else if *d == odir { *wo } else { None };
                    ensure!(c.local_port_idx(*d) == wp, "port", "port {:?} of {:?} at {} {} is {:?}, not {:?}", d, c.node_id(), x, y, c.local_port_idx(*d), wp);
                }
                hand.push((x, y, c));
                for (name, val) in v.iter() {
                    vals.insert(c.node_id().inp_param(name).unwrap(), val.clone());
                }
            }
            desc.push(format!("{:?} {:?}", dir, want.iter().map(|w| w.0.name()).collect::<Vec<_>>()));
            obs.count("chains", 1);
            obs.count("cells", k as u64);
            if e.m.sync().is_err() {
                // (chains beside each other may happen to form a cycle)
                obs.count("cycle", 1);
                obs.nontrivial = true;
                obs.fingerprint = format!("{:x}", hash64(&format!("{:?}{:?}", desc, hand)));
                return Ok(());
            }
        }
        let mut cnt = 0;
        e.m.for_each(|_, _, c| cnt += !c.is_empty() as usize);
        ensure!(cnt == hand.len(), "count", "{} cells on the grid instead of {}", cnt, hand.len());
        // exactly the given values are set
        let mut all: Vec<NodeId> = hand.iter().map(|c| c.2.node_id()).collect();
        for n in all.clone() {
            all.push(n.to_instance(n.instance() + 1));
            all.push(n.to_instance(0));
        }
        for n in all {
            for p in params_of(n).into_iter().chain(atoms_of(n)) {
                let got = e.m.get_param(&p);
                let def = p.as_atom_def();
                match (vals.get(&p), got) {
                    (Some(v), Some(g)) if *v == g => {}
                    (None, None) => {}
                    (None, Some(g)) if g == def || SAtom::param(p.norm_def()) == g => {}
                    (w, g) => return fail("value", format!("{} of {} is {:?}, set was {:?}", p.name(), n, g, w)),
                }
                obs.count("values", 1);
            }
        }
        // and it sounds like the same by hand
        let mut b = Eng::new(w, h, 44100.0);
        for (p, v) in vals.iter() {
            b.m.set_param(*p, v.clone());
        }
        for (x, y, c) in hand.iter() {
            b.m.place(*x, *y, *c);
        }
        ensure!(b.m.sync().is_ok(), "sync", "refused by hand");
        // (the values of the chain arrive before its nodes are created)
        let fixed = hand.iter().all(|c| c.2.node_id().instance() < 3);
        let mut loud = 0;
        for k in 0..20 {
            let n = 64;
            for ch in 0..2 {
                for f in 0..n {
                    let v = rng.f(-0.7, 0.7);
                    b.ctx.inp[ch][f] = v;
                    e.ctx.inp[ch][f] = v;
                }
            }
            let (l, r) = e.block(n);
            let (l, r) = (l.to_vec(), r.to_vec());
            let (bl, br) = b.block(n);
            if let (true, Some(i)) = (fixed, bits_eq(&l, bl).or(bits_eq(&r, br))) {
                return fail("chain-audio", format!("block {} frame {}: {} {} versus {} {} by hand: {:?}", k, i, l[i], r[i], bl[i], br[i], desc));
            }
            loud += l.iter().chain(r.iter()).filter(|v| **v != 0.0).count();
            obs.count("frames_compared", n as u64);
        }
        obs.count("nonsilent", (loud > 0) as u64);
        obs.nontrivial = true;
        obs.fingerprint = format!("{:x}", hash64(&format!("{:?}{:?}", desc, hand)));
        if case < 2 {
            obs.sample = Some(json!(desc));
        }
        Ok(())
    });
}
