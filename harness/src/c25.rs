//! C25: observers, generation counter, getters, listings.
use crate::core::*;
use crate::ensure;
use crate::eng::*;
use crate::gen::*;
use hexodsp::nodes::{HxMidiEvent, HxTimedEvent};
use hexodsp::matrix::MatrixObserver;
use hexodsp::*;
use serde_json::json;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Prop(String),
    Monitor(NodeId, usize, usize),
    Param(String),
    Matrix,
    All,
    Midi(String),
}
struct Ob {
    ev: Mutex<Vec<Ev>>,
}
impl Ob {
    fn take(&self) -> Vec<Ev> {
        std::mem::take(&mut *self.ev.lock().unwrap())
    }
    fn put(&self, e: Ev) {
        self.ev.lock().unwrap().push(e)
    }
}
fn pname(p: &ParamId) -> String {
    format!("{}:{}", p.node_id(), p.name())
}
impl MatrixObserver for Ob {
    fn update_prop(&self, key: &str) {
        self.put(Ev::Prop(key.to_string()));
    }
    fn update_monitor(&self, c: &Cell) {
        self.put(Ev::Monitor(c.node_id(), c.pos().0, c.pos().1));
    }
    fn update_param(&self, p: &ParamId) {
        self.put(Ev::Param(pname(p)));
    }
    fn update_matrix(&self) {
        self.put(Ev::Matrix);
    }
    fn update_all(&self) {
        self.put(Ev::All);
    }
    fn midi_event(&self, e: HxMidiEvent) {
        self.put(Ev::Midi(format!("{:?}", e)));
    }
}

fn n_of(ev: &[Ev], f: impl Fn(&Ev) -> bool) -> usize {
    ev.iter().filter(|e| f(e)).count()
}

fn occupied(m: &Matrix) -> Vec<(usize, usize)> {
    let (w, h) = m.size();
    (0..w).flat_map(|x| (0..h).map(move |y| (x, y))).filter(|(x, y)| m.get_copy(*x, *y).map(|c| !c.is_empty()).unwrap_or(false)).collect()
}

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one matrix with an observer and a random history of changes (parameters, settings, modulation amounts, properties, cells, monitoring, clear, load, MIDI events); after each one the notifications, the generation counter, all getters and the listing are compared with a model".into();
    rep.assumptions = vec![
        "a change may be reported by update_all instead where everything changes (clear, load)".into(),
        "notifications beyond the required ones are allowed for other kinds of change, not for other parameters or properties".into(),
        "refused graphs (cycles) aren't part of this".into(),
    ];
    let n = rep.opts.n(250, 6000);
    rep.run("observer", n, |rng, _case, obs| {
        let mut e = Eng::new(8, 10, 44100.0);
        let ob = Arc::new(Ob { ev: Mutex::new(vec![]) });
        if rng.chance(0.5) {
            e.m.set_observer(Arc::new(Ob { ev: Mutex::new(vec![]) }));
        }
        e.m.set_observer(ob.clone());
        let types = all_types();
        let mut nodes: Vec<NodeId> = (0..rng.range(2, 6)).map(|_| rng.pick(&types).to_instance(rng.below(3) as usize)).collect();
        nodes.dedup();
        let mut placed: Vec<NodeId> = vec![];
        let mut used: Vec<ParamId> = vec![];
        let mut params: HashMap<String, (ParamId, SAtom)> = HashMap::new();
        let mut mods: HashMap<String, (ParamId, Option<f32>)> = HashMap::new();
        let mut props: HashMap<String, SAtom> = HashMap::new();
        let mut saved: Option<(Vec<u8>, HashMap<String, (ParamId, SAtom)>, HashMap<String, (ParamId, Option<f32>)>, HashMap<String, SAtom>, Vec<NodeId>)> = None;
        let steps = rng.range(15, 60);
        let mut kinds: HashMap<&'static str, u64> = HashMap::new();
        let same = |a: &SAtom, b: &SAtom| atom_str(a) == atom_str(b);
        for step in 0..steps {
            let g0 = e.m.get_generation();
            ob.take();
            let all_p: Vec<ParamId> = nodes.iter().flat_map(|n| params_of(*n)).collect();
            let all_a: Vec<ParamId> = nodes.iter().flat_map(|n| atoms_of(*n)).collect();
            let op = rng.below(13);
            let mut what = String::new();
            let mut changed = true;
            match op {
                0 | 1 | 2 if !all_p.is_empty() => {
                    let p = *rng.pick(&all_p);
                    let v = SAtom::param(rand_param(rng, p));
                    what = format!("set_param({}, {})", pname(&p), atom_str(&v));
                    *kinds.entry("parameters set").or_default() += 1;
                    e.m.set_param(p, v.clone());
                    params.insert(pname(&p), (p, v));
                    let ev = ob.take();
                    ensure!(ev == vec![Ev::Param(pname(&p))], "param-event", "{}: reported {:?}", what, ev);
                }
                3 if !all_a.is_empty() => {
                    let p = *rng.pick(&all_a);
                    let v = rand_atom(rng, p, &[]);
                    what = format!("set_param({}, {})", pname(&p), atom_str(&v));
                    *kinds.entry("settings set").or_default() += 1;
                    e.m.set_param(p, v.clone());
                    params.insert(pname(&p), (p, v));
                    let ev = ob.take();
                    ensure!(ev == vec![Ev::Param(pname(&p))], "param-event", "{}: reported {:?}", what, ev);
                }
                4 | 5 if !all_p.is_empty() => {
                    let known: Vec<ParamId> = mods.values().filter(|x| x.1.is_some()).map(|x| x.0).collect();
                    let p = if !known.is_empty() && rng.chance(0.6) { *rng.pick(&known) } else { *rng.pick(&all_p) };
                    let v = if rng.chance(0.2) { None } else { Some(rng.f(-1.0, 1.0)) };
                    what = format!("set_param_modamt({}, {:?}) (before: {:?})", pname(&p), v, mods.get(&pname(&p)).map(|x| x.1));
                    *kinds.entry("modulation amounts set").or_default() += 1;
                    let r = e.m.set_param_modamt(p, v);
                    ensure!(r.is_ok(), "modamt", "{}: {:?}", what, r);
                    mods.insert(pname(&p), (p, v));
                    let ev = ob.take();
                    let mine = n_of(&ev, |x| *x == Ev::Param(pname(&p)));
                    let other = n_of(&ev, |x| matches!(x, Ev::Param(q) if *q != pname(&p)) || matches!(x, Ev::Prop(_)));
                    ensure!(mine == 1 && other == 0, "modamt-event", "{}: reported {:?}", what, ev);
                }
                6 => {
                    let k = rand_string(rng);
                    let v = rand_prop(rng);
                    what = format!("set_prop({:?})", k);
                    *kinds.entry("properties set").or_default() += 1;
                    e.m.set_prop(&k, v.clone());
                    props.insert(k.clone(), v);
                    let ev = ob.take();
                    ensure!(ev == vec![Ev::Prop(k.clone())], "prop-event", "{}: reported {:?}", what, ev);
                }
                7 => {
                    // another graph
                    let k = rng.range(1, 6) as usize;
                    let (ns, es) = rand_graph(rng, &types, k, rng.0 % 2 == 0);
                    let Some(l) = layout(rng, 8, 10, &ns, &es) else { continue };
                    l.apply(&mut e.m);
                    what = "sync".into();
                    *kinds.entry("graphs synced").or_default() += 1;
                    let r = e.m.sync();
                    ensure!(r.is_ok(), "sync", "{:?}", r);
                    placed = l.cells.iter().map(|c| c.2.node_id()).collect();
                    for n in placed.iter() {
                        if !nodes.contains(n) {
                            nodes.push(*n);
                        }
                    }
                    used = es.iter().filter_map(|x| x.to.param_by_idx(x.inp as usize)).collect();
                    let ev = ob.take();
                    ensure!(ev.contains(&Ev::Matrix) || ev.contains(&Ev::All), "matrix-event", "{}: reported {:?}", what, ev);
                    ensure!(n_of(&ev, |x| matches!(x, Ev::Param(_) | Ev::Prop(_))) == 0, "matrix-event", "{}: reported {:?}", what, ev);
                    for p in nodes.iter().flat_map(|n| params_of(*n)) {
                        ensure!(
                            e.m.param_input_is_used(p) == used.contains(&p),
                            "input-used",
                            "{} is connected: {}, listed as used: {}",
                            pname(&p),
                            used.contains(&p),
                            e.m.param_input_is_used(p)
                        );
                    }
                }
                8 => {
                    let occ = occupied(&e.m);
                    let (x, y) = if occ.is_empty() || rng.chance(0.2) { (rng.below(8), rng.below(10)) } else { *rng.pick(&occ) };
                    let c = e.m.get_copy(x, y).unwrap();
                    what = format!("monitor_cell({:?})", c.node_id());
                    *kinds.entry("cells monitored").or_default() += 1;
                    e.m.monitor_cell(c);
                    changed = false;
                    let ev = ob.take();
                    ensure!(ev == vec![Ev::Monitor(c.node_id(), x, y)], "monitor-event", "{} at {:?}: reported {:?}", what, (x, y), ev);
                    ensure!(*e.m.monitored_cell() == c, "monitor", "{} at {:?}: {:?} is monitored", what, (x, y), e.m.monitored_cell());
                }
                9 if rng.chance(0.3) => {
                    what = "clear".into();
                    *kinds.entry("cleared").or_default() += 1;
                    e.m.clear();
                    params.clear();
                    mods.clear();
                    props.clear();
                    placed.clear();
                    used.clear();
                    let ev = ob.take();
                    ensure!(ev.contains(&Ev::All), "clear-event", "{}: reported {:?}", what, ev);
                    for n in nodes.iter() {
                        for p in params_of(*n).into_iter().chain(atoms_of(*n)) {
                            ensure!(e.m.get_param(&p).is_none() || e.m.get_param(&p).map(|v| same(&v, &p.as_atom_def())).unwrap_or(true), "clear-params", "{} has {:?} after clear", pname(&p), e.m.get_param(&p));
                            ensure!(e.m.get_param_modamt(&p).is_none(), "clear-params", "the modulation amount of {} is {:?} after clear", pname(&p), e.m.get_param_modamt(&p));
                        }
                    }
                }
                10 => {
                    if saved.is_none() || rng.chance(0.5) {
                        let b = hexodsp::matrix_repr::save_patch_to_mem(&mut e.m);
                        saved = Some((b, params.clone(), mods.clone(), props.clone(), placed.clone()));
                        changed = false;
                        let ev = ob.take();
                        ensure!(ev.is_empty() && e.m.get_generation() == g0, "save-event", "saving reported {:?}, generation {} -> {}", ev, g0, e.m.get_generation());
                        what = "save".into();
                    } else if let Some((b, p, md, pr, pl)) = saved.clone() {
                        what = "load".into();
                        *kinds.entry("patches loaded").or_default() += 1;
                        let r = hexodsp::matrix_repr::load_patch_from_mem(&mut e.m, &b);
                        ensure!(r.is_ok(), "load", "{:?}", r);
                        params = p;
                        mods = md;
                        props = pr;
                        placed = pl;
                        let ev = ob.take();
                        ensure!(ev.contains(&Ev::All), "load-event", "{}: reported {:?}", what, ev);
                    }
                }
                12 => {
                    // a port without a neighbour changes, preferably of the monitored cell
                    let occ: Vec<(usize, usize)> = occupied(&e.m).into_iter().filter(|(x, y)| e.m.get_copy(*x, y + 1).map(|c| c.is_empty()).unwrap_or(true)).collect();
                    if occ.is_empty() {
                        continue;
                    }
                    let mp = e.m.monitored_cell().pos();
                    let (x, y) = if occ.contains(&mp) { mp } else { *rng.pick(&occ) };
                    let c = e.m.get_copy(x, y).unwrap();
                    let mut c2 = c;
                    if c.has_dir_set(CellDir::B) {
                        c2.clear_io_dir(CellDir::B);
                    } else {
                        c2.set_io_dir(CellDir::B, 0);
                    }
                    if n_outs(c.node_id()) == 0 {
                        continue;
                    }
                    what = format!("port of {:?} changed, sync", c.node_id());
                    *kinds.entry("ports changed").or_default() += 1;
                    e.m.place(x, y, c2);
                    ensure!(e.m.sync().is_ok(), "sync", "refused");
                    let ev = ob.take();
                    ensure!(ev.contains(&Ev::Matrix) || ev.contains(&Ev::All), "matrix-event", "{}: reported {:?}", what, ev);
                    if occ.contains(&mp) {
                        let now = e.m.get_copy(x, y).unwrap();
                        ensure!(*e.m.monitored_cell() == now, "monitor", "after {} {:?} is monitored, the cell is {:?}", what, e.m.monitored_cell(), now);
                    }
                }
                11 => {
                    // MIDI
                    let k = rng.range(1, 12) as usize;
                    let mut want = vec![];
                    let mut evs = vec![];
                    for i in 0..k {
                        let (ch, nt, vl) = (rng.below(16) as u8, rng.below(128) as u8, rng.f01());
                        let me = match rng.below(3) {
                            0 => HxMidiEvent::NoteOn { channel: ch, note: nt, vel: vl },
                            1 => HxMidiEvent::NoteOff { channel: ch, note: nt },
                            _ => HxMidiEvent::CC { channel: ch, cc: nt, value: vl },
                        };
                        want.push(Ev::Midi(format!("{:?}", me)));
                        evs.push((i, me));
                    }
                    what = "midi".into();
                    changed = false;
                    *kinds.entry("midi events").or_default() += k as u64;
                    if rng.chance(0.5) {
                        for (_, me) in evs.iter() {
                            e.m.inject_midi_event(*me);
                        }
                        e.block_midi(64, &[]);
                    } else {
                        let t: Vec<HxTimedEvent> = evs.iter().map(|(i, me)| HxTimedEvent::new_timed(*i, *me)).collect();
                        e.block_midi(64, &t);
                    }
                    ob.take();
                    e.m.handle_graph_events();
                    let ev = ob.take();
                    ensure!(ev == want, "midi-event", "{:?} were received, {:?} reported", want, ev);
                }
                _ => continue,
            }
            let g1 = e.m.get_generation();
            ensure!(!changed || g1 > g0, "generation", "{}: the generation stays at {}", what, g0);
            ensure!(g1 >= g0, "generation", "{}: the generation goes from {} to {}", what, g0, g1);
            let mc = *e.m.monitored_cell();
            if op == 7 {
                // the monitored cell is kept up to date
                let now = e.m.get_copy(mc.pos().0, mc.pos().1);
                ensure!(now == Some(mc), "monitor", "after sync {:?} is monitored, the cell is {:?}", mc, now);
            }
            if rng.chance(0.5) || step + 1 == steps {
                if rng.chance(0.3) {
                    e.block(rng.range(1, 128) as usize);
                }
                // getters; values of a loaded patch went through their real values
                for (k, (p, v)) in params.iter() {
                    let g = e.m.get_param(p);
                    let ok = match &g {
                        Some(x) if p.is_atom() => same(x, v),
                        Some(x) => (x.f() - v.f()).abs() <= 2e-3 || (p.denorm(x.f()) - p.denorm(v.f())).abs() <= 2e-3 * (1.0 + p.denorm(v.f()).abs()),
                        None => false,
                    };
                    ensure!(ok, "get-param", "after {}: {} was set to {}, get_param gives {:?}", what, k, atom_str(v), g.map(|x| atom_str(&x)));
                }
                for (k, (p, v)) in mods.iter() {
                    let g = e.m.get_param_modamt(p);
                    ensure!(g.is_some() == v.is_some() && (g.unwrap_or(0.0) - v.unwrap_or(0.0)).abs() < 1e-4, "get-modamt", "after {}: the amount of {} was set to {:?}, the getter gives {:?}", what, k, v, g);
                }
                for (k, v) in props.iter() {
                    let g = e.m.get_prop(k).cloned();
                    ensure!(g.as_ref().map(|g| same(g, v)).unwrap_or(false), "get-prop", "after {}: property {:?} was set to {}, is {:?}", what, k, atom_str(v), g.map(|x| atom_str(&x)));
                }
                let mut list: HashMap<String, (String, Option<f32>, u32)> = HashMap::new();
                e.m.for_each_atom(|_u, p, v, a| {
                    let x = list.entry(pname(&p)).or_insert((atom_str(v), a, 0));
                    x.2 += 1;
                });
                for n in placed.iter() {
                    for p in params_of(*n).into_iter().chain(atoms_of(*n)) {
                        let k = pname(&p);
                        let Some((v, a, c)) = list.get(&k) else { return fail("listing", format!("after {}: {} isn't listed, its node is in the matrix", what, k)) };
                        ensure!(*c == 1, "listing", "after {}: {} is listed {} times", what, k, c);
                        let g = e.m.get_param(&p);
                        if let Some(g) = g {
                            ensure!(atom_str(&g) == *v, "listing", "after {}: {} is listed as {}, the getter gives {}", what, k, v, atom_str(&g));
                        } else if !p.is_atom() {
                            ensure!(*v == atom_str(&p.as_atom_def()), "listing", "after {}: {} is listed as {}, was never set", what, k, v);
                        }
                        if !p.is_atom() {
                            ensure!(*a == e.m.get_param_modamt(&p), "listing", "after {}: the amount of {} is listed as {:?}, the getter gives {:?}", what, k, a, e.m.get_param_modamt(&p));
                        }
                    }
                }
                if !nodes.is_empty() {
                    let id = *rng.pick(&nodes);
                    let u = e.m.get_unused_instance_node_id(id);
                    let want = (id.instance()..).map(|i| id.to_instance(i)).find(|i| !placed.contains(i)).unwrap();
                    ensure!(u == want, "unused", "after {}: {} is said to be unused (asked for {}), the matrix holds {:?}", what, u, id, placed);
                }
            }
        }
        obs.fingerprint = format!("{:016x}", rng.u64());
        obs.nontrivial = kinds.len() >= 3;
        for (k, v) in kinds.iter() {
            obs.count(k, *v);
        }
        obs.sample = Some(json!(kinds.iter().map(|(k, v)| format!("{} {}", v, k)).collect::<Vec<_>>()));
        Ok(())
    });
}
