//! Workload shared by the memory, real time and concurrency monitors: random use of the whole
//! front end API.
use crate::core::*;
use crate::eng::*;
use crate::gen::*;
use hexodsp::matrix::MatrixObserver;
use hexodsp::nodes::HxTimedEvent;
use hexodsp::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

#[derive(Default)]
pub struct CountObs {
    pub n: AtomicU64,
}
impl MatrixObserver for CountObs {
    fn update_prop(&self, _: &str) {
        self.n.fetch_add(1, Ordering::Relaxed);
    }
    fn update_monitor(&self, _: &Cell) {
        self.n.fetch_add(1, Ordering::Relaxed);
    }
    fn update_param(&self, _: &ParamId) {
        self.n.fetch_add(1, Ordering::Relaxed);
    }
    fn update_matrix(&self) {
        self.n.fetch_add(1, Ordering::Relaxed);
    }
    fn update_all(&self) {
        self.n.fetch_add(1, Ordering::Relaxed);
    }
    fn midi_event(&self, _: HxMidiEvent) {
        self.n.fetch_add(1, Ordering::Relaxed);
    }
}

/// A custom node that owns heap memory but never allocates while it runs.
pub struct Plain {
    pub mem: Vec<f32>,
    pub k: usize,
}
impl DynamicNode1x1 for Plain {
    fn process(&mut self, input: &[f32], output: &mut [f32], ctx: &DynNode1x1Context) {
        let a = ctx.alpha_slice();
        for i in 0..output.len() {
            let l = self.mem.len();
            let o = self.mem[self.k % l];
            self.mem[self.k % l] = input[i].clamp(-1.0, 1.0);
            self.k += 1;
            output[i] = o * 0.5 + a[i] * 0.1;
        }
    }
}

pub struct World {
    pub types: Vec<NodeId>,
    pub samples: Vec<String>,
    pub bft: Vec<(String, u8)>,
}
impl World {
    pub fn new(exclude: &[&str]) -> World {
        let probe = Eng::new(4, 4, 44100.0);
        let bft = bf_types(&probe.m);
        World {
            types: all_types().into_iter().filter(|t| !exclude.contains(&t.name())).collect(),
            samples: sample_files(),
            bft,
        }
    }
}

pub struct Front<'a> {
    pub w: &'a World,
    pub patch: Patch,
    pub gw: usize,
    pub gh: usize,
    pub max_nodes: usize,
    pub saved: Vec<Vec<u8>>,
    /// messages that make the audio thread throw something away, since the last reset
    pub garbage: usize,
    pub ops: std::collections::BTreeMap<&'static str, u64>,
    /// also run the expensive whole patch operations
    pub heavy: bool,
}

/// A small program that uses inputs, state and outputs.
pub fn good_block_fun(rng: &mut Rng) -> Vec<BfOp> {
    let c = format!("{}", (rng.f(-1.0, 1.0) * 100.0).round() / 100.0);
    let src = rng.pick(&["in1", "in2", "alpha", "gamma"]).to_string();
    let dst = rng.pick(&["&sig1", "&sig2"]).to_string();
    let op = rng.pick(&["+", "*", "-"]).to_string();
    let mut v = vec![
        BfOp::Inst(0, 0, 1, "get".into(), Some(src)),
        BfOp::Inst(0, 0, 2, "value".into(), Some(c)),
        BfOp::Inst(0, 1, 1, op, None),
        BfOp::Inst(0, 2, 1, "set".into(), Some(dst)),
    ];
    if rng.chance(0.5) {
        v.push(BfOp::Inst(0, 0, 5, "get".into(), Some("in1".into())));
        v.push(BfOp::Inst(0, 1, 5, rng.pick(&["delay", "lpf", "phase", "hpf", "s&h"]).to_string(), None));
        v.push(BfOp::Inst(0, 3, 5, "set".into(), Some("*m".into())));
    }
    v
}

impl<'a> Front<'a> {
    pub fn new(w: &'a World, gw: usize, gh: usize, max_nodes: usize, rng: &mut Rng) -> Self {
        let mut f = Front {
            w,
            patch: Patch { w: gw, h: gh, nodes: vec![], cells: vec![], vals: vec![], mods: vec![], props: vec![], pats: vec![], bfs: vec![] },
            gw,
            gh,
            max_nodes,
            saved: vec![],
            garbage: 0,
            ops: Default::default(),
            heavy: true,
        };
        f.fresh(rng);
        f
    }
    fn fresh(&mut self, rng: &mut Rng) {
        let mut types = self.w.types.clone();
        // often the nodes with shared state
        if rng.chance(0.6) {
            for n in ["tseq", "code", "rust1x1", "scope", "fbwr", "fbrd", "sampl", "midip", "midicc", "vosc", "cqnt"] {
                if let Some(t) = types.iter().find(|t| t.name() == n).copied() {
                    types.push(t);
                    types.push(t);
                    types.push(t);
                }
            }
        }
        let o = GenOpts {
            types: &types,
            samples: &self.w.samples,
            max_nodes: self.max_nodes,
            bf_types: &self.w.bft,
            with_out: true,
            w: self.gw,
            h: self.gh,
        };
        self.patch = Patch::gen(rng, &o);
        self.patch.pats.truncate(1);
        self.patch.bfs.clear();
    }
    pub fn install(&mut self, m: &mut Matrix) -> Res {
        let lay = Layout { cells: self.patch.cells.clone() };
        lay.apply(m);
        self.garbage += self.patch.vals.len() + self.patch.mods.len() + 2;
        self.patch.apply(m)
    }
    fn node(&self, rng: &mut Rng) -> NodeId {
        if self.patch.nodes.is_empty() {
            NodeId::Out(0)
        } else {
            *rng.pick(&self.patch.nodes)
        }
    }
    pub fn op(&mut self, m: &mut Matrix, rng: &mut Rng) -> Result<&'static str, Fail> {
        let name: &'static str = match rng.below(36) {
            0..=2 => {
                self.fresh(rng);
                self.install(m)?;
                "rebuild"
            }
            3 => {
                m.clear();
                self.garbage += 1;
                "clear"
            }
            4 => {
                m.clear();
                self.fresh(rng);
                self.install(m)?;
                "clear+rebuild"
            }
            5..=9 => {
                for _ in 0..rng.range(1, 12) {
                    let n = self.node(rng);
                    let ps = params_of(n);
                    if !ps.is_empty() {
                        let p = *rng.pick(&ps);
                        m.set_param(p, SAtom::param(rand_param(rng, p)));
                    }
                }
                "params"
            }
            10..=12 => {
                for _ in 0..rng.range(1, 6) {
                    let n = self.node(rng);
                    let ps = atoms_of(n);
                    if !ps.is_empty() {
                        let p = *rng.pick(&ps);
                        if n.name() == "fvafilt" && p.name() == "ftype" {
                            continue;
                        }
                        m.set_param(p, rand_atom(rng, p, &self.w.samples));
                        self.garbage += 1;
                    }
                }
                "settings"
            }
            13..=14 => {
                let n = self.node(rng);
                let ps = params_of(n);
                if !ps.is_empty() {
                    let p = *rng.pick(&ps);
                    let a = if rng.chance(0.3) { None } else { Some(rng.f(-1.0, 1.0)) };
                    let _ = m.set_param_modamt(p, a);
                    self.garbage += 1;
                }
                "amount"
            }
            15 => {
                let k = if self.patch.cells.is_empty() { Cell::empty(NodeId::Nop) } else { rng.pick(&self.patch.cells).2 };
                m.monitor_cell(k);
                "monitor"
            }
            16..=18 => {
                let id = if rng.chance(0.8) { 0 } else { rng.below(4) };
                let pat = Pat::gen(rng);
                if rng.chance(0.7) {
                    // wake the backend up
                    let _ = m.has_tracker(id);
                }
                pat.apply(m, id);
                for _ in 0..rng.range(1, 8) {
                    m.check_pattern_data(id);
                }
                "pattern"
            }
            19..=21 => {
                let id = if rng.chance(0.8) { 0 } else { rng.below(3) };
                if rng.chance(0.6) {
                    if let Some(bf) = m.get_block_function(id) {
                        let mut bf = bf.lock().unwrap();
                        for x in 0..6 {
                            for y in 0..8 {
                                let _ = bf.remove_at(0, x, y);
                            }
                        }
                    }
                    apply_bf(m, id, &good_block_fun(rng));
                } else {
                    apply_bf(m, id, &gen_bf(rng, &self.w.bft));
                }
                match m.check_block_function(id) {
                    Ok(()) => "block-function",
                    Err(_) => "block-function-error",
                }
            }
            22..=23 => {
                let i = rng.below(3);
                m.set_dynamic_node1x1(i, Box::new(Plain { mem: vec![0.0; rng.range(1, 300) as usize], k: 0 }));
                "custom-node"
            }
            24..=25 => {
                for _ in 0..rng.range(1, 10) {
                    let channel = rng.below(3) as u8;
                    let note = rng.range(30, 90) as u8;
                    m.inject_midi_event(match rng.below(3) {
                        0 => HxMidiEvent::NoteOn { channel, note, vel: rng.f01() },
                        1 => HxMidiEvent::NoteOff { channel, note },
                        _ => HxMidiEvent::CC { channel, cc: rng.below(5) as u8, value: rng.f01() },
                    });
                }
                "inject-midi"
            }
            26..=30 => {
                m.update_filters();
                m.update_output_feedback();
                m.handle_graph_events();
                let _ = m.pop_error();
                for n in self.patch.nodes.iter() {
                    let _ = m.led_value_for(n);
                    let _ = m.phase_value_for(n);
                    let _ = m.filtered_led_for(n);
                    for o in 0..n_outs(*n) {
                        let _ = m.out_fb_for(n, o as u8);
                        let _ = m.filtered_out_fb_for(n, o as u8);
                    }
                }
                for i in 0..6 {
                    let s = m.get_minmax_monitor_samples(i);
                    let mut k = 0.0;
                    for j in 0..s.len() {
                        k += s.at(j).0;
                    }
                    std::hint::black_box(k);
                }
                if let Some(h) = m.get_scope_handle(0) {
                    for i in 0..3 {
                        if h.is_active(i) {
                            for j in 0..h.len() {
                                std::hint::black_box(h.read(i, j));
                            }
                        }
                        std::hint::black_box(h.get_offs_gain(i));
                    }
                    std::hint::black_box(h.get_threshold());
                }
                hexodsp::log::retrieve_log_messages(|_, s| {
                    std::hint::black_box(s.len());
                });
                "poll"
            }
            31 => {
                // a transaction that is refused
                let r = m.change_matrix(|m| {
                    let a = NodeId::Amp(0);
                    m.place(0, 0, Cell::empty(a).out(None, None, a.out("sig")));
                    m.place(0, 1, Cell::empty(a).input(a.inp("inp"), None, None));
                });
                if r.is_ok() {
                    let _ = m.sync();
                    "transaction-ok"
                } else {
                    "transaction-refused"
                }
            }
            32..=33 if self.heavy => {
                self.saved.push(save_patch_to_mem(m));
                if self.saved.len() > 4 {
                    self.saved.remove(0);
                }
                "save"
            }
            34 if self.heavy && !self.saved.is_empty() => {
                let i = rng.below(self.saved.len());
                let s = self.saved[i].clone();
                if let Err(x) = load_patch_from_mem(m, &s) {
                    return fail("load", format!("a saved patch can not be loaded: {:?}", x));
                }
                self.garbage += 100;
                "load"
            }
            _ => {
                let _ = m.check();
                m.set_prop("p", SAtom::param(rng.f01()));
                let _ = m.get_prop("p");
                let _ = m.get_generation();
                "misc"
            }
        };
        *self.ops.entry(name).or_insert(0) += 1;
        Ok(name)
    }
}

pub fn rand_midi_at(rng: &mut Rng, n: usize, max: usize) -> Vec<(usize, HxMidiEvent)> {
    let mut t: Vec<usize> = (0..rng.below(max + 1)).map(|_| rng.below(n)).collect();
    t.sort();
    t.iter()
        .map(|t| {
            let channel = rng.below(3) as u8;
            let note = rng.range(40, 80) as u8;
            let k = match rng.below(3) {
                0 => HxMidiEvent::NoteOn { channel, note, vel: rng.f01() },
                1 => HxMidiEvent::NoteOff { channel, note },
                _ => HxMidiEvent::CC { channel, cc: rng.below(5) as u8, value: rng.f01() },
            };
            (*t, k)
        })
        .collect()
}
pub fn rand_midi(rng: &mut Rng, n: usize, max: usize) -> Vec<HxTimedEvent> {
    rand_midi_at(rng, n, max).into_iter().map(|(t, k)| HxTimedEvent::new_timed(t, k)).collect()
}
