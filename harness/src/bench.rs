//! A test bench for single nodes: every chosen input is fed by its own signal player, up to
//! five outputs are recorded, knobs and settings are in place before the node appears.
use crate::core::*;
use crate::ensure;
use crate::eng::*;
use hexodsp::*;

pub struct Bench {
    pub e: Eng,
    pub node: NodeId,
    pub ins: Vec<(String, ProbeRef)>,
    pub rec: Option<ProbeRef>,
    pub blocks: Vec<usize>,
    pub frames: usize,
    bi: usize,
}

pub struct Setup<'a> {
    pub node: NodeId,
    pub sr: f32,
    /// normalised knob values
    pub knobs: Vec<(&'a str, f32)>,
    pub atoms: Vec<(&'a str, i64)>,
    pub sigs: Vec<(&'a str, Vec<f32>)>,
    pub outs: Vec<&'a str>,
    /// further edges (for stereo outputs and such)
    pub edges: Vec<E>,
    pub blocks: Vec<usize>,
    /// raw parameter values of any kind
    pub raw: Vec<(&'a str, SAtom)>,
}

impl Bench {
    pub fn new(s: &Setup) -> Result<Bench, Fail> {
        let h = 30;
        let k = s.sigs.len() + s.outs.len() + s.edges.len() + 1;
        let w = (k * 2 + h - 1) / h + 1;
        let mut e = Eng::new(w, h, s.sr);
        let mut edges = vec![];
        let mut ins = vec![];
        for (k, v) in s.knobs.iter() {
            e.set(s.node, k, *v);
        }
        for (k, v) in s.atoms.iter() {
            e.seti(s.node, k, *v);
        }
        for (k, v) in s.raw.iter() {
            let p = s.node.inp_param(k).expect("harness: param");
            e.m.set_param(p, v.clone());
        }
        for (i, (name, sig)) in s.sigs.iter().enumerate() {
            let (nd, r) = player(sig.clone());
            e.m.set_dynamic_node1x1(i, nd);
            ins.push((name.to_string(), r));
            edges.push(edge(NodeId::Rust1x1(i as u8), "sig", s.node, name));
        }
        let ri = s.sigs.len();
        let mut rec = None;
        if !s.outs.is_empty() {
            let (nd, r) = recorder();
            e.m.set_dynamic_node1x1(ri, nd);
            rec = Some(r);
            for (i, o) in s.outs.iter().enumerate() {
                edges.push(edge(s.node, o, NodeId::Rust1x1(ri as u8), PROBE_IN[i]));
            }
        }
        edges.extend(s.edges.iter().copied());
        place_edges(&mut e.m, &[s.node], &edges);
        ensure!(e.m.sync().is_ok(), "sync", "the patch of a single {} node is refused", s.node);
        Ok(Bench { e, node: s.node, ins, rec, blocks: s.blocks.clone(), frames: 0, bi: 0 })
    }
    pub fn next_block(&mut self) -> usize {
        let b = self.blocks[self.bi % self.blocks.len()];
        self.bi += 1;
        b
    }
    pub fn run(&mut self, frames: usize) {
        let mut left = frames;
        while left > 0 {
            let n = self.next_block().min(left);
            self.e.block(n);
            left -= n;
        }
        self.frames += frames;
    }
    pub fn inp(&self, name: &str) -> Vec<f32> {
        for (n, r) in self.ins.iter() {
            if n == name {
                return r.lock().unwrap().out.clone();
            }
        }
        panic!("harness: {} isn't fed", name);
    }
    pub fn out(&self, i: usize) -> Vec<f32> {
        self.rec.as_ref().expect("harness: nothing recorded").lock().unwrap().ins[i].clone()
    }
}

/// A signal of the given range: noise, steps, ramps, sines, constants, all kinds mixed.
pub fn sig(rng: &mut Rng, n: usize, lo: f32, hi: f32) -> Vec<f32> {
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let len = rng.range(1, 400) as usize;
        let len = len.min(n - v.len());
        match rng.below(6) {
            0 => {
                for _ in 0..len {
                    v.push(rng.f(lo, hi));
                }
            }
            1 => {
                let x = rng.f(lo, hi);
                v.extend(std::iter::repeat(x).take(len));
            }
            2 => {
                let x = *rng.pick(&[lo, hi, (lo + hi) * 0.5, 0.0f32.clamp(lo, hi)]);
                v.extend(std::iter::repeat(x).take(len));
            }
            3 => {
                let (a, b) = (rng.f(lo, hi), rng.f(lo, hi));
                for i in 0..len {
                    v.push(a + (b - a) * i as f32 / len as f32);
                }
            }
            4 => {
                let f = rng.f(0.001, 0.5);
                for i in 0..len {
                    v.push((lo + hi) * 0.5 + (hi - lo) * 0.5 * (f * i as f32).sin());
                }
            }
            _ => {
                let hold = rng.range(1, 20) as usize;
                let mut x = rng.f(lo, hi);
                for i in 0..len {
                    if i % hold == 0 {
                        x = rng.f(lo, hi);
                    }
                    v.push(x);
                }
            }
        }
    }
    v
}

/// Pulses that cross the documented trigger thresholds (with a distance from them).
pub fn gates(rng: &mut Rng, n: usize, min: usize, max: usize) -> Vec<f32> {
    let mut v = Vec::with_capacity(n);
    let mut hi = rng.chance(0.2);
    while v.len() < n {
        let len = if max <= min { min } else { rng.range(min as i64, max as i64) as usize };
        let fixed = rng.chance(0.5);
        let x0 = if hi { rng.f(0.55, 1.0) } else { *rng.pick(&[0.0, 0.0, -1.0, 0.2]) };
        for _ in 0..len {
            if v.len() < n {
                v.push(if fixed {
                    x0
                } else if hi {
                    // (once high, it stays high above 0.25)
                    rng.f(0.55, 1.0)
                } else {
                    rng.f(-0.5, 0.2)
                });
            }
        }
        hi = !hi;
    }
    v
}

/// The documented trigger: fires when the signal rises above 0.5, armed again at 0.25 or below.
#[derive(Default, Clone, Copy)]
pub struct Trig {
    pub on: bool,
}
impl Trig {
    pub fn next(&mut self, v: f32) -> bool {
        if self.on {
            if v <= 0.25 {
                self.on = false;
            }
            false
        } else if v > 0.5 {
            self.on = true;
            true
        } else {
            false
        }
    }
}

pub fn db_gain(x: f64, lo: f64, hi: f64) -> f64 {
    let db = lo + (hi - lo) * x;
    if db < -89.9 {
        0.0
    } else {
        10f64.powf(db / 20.0)
    }
}

/// Per sample values of an input: the player's signal or the fixed knob.
pub enum Src {
    Sig(Vec<f32>),
    Knob(f32),
}
impl Src {
    pub fn at(&self, i: usize) -> f64 {
        match self {
            Src::Sig(v) => v[i] as f64,
            Src::Knob(k) => *k as f64,
        }
    }
    pub fn at32(&self, i: usize) -> f32 {
        match self {
            Src::Sig(v) => v[i],
            Src::Knob(k) => *k,
        }
    }
}
