#![allow(dead_code, unused)]
//! Engine helpers: audio context, probes, embedding of abstract graphs on the grid.
use hexodsp::nodes::{HxTimedEvent, NodeAudioContext};
use hexodsp::*;
use std::sync::{Arc, Mutex};

pub const MAXB: usize = hexodsp::dsp::MAX_BLOCK_SIZE;

pub struct Ctx {
    pub n: usize,
    pub inp: [Vec<f32>; 2],
    pub out: [Vec<f32>; 2],
    /// number of times a frame of a channel was written in this block
    pub writes: u64,
}
impl Ctx {
    pub fn new() -> Self {
        Ctx {
            n: 0,
            inp: [vec![0.0; MAXB], vec![0.0; MAXB]],
            out: [vec![0.0; MAXB], vec![0.0; MAXB]],
            writes: 0,
        }
    }
}
impl NodeAudioContext for Ctx {
    #[inline]
    fn nframes(&self) -> usize {
        self.n
    }
    #[inline]
    fn output(&mut self, channel: usize, frame: usize, v: f32) {
        self.out[channel][frame] = v;
        self.writes += 1;
    }
    #[inline]
    fn input(&mut self, channel: usize, frame: usize) -> f32 {
        self.inp[channel][frame]
    }
}

pub struct Eng {
    pub m: Matrix,
    pub ex: NodeExecutor,
    pub ctx: Ctx,
}

impl Eng {
    pub fn new(w: usize, h: usize, srate: f32) -> Self {
        let (conf, mut ex) = new_node_engine();
        ex.no_logging();
        ex.set_sample_rate(srate);
        Eng { m: Matrix::new(conf, w, h), ex, ctx: Ctx::new() }
    }
    /// One audio callback without MIDI.
    pub fn block(&mut self, n: usize) -> (&[f32], &[f32]) {
        self.ex.process_graph_updates();
        self.process_only(n)
    }
    pub fn process_only(&mut self, n: usize) -> (&[f32], &[f32]) {
        self.ctx.n = n;
        self.ctx.writes = 0;
        for ch in 0..2 {
            for f in 0..n {
                self.ctx.out[ch][f] = 0.0;
            }
        }
        self.ex.process(&mut self.ctx);
        (&self.ctx.out[0][0..n], &self.ctx.out[1][0..n])
    }
    pub fn block_midi(&mut self, n: usize, evs: &[HxTimedEvent]) -> (&[f32], &[f32]) {
        self.ex.process_graph_updates();
        let mut i = 0;
        self.ex.feed_midi_events_from(|| {
            let r = evs.get(i).copied();
            i += 1;
            r
        });
        self.process_only(n)
    }
    /// Renders `frames` in the given block sizes (cycled).
    pub fn render(&mut self, frames: usize, blocks: &[usize]) -> (Vec<f32>, Vec<f32>) {
        let mut l = Vec::with_capacity(frames);
        let mut r = Vec::with_capacity(frames);
        let mut done = 0;
        let mut bi = 0;
        while done < frames {
            let n = blocks[bi % blocks.len()].min(frames - done).min(MAXB).max(1);
            bi += 1;
            let (a, b) = self.block(n);
            l.extend_from_slice(a);
            r.extend_from_slice(b);
            done += n;
        }
        (l, r)
    }
    pub fn render_in(&mut self, il: &[f32], ir: &[f32], blocks: &[usize]) -> (Vec<f32>, Vec<f32>) {
        let frames = il.len();
        let mut l = Vec::with_capacity(frames);
        let mut r = Vec::with_capacity(frames);
        let mut done = 0;
        let mut bi = 0;
        while done < frames {
            let n = blocks[bi % blocks.len()].min(frames - done).min(MAXB).max(1);
            bi += 1;
            self.ctx.inp[0][0..n].copy_from_slice(&il[done..done + n]);
            self.ctx.inp[1][0..n].copy_from_slice(&ir[done..done + n]);
            let (a, b) = self.block(n);
            l.extend_from_slice(a);
            r.extend_from_slice(b);
            done += n;
        }
        (l, r)
    }
    pub fn set(&mut self, n: NodeId, name: &str, norm: f32) {
        let p = n.inp_param(name).unwrap_or_else(|| panic!("harness: no param {} on {}", name, n));
        self.m.set_param(p, SAtom::param(norm));
    }
    pub fn set_denorm(&mut self, n: NodeId, name: &str, v: f32) {
        let p = n.inp_param(name).unwrap_or_else(|| panic!("harness: no param {} on {}", name, n));
        self.m.set_param(p, SAtom::param(p.norm(v)));
    }
    pub fn seti(&mut self, n: NodeId, name: &str, v: i64) {
        let p = n.inp_param(name).unwrap_or_else(|| panic!("harness: no atom {} on {}", name, n));
        self.m.set_param(p, SAtom::setting(v));
    }
}


// ---------------------------------------------------------------- probes
#[derive(Default, Clone)]
pub struct ProbeRec {
    pub calls: u64,
    /// inp, alpha, beta, delta, gamma (in input index order)
    pub ins: [Vec<f32>; 5],
    pub out: Vec<f32>,
    pub seq: u64,
}
pub type ProbeRef = Arc<Mutex<ProbeRec>>;
pub static PROBE_SEQ: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub struct Probe {
    pub rec: ProbeRef,
    pub fun: Box<dyn FnMut([&[f32]; 5], &mut [f32]) + Send>,
    pub append: bool,
}
impl DynamicNode1x1 for Probe {
    fn process(&mut self, input: &[f32], output: &mut [f32], ctx: &DynNode1x1Context) {
        let ins = [input, ctx.alpha_slice(), ctx.beta_slice(), ctx.delta_slice(), ctx.gamma_slice()];
        (self.fun)(ins, output);
        let mut r = self.rec.lock().unwrap();
        r.calls += 1;
        r.seq = PROBE_SEQ.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        for i in 0..5 {
            if !self.append {
                r.ins[i].clear();
            }
            r.ins[i].extend_from_slice(ins[i]);
        }
        if !self.append {
            r.out.clear();
        }
        r.out.extend_from_slice(output);
    }
}
pub fn probe_fn(
    append: bool,
    f: impl FnMut([&[f32]; 5], &mut [f32]) + Send + 'static,
) -> (Box<dyn DynamicNode1x1>, ProbeRef) {
    let rec: ProbeRef = Arc::new(Mutex::new(ProbeRec::default()));
    (Box::new(Probe { rec: rec.clone(), fun: Box::new(f), append }), rec)
}
/// Pure recorder, appends everything it hears on its five inputs, outputs the first.
pub fn recorder() -> (Box<dyn DynamicNode1x1>, ProbeRef) {
    probe_fn(true, |ins, out| out.copy_from_slice(ins[0]))
}
/// Plays the given signal once, then zeros. Records its inputs, too.
pub fn player(sig: Vec<f32>) -> (Box<dyn DynamicNode1x1>, ProbeRef) {
    let mut p = 0;
    probe_fn(true, move |_ins, out| {
        for o in out.iter_mut() {
            *o = sig.get(p).copied().unwrap_or(0.0);
            p += 1;
        }
    })
}
pub const PROBE_IN: [&str; 5] = ["inp", "alpha", "beta", "delta", "gamma"];

// ------------------------------------------------- abstract graphs
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct E {
    pub from: NodeId,
    pub out: u8,
    pub to: NodeId,
    pub inp: u8,
}

/// Independent description of the hexagonal neighbourhood: columns with odd x are shifted
/// half a cell down. Returns the position right of / below (x, y) for the output edges.
pub fn hex_step(dir: CellDir, x: i64, y: i64) -> (i64, i64) {
    let odd = x.rem_euclid(2) == 1;
    match dir {
        CellDir::T => (x, y - 1),
        CellDir::B => (x, y + 1),
        CellDir::TR => (x + 1, if odd { y } else { y - 1 }),
        CellDir::BR => (x + 1, if odd { y + 1 } else { y }),
        CellDir::TL => (x - 1, if odd { y } else { y - 1 }),
        CellDir::BL => (x - 1, if odd { y + 1 } else { y }),
        CellDir::C => (x, y),
    }
}

pub struct Layout {
    pub cells: Vec<(usize, usize, Cell)>,
}

/// Places every edge as a pair of touching cells somewhere on the grid (one node may own any
/// number of cells), every node without edges as a single cell. None if there is no room.

impl Layout {
    /// Replaces the whole contents of the grid by this layout.
    pub fn apply(&self, m: &mut Matrix) {
        let (w, h) = m.size();
        for x in 0..w {
            for y in 0..h {
                m.place(x, y, Cell::empty(NodeId::Nop));
            }
        }
        for (x, y, c) in self.cells.iter() {
            m.place(*x, *y, *c);
        }
    }
}

pub fn inp_idx(n: NodeId, name: &str) -> u8 {
    n.inp(name).unwrap_or_else(|| panic!("harness: no input {} on {}", name, n))
}
pub fn out_idx(n: NodeId, name: &str) -> u8 {
    n.out(name).unwrap_or_else(|| panic!("harness: no output {} on {}", name, n))
}
pub fn edge(from: NodeId, out: &str, to: NodeId, inp: &str) -> E {
    E { from, out: out_idx(from, out), to, inp: inp_idx(to, inp) }
}

/// Simple fixed vertical layout for small graphs: one column pair per edge.
pub fn place_edges(m: &mut Matrix, nodes: &[NodeId], edges: &[E]) {
    let (w, h) = m.size();
    let mut k = 0usize;
    let mut put = |m: &mut Matrix, c: Cell, k: usize| {
        let x = k / h;
        assert!(x < w, "harness: grid too small");
        m.place(x, k % h, c);
    };
    assert!(h % 2 == 0);
    let mut placed: Vec<NodeId> = vec![];
    for e in edges {
        put(m, Cell::empty(e.from).out(None, None, Some(e.out)), k);
        put(m, Cell::empty(e.to).input(Some(e.inp), None, None), k + 1);
        k += 2;
        placed.push(e.from);
        placed.push(e.to);
    }
    for n in nodes {
        if !placed.contains(n) {
            put(m, Cell::empty(*n), k);
            k += 2;
            placed.push(*n);
        }
    }
}


pub fn bits_eq(a: &[f32], b: &[f32]) -> Option<usize> {
    if a.len() != b.len() {
        return Some(a.len().min(b.len()));
    }
    (0..a.len()).find(|&i| a[i].to_bits() != b[i].to_bits() && !(a[i] == 0.0 && b[i] == 0.0))
}
