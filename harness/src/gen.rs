//! Random patches over all node types, and complete observation of the front end state.
use crate::core::*;
use crate::eng::*;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::dsp::UICategory;
use hexodsp::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub fn all_types() -> Vec<NodeId> {
    let mut v = vec![];
    for c in [
        UICategory::Osc,
        UICategory::Mod,
        UICategory::NtoM,
        UICategory::Signal,
        UICategory::Ctrl,
        UICategory::IOUtil,
    ] {
        c.get_node_ids(0, |n| v.push(n));
    }
    v
}

/// All smoothed parameters (in input index order) of the node.
pub fn params_of(n: NodeId) -> Vec<ParamId> {
    (0..64).filter_map(|i| n.inp_param_by_idx(i)).collect()
}
/// All settings of the node.
pub fn atoms_of(n: NodeId) -> Vec<ParamId> {
    (0..64).filter_map(|i| n.atom_param_by_idx(i)).collect()
}
pub fn n_outs(n: NodeId) -> usize {
    (0..64u8).take_while(|i| n.out_name_by_idx(*i).is_some()).count()
}

/// A random in-range value of a parameter, in the stored (normalised) form.
pub fn rand_param(rng: &mut Rng, p: ParamId) -> f32 {
    let (min, max) = p.param_min_max().map(|x| x.0).unwrap_or((0.0, 1.0));
    match rng.below(8) {
        0 => min,
        1 => max,
        2 => p.norm_def(),
        3 => 0.0f32.max(min).min(max),
        4 => {
            // a quarter position
            let k = rng.range(0, 4) as f32 / 4.0;
            min + (max - min) * k
        }
        _ => rng.f(min, max),
    }
}

pub fn rand_atom(rng: &mut Rng, p: ParamId, samples: &[String]) -> SAtom {
    match p.as_atom_def() {
        SAtom::Setting(_) => {
            let (mut lo, mut hi) = p.setting_min_max().unwrap_or((0, 1));
            if p.atom_ui() == Some("keys") {
                // a set of twelve keys
                lo = 0;
                hi = 0xFFF;
            }
            SAtom::setting(match rng.below(4) {
                0 => lo,
                1 => hi,
                _ => rng.range(lo, hi),
            })
        }
        SAtom::AudioSample(_) => {
            if samples.is_empty() || rng.chance(0.2) {
                SAtom::audio_unloaded("")
            } else {
                SAtom::audio_unloaded(rng.pick(samples))
            }
        }
        SAtom::MicroSample(_) => {
            let mut b = [0.0f32; 8];
            for x in b.iter_mut() {
                *x = rng.f(-1.0, 1.0);
            }
            SAtom::micro(&b)
        }
        SAtom::Str(_) => SAtom::str(&rand_string(rng)),
        SAtom::Param(_) => SAtom::param(rng.f(0.0, 1.0)),
    }
}

pub fn rand_string(rng: &mut Rng) -> String {
    let n = rng.below(12);
    (0..n).map(|_| *rng.pick(&['a', 'Z', '0', ' ', '"', '\\', '\n', 'ä', '𝄞', '\u{0}', '~', '{', ']'])).collect()
}
pub fn rand_prop(rng: &mut Rng) -> SAtom {
    match rng.below(5) {
        0 => SAtom::setting(*rng.pick(&[0, 1, -1, i64::MAX, i64::MIN, 31337])),
        1 => SAtom::param(*rng.pick(&[0.0, -0.0, 1.0, -1.5e-7, 3.4e38, 0.1, f32::MIN_POSITIVE])),
        2 => SAtom::str(&rand_string(rng)),
        3 => {
            let mut b = [0.0f32; 8];
            for x in b.iter_mut() {
                *x = rng.f(-2.0, 2.0);
            }
            SAtom::micro(&b)
        }
        _ => SAtom::setting(rng.range(-1000, 1000)),
    }
}

#[derive(Clone, Debug)]
pub struct Pat {
    pub rows: usize,
    pub types: [u8; 6],
    pub cells: Vec<(usize, usize, u16)>,
    pub cursor: (usize, usize),
    pub edit_step: usize,
}
impl Pat {
    pub fn gen(rng: &mut Rng) -> Pat {
        let rows = match rng.below(5) {
            0 => 256,
            1 => rng.range(1, 4) as usize,
            _ => rng.range(1, 256) as usize,
        };
        let mut types = [0u8; 6];
        for t in types.iter_mut() {
            *t = rng.below(4) as u8;
        }
        let mut cells = vec![];
        if !rng.chance(0.15) {
            for _ in 0..rng.range(1, 80) {
                let c = rng.below(6);
                let v = if types[c] == 3 {
                    // gates with full probability only: the others draw from a random generator
                    0xF00 | rng.below(256) as u16
                } else {
                    {
                        let r = rng.below(0x1000) as u16;
                        *rng.pick(&[0, 1, 0xFFF, 0x45, 0x7FF, r])
                    }
                };
                cells.push((if rng.chance(0.9) { rng.below(rows) } else { rng.below(256) }, c, v));
            }
        }
        Pat { rows, types, cells, cursor: (rng.below(256), rng.below(6)), edit_step: rng.below(17) }
    }
    pub fn apply(&self, m: &mut Matrix, id: usize) {
        let pd = m.get_pattern_data(id).expect("pattern data");
        let mut pd = pd.lock().unwrap();
        pd.set_rows(self.rows);
        for (c, t) in self.types.iter().enumerate() {
            match t {
                0 => pd.set_col_value_type(c),
                1 => pd.set_col_note_type(c),
                2 => pd.set_col_step_type(c),
                _ => pd.set_col_gate_type(c),
            }
        }
        for (r, c, v) in self.cells.iter() {
            pd.set_cell_value(*r, *c, *v);
        }
        pd.set_cursor(self.cursor.0, self.cursor.1);
        pd.set_edit_step(self.edit_step);
    }
}

#[derive(Clone, Debug)]
pub enum BfOp {
    Inst(usize, i64, i64, String, Option<String>),
    Remove(usize, i64, i64),
    Shift(usize, i64, i64, usize, bool),
}
pub fn gen_bf(rng: &mut Rng, types: &[(String, u8)]) -> Vec<BfOp> {
    let mut v = vec![];
    for _ in 0..rng.range(1, 14) {
        let area = if rng.chance(0.7) { 0 } else { rng.below(5) };
        let (x, y) = (rng.below(6) as i64, rng.below(6) as i64);
        match rng.below(10) {
            0 => v.push(BfOp::Remove(area, x, y)),
            1 => v.push(BfOp::Shift(area, x, y, 0, rng.chance(0.5))),
            _ => {
                let (t, ui) = rng.pick(types).clone();
                let inp = match ui {
                    1 => Some(format!("{}", (rng.f(-4.0, 4.0) * 100.0).round() / 100.0)),
                    2 => Some(rng.pick(&["in1", "in2", "alpha", "beta", "*a", "&sig1", "&sig2", "tmp"]).to_string()),
                    _ => None,
                };
                v.push(BfOp::Inst(area, x, y, t, inp));
            }
        }
    }
    v
}
pub fn bf_types(m: &Matrix) -> Vec<(String, u8)> {
    let bf = m.get_block_function(0).expect("block function");
    let lang = bf.lock().unwrap().block_language();
    let mut l: Vec<(String, u8)> = lang
        .borrow()
        .get_type_list()
        .into_iter()
        .map(|(_, n, u)| {
            let u = format!("{:?}", u);
            (n, if u == "Float" || u == "Integer" { 1 } else if u == "Identifier" { 2 } else { 0 })
        })
        .collect();
    l.sort();
    l
}
pub fn apply_bf(m: &mut Matrix, id: usize, ops: &[BfOp]) {
    let bf = m.get_block_function(id).expect("block function");
    let mut bf = bf.lock().unwrap();
    for o in ops {
        match o {
            BfOp::Inst(a, x, y, t, i) => {
                let _ = bf.instanciate_at(*a, *x, *y, t, i.clone());
            }
            BfOp::Remove(a, x, y) => {
                let _ = bf.remove_at(*a, *x, *y);
            }
            BfOp::Shift(a, x, y, r, o) => bf.shift_port(*a, *x, *y, *r, *o),
        }
    }
    bf.recalculate_area_sizes();
}

#[derive(Clone)]
pub struct Patch {
    pub w: usize,
    pub h: usize,
    pub nodes: Vec<NodeId>,
    pub cells: Vec<(usize, usize, Cell)>,
    pub vals: Vec<(ParamId, SAtom)>,
    pub mods: Vec<(ParamId, f32)>,
    pub props: Vec<(String, SAtom)>,
    pub pats: Vec<(usize, Pat)>,
    pub bfs: Vec<(usize, Vec<BfOp>)>,
}

pub struct GenOpts<'a> {
    pub types: &'a [NodeId],
    pub samples: &'a [String],
    pub max_nodes: usize,
    pub bf_types: &'a [(String, u8)],
    /// always finish with an audio output fed by a random node
    pub with_out: bool,
    pub w: usize,
    pub h: usize,
}

/// A random acyclic graph: edges only lead from earlier to later nodes.
pub fn rand_graph(rng: &mut Rng, types: &[NodeId], k: usize, with_out: bool) -> (Vec<NodeId>, Vec<E>) {
    let mut nodes: Vec<NodeId> = vec![];
    for _ in 0..k {
        let t = *rng.pick(types);
        let inst = if rng.chance(0.85) { nodes.iter().filter(|n| n.name() == t.name()).count() } else { rng.below(5) };
        let n = t.to_instance(inst);
        if !nodes.contains(&n) {
            nodes.push(n);
        }
    }
    let out = NodeId::Out(0);
    if with_out {
        nodes.retain(|n| *n != out);
        nodes.push(out);
    }
    let mut edges: Vec<E> = vec![];
    for j in 1..nodes.len() {
        let ins = params_of(nodes[j]).len();
        for i in 0..ins.min(6) {
            if rng.chance(if nodes[j] == out { 0.9 } else { 0.4 }) {
                let src = nodes[rng.below(j)];
                let no = n_outs(src);
                if no > 0 {
                    let inp = if nodes[j] == out { i as u8 } else { params_of(nodes[j])[rng.below(ins)].inp() };
                    if !edges.iter().any(|e| e.to == nodes[j] && e.inp == inp) {
                        edges.push(E { from: src, out: rng.below(no) as u8, to: nodes[j], inp });
                    }
                }
            }
        }
    }
    (nodes, edges)
}

impl Patch {
    pub fn gen(rng: &mut Rng, o: &GenOpts) -> Patch {
        let k = rng.range(1, o.max_nodes as i64) as usize;
        let (nodes, mut edges) = rand_graph(rng, o.types, k, o.with_out);
        let lay = loop {
            if let Some(l) = layout(rng, o.w, o.h, &nodes, &edges) {
                break l;
            }
            edges.pop();
        };
        let mut vals = vec![];
        let mut mods = vec![];
        for n in nodes.iter() {
            for p in params_of(*n) {
                if rng.chance(0.5) {
                    vals.push((p, SAtom::param(rand_param(rng, p))));
                }
                if rng.chance(0.25) {
                    let r = rng.f(-1.0, 1.0);
                    mods.push((p, *rng.pick(&[1.0, -1.0, 0.0, 0.5, r])));
                }
            }
            for p in atoms_of(*n) {
                if p.node_id().name() == "fvafilt" && p.name() == "ftype" && rng.chance(0.9) {
                    // (the solvers of the other two types are slow when driven hard)
                    vals.push((p, SAtom::setting(0)));
                } else if rng.chance(0.6) {
                    vals.push((p, rand_atom(rng, p, o.samples)));
                }
            }
        }
        // also values of nodes that are not on the grid
        if rng.chance(0.3) {
            let n = rng.pick(o.types).to_instance(rng.below(9));
            for p in params_of(n) {
                vals.push((p, SAtom::param(rand_param(rng, p))));
            }
            for p in atoms_of(n) {
                vals.push((p, rand_atom(rng, p, &[])));
            }
        }
        let mut props = vec![];
        for _ in 0..rng.below(4) {
            let k = if rng.chance(0.5) { rng.pick(&["a", "b", "c"]).to_string() } else { rand_string(rng) };
            props.push((k, rand_prop(rng)));
        }
        let mut pats = vec![];
        for _ in 0..rng.below(3) {
            pats.push((*rng.pick(&[0usize, 1, 2, 3, 7, 127]), Pat::gen(rng)));
        }
        let mut bfs = vec![];
        if !o.bf_types.is_empty() {
            for _ in 0..rng.below(3) {
                bfs.push((*rng.pick(&[0usize, 1, 2, 31]), gen_bf(rng, o.bf_types)));
            }
        }
        Patch { w: o.w, h: o.h, nodes, cells: lay.cells, vals, mods, props, pats, bfs }
    }

    pub fn apply(&self, m: &mut Matrix) -> Result<(), Fail> {
        for (x, y, c) in self.cells.iter() {
            m.place(*x, *y, *c);
        }
        if let Err(e) = m.sync() {
            return fail("sync", format!("a legal patch was refused: {:?}", e));
        }
        for (p, v) in self.vals.iter() {
            m.set_param(*p, v.clone());
        }
        for (p, a) in self.mods.iter() {
            if let Err(e) = m.set_param_modamt(*p, Some(*a)) {
                return fail("sync", format!("modulation amount refused: {:?}", e));
            }
        }
        for (k, v) in self.props.iter() {
            m.set_prop(k, v.clone());
        }
        for (i, p) in self.pats.iter() {
            p.apply(m, *i);
        }
        for (i, b) in self.bfs.iter() {
            apply_bf(m, *i, b);
        }
        Ok(())
    }
    pub fn describe(&self) -> Value {
        json!({
            "nodes": self.nodes.iter().map(|n| format!("{}", n)).collect::<Vec<_>>(),
            "cells": self.cells.len(), "params": self.vals.len(), "modamts": self.mods.len(),
            "props": self.props.len(), "patterns": self.pats.len(), "block_functions": self.bfs.len(),
        })
    }
}

/// Sends all pending pattern edits and lets the sequencers take them over.
pub fn publish_patterns(e: &mut Eng, ids: &[usize]) {
    for id in ids {
        for _ in 0..8 {
            e.m.check_pattern_data(*id);
        }
    }
}

// ------------------------------------------------------------- observation
pub fn canon_bf(m: &Matrix, id: usize) -> Value {
    let Some(bf) = m.get_block_function(id) else { return Value::Null };
    let mut v = bf.lock().unwrap().save_snapshot().serialize();
    let mut empty = true;
    if let Some(a) = v["areas"].as_array_mut() {
        for ar in a.iter_mut() {
            if let Some(o) = ar.as_object_mut() {
                o.remove("size");
                empty &= o.get("blocks").and_then(|b| b.as_array()).map(|b| b.is_empty()).unwrap_or(true);
                if let Some(b) = o.get_mut("blocks").and_then(|b| b.as_array_mut()) {
                    b.sort_by_key(|b| (b["x"].as_i64(), b["y"].as_i64()));
                }
            }
        }
    }
    if empty {
        // nothing in it: the counter of block ids is not content
        v["current_block_id_counter"] = json!(0);
        v["areas"] = json!([]);
    }
    v
}

/// Everything the front end can tell about its contents.
#[derive(Clone, Debug)]
pub struct View {
    pub cells: Vec<(usize, usize, String, [Option<u8>; 6])>,
    /// stored value, modulation amount, display value, 1e-6 of the display range
    pub params: BTreeMap<String, (f32, Option<u32>, f32, f32)>,
    pub atoms: BTreeMap<String, String>,
    pub pats: BTreeMap<usize, Value>,
    pub bfs: BTreeMap<usize, Value>,
    pub props: BTreeMap<String, String>,
}

pub fn atom_str(a: &SAtom) -> String {
    match a {
        SAtom::AudioSample((p, d)) => format!("sample {:?} loaded={}", p, d.is_some()),
        SAtom::MicroSample(s) => format!("micro {:?}", s),
        SAtom::Param(p) => format!("param {:?}", p),
        SAtom::Setting(s) => format!("setting {}", s),
        SAtom::Str(s) => format!("str {:?}", s),
    }
}

pub fn pat_view(m: &Matrix, id: usize) -> Value {
    let Some(pd) = m.get_pattern_data(id) else { return Value::Null };
    let mut pd = pd.lock().unwrap();
    let mut cells = vec![];
    let mut any = false;
    for c in 0..pd.cols() {
        for r in 0..256 {
            let v = pd.get_cell_value(r, c);
            if let Some(s) = pd.get_cell(r, c).map(|s| s.to_string()) {
                cells.push(json!([r, c, v, s]));
                any = true;
            }
        }
    }
    let types: Vec<u8> = (0..pd.cols())
        .map(|c| {
            if pd.is_col_note(c) {
                1
            } else if pd.is_col_step(c) {
                2
            } else if pd.is_col_gate(c) {
                3
            } else {
                0
            }
        })
        .collect();
    any |= types.iter().any(|t| *t != 0);
    let mut v = json!({"rows": pd.rows(), "types": types, "cells": cells});
    if any {
        // An otherwise empty pattern does not keep its cursor.
        v["cursor"] = json!(pd.get_cursor());
        v["edit_step"] = json!(pd.get_edit_step());
    }
    v
}

pub const DIRS: [CellDir; 6] = [CellDir::T, CellDir::TL, CellDir::BL, CellDir::TR, CellDir::BR, CellDir::B];

pub fn view(m: &mut Matrix, nodes: &[NodeId], pats: &[usize], bfs: &[usize], props: &[String]) -> View {
    let mut v = View {
        cells: vec![],
        params: BTreeMap::new(),
        atoms: BTreeMap::new(),
        pats: BTreeMap::new(),
        bfs: BTreeMap::new(),
        props: BTreeMap::new(),
    };
    m.for_each(|x, y, c| {
        let mut p = [None; 6];
        for (i, d) in DIRS.iter().enumerate() {
            p[i] = c.local_port_idx(*d);
        }
        v.cells.push((x, y, format!("{}", c.node_id()), p));
    });
    for n in nodes {
        for p in params_of(*n) {
            let val = m.get_param(&p).map(|a| a.f()).unwrap_or(f32::NAN);
            let amt = m.get_param_modamt(&p).map(|a| a.to_bits());
            if !val.is_nan() || amt.is_some() {
                let ((lo, hi), _) = p.param_min_max().unwrap_or(((0.0, 1.0), (0.0, 0.0)));
                let eps = (p.denorm(hi) - p.denorm(lo)).abs() * 1e-6;
                v.params.insert(format!("{} {}", n, p.name()), (val, amt, p.denorm(val), eps));
            }
        }
        for p in atoms_of(*n) {
            if let Some(a) = m.get_param(&p) {
                v.atoms.insert(format!("{} {}", n, p.name()), atom_str(&a));
            }
        }
    }
    for i in pats {
        v.pats.insert(*i, pat_view(m, *i));
    }
    for i in bfs {
        v.bfs.insert(*i, canon_bf(m, *i));
    }
    for k in props {
        if let Some(a) = m.get_prop(k) {
            v.props.insert(k.clone(), atom_str(a));
        }
    }
    v
}

/// First difference between two views; parameters may differ by `tol` of their stored range.
pub fn view_diff(a: &View, b: &View, tol: f32) -> Option<(&'static str, String)> {
    for (x, y) in a.cells.iter().zip(b.cells.iter()) {
        if x != y {
            return Some(("cells", format!("{:?} != {:?}", x, y)));
        }
    }
    if a.cells.len() != b.cells.len() {
        return Some(("cells", format!("{} != {} cells", a.cells.len(), b.cells.len())));
    }
    for (k, x) in a.params.iter() {
        match b.params.get(k) {
            None => return Some(("params", format!("{} = {:?} is gone", k, x))),
            Some(y) => {
                if x.1 != y.1 {
                    return Some(("modamt", format!("{}: amount {:?} != {:?}", k, x.1.map(f32::from_bits), y.1.map(f32::from_bits))));
                }
                let same_nan = x.0.is_nan() && y.0.is_nan();
                let near = (x.0 - y.0).abs() <= tol || (tol > 0.0 && (x.2 - y.2).abs() <= x.3);
                if !same_nan && !near {
                    return Some(("params", format!("{}: {} != {}", k, x.0, y.0)));
                }
            }
        }
    }
    for (k, y) in b.params.iter() {
        if !a.params.contains_key(k) {
            return Some(("params", format!("{} = {:?} appeared", k, y)));
        }
    }
    if a.atoms != b.atoms {
        for (k, x) in a.atoms.iter() {
            if b.atoms.get(k) != Some(x) {
                return Some(("atoms", format!("{}: {} != {:?}", k, x, b.atoms.get(k))));
            }
        }
        return Some(("atoms", format!("{:?} != {:?}", a.atoms, b.atoms)));
    }
    for (k, x) in a.pats.iter() {
        if b.pats.get(k) != Some(x) {
            return Some(("patterns", format!("pattern {}: {} != {:?}", k, x, b.pats.get(k))));
        }
    }
    for (k, x) in a.bfs.iter() {
        if b.bfs.get(k) != Some(x) {
            return Some(("blockfun", format!("block function {}: {} != {:?}", k, x, b.bfs.get(k).map(|v| v.to_string()))));
        }
    }
    if a.props != b.props {
        return Some(("props", format!("{:?} != {:?}", a.props, b.props)));
    }
    None
}

pub fn scratch() -> String {
    std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".into())
}

/// Writes a few sample files to the scratch directory, once.
pub fn sample_files() -> Vec<String> {
    static ONCE: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    ONCE.get_or_init(|| {
        let dir = scratch();
        let mut r = vec![];
        for (i, (rate, len, bits, fl)) in
            [(44100u32, 441usize, 32u16, true), (48000, 2000, 16, false), (22050, 50, 32, true)].iter().enumerate()
        {
            let p = format!("{}/s{}.wav", dir, i);
            let spec = hound::WavSpec {
                channels: 1,
                sample_rate: *rate,
                bits_per_sample: *bits,
                sample_format: if *fl { hound::SampleFormat::Float } else { hound::SampleFormat::Int },
            };
            let mut w = hound::WavWriter::create(&p, spec).expect("wav");
            let mut rng = Rng::new(i as u64 + 7);
            for k in 0..*len {
                let v = ((k as f32) * 0.05).sin() * 0.8 + rng.f(-0.1, 0.1);
                if *fl {
                    w.write_sample(v).unwrap();
                } else {
                    w.write_sample((v * 32767.0) as i16).unwrap();
                }
            }
            w.finalize().unwrap();
            r.push(p);
        }
        r
    })
    .clone()
}
