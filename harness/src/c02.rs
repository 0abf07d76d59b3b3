//! C02: illegal edits are refused without a trace, legal ones accepted.
use crate::core::*;
use crate::eng::*;
use crate::ensure;
use hexodsp::matrix::MatrixError;
use hexodsp::*;
use serde_json::json;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct MCell {
    pub id: NodeId,
    pub inp: [Option<u8>; 3], // T, TL, BL
    pub out: [Option<u8>; 3], // TR, BR, B
}
impl MCell {
    pub fn empty() -> Self {
        MCell { id: NodeId::Nop, inp: [None; 3], out: [None; 3] }
    }
    pub fn cell(&self) -> Cell {
        Cell::empty(self.id).input(self.inp[0], self.inp[1], self.inp[2]).out(self.out[0], self.out[1], self.out[2])
    }
}

#[derive(Clone)]
pub struct Grid {
    pub w: usize,
    pub h: usize,
    pub c: Vec<MCell>,
}
impl Grid {
    pub fn new(w: usize, h: usize) -> Self {
        Grid { w, h, c: vec![MCell::empty(); w * h] }
    }
    pub fn at(&self, x: i64, y: i64) -> Option<&MCell> {
        if x < 0 || y < 0 || x >= self.w as i64 || y >= self.h as i64 {
            None
        } else {
            Some(&self.c[x as usize * self.h + y as usize])
        }
    }
    pub fn set(&mut self, x: usize, y: usize, m: MCell) {
        if x < self.w && y < self.h {
            let h = self.h;
            self.c[x * h + y] = m;
        }
    }
    pub fn edges(&self) -> Vec<E> {
        let mut v = vec![];
        for x in 0..self.w as i64 {
            for y in 0..self.h as i64 {
                let c = self.at(x, y).unwrap();
                if c.id == NodeId::Nop {
                    continue;
                }
                for (i, (dir, od)) in [(CellDir::T, 2), (CellDir::TL, 1), (CellDir::BL, 0)].iter().enumerate() {
                    let (nx, ny) = hex_step(*dir, x, y);
                    if let (Some(inp), Some(n)) = (c.inp[i], self.at(nx, ny)) {
                        if n.id != NodeId::Nop {
                            if let Some(o) = n.out[*od] {
                                v.push(E { from: n.id, out: o, to: c.id, inp });
                            }
                        }
                    }
                }
            }
        }
        v
    }
    pub fn dup_input(&self) -> bool {
        let mut s = HashSet::new();
        self.edges().iter().any(|e| !s.insert((e.to, e.inp)))
    }
    pub fn cyclic(&self) -> bool {
        let edges = self.edges();
        let mut succ: HashMap<NodeId, Vec<NodeId>> = HashMap::new();
        for e in edges.iter() {
            succ.entry(e.from).or_default().push(e.to);
        }
        // colouring DFS
        let mut col: HashMap<NodeId, u8> = HashMap::new();
        fn dfs(n: NodeId, s: &HashMap<NodeId, Vec<NodeId>>, col: &mut HashMap<NodeId, u8>) -> bool {
            match col.get(&n) {
                Some(1) => return true,
                Some(2) => return false,
                _ => {}
            }
            col.insert(n, 1);
            if let Some(v) = s.get(&n) {
                for t in v {
                    if dfs(*t, s, col) {
                        return true;
                    }
                }
            }
            col.insert(n, 2);
            false
        }
        let keys: Vec<NodeId> = succ.keys().copied().collect();
        keys.iter().any(|k| dfs(*k, &succ, &mut col))
    }
}

pub fn palette(rng: &mut Rng, span: u8) -> NodeId {
    let i = rng.below(span as usize) as u8;
    match rng.below(9) {
        0 => NodeId::Sin(i),
        1 => NodeId::Amp(i),
        2 => NodeId::Mix3(i),
        3 => NodeId::Out(i),
        4 => NodeId::Map(i),
        5 => NodeId::Delay(i),
        6 => NodeId::Ad(i),
        7 => NodeId::TSeq(i),
        _ => NodeId::Mux9(i),
    }
}
pub fn n_in(n: NodeId) -> usize {
    let mut c = 0;
    while let Some(p) = n.param_by_idx(c) {
        if p.is_atom() {
            break;
        }
        c += 1;
    }
    c
}
pub fn n_out(n: NodeId) -> usize {
    let info = NodeInfo::from_node_id(n);
    let mut c = 0;
    while info.out_name(c).is_some() {
        c += 1;
    }
    c
}
pub fn rand_cell(rng: &mut Rng, span: u8, dens: f32) -> MCell {
    let id = palette(rng, span);
    let (ni, no) = (n_in(id), n_out(id));
    let mut m = MCell { id, inp: [None; 3], out: [None; 3] };
    for k in 0..3 {
        if ni > 0 && rng.chance(dens) {
            m.inp[k] = Some(rng.below(ni) as u8);
        }
        if no > 0 && rng.chance(dens) {
            m.out[k] = Some(rng.below(no) as u8);
        }
    }
    m
}

fn all_pids(span: u8) -> Vec<ParamId> {
    let mut v = vec![];
    for i in 0..span {
        for n in [NodeId::Sin(i), NodeId::Amp(i), NodeId::Mix3(i), NodeId::Out(i), NodeId::Map(i), NodeId::Delay(i), NodeId::Ad(i), NodeId::TSeq(i), NodeId::Mux9(i)] {
            for k in 0..n_in(n) {
                v.push(n.param_by_idx(k).unwrap());
            }
        }
    }
    v
}

fn cells_eq(m: &Matrix, g: &Grid) -> Res {
    for x in 0..g.w {
        for y in 0..g.h {
            let want = g.at(x as i64, y as i64).unwrap();
            let c = match m.get(x, y) {
                Some(c) => c,
                None => return fail("cells", format!("cell {},{} missing", x, y)),
            };
            let got = MCell {
                id: c.node_id(),
                inp: [c.local_port_idx(CellDir::T), c.local_port_idx(CellDir::TL), c.local_port_idx(CellDir::BL)],
                out: [c.local_port_idx(CellDir::TR), c.local_port_idx(CellDir::BR), c.local_port_idx(CellDir::B)],
            };
            ensure!(got == *want, "cells", "cell {},{} is {:?} expected {:?}", x, y, got, want);
            if want.id != NodeId::Nop {
                ensure!(c.pos() == (x, y), "cells", "cell {},{} says its position is {:?}", x, y, c.pos());
            }
        }
    }
    Ok(())
}

fn case(rng: &mut Rng, obs: &mut Obs) -> Res {
    let (w, h) = (rng.range(1, 7) as usize, rng.range(1, 7) as usize);
    let span = rng.range(1, 3) as u8;
    let dens = rng.f(0.3, 0.95);
    let mut a = Eng::new(w, h, 44100.0);
    let mut b = Eng::new(w, h, 44100.0); // the twin that never attempts illegal edits
    let mut g = Grid::new(w, h);
    let pids = all_pids(span);
    let blocks = vec![rng.range(1, MAXB as i64) as usize];
    let mut fp = String::new();
    let (mut refused, mut accepted) = (0u64, 0u64);
    for step in 0..rng.range(6, 22) {
        // parameter changes on both
        if rng.chance(0.4) {
            let p = *rng.pick(&pids);
            let v = rng.f(0.0, 1.0);
            a.m.set_param(p, SAtom::param(v));
            b.m.set_param(p, SAtom::param(v));
        }
        if rng.chance(0.25) {
            let p = *rng.pick(&pids);
            let v = if rng.chance(0.3) { None } else { Some(rng.f(-1.0, 1.0)) };
            let ra = a.m.set_param_modamt(p, v).is_ok();
            let rb = b.m.set_param_modamt(p, v).is_ok();
            ensure!(ra == rb, "twin", "step {}: set_param_modamt differs from the twin", step);
        }
        let mut cand = g.clone();
        let kind = rng.below(5);
        let mut must_err: Option<&str> = None; // occupied / range
        let res: Result<(), MatrixError>;
        let nc = rng.range(1, 4);
        let mut newc: Vec<(usize, usize, MCell)> = vec![];
        for _ in 0..nc {
            let c = if rng.chance(0.2) { MCell::empty() } else { rand_cell(rng, span, dens) };
            let (x, y) = if rng.chance(0.06) { (w + rng.below(3), rng.below(h + 2)) } else { (rng.below(w), rng.below(h)) };
            newc.push((x, y, c));
        }
        if kind == 4 {
            // cluster placement: only onto empty cells inside the grid
            let cells: Vec<Cell> = newc.iter().map(|(x, y, c)| {
                let mut cc = c.cell();
                cc = cc.with_pos_of(Cell::empty_at(NodeId::Nop, *x as u8, *y as u8));
                cc
            }).collect();
            for (x, y, c) in newc.iter() {
                match cand.at(*x as i64, *y as i64) {
                    None => { must_err = Some("range"); break; }
                    Some(o) if o.id != NodeId::Nop => { must_err = Some("occupied"); break; }
                    _ => cand.set(*x, *y, *c),
                }
            }
            res = a.m.change_matrix_err(|m| m.place_multiple(&cells));
        } else {
            for (x, y, c) in newc.iter() {
                cand.set(*x, *y, *c);
            }
            let nn = newc.clone();
            match kind {
                0 | 1 => {
                    res = a.m.change_matrix(|m| for (x, y, c) in nn.iter() { m.place(*x, *y, c.cell()); });
                }
                2 => {
                    let user_err = rng.chance(0.2);
                    if user_err { must_err = Some("user"); }
                    res = a.m.change_matrix_err(|m| {
                        for (x, y, c) in nn.iter() { m.place(*x, *y, c.cell()); }
                        if user_err { Err(MatrixError::PosOutOfRange) } else { Ok(()) }
                    });
                }
                _ => {
                    a.m.save_matrix();
                    for (x, y, c) in nn.iter() { a.m.place(*x, *y, c.cell()); }
                    res = a.m.check();
                    if res.is_err() { a.m.restore_matrix(); }
                }
            }
        }
        let (dup, cyc) = (cand.dup_input(), cand.cyclic());
        let illegal = must_err.is_some() || dup || cyc;
        fp.push_str(&format!("{}{}{}{}{};", kind, nc, dup as u8, cyc as u8, must_err.unwrap_or("-")));
        obs.count(if must_err.is_some() { "placement_refusals" } else if dup && cyc { "dup_and_cycle" } else if dup { "duplicate_inputs" } else if cyc { "cycles" } else { "legal" }, 1);
        match (&res, must_err) {
            (Ok(_), _) => ensure!(!illegal, "illegal-accepted",
                "step {}: illegal edit accepted (duplicate input: {}, cycle: {}, placement: {:?}) edges={:?}", step, dup, cyc, must_err, cand.edges()),
            (Err(e), None) => {
                ensure!(illegal, "legal-refused", "step {}: legal edit refused with {:?}: edges {:?}", step, e, cand.edges());
                match e {
                    MatrixError::CycleDetected => ensure!(cyc, "wrong-error", "cycle reported but there is none: {:?}", cand.edges()),
                    MatrixError::DuplicatedInput { .. } => ensure!(dup, "wrong-error", "duplicated input reported but there is none: {:?}", cand.edges()),
                    e => return fail("wrong-error", format!("unexpected error {:?}", e)),
                }
            }
            (Err(e), Some(k)) => match (k, e) {
                ("range", MatrixError::PosOutOfRange) | ("occupied", MatrixError::NonEmptyCell { .. }) | ("user", _) => {}
                _ => return fail("wrong-error", format!("placement problem {} reported as {:?}", k, e)),
            },
        }
        if res.is_ok() {
            accepted += 1;
            g = cand;
            let nn = newc.clone();
            b.m.change_matrix(|m| for (x, y, c) in nn.iter() { m.place(*x, *y, c.cell()); })
                .map_err(|e| Fail { key: "legal-refused".into(), msg: format!("twin refused {:?}", e) })?;
            if rng.chance(0.8) {
                let (ra, rb) = (a.m.sync(), b.m.sync());
                ensure!(ra.is_ok() && rb.is_ok(), "legal-refused", "sync of a legal graph failed: {:?} {:?}", ra, rb);
            }
        } else {
            refused += 1;
        }
        cells_eq(&a.m, &g)?;
        // which inputs are in use
        let used: HashSet<(NodeId, u8)> = g.edges().iter().map(|e| (e.to, e.inp)).collect();
        if accepted > 0 {
            for p in pids.iter() {
                let u = a.m.param_input_is_used(*p);
                ensure!(u == used.contains(&(p.node_id(), p.inp())), "used-inputs",
                    "step {} (edit {}): {:?} reported in use = {}, but it is {}", step,
                    if res.is_ok() { "accepted" } else { "refused" }, p, u, !u);
            }
            obs.count("used_input_answers", pids.len() as u64);
        }
        ensure!(save_patch_to_mem(&mut a.m) == save_patch_to_mem(&mut b.m), "saved-patch",
            "step {}: saved patch differs from the twin that never attempted the refused edits", step);
        let (al, ar) = a.render(300, &blocks);
        let (bl, br) = b.render(300, &blocks);
        if let Some(i) = bits_eq(&al, &bl).or(bits_eq(&ar, &br)) {
            return fail("audio", format!("step {}: audio differs from the twin at frame {}: {} vs {}", step, i, al[i], bl[i]));
        }
        obs.count("audio_frames_compared", 600);
        obs.count("audio_nonzero", al.iter().chain(ar.iter()).filter(|x| **x != 0.0).count() as u64);
    }
    obs.count("refused", refused);
    obs.count("accepted", accepted);
    obs.nontrivial = refused > 0 && accepted > 0;
    obs.fingerprint = fp;
    obs.sample = Some(json!({"grid": [w, h], "accepted": accepted, "refused": refused, "final_edges": g.edges().len()}));
    Ok(())
}

/// Cycles with no local symptom: a long chain, closed or not by its last edge; and graphs with
/// high fan-out and diamonds.
fn long_case(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = rng.range(2, 100) as usize;
    let mut e = Eng::new(30, 30, 44100.0);
    let mut ord: Vec<u8> = (0..n as u8).collect();
    rng.shuffle(&mut ord);
    let mut edges: Vec<E> = vec![];
    for i in 1..n {
        edges.push(E { from: NodeId::Mix3(ord[i - 1]), out: 0, to: NodeId::Mix3(ord[i]), inp: 0 });
        if i > 2 && rng.chance(0.5) {
            edges.push(E { from: NodeId::Mix3(ord[rng.below(i)]), out: 0, to: NodeId::Mix3(ord[i]), inp: 1 });
        }
    }
    let lay = match layout(rng, 30, 30, &[], &edges) { Some(l) => l, None => return Ok(()) };
    let r = e.m.change_matrix(|m| lay.apply(m));
    ensure!(r.is_ok(), "legal-refused", "acyclic graph of {} nodes, {} edges refused: {:?}", n, edges.len(), r);
    e.m.sync().map_err(|e| Fail { key: "legal-refused".into(), msg: format!("{:?}", e) })?;
    // close it somewhere: an edge from a later to an earlier (or the same) node
    let (i, j) = { let a = rng.below(n); (a, a + rng.below(n - a)) };
    let mut e2 = edges.clone();
    e2.push(E { from: NodeId::Mix3(ord[j]), out: 0, to: NodeId::Mix3(ord[i]), inp: 2 });
    let lay2 = match layout(rng, 30, 30, &[], &e2) { Some(l) => l, None => return Ok(()) };
    let r = e.m.change_matrix(|m| lay2.apply(m));
    ensure!(matches!(r, Err(MatrixError::CycleDetected)), "illegal-accepted", "cycle of length {} through {} nodes not refused: {:?}", j - i + 1, n, r);
    // and an untransactional sync must not upload it either
    let mut e3 = Eng::new(30, 30, 44100.0);
    lay2.apply(&mut e3.m);
    ensure!(e3.m.sync().is_err(), "illegal-accepted", "sync accepted a cyclic graph");
    obs.count("cycles", 2);
    obs.nontrivial = true;
    obs.fingerprint = format!("{}-{}-{}", n, i, j);
    Ok(())
}

pub fn run(rep: &mut Report) {
    rep.rule = "a case is a history of legal and illegal transactional edits on a random dense grid; verdict and error kind are compared with an independent model of the grid; after every step cells, used inputs, saved patch and audio are compared with a twin instance that never attempted the refused edits. Non-trivial: the history contains both refusals and acceptances.".into();
    let n = rep.opts.n(700, 20000);
    rep.run("histories", n, |rng, _c, obs| case(rng, obs));
    let n = rep.opts.n(60, 2000);
    rep.run("long-cycles", n, |rng, _c, obs| long_case(rng, obs));
}
