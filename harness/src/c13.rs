//! C13: the tracker sequencer plays the pattern that was edited.
use crate::core::*;
use crate::eng::*;
use crate::ensure;
use hexodsp::dsp::tracker::UIPatternModel;
use hexodsp::*;
use serde_json::json;

pub const MAXLEN: usize = 256;

#[derive(Clone)]
pub struct Model {
    pub rows: usize,
    pub types: [u8; 6], // 0 value 1 note 2 step 3 gate
    pub cells: Vec<[Option<u16>; 6]>,
}
impl Model {
    pub fn new() -> Self {
        Model { rows: MAXLEN, types: [0; 6], cells: vec![[None; 6]; MAXLEN] }
    }
    /// What row `r` of a column says: (value, gate).
    fn row(&self, col: usize, r: usize) -> (f32, f32) {
        let at = |i: usize| self.cells[i][col];
        match self.types[col] {
            0 => {
                let v = |x: u16| (x & 0xFFF) as f32 / 4095.0;
                let last = self.rows - 1;
                let knot = |i: usize| -> Option<f32> {
                    if let Some(x) = at(i) {
                        Some(v(x))
                    } else if i == last || i == 0 {
                        Some(0.0)
                    } else {
                        None
                    }
                };
                let a = (0..=r).rev().find(|i| knot(*i).is_some()).unwrap();
                let b = (r..=last).find(|i| knot(*i).is_some()).unwrap();
                let (va, vb) = (knot(a).unwrap(), knot(b).unwrap());
                let y = if a == b { va } else { va + (vb - va) * (r - a) as f32 / (b - a) as f32 };
                (y, (r == last) as u8 as f32)
            }
            3 => (0.0, at(r).is_some() as u8 as f32),
            t => {
                let held = (0..=r).rev().find_map(|i| at(i));
                let y = match held {
                    None => 0.0,
                    Some(x) if t == 1 => ((x as f32 - 69.0) / 120.0).clamp(-1.0, 1.0),
                    Some(x) => (x & 0xFFF) as f32 / 4095.0,
                };
                (y, at(r).is_some() as u8 as f32)
            }
        }
    }
}

fn edit(m: &mut Matrix, id: usize, md: &mut Model, rng: &mut Rng) {
    let data = m.get_pattern_data(id).expect("pattern");
    let mut d = data.lock().unwrap();
    match rng.below(12) {
        0 => {
            let r = match rng.below(5) {
                0 => rng.range(1, 4) as usize,
                1 => MAXLEN,
                2 => rng.range(1, 300) as usize,
                3 => 0,
                _ => rng.range(2, 20) as usize,
            };
            d.set_rows(r);
            md.rows = r.min(MAXLEN);
        }
        1 | 2 => {
            let c = rng.below(6);
            let t = rng.below(4);
            match t {
                0 => d.set_col_value_type(c),
                1 => d.set_col_note_type(c),
                2 => d.set_col_step_type(c),
                _ => d.set_col_gate_type(c),
            }
            md.types[c] = t as u8;
        }
        3 => {
            let (r, c) = (rng.below(md.rows.max(1)), rng.below(6));
            d.clear_cell(r, c);
            md.cells[r][c] = None;
        }
        4 => {
            // outside: ignored
            d.set_cell_value(MAXLEN + rng.below(3), rng.below(6), 5);
            d.set_cell_value(rng.below(20), 6 + rng.below(3), 5);
        }
        5 => {
            let (r, c) = (rng.below(md.rows.max(1)), rng.below(6));
            let o = *rng.pick(&[1i16, -1, 16, -16, 256, -256, 4095, -4095, i16::MAX, i16::MIN + 1]);
            let dm: &mut dyn UIPatternModel = &mut *d;
            dm.change_value(r, c, o);
            let v = md.cells[r][c].unwrap_or(0) as i32 + o as i32;
            md.cells[r][c] = Some(v.clamp(0, 0xFFF) as u16);
        }
        _ => {
            let r = if rng.chance(0.1) { rng.below(MAXLEN) } else { rng.below(md.rows.max(1)) };
            let c = rng.below(6);
            let any = rng.range(0, 0xFFF) as u16;
            let v = match md.types[c] {
                1 => rng.range(0, 127) as u16,
                3 if rng.chance(0.8) => 0xF00 | (any & 0xFF),
                _ => *rng.pick(&[0, 0xFFF, any, any, any]),
            };
            d.set_cell_value(r, c, v);
            md.cells[r][c] = Some(v);
        }
    }
}

struct Setup {
    e: Eng,
    recs: Vec<ProbeRef>,
    clk: ProbeRef,
    trg: ProbeRef,
}

fn wire(e: &mut Eng, inst: u8, cmode: i64, rng: &mut Rng) -> Result<(Vec<ProbeRef>, ProbeRef, ProbeRef), Fail> {
    let ts = NodeId::TSeq(inst);
    let mut es = vec![edge(NodeId::Rust1x1(0), "sig", ts, "clock"), edge(NodeId::Rust1x1(1), "sig", ts, "trig")];
    for c in 0..6 {
        es.push(E { from: ts, out: c, to: NodeId::Rust1x1(2 + c / 3), inp: inp_idx(NodeId::Rust1x1(0), PROBE_IN[c as usize % 3]) });
        es.push(E { from: ts, out: 6 + c, to: NodeId::Rust1x1(4 + c / 3), inp: inp_idx(NodeId::Rust1x1(0), PROBE_IN[c as usize % 3]) });
    }
    let mut nodes = vec![];
    if rng.chance(0.4) {
        nodes.push(NodeId::TSeq((inst + 1) % 3));
    }
    place_edges(&mut e.m, &nodes, &es);
    e.seti(ts, "cmode", cmode);
    e.m.sync().map_err(|x| Fail { key: "sync".into(), msg: format!("{:?}", x) })?;
    let mut recs = vec![];
    for i in 2..6 {
        let (d, r) = recorder();
        e.m.set_dynamic_node1x1(i, d);
        recs.push(r);
    }
    // clock: a phase signal or pulses
    let mut r = Rng::new(rng.u64());
    let (mut ph, mut inc) = (r.f01(), 0.001f32);
    let mut period = r.range(2, 200);
    let mut k = 0i64;
    let mut f0 = true;
    let (d, clk) = probe_fn(true, move |_, out| {
        for o in out.iter_mut() {
            if cmode == 2 {
                if r.chance(0.02) {
                    inc = r.f(-0.02, 0.02);
                }
                if r.chance(0.02) {
                    ph = r.f01();
                }
                if r.chance(0.005) {
                    ph = *r.pick(&[0.0, 0.5, 1.0, 0.999999, 1.0e-6]);
                    inc = 0.0;
                }
                ph += inc;
                if ph.abs() > 4.0 {
                    ph = r.f01();
                }
                *o = ph;
            } else {
                k += 1;
                if k >= period {
                    k = 0;
                    if r.chance(0.1) {
                        period = if r.chance(0.1) { r.range(200, 3000) } else { r.range(2, 200) };
                    }
                }
                *o = if k < (period + 1) / 2 && !f0 { r.f(0.55, 1.0) } else { r.f(-0.2, 0.2) };
                f0 = false;
            }
        }
    });
    e.m.set_dynamic_node1x1(0, d);
    let mut r = Rng::new(rng.u64());
    let dens = *rng.pick(&[0.0f32, 0.0005, 0.01]);
    let mut left = 0;
    let mut first = true;
    let (d, trg) = probe_fn(true, move |_, out| {
        for o in out.iter_mut() {
            if left == 0 && !first && r.chance(dens) {
                left = r.range(1, 60);
            }
            first = false;
            *o = if left > 0 { r.f(0.6, 1.0) } else { r.f(-0.5, 0.2) };
            left = (left - 1).max(0);
        }
    });
    e.m.set_dynamic_node1x1(1, d);
    Ok((recs, clk, trg))
}

pub fn run(rep: &mut Report) {
    rep.wide = true;
    rep.rule = "one evaluation = one history of pattern edits, publications, blocks and graph clears, then playing in one of the clock modes; every frame of all 12 outputs compared with what the edited pattern says at that row and phase".into();
    rep.assumptions.push("frames closer than 1/500 of a row to a row or gate boundary are not compared; cell values up to 0xFFF".into());
    let n = rep.opts.n(2500, 40000);
    rep.run("play", n, |rng, _c, obs| {
        let mut e = Eng::new(8, 12, 44100.0);
        let inst = rng.below(3) as u8;
        let cmode = *rng.pick(&[2i64, 2, 0, 1]);
        let id = inst as usize;
        let mut md = Model::new();
        // the pattern may be edited before the sequencer exists
        if rng.chance(0.5) {
            let w = if rng.chance(0.3) { 200 } else { 20 };
            for _ in 0..rng.range(1, w) {
                edit(&mut e.m, id, &mut md, rng);
                if rng.chance(0.5) {
                    e.m.check_pattern_data(id);
                }
            }
        }
        let (recs, clk, trg) = wire(&mut e, inst, cmode, rng)?;
        let mut s = Setup { e, recs, clk, trg };
        let mut edits = 0u64;
        let mut clears = 0;
        for _ in 0..rng.range(1, 6) {
            let burst = if rng.chance(0.15) { 150 } else { rng.range(1, 25) };
            let quiet = rng.chance(0.3); // no audio block meanwhile
            for _ in 0..burst {
                edit(&mut s.e.m, id, &mut md, rng);
                edits += 1;
                if rng.chance(0.6) {
                    s.e.m.check_pattern_data(id);
                }
                if !quiet && rng.chance(0.3) {
                    let n = rng.range(1, MAXB as i64) as usize;
                    s.e.block(n);
                }
            }
            if rng.chance(0.12) {
                s.e.m.clear();
                clears += 1;
                if rng.chance(0.5) {
                    s.e.block(7);
                }
                let (recs, clk, trg) = wire(&mut s.e, inst, cmode, rng)?;
                s.recs = recs;
                s.clk = clk;
                s.trg = trg;
            }
        }
        if md.rows == 0 && rng.chance(0.7) {
            let r = rng.range(1, 20) as usize;
            s.e.m.get_pattern_data(id).unwrap().lock().unwrap().set_rows(r);
            md.rows = r;
        }
        // publish; everything arrives
        for _ in 0..90 {
            s.e.m.check_pattern_data(id);
            s.e.block(1);
        }
        let start = s.clk.lock().unwrap().out.len();
        let frames = rng.range(300, 5000) as usize;
        let blocks = rand_blocks(rng);
        s.e.render(frames, &blocks);
        let total = start + frames;
        let clk = s.clk.lock().unwrap();
        let trg = s.trg.lock().unwrap();
        let (cv, tv) = (&clk.out, &trg.out);
        ensure!(cv.len() == total && tv.len() == total, "frames", "recorded {} of {} frames", cv.len(), total);
        let recs: Vec<_> = s.recs.iter().map(|r| r.lock().unwrap()).collect();
        for r in recs.iter() {
            ensure!(r.ins[0].len() == total, "frames", "recorded {} of {} frames", r.ins[0].len(), total);
        }
        // clock model. The number of rows while the edits were still arriving is not known, so
        // only the state from the first sync (or from the start in phase mode) on is used.
        let (mut phase, mut inc, mut prev, mut cnt, mut tprev) = (None::<f64>, 0.0f64, true, 0u64, false);
        let rows = md.rows;
        let plen = rows.max(1) as f64;
        let mut rowtab: Vec<Vec<(f32, f32)>> = vec![];
        for c in 0..6 {
            rowtab.push((0..rows).map(|r| md.row(c, r)).collect());
        }
        let mut seen = 0u64;
        let mut visits: std::collections::HashSet<usize> = Default::default();
        // undecided gates: (column, row) visit -> fired?
        let mut dice: [Option<(usize, bool)>; 6] = [None; 6];
        for f in 0..total {
            let t = if tprev {
                if tv[f] <= 0.25 {
                    tprev = false;
                }
                false
            } else if tv[f] > 0.5 {
                tprev = true;
                true
            } else {
                false
            };
            if t {
                phase = Some(0.0);
            }
            let ph: Option<f64> = if cmode == 2 {
                Some((cv[f].abs() as f64).fract())
            } else {
                if prev {
                    if cv[f] <= 0.25 {
                        prev = false;
                    }
                } else if cv[f] > 0.5 {
                    prev = true;
                    if cnt > 0 {
                        inc = 1.0 / cnt as f64;
                    }
                    cnt = 0;
                }
                cnt += 1;
                if f < start {
                    // pattern length unknown
                    phase = None;
                }
                let lim = if cmode == 0 { plen } else { 1.0 };
                if f >= start && f == start && phase.is_none() {
                    phase = None;
                }
                phase = phase.map(|p| (p + inc) % lim);
                phase.map(|p| if cmode == 0 { p / plen } else { p })
            };
            if f < start {
                continue;
            }
            let get = |c: usize| (recs[c / 3].ins[c % 3][f], recs[2 + c / 3].ins[c % 3][f]);
            if rows == 0 {
                for c in 0..6 {
                    let g = get(c);
                    ensure!(g == (0.0, 0.0), "empty", "a pattern without rows plays {:?}", g);
                }
                continue;
            }
            let ph = match ph {
                Some(p) => p,
                None => continue,
            };
            let rp = ph * (rows as f64 - 0.00001);
            let (row, frac) = (rp.floor() as usize % rows, rp.fract() as f32);
            if frac < 0.002 || frac > 0.998 {
                dice = [None; 6];
                continue;
            }
            visits.insert(row);
            for c in 0..6 {
                let (g, gg) = get(c);
                let (y, wg) = rowtab[c][row];
                let bad = |what: &str, w: f32, g: f32| -> Fail {
                    Fail {
                        key: format!("{}-{}", ["value", "note", "step", "gate"][md.types[c] as usize], what),
                        msg: format!("column {} row {} of {} phase in row {}: {} is {} instead of {} (clock mode {}, {} edits, {} clears)", c + 1, row, rows, frac, what, g, w, cmode, edits, clears),
                    }
                };
                if gg != wg {
                    return Err(bad("gate output", wg, gg));
                }
                match md.types[c] {
                    0 => {
                        let p = rowtab[c][if row == 0 { rows - 1 } else { row - 1 }].0;
                        let w = p + (y - p) * frac;
                        if (w - g).abs() > 2e-3 {
                            return Err(bad("signal", w, g));
                        }
                    }
                    3 => match md.cells[row][c] {
                        None => {
                            if g != 0.0 {
                                return Err(bad("signal", 0.0, g));
                            }
                        }
                        Some(v) => {
                            let len = ((v & 0xF) + 1) as f32 / 16.0;
                            let div = (16 - ((v >> 4) & 0xF)) as f32;
                            let sub = (frac * div).fract();
                            let near = (sub - len).abs() < 0.05 || sub < 0.05 || sub > 0.95;
                            if !near {
                                let on = sub <= len;
                                if v & 0xF00 == 0xF00 {
                                    if g != on as u8 as f32 {
                                        return Err(bad("signal", on as u8 as f32, g));
                                    }
                                } else if on {
                                    // fires or not, but the same for the whole row
                                    match dice[c] {
                                        Some((r, fired)) if r == row => {
                                            if fired != (g == 1.0) {
                                                return Err(bad("signal within one row", fired as u8 as f32, g));
                                            }
                                        }
                                        _ => dice[c] = Some((row, g == 1.0)),
                                    }
                                } else if g != 0.0 {
                                    return Err(bad("signal", 0.0, g));
                                }
                            }
                        }
                    },
                    _ => {
                        if (y - g).abs() > 1e-6 {
                            return Err(bad("signal", y, g));
                        }
                    }
                }
                seen += 1;
            }
            for c in 0..6 {
                if let Some((r, _)) = dice[c] {
                    if r != row {
                        dice[c] = None;
                    }
                }
            }
        }
        obs.count("values_compared", seen);
        obs.count("rows_visited", visits.len() as u64);
        obs.count("edits", edits);
        obs.count("clears", clears);
        obs.nontrivial = seen > 100 && md.cells.iter().take(rows).any(|r| r.iter().any(|c| c.is_some()));
        obs.fingerprint = format!("{:x}", hash64(&format!("{:?}{:?}{}", md.types, md.cells, rows)));
        obs.sample = Some(json!({"rows": rows, "types": md.types, "mode": cmode, "edits": edits, "clears": clears}));
        Ok(())
    });

    // Probability of gates: each passing of a row rolls the dice again.
    let n = rep.opts.n(48, 1000);
    rep.run("dice", n, |rng, _c, obs| {
        let mut e = Eng::new(8, 12, 44100.0);
        let rows = rng.range(2, 6) as usize;
        let prob = rng.below(15);
        {
            let d = e.m.get_pattern_data(0).unwrap();
            let mut d = d.lock().unwrap();
            d.set_rows(rows);
            d.set_col_gate_type(0);
            d.set_cell_value(rng.below(rows), 0, ((prob as u16) << 8) | 0xFF);
            // some rows that always fire
            for r in 0..rows {
                if d.get_cell_value(r, 0) == 0 && rng.chance(0.4) {
                    d.set_cell_value(r, 0, 0xFFF);
                }
            }
        }
        let rolled: usize = {
            let d = e.m.get_pattern_data(0).unwrap();
            let mut d = d.lock().unwrap();
            (0..rows).find(|r| d.get_cell(*r, 0).is_some() && d.get_cell_value(*r, 0) != 0xFFF).unwrap()
        };
        let ts = NodeId::TSeq(0);
        place_edges(&mut e.m, &[], &[edge(NodeId::Rust1x1(0), "sig", ts, "clock"), edge(ts, "trk1", NodeId::Rust1x1(1), "inp")]);
        e.seti(ts, "cmode", 2);
        e.m.sync().map_err(|x| Fail { key: "sync".into(), msg: format!("{:?}", x) })?;
        let mut k = 0usize;
        let (d, _) = probe_fn(false, move |_, out| {
            for o in out.iter_mut() {
                *o = ((k % rows) as f32 + 0.5) / rows as f32;
                k += 1;
            }
        });
        e.m.set_dynamic_node1x1(0, d);
        let (d, rec) = recorder();
        e.m.set_dynamic_node1x1(1, d);
        for _ in 0..12 {
            e.m.check_pattern_data(0);
            e.block(rows);
        }
        let loops = 600;
        e.render(rows * loops, &[MAXB]);
        let r = rec.lock().unwrap();
        let mut fired = 0;
        for l in 12..12 + loops {
            fired += (r.ins[0][l * rows + rolled] > 0.5) as usize;
        }
        let p = (prob + 1) as f64 / 16.0;
        let sd = (p * (1.0 - p) * loops as f64).sqrt();
        let dev = (fired as f64 - p * loops as f64).abs();
        ensure!(dev < 6.5 * sd + 1.0, "probability", "a gate of probability {}/16 fired {} of {} times ({} rows)", prob + 1, fired, loops, rows);
        obs.count("rolls", loops as u64);
        obs.nontrivial = true;
        obs.fingerprint = format!("{} {} {}", rows, prob, fired);
        Ok(())
    });
}
