//! C12: the min/max monitors of a cell.
use crate::core::*;
use crate::eng::*;
use crate::ensure;
use hexodsp::monitor::MONITOR_MINMAX_SAMPLES;
use hexodsp::*;
use serde_json::json;
use std::time::{Duration, Instant};

const STRETCH: usize = 3 * 48000 / MONITOR_MINMAX_SAMPLES;

pub fn run(rep: &mut Report) {
    rep.wide = true;
    rep.rule = "one evaluation = one session of monitoring cells with random signals, block cuts and re-targeting; every entry of every monitored port compared with the min/max of the recorded signal".into();
    rep.assumptions.push("the workload waits for the monitor thread before its buffers run out".into());
    let n = rep.opts.n(260, 6000);
    rep.run_t("cells", n, rep.opts.threads * 3, |rng, _c, obs| {
        let mut e = Eng::new(9, 9, *rng.pick(&[44100.0, 96000.0]));
        // Two candidate cells: probes 0 and 1, each with up to three inputs and three outputs
        // on one cell.
        let mut k = 2u8;
        let mut cells = vec![];
        let mut feeders = vec![];
        for (ni, (x, y)) in [(0u8, (2i64, 3i64)), (1u8, (6i64, 4i64))] {
            let me = NodeId::Rust1x1(ni);
            let mut ins = [None; 3];
            let mut ports: Vec<u8> = (0..5).collect();
            rng.shuffle(&mut ports);
            for (i, d) in [CellDir::T, CellDir::TL, CellDir::BL].iter().enumerate() {
                if rng.chance(0.7) {
                    ins[i] = Some(inp_idx(me, PROBE_IN[ports[i] as usize]));
                    if rng.chance(0.8) {
                        let f = NodeId::Rust1x1(k);
                        feeders.push(k);
                        k += 1;
                        let (nx, ny) = hex_step(*d, x, y);
                        let o = Some(0);
                        let c = match d {
                            CellDir::T => Cell::empty(f).out(None, None, o),
                            CellDir::TL => Cell::empty(f).out(None, o, None),
                            _ => Cell::empty(f).out(o, None, None),
                        };
                        e.m.place(nx as usize, ny as usize, c);
                    }
                }
            }
            let mut outs = [None; 3];
            for o in outs.iter_mut() {
                if rng.chance(0.5) {
                    *o = Some(0);
                }
            }
            let c = Cell::empty(me).input(ins[0], ins[1], ins[2]).out(outs[0], outs[1], outs[2]);
            e.m.place(x as usize, y as usize, c);
            cells.push((x as usize, y as usize, ins, outs));
        }
        if let Err(x) = e.m.sync() {
            return fail("sync", format!("{:?}", x));
        }
        let amp = *rng.pick(&[1.0f32, 1.0, 0.001, 250.0, 1.0e6]);
        let offs = if rng.chance(0.4) { rng.f(-3.0, 3.0) * amp } else { 0.0 };
        let mut recs = vec![];
        for ni in 0..k {
            let mut r = Rng::new(rng.u64());
            let (d, rec) = probe_fn(true, move |_, out| {
                for o in out.iter_mut() {
                    *o = offs + amp * r.f(-1.0, 1.0);
                }
            });
            e.m.set_dynamic_node1x1(ni as usize, d);
            recs.push(rec);
        }
        for nm in PROBE_IN.iter() {
            for ni in 0..2 {
                e.set(NodeId::Rust1x1(ni), nm, rng.f(0.0, 1.0));
            }
        }
        let blocks: Vec<usize> = match rng.below(4) {
            0 => vec![MAXB],
            1 => vec![64],
            2 => (0..5).map(|_| rng.range(40, MAXB as i64) as usize).collect(),
            _ => vec![rng.range(40, 127) as usize],
        };
        let mut bi = 0;
        // what each monitor slot was fed with, so far
        let mut fed: [Vec<f32>; 6] = Default::default();
        let entries = if rng.chance(0.04) { 200 } else { rng.range(2, 12) };
        let mut cur = rng.below(2);
        let mut pos = 0;
        e.block(1); // (probes are installed)
        pos += 1;
        e.m.monitor_cell(e.m.get_copy(cells[cur].0, cells[cur].1).unwrap());
        let mut retargets = 0;
        let mut checked = 0u64;
        for step in 0..entries {
            if rng.chance(0.25) && step > 0 {
                if rng.chance(0.6) {
                    cur = 1 - cur;
                    e.m.monitor_cell(e.m.get_copy(cells[cur].0, cells[cur].1).unwrap());
                    retargets += 1;
                } else {
                    // the graph is rebuilt, the monitor stays on
                    let (w, h) = e.m.size();
                    let free: Vec<(usize, usize)> =
                        (0..w * h).map(|i| (i / h, i % h)).filter(|p| e.m.get(p.0, p.1).map(|c| c.is_empty()).unwrap_or(false)).collect();
                    let p = *rng.pick(&free);
                    e.m.place(p.0, p.1, Cell::empty(NodeId::Amp(rng.below(3) as u8)));
                    if let Err(x) = e.m.sync() {
                        return fail("sync", format!("{:?}", x));
                    }
                }
            }
            // one stretch at a time, at most 100 blocks
            let mut left = STRETCH;
            let part = rng.chance(0.3);
            if part {
                left = rng.range(1, 2 * STRETCH as i64) as usize;
            }
            while left > 0 {
                bi += 1;
                let n = blocks[bi % blocks.len()].min(left).max(1);
                e.block(n);
                left -= n;
                let (_, _, ins, outs) = cells[cur];
                let r = recs[cur].lock().unwrap();
                for i in 0..3 {
                    if let Some(p) = ins[i] {
                        let q = (0..5).find(|q| inp_idx(NodeId::Rust1x1(0), PROBE_IN[*q]) == p).unwrap();
                        fed[i].extend_from_slice(&r.ins[q][pos..pos + n]);
                    }
                    if outs[i].is_some() {
                        fed[3 + i].extend_from_slice(&r.out[pos..pos + n]);
                    }
                }
                pos += n;
            }
            // wait until all full stretches have arrived
            let want: Vec<Vec<(f32, f32)>> = fed
                .iter()
                .map(|f| {
                    f.chunks_exact(STRETCH)
                        .map(|c| (c.iter().cloned().fold(f32::INFINITY, f32::min), c.iter().cloned().fold(f32::NEG_INFINITY, f32::max)))
                        .collect()
                })
                .collect();
            let t0 = Instant::now();
            loop {
                let mut bad = None;
                for i in 0..6 {
                    let s = e.m.get_minmax_monitor_samples(i);
                    ensure!(s.len() == MONITOR_MINMAX_SAMPLES, "len", "{} entries", s.len());
                    for j in 0..s.len() {
                        let back = s.len() - j; // 1 = newest
                        let w = if back <= want[i].len() { want[i][want[i].len() - back] } else { (0.0, 0.0) };
                        let g = *s.at(j);
                        if g != w && bad.is_none() {
                            bad = Some(format!(
                                "port {} of 6, entry {} of {} (newest last): {:?} instead of {:?}; {} stretches of the signal are complete, {} retargets",
                                i, j, s.len(), g, w, want[i].len(), retargets
                            ));
                        }
                    }
                    checked += want[i].len().min(s.len()) as u64;
                }
                match bad {
                    None => break,
                    Some(b) => {
                        if t0.elapsed() > Duration::from_secs(20) {
                            return fail("minmax", b);
                        }
                        std::thread::sleep(Duration::from_millis(2));
                    }
                }
            }
            if blocks.len() == 1 && step > 0 && step % 4 == 0 {
                std::thread::sleep(Duration::from_millis(1));
            }
        }
        obs.count("entries_compared", checked);
        obs.count("retargets", retargets);
        obs.nontrivial = fed.iter().any(|f| f.len() >= STRETCH);
        obs.fingerprint = format!("{:x}", hash64(&format!("{:?} {} {}", cells, amp, pos)));
        obs.sample = Some(json!({"frames": pos, "amplitude": amp, "blocks": blocks, "cells": format!("{:?}", cells)}));
        Ok(())
    });
}
