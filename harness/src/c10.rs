//! C10: rendering is deterministic and does not depend on how it is cut into blocks.
use crate::churn::rand_midi_at;
use crate::core::*;
use crate::eng::*;
use crate::ensure;
use crate::gen::*;
use hexodsp::nodes::HxTimedEvent;
use hexodsp::*;
use serde_json::json;

/// One script: segments of frames, before each some changes.
#[derive(Clone)]
enum Ch {
    Val(ParamId, SAtom),
    Amt(ParamId, Option<f32>),
    Regraph(Vec<(usize, usize, Cell)>),
}
struct Script {
    patch: Patch,
    segs: Vec<(usize, Vec<Ch>)>,
    midi: Vec<(usize, HxMidiEvent)>, // absolute frame
    il: Vec<f32>,
    ir: Vec<f32>,
    srate: f32,
}

fn gen_script(rng: &mut Rng, types: &[NodeId], samples: &[String], max_nodes: usize, max_seg: i64) -> Script {
    let o = GenOpts { types, samples, max_nodes, bf_types: &[], with_out: true, w: 9, h: 10 };
    let mut patch = loop {
        let p = Patch::gen(rng, &o);
        if p.nodes.iter().all(|n| n.instance() < 3) {
            break p;
        }
    };
    // (mostly hear something)
    patch.vals.retain(|(p, _)| !(p.node_id() == NodeId::Out(0) && p.name() == "gain"));
    patch.mods.retain(|(p, _)| !(p.node_id() == NodeId::Out(0)));
    for p in patch.pats.iter_mut() {
        p.0 = p.0 % 2;
    }
    let nseg = rng.range(1, 5) as usize;
    let mut segs = vec![];
    let mut total = 0;
    for k in 0..nseg {
        let len = rng.range(1, max_seg) as usize;
        let mut ch = vec![];
        if k > 0 {
            for _ in 0..rng.below(8) {
                let n = *rng.pick(&patch.nodes);
                if rng.chance(0.7) {
                    let ps = params_of(n);
                    if !ps.is_empty() {
                        let p = *rng.pick(&ps);
                        ch.push(Ch::Val(p, SAtom::param(rand_param(rng, p))));
                    }
                } else if rng.chance(0.6) {
                    let ps = atoms_of(n);
                    if !ps.is_empty() {
                        let p = *rng.pick(&ps);
                        if !(n.name() == "fvafilt" && p.name() == "ftype") {
                            ch.push(Ch::Val(p, rand_atom(rng, p, samples)));
                        }
                    }
                } else {
                    let ps = params_of(n);
                    if !ps.is_empty() {
                        ch.push(Ch::Amt(*rng.pick(&ps), if rng.chance(0.3) { None } else { Some(rng.f(-1.0, 1.0)) }));
                    }
                }
            }
            if rng.chance(0.25) {
                // drop a random edge's cells
                let mut c = patch.cells.clone();
                if c.len() > 2 {
                    let i = rng.below(c.len());
                    if c[i].2.node_id() != NodeId::Out(0) {
                        c.remove(i);
                    }
                    ch.push(Ch::Regraph(c));
                }
            }
        }
        segs.push((len, ch));
        total += len;
    }
    let mut midi = vec![];
    let mut at = 0;
    while at < total {
        for (t, e) in rand_midi_at(rng, 128, 3) {
            midi.push((at + t, e));
        }
        at += 128;
    }
    midi.retain(|m| m.0 < total);
    midi.sort_by_key(|m| m.0);
    let il = noise_sig(rng, total, 0.8);
    // (the right input moves slowly through the range of a control signal)
    let ir = if rng.chance(0.4) {
        noise_sig(rng, total, 0.8)
    } else {
        let (a, b, w) = (rng.f(0.0, 0.5), rng.f(0.0, 0.5), rng.f(0.001, 0.05));
        (0..total).map(|i| a + b * (1.0 + (i as f32 * w).sin())).collect()
    };
    Script { patch, segs, midi, il, ir, srate: *rng.pick(&[44100.0, 48000.0, 96000.0]) }
}
fn play(s: &Script, cuts: &mut dyn FnMut() -> usize) -> Result<(Vec<f32>, Vec<f32>, usize), Fail> {
    let mut e = Eng::new(9, 10, s.srate);
    // values first: they are in effect from the first sample on
    for (p, v) in s.patch.vals.iter() {
        e.m.set_param(*p, v.clone());
    }
    let mut p = s.patch.clone();
    p.props.clear();
    p.apply(&mut e.m)?;
    e.block(1);
    publish_patterns(&mut e, &[0, 1]);
    // settle in blocks of one frame
    for _ in 0..16 {
        e.block(1);
    }
    let (mut l, mut r) = (vec![], vec![]);
    let mut pos = 0;
    let mut mi = 0;
    let mut nblocks = 0;
    for (len, ch) in s.segs.iter() {
        for c in ch.iter() {
            match c {
                Ch::Val(p, v) => e.m.set_param(*p, v.clone()),
                Ch::Amt(p, a) => {
                    if let Err(x) = e.m.set_param_modamt(*p, *a) {
                        return fail("sync", format!("{:?}", x));
                    }
                }
                Ch::Regraph(c) => {
                    Layout { cells: c.clone() }.apply(&mut e.m);
                    if let Err(x) = e.m.sync() {
                        return fail("sync", format!("{:?}", x));
                    }
                }
            }
        }
        let end = pos + len;
        while pos < end {
            let n = cuts().clamp(1, MAXB).min(end - pos);
            e.ctx.inp[0][0..n].copy_from_slice(&s.il[pos..pos + n]);
            e.ctx.inp[1][0..n].copy_from_slice(&s.ir[pos..pos + n]);
            let mut evs = vec![];
            while mi < s.midi.len() && s.midi[mi].0 < pos + n {
                evs.push(HxTimedEvent::new_timed(s.midi[mi].0 - pos, s.midi[mi].1));
                mi += 1;
            }
            let (a, b) = e.block_midi(n, &evs);
            l.extend_from_slice(a);
            r.extend_from_slice(b);
            pos += n;
            nblocks += 1;
        }
    }
    Ok((l, r, nblocks))
}

/// First differing frame.
fn differs(a: &[f32], b: &[f32]) -> Option<usize> {
    (0..a.len().min(b.len())).find(|&i| a[i] != b[i] && !(a[i].is_nan() && b[i].is_nan()))
}

fn both(s: &Script, rng: &mut Rng, same: bool, obs: &mut Obs) -> Res {
    let c1 = rand_blocks(rng);
    let c2 = if same { c1.clone() } else { rand_blocks(rng) };
    let (mut i, mut j) = (0, 0);
    let a = play(s, &mut || {
        i += 1;
        c1[i % c1.len()]
    })?;
    let b = play(s, &mut || {
        j += 1;
        c2[j % c2.len()]
    })?;
    for (ch, (x, y)) in [(&a.0, &b.0), (&a.1, &b.1)].iter().enumerate() {
        if let Some(k) = differs(x, y) {
            return fail(
                if same { "not-deterministic" } else { "depends-on-blocks" },
                format!(
                    "channel {} frame {} of {}: {} with blocks {:?}, {} with blocks {:?}; nodes {:?}",
                    ch + 1, k, x.len(), x[k], c1, y[k], c2,
                    s.patch.nodes.iter().map(|n| format!("{}", n)).collect::<Vec<_>>()
                ),
            );
        }
    }
    let mut v: Vec<u32> = a.0.iter().chain(a.1.iter()).map(|x| x.to_bits()).collect();
    v.sort();
    v.dedup();
    obs.count("frames_compared", a.0.len() as u64 * 2);
    obs.count("blocks", (a.2 + b.2) as u64);
    obs.nontrivial = v.len() > 3 && (same || a.2 != b.2);
    obs.fingerprint = format!("{:x}", hash64(&format!("{:?}", v)));
    Ok(())
}

/// Nodes that read some of their inputs once per block.
pub const BLOCK_RATE: [&str; 3] = ["biqfilt", "sampl", "pverb"];

pub fn run(rep: &mut Report) {
    rep.wide = true;
    rep.rule = "one evaluation = one script (patch, parameter/setting/amount/graph changes, MIDI, audio input) rendered in two fresh engines, with the same or with different block cuts; every sample compared".into();
    rep.assumptions.push("oscillator instances below 3 (the others start at a documented random phase), gate columns with full probability".into());
    let types: Vec<NodeId> = all_types().into_iter().filter(|t| t.name() != "pverb").collect();
    let samples = sample_files();
    let n = rep.opts.n(900, 20000);
    rep.run("same-blocks", n, |rng, _c, obs| {
        let s = gen_script(rng, &types, &samples, 9, 900);
        both(&s, rng, true, obs)?;
        obs.sample = Some(json!({"patch": s.patch.describe(), "segments": s.segs.iter().map(|x| x.0).collect::<Vec<_>>(), "midi": s.midi.len()}));
        Ok(())
    });
    let ptypes: Vec<NodeId> = types.iter().copied().filter(|t| !BLOCK_RATE.contains(&t.name())).collect();
    let n = rep.opts.n(900, 20000);
    rep.run("cuts", n, |rng, _c, obs| {
        let s = gen_script(rng, &ptypes, &samples, 9, 900);
        both(&s, rng, false, obs)?;
        obs.sample = Some(json!({"patch": s.patch.describe()}));
        Ok(())
    });
    // Every per sample node type on its own.
    let reps = rep.opts.n(80, 1200);
    rep.run("cuts-single", reps * ptypes.len(), |rng, c, obs| {
        let t = ptypes[c % ptypes.len()];
        let mut s = gen_script(rng, &[t, NodeId::BOsc(0), NodeId::Inp(0), NodeId::Amp(0)], &samples, 4, 4000);
        if t != NodeId::Out(0) && n_outs(t) > 0 && rng.chance(0.8) {
            // the node in the middle: driven on some inputs, heard on both channels
            let (bo, inp, o) = (NodeId::BOsc(1), NodeId::Inp(0), NodeId::Out(0));
            let mut es = vec![
                E { from: t, out: rng.below(n_outs(t)) as u8, to: o, inp: inp_idx(o, "ch1") },
                E { from: t, out: rng.below(n_outs(t)) as u8, to: o, inp: inp_idx(o, "ch2") },
            ];
            let ps = params_of(t);
            for (i, p) in ps.iter().enumerate() {
                if t != inp && rng.chance(0.4) {
                    let i = inp_idx(t, p.name());
                    es.push(if rng.chance(0.3) {
                        E { from: bo, out: 0, to: t, inp: i }
                    } else {
                        E { from: inp, out: rng.below(2) as u8, to: t, inp: i }
                    });
                }
                if es.len() > 12 || i > 30 {
                    break;
                }
            }
            let nodes = vec![t, bo, inp, o];
            if let Some(l) = layout(rng, 9, 10, &nodes, &es) {
                s.patch.cells = l.cells;
                s.patch.nodes = nodes;
                if rng.chance(0.7) {
                    // mostly at the defaults
                    s.patch.vals.retain(|_| rng.chance(0.25));
                    s.patch.mods.retain(|_| rng.chance(0.4));
                    for (_, c) in s.segs.iter_mut() {
                        c.retain(|c| matches!(c, Ch::Val(..)) || rng.chance(0.5));
                    }
                }
                for (_, c) in s.segs.iter_mut() {
                    c.retain(|c| !matches!(c, Ch::Regraph(_)));
                }
            }
        }
        both(&s, rng, false, obs)?;
        if obs.nontrivial {
            obs.count(&format!("audible_{}", t.name()), 1);
        }
        Ok(())
    });
    rep.note("per_sample_types", json!(ptypes.iter().map(|t| t.name()).collect::<Vec<_>>()));
}
