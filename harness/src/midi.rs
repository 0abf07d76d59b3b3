//! C11, C28: MIDI notes and controllers.
use crate::core::*;
use crate::eng::*;
use crate::ensure;
use hexodsp::matrix::MatrixObserver;
use hexodsp::nodes::{EventWindowing, HxTimedEvent};
use hexodsp::*;
use serde_json::json;
use std::sync::{Arc, Mutex};

#[derive(Default)]
struct MidiObs {
    evs: Mutex<Vec<String>>,
}
impl MatrixObserver for MidiObs {
    fn update_prop(&self, _: &str) {}
    fn update_monitor(&self, _: &Cell) {}
    fn update_param(&self, _: &ParamId) {}
    fn update_matrix(&self) {}
    fn update_all(&self) {}
    fn midi_event(&self, e: HxMidiEvent) {
        self.evs.lock().unwrap().push(format!("{:?}", e));
    }
}

const RATES: [f32; 4] = [44100.0, 48000.0, 96000.0, 192000.0];

/// A stream: (absolute frame, event), sorted by frame. Notes overlap, cluster on one frame, and
/// use few enough channels and keys that they interact.
fn stream(rng: &mut Rng, total: usize, cc: f32) -> Vec<(usize, HxMidiEvent)> {
    let dens = *rng.pick(&[0.002f32, 0.02, 0.2, 1.0]);
    let nch = *rng.pick(&[1usize, 2, 16]);
    let keys = *rng.pick(&[2i64, 12, 127]);
    let top = rng.chance(0.3); // the highest keys, controllers and channels instead of the lowest
    let mut v = vec![];
    for f in 0..total {
        if !rng.chance(dens) {
            continue;
        }
        let n = if rng.chance(0.2) { rng.range(2, 5) } else { 1 };
        for _ in 0..n {
            let mut channel = rng.below(nch) as u8;
            let mut note = rng.range(0, keys) as u8;
            if top {
                channel = 15 - channel;
                note = 127 - note;
            }
            v.push((
                f,
                if rng.chance(cc) {
                    HxMidiEvent::CC { channel, cc: note, value: if rng.chance(0.3) { rng.below(2) as f32 } else { rng.f01() } }
                } else if rng.chance(0.5) {
                    HxMidiEvent::NoteOn { channel, note, vel: rng.f01() }
                } else {
                    HxMidiEvent::NoteOff { channel, note }
                },
            ));
        }
    }
    v
}

/// Feeds the stream in blocks, some events injected by the front end instead. Returns the
/// events with the frame at which they are in effect.
fn feed(
    e: &mut Eng, rng: &mut Rng, total: usize, evs: &[(usize, HxMidiEvent)], inject: bool, window: bool,
    mut before: impl FnMut(&mut Eng, &mut Rng, usize),
) -> Vec<(usize, HxMidiEvent)> {
    let blocks = rand_blocks(rng);
    let mut bi = 0;
    let mut pos = 0;
    let mut i = 0;
    let mut acted = vec![];
    while pos < total {
        bi += 1;
        let n = blocks[bi % blocks.len()].min(total - pos);
        before(e, rng, pos);
        if inject && rng.chance(0.3) {
            let cnt = if rng.chance(0.1) { 60 } else { rng.range(1, 4) };
            for _ in 0..cnt {
                let mut k = stream(rng, 20, 0.4);
                if let Some((_, ev)) = k.pop() {
                    e.m.inject_midi_event(ev);
                    acted.push((pos, ev));
                }
            }
        }
        e.ex.process_graph_updates();
        if window {
            // a driver block is cut into engine blocks with the event window
            let mut win = EventWindowing::new();
            let (mut ii, tot) = (i, &evs);
            let acted = &mut acted;
            e.ex.feed_midi_events_from(|| {
                if win.feed_me() {
                    if ii >= tot.len() {
                        return None;
                    }
                    win.feed(HxTimedEvent::new_timed(tot[ii].0, tot[ii].1));
                    ii += 1;
                }
                let r = win.next_event_in_range(pos, n);
                if r.is_some() {
                    acted.push(tot[ii - 1]);
                }
                r
            });
            i = ii - if win.feed_me() { 0 } else { 1 };
        } else {
            let mut ii = i;
            let acted = &mut acted;
            e.ex.feed_midi_events_from(|| {
                if ii < evs.len() && evs[ii].0 < pos + n {
                    ii += 1;
                    acted.push(evs[ii - 1]);
                    Some(HxTimedEvent::new_timed(evs[ii - 1].0 - pos, evs[ii - 1].1))
                } else {
                    None
                }
            });
            i = ii;
        }
        e.process_only(n);
        e.m.handle_graph_events();
        pos += n;
    }
    acted
}

fn echo_check(obs: &MidiObs, acted: &[(usize, HxMidiEvent)]) -> Result<u64, Fail> {
    let got = obs.evs.lock().unwrap();
    let want: Vec<String> = acted.iter().map(|a| format!("{:?}", a.1)).collect();
    for i in 0..want.len().max(got.len()) {
        if want.get(i) != got.get(i) {
            return fail("echo", format!("event {} of {} reported to the observer is {:?}, it should be {:?}", i, want.len(), got.get(i), want.get(i)));
        }
    }
    Ok(want.len() as u64)
}

pub fn run_c11(rep: &mut Report) {
    rep.wide = true;
    rep.rule = "one evaluation = one event stream (fed and injected, random cuts) heard by several MidiP nodes; pitch, gate and velocity of every frame compared with the note logic, and every event with the observer's log".into();
    rep.assumptions.push("at most 512 note events per block, the front end polls once per block, settings do not change while a gate is open".into());
    let n = rep.opts.n(1500, 40000);
    rep.run("notes", n, |rng, _c, obs| {
        let srate = *rng.pick(&RATES);
        let mut e = Eng::new(6, 12, srate);
        let mo = Arc::new(MidiObs::default());
        e.m.set_observer(mo.clone());
        let k = rng.range(1, 3) as usize;
        let mut nodes = vec![];
        let mut edges = vec![];
        let mut recs = vec![];
        for i in 0..k {
            let (a, b) = (NodeId::MidiP(i as u8), NodeId::Rust1x1(i as u8));
            nodes.push(a);
            edges.push(edge(a, "freq", b, "inp"));
            edges.push(edge(a, "gate", b, "alpha"));
            edges.push(edge(a, "vel", b, "beta"));
        }
        let mut cfg = vec![];
        for a in nodes.iter() {
            let ch = match rng.below(10) {
                0..=4 => rng.below(2),
                5 | 6 => 15 - rng.below(2),
                _ => rng.below(16),
            };
            let gm = rng.below(3);
            let gl = *rng.pick(&[0.2f32, 1.0, 3.0, 10.0, 250.0]);
            let det = if rng.chance(0.5) { 0.0 } else { rng.f(-0.1, 0.1) };
            e.seti(*a, "chan", ch as i64);
            e.seti(*a, "gmode", gm as i64);
            e.set_denorm(*a, "glen", gl);
            e.set(*a, "det", det);
            let p = a.inp_param("glen").unwrap();
            let gl = p.denorm(p.norm(gl));
            cfg.push((ch as u8, gm, gl, det));
        }
        place_edges(&mut e.m, &[], &edges);
        for i in 0..k {
            let (d, r) = recorder();
            e.m.set_dynamic_node1x1(i, d);
            recs.push(r);
        }
        e.m.sync().map_err(|x| Fail { key: "sync".into(), msg: format!("{:?}", x) })?;
        for i in 0..k {
            // settings are in effect on creation; send the recorder again in case it was not there yet
            let (d, r) = recorder();
            e.m.set_dynamic_node1x1(i, d);
            recs[i] = r;
        }
        let total = rng.range(50, 3000) as usize;
        let evs = stream(rng, total, 0.2);
        let (inj, win) = (rng.chance(0.4), rng.chance(0.3));
        let acted = feed(&mut e, rng, total, &evs, inj, win, |_, _, _| ());
        let nfed = acted.len();
        ensure!(inj || nfed == evs.len(), "events", "only {} of {} events were taken", nfed, evs.len());
        obs.count("events_echoed", echo_check(&mo, &acted)?);
        for i in 0..k {
            let (ch, gm, gl, det) = cfg[i];
            let r = recs[i].lock().unwrap();
            ensure!(r.ins[0].len() == total, "frames", "recorded {} of {} frames", r.ins[0].len(), total);
            let (mut note, mut vel) = (None, 0.0f32);
            let (mut cur, mut next) = (0, 0); // gate now, gate change for the next frame
            let mut ai = 0;
            let trig_len = (srate * 2.0 / 1000.0).ceil() as usize;
            let gate_len = gl * srate / 1000.0;
            let mut since: Option<usize> = None; // frames since the last note on
            let mut ons = 0u64;
            for f in 0..total {
                if next > 0 {
                    cur = 1;
                } else if next < 0 {
                    cur = 0;
                }
                next = 0;
                if let Some(s) = since.as_mut() {
                    *s += 1;
                }
                while ai < acted.len() && acted[ai].0 <= f {
                    match acted[ai].1 {
                        HxMidiEvent::NoteOn { channel, note: nt, vel: v } if channel == ch => {
                            note = Some(nt);
                            vel = v;
                            ons += 1;
                            since = Some(0);
                            // a note while the gate is open closes it for one frame
                            if cur > 0 || next > 0 {
                                cur = 0;
                                next = 1;
                            } else {
                                cur = 1;
                            }
                        }
                        HxMidiEvent::NoteOff { channel, note: nt } if channel == ch && (note == Some(nt) || (note.is_none() && nt == 0)) => {
                            next = -1;
                        }
                        _ => (),
                    }
                    ai += 1;
                }
                let what = |p: &str, g: f32, w: &str| {
                    fail::<()>(
                        p,
                        format!("MidiP {} (channel {}, gate mode {}, rate {}) frame {}: {} is {} instead of {}", i, ch, gm, srate, f, p, g, w),
                    )
                };
                if let Some(nt) = note {
                    let w = (nt as f32 - 69.0) / 120.0 + det;
                    if (r.ins[0][f] - w).abs() > 1e-5 {
                        what("pitch", r.ins[0][f], &format!("{}", w))?;
                    }
                }
                if r.ins[2][f] != vel {
                    what("velocity", r.ins[2][f], &format!("{}", vel))?;
                }
                let g = r.ins[1][f];
                match gm {
                    0 => {
                        if g != cur as f32 {
                            what("gate", g, &format!("{}", cur))?;
                        }
                    }
                    1 => {
                        let w = matches!(since, Some(s) if s < trig_len);
                        if g != w as u8 as f32 {
                            what("trigger", g, &format!("{}", w as u8))?;
                        }
                    }
                    _ => {
                        // open for the set time after each note, closed for one frame if a note
                        // comes while it is open
                        if let Some(s) = since {
                            let s = s as f32;
                            if s > 2.0 && s + 3.0 < gate_len && g != 1.0 {
                                what("fixed gate", g, "1")?;
                            }
                            if s > gate_len * 1.001 + 3.0 && g != 0.0 {
                                what("fixed gate", g, "0")?;
                            }
                            if s == 0.0 && f > 0 && r.ins[1][f - 1] > 0.0 && g != 0.0 {
                                // (the previous note ended on this very frame)
                                let mut q = 0;
                                for b in (0..f).rev() {
                                    if r.ins[1][b] > 0.0 { q += 1 } else { break }
                                }
                                if (q as f32 - gate_len).abs() > 3.0 {
                                    what("fixed gate retrigger", g, "0")?;
                                }
                            }
                            if (s == 0.0 && f > 0 && r.ins[1][f - 1] == 0.0 && g == 0.0)
                                || (s == 1.0 && g == 0.0 && gate_len > 4.0)
                            {
                                // a single note on a closed gate opens it at once
                                let same = acted.iter().filter(|a| a.0 + s as usize == f && matches!(a.1, HxMidiEvent::NoteOn{channel, ..} if channel == ch)).count();
                                let before = acted.iter().filter(|a| a.0 + s as usize + 1 == f && matches!(a.1, HxMidiEvent::NoteOn{channel, ..} if channel == ch)).count();
                                if same == 1 && before == 0 {
                                    what("fixed gate start", g, "1")?;
                                }
                            }
                        } else if g != 0.0 {
                            what("fixed gate", g, "0")?;
                        }
                    }
                }
            }
            obs.count("note_ons_heard", ons);
            obs.count("frames_checked", total as u64);
            if ons > 0 {
                obs.nontrivial = true;
            }
        }
        obs.fingerprint = format!("{:x}", hash64(&format!("{:?}{:?}", cfg, acted)));
        obs.sample = Some(json!({"events": acted.len(), "frames": total, "config": format!("{:?}", cfg), "injected": inj, "windowed": win}));
        Ok(())
    });
}

pub fn run_c28(rep: &mut Report) {
    rep.wide = true;
    rep.rule = "one evaluation = one event stream heard by several MidiCC nodes; all three outputs of every frame compared with the assigned controllers' values and slew".into();
    rep.assumptions.push("at most 1024 controller events per block".into());
    let n = rep.opts.n(1500, 40000);
    rep.run("cc", n, |rng, _c, obs| {
        let srate = *rng.pick(&RATES);
        let mut e = Eng::new(6, 12, srate);
        let k = rng.range(1, 3) as usize;
        let mut edges = vec![];
        let mut recs = vec![];
        let mut cfg = vec![];
        let inst: Vec<u8> = (0..k).map(|i| i as u8 * 2).collect();
        for i in 0..k {
            let (a, b) = (NodeId::MidiCC(inst[i]), NodeId::Rust1x1(i as u8));
            edges.push(edge(a, "sig1", b, "inp"));
            edges.push(edge(a, "sig2", b, "alpha"));
            edges.push(edge(a, "sig3", b, "beta"));
            let ch = match rng.below(10) {
                0..=4 => rng.below(2),
                5 | 6 => 15 - rng.below(2),
                _ => rng.below(16),
            };
            let cc: Vec<i64> = (0..3).map(|_| match rng.below(10) {
                0..=4 => rng.range(0, 3),
                5..=7 => rng.range(124, 127),
                _ => rng.range(0, 127),
            }).collect();
            let slew = *rng.pick(&[0.0f32, 0.0, 0.5, 3.0, 20.0, 200.0]);
            e.seti(a, "chan", ch as i64);
            e.seti(a, "cc1", cc[0]);
            e.seti(a, "cc2", cc[1]);
            e.seti(a, "cc3", cc[2]);
            e.set_denorm(a, "slew", slew);
            let p = a.inp_param("slew").unwrap();
            cfg.push((ch as u8, cc, p.denorm(p.norm(slew))));
        }
        place_edges(&mut e.m, &[], &edges);
        e.m.sync().map_err(|x| Fail { key: "sync".into(), msg: format!("{:?}", x) })?;
        for i in 0..k {
            let (d, r) = recorder();
            e.m.set_dynamic_node1x1(i, d);
            recs.push(r);
        }
        let total = rng.range(50, 3000) as usize;
        let evs = stream(rng, total, 0.8);
        let (inj, win) = (rng.chance(0.4), rng.chance(0.3));
        // the channel/controller assignment may be changed while playing
        let re = rng.chance(0.3);
        let mut log: Vec<(usize, usize, usize, i64)> = vec![];
        let at = rng.below(total);
        let mut done = !re;
        let inst2 = inst.clone();
        let logr = &mut log;
        let acted = feed(&mut e, rng, total, &evs, inj, win, move |e, rng, pos| {
            if !done && pos >= at {
                done = true;
                let i = rng.below(k);
                let (s, nm) = *rng.pick(&[(0, "chan"), (1, "cc1"), (2, "cc2"), (3, "cc3")]);
                let v = rng.range(0, if s == 0 { 2 } else { 5 });
                e.seti(NodeId::MidiCC(inst2[i]), nm, v);
                logr.push((pos, i, s, v));
            }
        });
        let mut heard = 0u64;
        for i in 0..k {
            let (mut ch, mut cc, slew) = cfg[i].clone();
            let r = recs[i].lock().unwrap();
            ensure!(r.ins[0].len() == total, "frames", "recorded {} of {} frames", r.ins[0].len(), total);
            let step = 1000.0 / srate / slew;
            let mut tgt = [0.0f32; 3];
            let mut cur = [0.0f64; 3];
            let mut ai = 0;
            for f in 0..total {
                for (p, j, s, v) in log.iter() {
                    if *p == f && *j == i {
                        if *s == 0 {
                            ch = *v as u8
                        } else {
                            cc[*s - 1] = *v
                        }
                    }
                }
                while ai < acted.len() && acted[ai].0 <= f {
                    if let HxMidiEvent::CC { channel, cc: c, value } = acted[ai].1 {
                        if channel == ch {
                            for q in 0..3 {
                                if c as i64 == cc[q] {
                                    tgt[q] = value;
                                    heard += 1;
                                }
                            }
                        }
                    }
                    ai += 1;
                }
                for q in 0..3 {
                    let (g, w);
                    if slew < 0.11 {
                        w = tgt[q] as f64;
                        g = r.ins[q][f];
                        ensure!(g as f64 == w, "cc", "MidiCC {} output {} frame {}: {} instead of {} (channel {}, controllers {:?}, rate {})", i, q + 1, f, g, w, ch, cc, srate);
                    } else {
                        let t = tgt[q] as f64;
                        cur[q] = t.min(cur[q] + step as f64).max(cur[q] - step as f64);
                        g = r.ins[q][f];
                        ensure!((g as f64 - cur[q]).abs() < 2e-3, "cc-slew", "MidiCC {} output {} frame {}: {} instead of {} (slew {} ms, rate {})", i, q + 1, f, g, cur[q], slew, srate);
                    }
                }
            }
            obs.count("frames_checked", total as u64 * 3);
        }
        obs.count("controller_changes_heard", heard);
        obs.nontrivial = heard > 0;
        obs.fingerprint = format!("{:x}", hash64(&format!("{:?}{:?}", cfg, acted)));
        obs.sample = Some(json!({"events": acted.len(), "frames": total, "config": format!("{:?}", cfg), "reassigned": format!("{:?}", log)}));
        Ok(())
    });
}
