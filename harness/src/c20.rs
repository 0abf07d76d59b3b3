//! C20: feedback delay lines.
use crate::core::*;
use crate::ensure;
use crate::eng::*;
use hexodsp::*;
use serde_json::json;

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one engine with several feedback channels fed with distinct noise, random block sizes, layouts (order of reader and writer), sample rates, writers and readers added at different times, everything read compared sample by sample with what was written".into();
    rep.assumptions = vec![
        "expected delay: 3.14 ms, at least one block of the largest size (128 frames), within two samples and the same for all channels".into(),
        "writers may come and go (nothing is written meanwhile), readers stay once they are there".into(),
    ];
    let n = rep.opts.n(200, 4000);
    rep.run("delay", n, |rng, case, obs| {
        let sr = *rng.pick(&[44100.0f32, 44100.0, 48000.0, 96000.0, 192000.0, 22050.0]);
        let (w, h) = (14usize, 16usize);
        let mut e = Eng::new(w, h, sr);
        let nominal = ((sr * 3.14 / 1000.0) as usize).max(MAXB);
        let ch = rng.range(1, 4) as usize;
        let first = if rng.chance(0.2) { rng.range(0, 200) as u8 } else { 0 };
        let phases = rng.range(1, 4) as usize;
        let mut log = vec![];
        // what was written per channel and time; what was read
        let mut wrote: Vec<Vec<f32>> = vec![vec![]; ch];
        let mut heard: Vec<Vec<Option<f32>>> = vec![vec![]; ch];
        let mut vol = vec![1.0f32; ch];
        let mut reader = vec![false; ch];
        let mut recs: Vec<Option<ProbeRef>> = vec![None; ch];
        // channels whose volume is driven by a signal, and that signal
        let modv: Vec<bool> = (0..ch).map(|_| rng.chance(0.3)).collect();
        let mut vsrc: Vec<Option<ProbeRef>> = vec![None; ch];
        let mut volsig: Vec<Vec<f32>> = vec![vec![]; ch];
        let vparam = NodeId::FbRd(0).inp_param("vol").unwrap();
        let mut srcs: Vec<Option<ProbeRef>> = vec![None; ch];
        if rng.chance(0.2) {
            // used before
            let (a, b) = (NodeId::FbWr(first), NodeId::FbRd(first));
            let s = NodeId::Noise(0);
            let o = NodeId::Out(0);
            place_edges(&mut e.m, &[], &[edge(s, "sig", a, "inp"), edge(b, "sig", o, "ch1")]);
            ensure!(e.m.sync().is_ok(), "sync", "refused");
            for _ in 0..rng.range(1, 20) {
                e.block(rng.range(1, MAXB as i64) as usize);
            }
            e.m.clear();
            // (what was written last may still sound)
            for _ in 0..8 {
                e.block(MAXB);
            }
            log.push("used before".to_string());
        }
        if rng.chance(0.3) {
            // (time goes on before the first node)
            for _ in 0..rng.range(1, 10) {
                e.block(rng.range(1, MAXB as i64) as usize);
            }
        }
        for ph in 0..phases {
            let mut nodes = vec![];
            let mut edges = vec![];
            let mut writing = vec![false; ch];
            for c in 0..ch {
                let (wr, rd) = (NodeId::FbWr(first + c as u8), NodeId::FbRd(first + c as u8));
                let (src, rec) = (NodeId::Rust1x1(2 * c as u8), NodeId::Rust1x1(2 * c as u8 + 1));
                // the instances of the probe below the used ones exist, too: give all a node
                if srcs[c].is_none() {
                    let mut r = Rng::new(rng.u64());
                    let amp = 1.0 + c as f32;
                    let (nd, rf) = probe_fn(true, move |_i, out| out.iter_mut().for_each(|o| *o = r.f(-amp, amp)));
                    e.m.set_dynamic_node1x1(2 * c, nd);
                    srcs[c] = Some(rf);
                    let (nd, rf) = recorder();
                    e.m.set_dynamic_node1x1(2 * c + 1, nd);
                    recs[c] = Some(rf);
                    if modv[c] {
                        let mut r = Rng::new(rng.u64());
                        let (mut v, mut left) = (0.0, 0);
                        let (nd, rf) = probe_fn(true, move |_i, out| {
                            for o in out.iter_mut() {
                                if left == 0 {
                                    left = r.range(1, 60);
                                    v = r.f(0.0, 1.0);
                                }
                                left -= 1;
                                *o = v;
                            }
                        });
                        e.m.set_dynamic_node1x1(8 + c, nd);
                        vsrc[c] = Some(rf);
                    }
                }
                writing[c] = rng.chance(0.75);
                reader[c] |= rng.chance(0.75) || ph + 1 == phases;
                if writing[c] {
                    edges.push(edge(src, "sig", wr, "inp"));
                } else {
                    nodes.push(src);
                }
                if reader[c] {
                    edges.push(edge(rd, "sig", rec, "inp"));
                    if modv[c] {
                        edges.push(edge(NodeId::Rust1x1(8 + c as u8), "sig", rd, "vol"));
                    }
                }
                if writing[c] && reader[c] && rng.chance(0.5) {
                    // force an order: the source listens to the reader or the recorder to the source
                    if rng.chance(0.5) {
                        edges.push(edge(rd, "sig", src, "alpha"));
                    } else {
                        edges.push(edge(src, "sig", rec, "alpha"));
                    }
                }
                if ph == 0 && !modv[c] && rng.chance(0.3) {
                    vol[c] = rng.f(0.0, 1.0);
                    e.set_denorm(rd, "vol", vol[c]);
                }
            }
            let lay = match layout(rng, w, h, &nodes, &edges) {
                Some(l) => l,
                None => return fail("harness", "no room".into()),
            };
            lay.apply(&mut e.m);
            ensure!(e.m.sync().is_ok(), "sync", "refused");
            log.push(format!("writing {:?} reading {:?}", writing, reader));
            for _ in 0..rng.range(2, 14) {
                let n = if rng.chance(0.3) { MAXB } else { rng.range(1, MAXB as i64) as usize };
                for c in 0..ch {
                    srcs[c].as_ref().map(|r| r.lock().unwrap().out.clear());
                    recs[c].as_ref().map(|r| r.lock().unwrap().ins[0].clear());
                    vsrc[c].as_ref().map(|r| r.lock().unwrap().out.clear());
                }
                e.block(n);
                for c in 0..ch {
                    let s = srcs[c].as_ref().unwrap().lock().unwrap().out.clone();
                    if writing[c] {
                        ensure!(s.len() == n, "harness", "source did not run");
                        wrote[c].extend_from_slice(&s);
                    } else {
                        wrote[c].extend(std::iter::repeat(0.0).take(n));
                    }
                    if reader[c] {
                        let g = recs[c].as_ref().unwrap().lock().unwrap().ins[0].clone();
                        ensure!(g.len() == n, "harness", "recorder did not run");
                        heard[c].extend(g.iter().map(|v| Some(*v)));
                        if modv[c] {
                            let v = vsrc[c].as_ref().unwrap().lock().unwrap().out.clone();
                            ensure!(v.len() == n, "harness", "volume source did not run");
                            volsig[c].extend(v.iter().map(|v| vparam.denorm(*v)));
                        } else {
                            volsig[c].extend(std::iter::repeat(vol[c]).take(n));
                        }
                    } else {
                        volsig[c].extend(std::iter::repeat(0.0).take(n));
                        heard[c].extend(std::iter::repeat(None).take(n));
                    }
                }
            }
        }
        // one delay explains everything
        let total = wrote[0].len();
        let mut err = String::new();
        let mut found = None;
        for d in nominal - 1..=nominal + 2 {
            let mut ok = true;
            'c: for c in 0..ch {
                for t in 0..total {
                    if let Some(g) = heard[c][t] {
                        let src = if t >= d { wrote[c][t - d] } else { 0.0 };
                        let vol = volsig[c][t];
                        let want = src * vol;
                        // (the volume is stored in its normalised form)
                        let tol = if vol == 1.0 { 1e-6 } else { 1e-4 };
                        if (g - want).abs() > tol * want.abs() + 1e-9 {
                            ok = false;
                            if d == nominal {
                                err = format!("channel {} frame {}: read {}, written {} frames before was {} (volume {})", first as usize + c, t, g, d, src, vol);
                            }
                            break 'c;
                        }
                    }
                }
            }
            if ok {
                found = Some(d);
                break;
            }
        }
        ensure!(found.is_some() || total <= nominal, "delay", "{} at {} Hz: {:?}", err, sr, log);
        let nz: u64 = heard.iter().map(|h| h.iter().flatten().filter(|v| **v != 0.0).count() as u64).sum();
        obs.count("samples_compared", heard.iter().map(|h| h.iter().flatten().count() as u64).sum());
        obs.count("nonzero_read", nz);
        obs.max(&format!("delay_at_{}", sr), found.unwrap_or(0) as u64);
        obs.count("samples_with_driven_volume", (0..ch).filter(|c| modv[*c]).map(|c| heard[c].iter().flatten().count() as u64).sum());
        obs.nontrivial = nz > 0 || total <= nominal || vol.iter().any(|v| *v != 1.0) || log.len() > 0;
        obs.fingerprint = format!("{:x}", hash64(&format!("{:?}{}{}{:?}", log, sr, total, vol)));
        if case < 2 {
            obs.sample = Some(json!({"rate": sr, "channels": ch, "frames": total, "phases": log}));
        }
        Ok(())
    });
}
