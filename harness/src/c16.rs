//! C16: parameter tables and conversions.
use crate::core::*;
use crate::ensure;
use hexodsp::*;
use serde_json::json;
use std::collections::BTreeSet;

fn close(a: f32, b: f32, rel: f32, abs: f32) -> bool {
    (a - b).abs() <= rel * a.abs().max(b.abs()) + abs
}

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one parameter or node: names and indices walked exhaustively, conversions on a dense and random set of values over the whole range".into();
    let nodes: Vec<NodeId> = crate::gen::all_types();
    // ---- names and indices
    let names: BTreeSet<&str> = nodes.iter().map(|n| n.name()).collect();
    let nn = nodes.len();
    let nodes2 = nodes.clone();
    rep.run("names", nn, move |_rng, c, obs| {
        let n0 = nodes2[c];
        ensure!(names.len() == nn, "names", "{} names for {} nodes", names.len(), nn);
        ensure!(NodeId::from_str(n0.name()).eq_variant(&n0), "from_str", "{} does not lead back to {:?}", n0.name(), n0);
        for inst in [0usize, 1, 7, 254] {
            let n = n0.to_instance(inst);
            ensure!(n.instance() == inst && n.eq_variant(&n0), "instance", "{:?}.to_instance({}) is {:?}", n0, inst, n);
            ensure!(nodes2.iter().filter(|o| o.eq_variant(&n)).count() == 1, "variant", "{:?} equals several variants", n);
            let info = NodeInfo::from_node_id(n);
            ensure!(info.to_id() == n && info.name() == n.label(), "info", "info of {:?} is for {:?} {}", n, info.to_id(), info.name());
            // (counts are upper bounds for the indices: everything inside has a name)
            let mut seen = BTreeSet::new();
            let mut idxs = BTreeSet::new();
            for i in 0..info.in_count() {
                let p = match n.inp_param_by_idx(i) {
                    Some(p) => p,
                    None => return fail("inp", format!("{:?} has no input {}", n, i)),
                };
                ensure!(p.node_id() == n, "node", "{:?} belongs to {:?}", p, p.node_id());
                ensure!(!p.is_atom(), "atom", "input {:?} is an atom", p);
                ensure!(p.inp() as usize == i, "idx", "input {} of {:?} has index {}", i, n, p.inp());
                ensure!(info.in_name(i) == Some(p.name()), "name", "{:?} versus {:?}", info.in_name(i), p);
                ensure!(n.inp_name_by_idx(i as u8) == Some(p.name()), "name", "{:?} versus {:?}", n.inp_name_by_idx(i as u8), p);
                ensure!(n.inp(p.name()) == Some(i as u8), "inp", "{:?} of {:?} leads to {:?}", p.name(), n, n.inp(p.name()));
                ensure!(n.inp_param(p.name()) == Some(p), "inp_param", "{} of {:?} leads to {:?}", p.name(), n, n.inp_param(p.name()));
                ensure!(n.param_by_idx(i) == Some(p), "param_by_idx", "{} of {:?} leads to {:?}", i, n, n.param_by_idx(i));
                ensure!(p.param_min_max().is_some() && p.setting_min_max().is_none(), "ranges", "{:?}", p);
                ensure!(matches!(p.as_atom_def(), SAtom::Param(_)), "def", "default of {:?} is {:?}", p, p.as_atom_def());
                ensure!(p.as_atom_def().f() == p.norm_def(), "def", "defaults of {:?} differ: {} {}", p, p.as_atom_def().f(), p.norm_def());
                ensure!(seen.insert(p.name()), "twice", "{:?} has two parameters {}", n, p.name());
                idxs.insert(p.inp());
            }
            ensure!(n.inp_param_by_idx(info.in_count()).is_none(), "more", "{:?} has more than {} inputs", n, info.in_count());
            for i in 0..info.at_count() {
                let p = match n.atom_param_by_idx(i) {
                    Some(p) => p,
                    None => return fail("atom", format!("{:?} has no atom {}", n, i)),
                };
                ensure!(p.is_atom() && p.node_id() == n, "atom", "{:?} is no atom of {:?}", p, n);
                ensure!(info.at_name(i) == Some(p.name()), "name", "{:?} versus {:?}", info.at_name(i), p);
                ensure!(n.inp_param(p.name()) == Some(p), "inp_param", "{} of {:?} leads to {:?}", p.name(), n, n.inp_param(p.name()));
                ensure!(n.param_by_idx(p.inp() as usize) == Some(p), "param_by_idx", "{} of {:?} leads to {:?}", p.inp(), n, n.param_by_idx(p.inp() as usize));
                ensure!(seen.insert(p.name()), "twice", "{:?} has two parameters {}", n, p.name());
                ensure!(idxs.insert(p.inp()), "index", "{:?} has two parameters with index {}", n, p.inp());
                let (lo, hi) = match p.setting_min_max() {
                    Some(x) => x,
                    None => return fail("setting", format!("{:?} has no range", p)),
                };
                if let SAtom::Setting(d) = p.as_atom_def() {
                    ensure!(lo <= d && d <= hi, "setting-default", "default {} of {:?} is outside {}..{}", d, p, lo, hi);
                    for v in lo..=hi.min(lo + 300) {
                        let mut b: Vec<u8> = vec![];
                        ensure!(matches!(p.format(&mut b, v as f32), Some(Ok(()))), "format", "{:?} cannot format {}", p, v);
                        ensure!(std::str::from_utf8(&b).is_ok(), "utf8", "{:?} formats {} as {:?}", p, v, b);
                    }
                }
            }
            ensure!(n.atom_param_by_idx(info.at_count()).is_none(), "more", "{:?} has more than {} atoms", n, info.at_count());
            ensure!(n.param_by_idx(info.in_count() + info.at_count()).is_none(), "more", "{:?} has more parameters", n);
            let mut outs = BTreeSet::new();
            for i in 0..info.out_count() {
                let nm = match n.out_name_by_idx(i as u8) {
                    Some(x) => x,
                    None => return fail("out", format!("{:?} has no output {}", n, i)),
                };
                ensure!(n.out(nm) == Some(i as u8) && info.out_name(i) == Some(nm), "out", "output {} of {:?} leads to {:?}", nm, n, n.out(nm));
                ensure!(outs.insert(nm), "twice", "{:?} has two outputs {}", n, nm);
            }
            ensure!(n.out_name_by_idx(info.out_count() as u8).is_none() && n.out("nope").is_none() && n.inp("nope").is_none() && n.inp_param("nope").is_none(), "more", "{:?} has more ports than {}", n, info.out_count());
            obs.count("ports", (info.in_count() + info.at_count() + info.out_count()) as u64);
        }
        obs.nontrivial = true;
        obs.fingerprint = n0.name().to_string();
        obs.sample = Some(json!({"node": n0.name()}));
        Ok(())
    });
    // ---- conversions
    let mut ps: Vec<ParamId> = vec![];
    for n in nodes.iter() {
        let mut i = 0;
        while let Some(p) = n.inp_param_by_idx(i) {
            ps.push(p);
            i += 1;
        }
    }
    let steps = rep.opts.n(30000, 1000000);
    rep.run("conversions", ps.len(), move |rng, c, obs| {
        let p = ps[c];
        let info = NodeInfo::from_node_id(p.node_id());
        let ((lo, hi), (coarse, fine)) = p.param_min_max().unwrap();
        ensure!(lo < hi && coarse > 0.0 && fine > 0.0, "range", "{:?} has range {}..{}", p, lo, hi);
        let d = p.norm_def();
        ensure!(d >= lo - 1e-5 && d <= hi + 1e-5, "default", "default {} of {:?} is outside {}..{}", d, p, lo, hi);
        let (dlo, dhi) = (p.denorm(lo), p.denorm(hi));
        ensure!(dlo.is_finite() && dhi.is_finite() && dlo != dhi, "ends", "{:?} goes from {} to {}", p, dlo, dhi);
        let span = (dhi - dlo).abs();
        let up = dhi > dlo;
        let mut xs: Vec<f32> = (0..=steps).map(|i| lo + (hi - lo) * (i as f32 / steps as f32)).collect();
        for _ in 0..steps {
            xs.push(rng.f(lo, hi));
        }
        xs.push(d);
        xs.push(hi);
        xs.retain(|x| *x >= lo && *x <= hi);
        xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let mut last: Option<(f32, f32)> = None;
        for x in xs.iter() {
            let x = *x;
            let v = p.denorm(x);
            ensure!(v.is_finite(), "finite", "{:?} converts {} to {}", p, x, v);
            ensure!(info.denorm(p.inp() as usize, x) == v, "info", "{:?}: the node info converts {} differently", p, x);
            // between the ends
            let (a, b) = if up { (dlo, dhi) } else { (dhi, dlo) };
            ensure!(v >= a - 1e-5 * span && v <= b + 1e-5 * span, "between", "{:?} converts {} to {} outside {}..{}", p, x, v, a, b);
            // back again: to the same display value
            let x2 = p.norm(v);
            ensure!(info.norm(p.inp() as usize, v) == x2, "info", "{:?}: the node info converts {} back differently", p, v);
            let v2 = p.denorm(x2);
            ensure!(close(v, v2, 2e-5, 1e-6 * span), "round-trip", "{:?}: {} shows as {}, which is stored as {} and shows as {}", p, x, v, x2, v2);
            if let Some((lx, lv)) = last {
                if x > lx {
                    ensure!(if up { v >= lv - 1e-6 * span } else { v <= lv + 1e-6 * span }, "monotone", "{:?}: {} gives {} but {} gives {}", p, lx, lv, x, v);
                }
            }
            last = Some((x, v));
            // rounding
            for coarse in [false, true] {
                let r = p.round(x, coarse);
                ensure!(r.is_finite(), "round", "{:?} rounds {} to {}", p, x, r);
                ensure!(r >= lo - 1e-4 * (hi - lo) && r <= hi + 1e-4 * (hi - lo), "round-range", "{:?} (coarse {}) rounds {} to {}, outside {}..{} ({} -> {})", p, coarse, x, r, lo, hi, v, p.denorm(r));
                let r2 = p.round(r, coarse);
                let (dr, dr2) = (p.denorm(r), p.denorm(r2));
                ensure!(close(dr, dr2, 1e-4, 1e-5 * span), "idempotent", "{:?} (coarse {}) rounds {} to {} and that to {} ({} -> {} -> {})", p, coarse, x, r, r2, v, dr, dr2);
            }
            let mut b: Vec<u8> = vec![];
            ensure!(matches!(p.format(&mut b, x), Some(Ok(()))) && std::str::from_utf8(&b).is_ok() && !b.is_empty(), "format", "{:?} cannot format {}", p, x);
        }
        // the documented pitch scale: 0.1 is an octave, 0.0 is A4; detune in semitones likewise
        if p.name() == "freq" {
            for x in xs.iter() {
                let want = 440.0 * 2.0f64.powf(*x as f64 * 10.0);
                ensure!(close(p.denorm(*x), want as f32, 1e-4, 0.0), "pitch", "{:?} converts {} to {} Hz", p, x, p.denorm(*x));
            }
            obs.count("pitch values", xs.len() as u64);
        }
        if p.name() == "det" {
            for x in xs.iter() {
                ensure!(close(p.denorm(*x), *x * 120.0, 1e-4, 1e-5), "detune", "{:?} converts {} to {} semitones", p, x, p.denorm(*x));
            }
        }
        // values from anywhere never break the formatting
        for x in [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -1.0e30, 1.0e30, -0.0, 1.0e-40, 1000.0] {
            let mut b: Vec<u8> = vec![];
            ensure!(matches!(p.format(&mut b, x), Some(Ok(()))), "format", "{:?} cannot format {}", p, x);
            let _ = (p.norm(x), p.denorm(x), p.round(x, true), p.round(x, false));
        }
        obs.count("values", xs.len() as u64);
        obs.nontrivial = true;
        obs.fingerprint = format!("{:?}", p);
        obs.sample = Some(json!({"param": format!("{:?}", p), "from": dlo, "to": dhi, "default": p.denorm(d)}));
        Ok(())
    });
}
