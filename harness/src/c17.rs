//! C17: geometry of the grid. The oracle is a list of neighbours written down independently
//! (`hex_step`) and brute force over the cells put on the grid.
use crate::core::*;
use crate::ensure;
use crate::eng::*;
use crate::gen::*;
use hexodsp::*;
use serde_json::json;

const DIRS: [CellDir; 6] = [CellDir::TR, CellDir::BR, CellDir::B, CellDir::BL, CellDir::TL, CellDir::T];

fn back(d: CellDir) -> CellDir {
    match d {
        CellDir::TR => CellDir::BL,
        CellDir::BL => CellDir::TR,
        CellDir::BR => CellDir::TL,
        CellDir::TL => CellDir::BR,
        CellDir::T => CellDir::B,
        CellDir::B => CellDir::T,
        CellDir::C => CellDir::C,
    }
}

fn step(d: CellDir, p: (usize, usize)) -> Option<(usize, usize)> {
    let (x, y) = hex_step(d, p.0 as i64, p.1 as i64);
    if x < 0 || y < 0 {
        None
    } else {
        Some((x as usize, y as usize))
    }
}

/// The length of the shortest way, counted by walking.
fn hexdist(a: (usize, usize), b: (usize, usize)) -> i64 {
    // cube coordinates of columns where the odd ones are shifted down
    let cube = |p: (usize, usize)| {
        let (x, y) = (p.0 as i64, p.1 as i64);
        let r = y - (x - (x & 1)) / 2;
        (x, r, -x - r)
    };
    let (a, b) = (cube(a), cube(b));
    (a.0 - b.0).abs().max((a.1 - b.1).abs()).max((a.2 - b.2).abs())
}

pub fn run(rep: &mut Report) {
    rep.rule = "one evaluation = one position (all directions and close positions), one pair of positions (the path walked) or one random grid (every query for every cell, direction compared with brute force)".into();
    rep.assumptions = vec![
        "positions up to 255 in each direction (the largest position of a cell)".into(),
        "empty cells have no ports assigned".into(),
        "edge_label reports the connected state for output edges only".into(),
    ];
    let n = rep.opts.n(400, 8000);
    rep.run("steps", n, |rng, _case, obs| {
        let p = if rng.chance(0.6) { (rng.below(10), rng.below(10)) } else { (rng.below(256), rng.below(256)) };
        for (i, d) in DIRS.iter().enumerate() {
            let d = *d;
            ensure!(CellDir::from(i as u8) == d && d.as_edge() as usize == i, "edge", "edge {} is {:?}", i, CellDir::from(i as u8));
            ensure!(d.is_output() == (i < 3) && d.is_input() == (i >= 3), "io", "{:?} output {} input {}", d, d.is_output(), d.is_input());
            ensure!(d.flip() == back(d), "flip", "{:?} flips to {:?}", d, d.flip());
            ensure!(d.offs_pos(p) == step(d, p), "step", "{:?} from {:?} leads to {:?}, not to {:?}", d, p, d.offs_pos(p), step(d, p));
            let o = d.as_offs(p.0);
            let s = hex_step(d, p.0 as i64, p.1 as i64);
            ensure!((o.0 as i64, o.1 as i64) == (s.0 - p.0 as i64, s.1 - p.1 as i64), "offs", "{:?} in column {} is {:?}", d, p.0, o);
            if let Some(q) = d.offs_pos(p) {
                ensure!(d.flip().offs_pos(q) == Some(p), "return", "{:?} from {:?} and back leads to {:?}", d, p, d.flip().offs_pos(q));
                obs.count("steps", 1);
            }
        }
        // exactly the six neighbours are adjacent
        for dx in -3i64..=3 {
            for dy in -3i64..=3 {
                let (x, y) = (p.0 as i64 + dx, p.1 as i64 + dy);
                if x < 0 || y < 0 {
                    continue;
                }
                let q = (x as usize, y as usize);
                let want = DIRS.iter().copied().find(|d| step(*d, p) == Some(q));
                let got = CellDir::are_adjacent(p, q);
                ensure!(got == want, "adjacent", "{:?} is seen from {:?} in direction {:?}, not {:?}", q, p, got, want);
                obs.count("pairs", 1);
            }
        }
        let far = (rng.below(256), rng.below(256));
        let want = DIRS.iter().copied().find(|d| step(*d, p) == Some(far));
        ensure!(CellDir::are_adjacent(p, far) == want, "adjacent", "{:?} and {:?}", p, far);
        obs.nontrivial = true;
        obs.fingerprint = format!("{:?}", p);
        Ok(())
    });
    let n = rep.opts.n(4000, 60000);
    rep.run("path", n, |rng, case, obs| {
        let r = *rng.pick(&[6usize, 12, 24, 128, 256]);
        let (a, b) = match rng.below(6) {
            0 => ((rng.below(r), rng.below(2)), (rng.below(r), rng.below(2))),
            1 => ((rng.below(2), rng.below(r)), (rng.below(2), rng.below(r))),
            2 => {
                let c = [(0, 0), (0, r - 1), (r - 1, 0), (r - 1, r - 1)];
                (*rng.pick(&c), *rng.pick(&c))
            }
            _ => ((rng.below(r), rng.below(r)), (rng.below(r), rng.below(r))),
        };
        let path = CellDir::path_from_to(a, b);
        let mut p = a;
        for (i, d) in path.iter().enumerate() {
            p = match step(*d, p) {
                Some(q) if *d != CellDir::C => q,
                _ => return fail("leaves", format!("step {} of the path from {:?} to {:?} is {:?} at {:?}", i, a, b, d, p)),
            };
            // (every step comes from and leads to a place between the two ends, or beside it)
            ensure!(
                p.0 + 1 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) + 1 && p.1 + 1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1) + 1,
                "detour",
                "the path from {:?} to {:?} passes {:?}",
                a, b, p
            );
            ensure!(p != b || i + 1 == path.len(), "further", "the path from {:?} to {:?} goes on at its end", a, b);
        }
        ensure!(p == b, "end", "the path of {} steps from {:?} to {:?} ends in {:?}", path.len(), a, b, p);
        let d = hexdist(a, b);
        ensure!(path.len() as i64 >= d && path.len() as i64 <= 2 * d, "length", "{} steps from {:?} to {:?} with a distance of {}", path.len(), a, b, d);
        obs.count("path_steps", path.len() as u64);
        obs.max("longest", path.len() as u64);
        obs.nontrivial = a != b;
        obs.fingerprint = format!("{:?}{:?}", a, b);
        if case == 3 {
            obs.sample = Some(json!({"from": a, "to": b, "path": format!("{:?}", path).chars().take(200).collect::<String>()}));
        }
        Ok(())
    });
    let types: Vec<NodeId> = all_types();
    let n = rep.opts.n(250, 4000);
    rep.run("grid", n, move |rng, case, obs| {
        let (w, h) = *rng.pick(&[(1usize, 1usize), (2, 2), (3, 5), (6, 4), (7, 7), (12, 12), (16, 16), (20, 3)]);
        let (conf, _ex) = new_node_engine();
        let mut m = Matrix::new(conf, w, h);
        let dens = *rng.pick(&[0.2f32, 0.6, 0.95]);
        let pdens = *rng.pick(&[0.2f32, 0.7, 1.0]);
        // model: node and the six ports in the order of DIRS
        let mut model: Vec<(NodeId, [Option<u8>; 6])> = vec![(NodeId::Nop, [None; 6]); w * h];
        for x in 0..w {
            for y in 0..h {
                if !rng.chance(dens) {
                    continue;
                }
                let n = rng.pick(&types).to_instance(rng.below(4));
                let mut c = Cell::empty(n);
                let mut ports = [None; 6];
                for (i, d) in DIRS.iter().enumerate() {
                    let cnt = if i < 3 { n_outs(n) } else { params_of(n).len() };
                    if cnt == 0 || !rng.chance(pdens) {
                        continue;
                    }
                    let idx = rng.below(cnt);
                    ports[i] = Some(idx as u8);
                    if rng.chance(0.5) {
                        c.set_io_dir(*d, idx);
                    } else if i < 3 {
                        let name = n.out_name_by_idx(idx as u8).unwrap();
                        ensure!(c.set_output_by_name(name, *d).is_ok(), "byname", "output {} of {:?} is unknown", name, n);
                    } else {
                        let name = n.inp_name_by_idx(idx as u8).unwrap();
                        ensure!(c.set_input_by_name(name, *d).is_ok(), "byname", "input {} of {:?} is unknown", name, n);
                    }
                }
                if rng.chance(0.2) {
                    let i = rng.below(6);
                    c.clear_io_dir(DIRS[i]);
                    ports[i] = None;
                }
                m.place(x, y, c);
                model[x * h + y] = (n, ports);
            }
        }
        let synced = m.sync().is_ok();
        obs.count("synced", synced as u64);
        let at = |p: Option<(usize, usize)>| -> Option<(NodeId, [Option<u8>; 6])> {
            let (x, y) = p?;
            if x < w && y < h {
                Some(model[x * h + y])
            } else {
                None
            }
        };
        ensure!(m.size() == (w, h), "size", "{:?}", m.size());
        let mut seen = 0;
        let mut wrong = None;
        m.for_each(|x, y, c| {
            seen += 1;
            if c.pos() != (x, y) || Some(c.node_id()) != at(Some((x, y))).map(|a| a.0) {
                wrong = Some((x, y, *c));
            }
        });
        ensure!(seen == w * h && wrong.is_none(), "for_each", "{} cells visited, wrong: {:?}", seen, wrong);
        ensure!(m.get(w, 0).is_none() && m.get(0, h).is_none() && m.get_copy(w, 0).is_none() && m.get_copy(0, h).is_none(), "outside", "there is a cell outside");
        ensure!(m.get_connections(w, 0).is_none() && m.get_connections(0, h).is_none(), "outside", "connections outside");
        for x in 0..w {
            for y in 0..h {
                let (n, ports) = model[x * h + y];
                let c = match m.get(x, y) {
                    Some(c) => *c,
                    None => return fail("get", format!("no cell at {} {}", x, y)),
                };
                ensure!(m.get_copy(x, y) == Some(c), "get_copy", "{:?} versus {:?}", m.get_copy(x, y), c);
                ensure!(c.node_id() == n && c.is_empty() == (n == NodeId::Nop) && c.pos() == (x, y), "cell", "{:?} instead of {:?} at {} {}", c, n, x, y);
                let mut conns = vec![];
                let mut free = vec![];
                for (i, d) in DIRS.iter().enumerate() {
                    let d = *d;
                    ensure!(c.local_port_idx(d) == ports[i] && c.has_dir_set(d) == ports[i].is_some(), "port", "{:?} of {:?} is {:?} instead of {:?}", d, c, c.local_port_idx(d), ports[i]);
                    let np = step(d, (x, y));
                    let nb = at(np);
                    let bi = DIRS.iter().position(|q| *q == back(d)).unwrap();
                    let adj = m.get_adjacent(x, y, d);
                    ensure!(adj.map(|c| c.pos()) == nb.and(np), "get_adjacent", "{:?} of {} {} is {:?}, not {:?}", d, x, y, adj, np);
                    let want_out = if i >= 3 { nb.and_then(|(nn, po)| if nn == NodeId::Nop { None } else { po[bi].map(|o| (nn, o)) }) } else { None };
                    ensure!(m.get_adjacent_output(x, y, d) == want_out, "adjacent_output", "{:?} of {} {}: {:?}, not {:?}", d, x, y, m.get_adjacent_output(x, y, d), want_out);
                    let want_in = i < 3 && nb.map(|a| a.1[bi].is_some()).unwrap_or(false);
                    ensure!(m.adjacent_edge_has_input(x, y, d) == want_in, "has_input", "{:?} of {} {}: {}", d, x, y, m.adjacent_edge_has_input(x, y, d));
                    let conn = match (ports[i], nb) {
                        (Some(me), Some((_, po))) => po[bi].map(|o| (me, o)),
                        _ => None,
                    };
                    ensure!(c.is_port_dir_connected(&m, d) == conn.and(np), "connected", "{:?} of {} {}: {:?}", d, x, y, c.is_port_dir_connected(&m, d));
                    if let Some((me, o)) = conn {
                        conns.push((d, me, back(d), o, np.unwrap()));
                    }
                    if nb.map(|a| a.0) == Some(NodeId::Nop) {
                        free.push((d, np.unwrap()));
                    }
                    let mut buf = [0u8; 64];
                    let lbl = m.edge_label(&c, d, &mut buf).map(|(s, f)| (s.to_string(), f));
                    let want = ports[i].and_then(|p| if i < 3 { n.out_name_by_idx(p) } else { n.inp_name_by_idx(p) });
                    if m.info_for(&n).is_some() || n == NodeId::Nop {
                        ensure!(lbl.as_ref().map(|l| l.0.as_str()) == want, "edge_label", "{:?} of {:?} is labelled {:?}, not {:?}", d, c, lbl, want);
                        if i < 3 && want.is_some() {
                            ensure!(lbl.map(|l| l.1) == Some(want_in), "edge_label", "{:?} of {:?}: connected should be {}", d, c, want_in);
                        }
                    }
                    let mut tiny = [0u8; 1];
                    let _ = m.edge_label(&c, d, &mut tiny);
                }
                let got = m.get_connections(x, y).unwrap();
                ensure!(got.len() == conns.len(), "connections", "{} {}: {} connections instead of {}", x, y, got.len(), conns.len());
                for ((a, ad, ai), (b, bd, bi, bp)) in got.iter() {
                    ensure!(*a == c && b.pos() == *bp && conns.contains(&(*ad, *ai, *bd, *bi, *bp)), "connections", "{} {}: {:?} {:?} {} to {:?} {:?} {} at {:?}", x, y, a, ad, ai, b, bd, bi, bp);
                }
                obs.count("connections", conns.len() as u64);
                for q in [CellDir::C, CellDir::T, CellDir::B, CellDir::TL, CellDir::BR] {
                    let inside = |d: CellDir| q == CellDir::C || d.is_input() == q.is_input();
                    let mut want: Vec<(CellDir, (usize, usize))> = free.iter().copied().filter(|f| inside(f.0)).collect();
                    let mut got = c.find_all_adjacent_free(&m, q);
                    got.sort();
                    want.sort();
                    ensure!(got == want, "all_free", "{} {} {:?}: {:?} instead of {:?}", x, y, q, got, want);
                    match c.find_first_adjacent_free(&m, q) {
                        None => ensure!(want.is_empty(), "first_free", "{} {} {:?}: nothing, but {:?} is free", x, y, q, want),
                        Some((d, idx)) => {
                            ensure!(want.iter().any(|f| f.0 == d), "first_free", "{} {} {:?}: {:?} is not free", x, y, q, d);
                            let any = want.iter().any(|f| c.has_dir_set(f.0));
                            ensure!(idx == c.local_port_idx(d) && idx.is_some() == any, "first_free", "{} {} {:?}: {:?} {:?} although one with a port is free: {}", x, y, q, d, idx, any);
                        }
                    }
                    let mut want: Vec<CellDir> = DIRS.iter().copied().filter(|d| inside(*d) && !conns.iter().any(|k| k.0 == *d)).collect();
                    let mut got = c.find_unconnected_ports(&m, q);
                    want.sort();
                    got.sort();
                    ensure!(got == want, "unconnected", "{} {} {:?}: {:?} instead of {:?}", x, y, q, got, want);
                    obs.count("queries", 3);
                }
                let mut buf = [0u8; 32];
                let l = c.label(&mut buf).map(|s| s.to_string());
                ensure!(l.is_some() == (n != NodeId::Nop), "label", "label of {:?} is {:?}", n, l);
                if let Some(l) = l {
                    ensure!(l == format!("{}", n), "label", "label of {:?} is {:?}", n, l);
                }
                let mut mv = c;
                let d = *rng.pick(&DIRS);
                let np = step(d, (x, y));
                ensure!(mv.offs_dir(d) == np.is_some(), "offs_dir", "{:?} from {} {}", d, x, y);
                ensure!(mv.pos() == np.unwrap_or((x, y)), "offs_dir", "{:?} from {} {} leads to {:?}", d, x, y, mv.pos());
            }
        }
        let filled = model.iter().filter(|m| m.0 != NodeId::Nop).count();
        obs.count("cells", (w * h) as u64);
        obs.nontrivial = filled > 0 || w * h == 1 || dens < 0.5;
        obs.fingerprint = format!("{:x}", hash64(&format!("{:?}", model)));
        if case == 1 {
            obs.sample = Some(json!({"w": w, "h": h, "filled": filled}));
        }
        Ok(())
    });
}
