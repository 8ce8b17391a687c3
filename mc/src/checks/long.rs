//! Long histories: operations and pairs of operations repeated past every counter width that matters,
//! tours over many inputs, many instances and handles alive at once.
use super::hist::*;
use crate::api::*;
use crate::engine::*;
use crate::gas::*;
use std::sync::Arc;
use Op::*;

/// Inputs and calculation in one block; together they touch every kind of calculation and every cache.
pub fn blocks(k: Kind) -> Vec<Vec<Op>> {
    let a = full();
    let cc = mix(&[(0, 0.9), (2, 0.06), (3, 0.04)]);
    let mut bad = a;
    bad[0] += 0.4;
    let mut v = vec![
        vec![Comp(a), T(300.0), D(4.0), Prop],
        vec![Comp(cc), T(260.0), D(9.0), Prop],
        vec![T(310.0), D(0.5), Pres],
        vec![Comp(a), T(300.0), P(5000.0), D(0.0), Dens(0)],
        vec![Comp(pure(0)), T(150.0), P(4000.0), D(-24.0), Dens(0)],
        vec![T(250.0), P(-1.0), D(0.0), Dens(0)],
        vec![Comp(cc), Mm],
        vec![Comp(a), Mm],
        vec![Comp(bad), Prop],
        vec![T(280.0), D(0.0), Prop],
        vec![Wx(cc), D(7.0), Pres],
        // single calls, inputs as they are
        vec![Prop],
        vec![Pres],
        vec![Comp(a)],
    ];
    if k == Kind::Gerg {
        v.push(vec![Comp(cc), T(330.0), P(6000.0), D(0.0), Dens(1)]);
        v.push(vec![Comp(pure(4)), T(280.0), P(3000.0), D(0.0), Dens(2)]);
    }
    v
}

/// One step of a history compared with a new instance.
fn step(k: Kind, m: &mut dyn Eos, x: &mut X, op: &Op, c: &mut Ctx) -> Result<(), String> {
    let b = obs(m);
    let ret = apply(m, op);
    c.op(1);
    if op.is_calc() {
        let a = obs(m);
        let e = fresh(k, x, b.t, b.p, b.d, op, c);
        if let Some(e) = results(k, op, &b, ret, &a, &e, false, 1e-12) {
            return Err(e);
        }
    }
    *x = spec_x(x, op, ret);
    Ok(())
}

pub fn h01(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    for k in KINDS {
        let bl = Arc::new(blocks(k));
        let n = bl.len();
        let b1 = bl.clone();
        let reps = tier.pick(280, 1200);
        v.push(space(&format!("{} all ordered pairs of {n} blocks, {reps} times alternating", k.name()), n * n, move |i, c| {
            let (p, s) = (&b1[i as usize / n], &b1[i as usize % n]);
            let mut m = k.make();
            let mut x = [0.0; 21];
            for r in 0..reps {
                for op in p.iter().chain(s) {
                    if let Err(e) = step(k, &mut *m, &mut x, op, c) {
                        c.fail("repetition", format!("{} repetition {r} of [{}]; [{}]: {e}", k.name(), show_ops(p), show_ops(s)));
                        return;
                    }
                }
            }
            c.trace();
            c.state_h(i | (k as u64) << 40 | 7 << 50);
            c.outcome("repetition agrees");
            c.sample(|| format!("{}: ({}; {}) x {reps}", k.name(), show_ops(p), show_ops(s)));
        }));
        // past 16 bits
        let b2 = bl.clone();
        let many = tier.pick(66_000, 300_000);
        v.push(space(&format!("{} each block {many} times", k.name()), n, move |i, c| {
            let p = &b2[i as usize];
            let mut m = k.make();
            let mut x = [0.0; 21];
            for o in [Comp(full()), T(300.0), P(4000.0), D(3.0)] {
                let _ = step(k, &mut *m, &mut x, &o, c);
            }
            for r in 0..many {
                for op in p.iter() {
                    // the temperature changes each time, so that nothing is answered from a cache
                    let op = match op {
                        T(t) => T(t + (r % 2) as f64),
                        o => *o,
                    };
                    if let Err(e) = step(k, &mut *m, &mut x, &op, c) {
                        c.fail("repetition", format!("{} repetition {r} of [{}]: {e}", k.name(), show_ops(p)));
                        return;
                    }
                }
            }
            c.trace();
            c.state_h(i | (k as u64) << 40 | 8 << 50);
            c.outcome("repetition agrees");
        }));
        // tours: many compositions or temperatures one after the other, twice over
        let mut xs: Vec<X> = (0..21).map(pure).collect();
        xs.extend(named().into_iter().map(|g| g.1));
        xs.extend(strided().into_iter().step_by(29));
        xs.extend(binaries(&[0.5]).into_iter().step_by(11));
        let xs = Arc::new(xs);
        let top = xs.len().min(tier.pick(64, 100));
        v.push(space(&format!("{} tours of 1 to {top} compositions", k.name()), top * 3, move |i, c| {
            let (len, what) = (i as usize / 3 + 1, i as usize % 3);
            for stride in [1usize, 7] {
                let mut m = k.make();
                let mut x = [0.0; 21];
                for round in 0..3 {
                    for j in 0..len {
                        let xx = xs[(j * stride) % xs.len()];
                        let ops: Vec<Op> = match what {
                            0 => vec![if round == 1 { Wx(xx) } else { Comp(xx) }, T(310.0), D(2.0), Prop, D(5.0), Pres, Mm],
                            // temperatures, to any length
                            1 => vec![Comp(xs[30 % xs.len()]), T(150.0 + 3.7 * (j * stride) as f64), D(2.0), Prop, D(1.0), Pres],
                            // densities
                            _ => vec![Comp(xs[31 % xs.len()]), T(320.0), D(0.37 * (j * stride % 71) as f64), Prop, P(90.0 * (j + 1) as f64), D(0.0), Dens(0)],
                        };
                        for op in &ops {
                            if let Err(e) = step(k, &mut *m, &mut x, op, c) {
                                c.fail("tour", format!("{} round {round} of a tour of {len}, stop {j}, {}: {e}", k.name(), show_ops(&ops)));
                                return;
                            }
                        }
                    }
                }
                c.trace();
            }
            c.state_h(i | (k as u64) << 40 | 9 << 50);
            c.outcome("tour agrees");
        }));
    }
    v
}

pub fn h02(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    for k in KINDS {
        let mut xs: Vec<X> = (0..21).map(pure).collect();
        xs.extend(named().into_iter().map(|g| g.1));
        let reps = tier.pick(300, 2000);
        v.push(space(&format!("{} each calculation {reps} times", k.name()), xs.len() * 6, move |i, c| {
            let (x, s) = (&xs[i as usize / 6], i as usize % 6);
            let (t, p, d) = [(300.0, 3000.0, 1.5), (150.0, 100.0, 0.05), (220.0, 3000.0, -20.0), (500.0, 2e5, 25.0), (300.0, -5.0, 0.0), (300.0, 0.0, 0.0)][s];
            let mut ops = vec![Prop, Pres, Mm, Dens(0)];
            if k == Kind::Gerg {
                ops.extend([Dens(1), Dens(2)]);
            }
            for op in ops {
                let mut m = k.make();
                for o in [Comp(*x), T(t), P(p), D(d)] {
                    apply(&mut *m, &o);
                }
                // a density calculation replaces its estimate: write it again
                let mut first: Option<(f64, Obs)> = None;
                for r in 0..reps {
                    m.set_d(d);
                    let ret = apply(&mut *m, &op);
                    c.op(1);
                    let a = obs(&*m);
                    match &first {
                        None if r == 1 => first = Some((ret, a)),
                        None => {}
                        Some((r0, a0)) => {
                            let n = (0..15).find(|n| !ident(a.out[*n], a0.out[*n]));
                            if !ident(ret, *r0) || !ident(a.d, a0.d) || !ident(a.t, a0.t) || !ident(a.p, a0.p) || n.is_some() || (0..21).any(|j| !ident(a.x[j], a0.x[j])) {
                                c.fail("repeat", format!("{} T={t} P={p} D={d} x={{{}}}: call {} of {} returns {ret:?} with d = {:?}{}, the second {r0:?} with d = {:?}", k.name(), show(x), r + 1, op.show(), a.d, n.map(|n| format!(", {} = {:?} (was {:?})", ON[n], a.out[n], a0.out[n])).unwrap_or_default(), a0.d));
                                return;
                            }
                        }
                    }
                }
                c.trace();
            }
            c.state_h(i | (k as u64) << 40 | 7 << 50);
            c.outcome("every repetition gives the same");
        }));
    }
    v
}

pub fn t01(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    for k in KINDS {
        for ffi in [false, true] {
            let mut al: Vec<Vec<Op>> = vec![
                vec![Prop],
                vec![Pres],
                vec![Mm],
                vec![D(0.0), Dens(0)],
                vec![Comp(full()), Prop],
                vec![Comp([0.0; 21])],
                vec![T(f64::NAN), Prop, T(300.0), Prop],
                vec![P(1e9), D(0.0), Dens(0), P(5000.0)],
                vec![P(-1.0), D(0.0), Dens(0), P(5000.0)],
                vec![Comp(full()), T(300.0), Pres, Comp(pure(3)), T(200.0), Pres],
            ];
            if k == Kind::Gerg && !ffi {
                al.extend([vec![D(0.0), Dens(1)], vec![D(0.0), Dens(2)], vec![D(0.0), Dens(i32::MAX)], vec![D(0.0), Dens(i32::MIN)]]);
            }
            let many = tier.pick(66_000, 400_000);
            v.push(space(&format!("{}{} each call {many} times", k.name(), if ffi { " through C" } else { "" }), al.len(), move |i, c| {
                let mut m = if ffi { k.make_ffi() } else { k.make() };
                for o in [Comp(full()), T(300.0), P(5000.0), D(3.0)] {
                    apply(&mut *m, &o);
                }
                for r in 0..many {
                    for o in &al[i as usize] {
                        apply(&mut *m, o);
                    }
                    if r % 1000 == 999 {
                        c.op(1000 * al[i as usize].len() as u64);
                    }
                }
                c.trace();
                c.outcome("all calls returned");
                c.state_h(i ^ (k as u64) << 40 ^ (ffi as u64) << 50 | 1 << 61);
            }));
        }
    }
    v
}

// ---- instances: moved in memory, re-created in place, many at once

/// programs for the instance tests: blocks, and every second block without its composition
fn short_blocks(k: Kind) -> Vec<Vec<Op>> {
    let mut v = blocks(k);
    v.extend([vec![T(300.0), D(5.0), Prop], vec![D(5.0), Pres], vec![Mm], vec![T(260.0), P(2000.0), D(0.0), Dens(0)]]);
    v
}
fn run_block(k: Kind, m: &mut dyn Eos, x: &mut X, b: &[Op], c: &mut Ctx) -> Result<(), String> {
    for op in b {
        step(k, m, x, op, c)?;
    }
    Ok(())
}
fn moved<T: 'static>(k: Kind, new: fn() -> T, v: &mut Vec<Space>)
where
    Own<T>: Eos,
{
    let bl = Arc::new(short_blocks(k));
    let n = bl.len();
    let b1 = bl.clone();
    v.push(space(&format!("{} two instances exchange their places in memory", k.name()), n * n, move |i, c| {
        let (p, s) = (&b1[i as usize / n], &b1[i as usize % n]);
        for (p2, s2) in [(p, s), (s, p), (&b1[(i as usize + 3) % n], &b1[(i as usize + 8) % n])] {
            let mut a = Box::new(Own(new()));
            let mut b = Box::new(Own(new()));
            let (mut xa, mut xb) = ([0.0; 21], [0.0; 21]);
            let mut go = || -> Result<(), String> {
                run_block(k, &mut *a, &mut xa, p, c)?;
                run_block(k, &mut *b, &mut xb, s, c)?;
                std::mem::swap(&mut *a, &mut *b);
                std::mem::swap(&mut xa, &mut xb);
                run_block(k, &mut *a, &mut xa, p2, c)?;
                run_block(k, &mut *b, &mut xb, s2, c)?;
                // to the stack and back
                let t = *a;
                let mut t2 = Own(t.0);
                run_block(k, &mut t2, &mut xa, s2, c)?;
                let mut a = Box::new(t2);
                run_block(k, &mut *a, &mut xa, p, c)
            };
            if let Err(e) = go() {
                c.fail("move", format!("{}: [{}] and [{}] on two instances, exchanged in memory, then [{}] and [{}]: {e}", k.name(), show_ops(p), show_ops(s), show_ops(p2), show_ops(s2)));
                return;
            }
            c.trace();
        }
        c.state_h(i | (k as u64) << 40 | 3 << 52);
        c.outcome("as without a move");
    }));
    v.push(space(&format!("{} an instance made at the place of an earlier one", k.name()), n * n, move |i, c| {
        let (p, s) = (&bl[i as usize / n], &bl[i as usize % n]);
        let mut a = Box::new(Own(new()));
        let mut x = [0.0; 21];
        let mut go = || -> Result<(), String> {
            run_block(k, &mut *a, &mut x, p, c)?;
            *a = Own(new());
            x = [0.0; 21];
            run_block(k, &mut *a, &mut x, s, c)?;
            // and through the allocator
            drop(a);
            let mut a = Box::new(Own(new()));
            x = [0.0; 21];
            run_block(k, &mut *a, &mut x, s, c)
        };
        if let Err(e) = go() {
            c.fail("move", format!("{}: [{}] on an instance, then [{}] on another at the same place: {e}", k.name(), show_ops(p), show_ops(s)));
            return;
        }
        c.trace();
        c.state_h(i | (k as u64) << 40 | 4 << 52);
        c.outcome("as on a new instance");
    }));
}
pub const CROWDS: [usize; 27] = [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 48, 63, 64, 65, 128, 129, 257, 513, 1025, 4097];

pub fn h03(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    moved(Kind::Detail, aga8::detail::Detail::new, &mut v);
    moved(Kind::Gerg, aga8::gerg2008::Gerg2008::new, &mut v);
    let mut sizes = CROWDS.to_vec();
    if tier == Tier::Thorough {
        sizes = (2..=300).chain([511, 512, 513, 1023, 1024, 1025, 2049, 4095, 4096, 4097]).collect();
    }
    let mut xs: Vec<X> = (0..21).map(pure).collect();
    xs.extend(named().into_iter().map(|g| g.1));
    xs.extend(binaries(&[0.5]));
    v.push(space("2 to 4097 instances alive at once", sizes.len() * 6, move |i, c| {
        let (n, what) = (sizes[i as usize / 6], i as usize % 6);
        let (mix, ffi) = (what / 2, what % 2 == 1);
        let kind = |j: usize| match mix {
            0 => Kind::Detail,
            1 => Kind::Gerg,
            _ => KINDS[j % 2],
        };
        let mut ms: Vec<Box<dyn Eos>> = (0..n).map(|j| if ffi { kind(j).make_ffi() } else { kind(j).make() }).collect();
        let mut spec = vec![[0.0; 21]; n];
        // round robin: all set, all calculate, all calculate again in reverse order, each with inputs of its own
        let phases: [fn(usize) -> Vec<Op>; 4] = [
            |j| vec![T(290.0 + j as f64), P(500.0 + 3.0 * j as f64)],
            |j| vec![D(0.3 + 0.01 * j as f64), Prop],
            |_| vec![Pres, Mm],
            |_| vec![D(0.0), Dens(0), Prop],
        ];
        let xs_of = |j: usize| Comp(xs[j * 5 % xs.len()]);
        for ph in 0..6 {
            for jj in 0..n {
                let j = if ph % 2 == 1 { n - 1 - jj } else { jj };
                let ops = match ph {
                    0 => vec![xs_of(j)],
                    5 => vec![Prop],
                    p => phases[p - 1](j),
                };
                for op in &ops {
                    let m = &mut *ms[j];
                    let b = obs(m);
                    let ret = apply(m, op);
                    c.op(1);
                    if op.is_calc() {
                        let a = obs(m);
                        let e = fresh(kind(j), &spec[j], b.t, b.p, b.d, op, c);
                        // the C function returns no pressure from the properties of GERG
                        let ret = if ffi && matches!(op, Prop) { e.ret } else { ret };
                        if let Some(e) = results(kind(j), op, &b, ret, &a, &e, ffi, 1e-12) {
                            c.fail("crowd", format!("instance {j} of {n} ({}{}), phase {ph}: {e}", kind(j).name(), if ffi { " through C" } else { "" }));
                            return;
                        }
                    }
                    spec[j] = spec_x(&spec[j], op, ret);
                }
            }
        }
        // every second one goes; the rest goes on
        let mut k = 0;
        ms.retain(|_| {
            k += 1;
            k % 2 == 0
        });
        for (j, m) in ms.iter_mut().enumerate() {
            let j = 2 * j + 1;
            let b = obs(&**m);
            let ret = apply(&mut **m, &Pres);
            c.op(1);
            let a = obs(&**m);
            let e = fresh(kind(j), &spec[j], b.t, b.p, b.d, &Pres, c);
            if let Some(e) = results(kind(j), &Pres, &b, ret, &a, &e, ffi, 1e-12) {
                c.fail("crowd", format!("instance {j} of {n} after every second one was dropped: {e}"));
                return;
            }
        }
        c.trace();
        c.state_h(i | 5 << 52);
        c.outcome("each as if alone");
    }));
    v
}
