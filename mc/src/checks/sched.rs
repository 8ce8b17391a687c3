//! Independence of instances (H03): interleavings of whole calls, placement of calls on threads,
//! preemption between machine instructions.
use super::hist::*;
use crate::api::*;
use crate::engine::*;
use crate::gas::*;
use crate::step;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;
use Op::*;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "H03",
        spaces: h03,
        assumptions: &[
            "instances can only interfere through memory both can reach; preemption is explored between whole calls (all interleavings) and, for single operations, between machine instructions with the partner executing whole operations there",
            "weak memory effects beyond interleavings of instructions are not explored",
        ],
    }]
}

#[derive(Clone)]
struct Prog {
    kind: Kind,
    ffi: bool,
    ops: Vec<Op>,
}
type Rec = Vec<(f64, f64, f64, Vec<f64>)>;

struct Inst {
    m: Option<Box<dyn Eos>>,
    pc: usize,
    rec: Rec,
}
impl Inst {
    fn new() -> Inst {
        Inst { m: None, pc: 0, rec: vec![] }
    }
    /// step 0 creates the instance, the last one drops it
    fn step(&mut self, p: &Prog) {
        if self.pc == 0 {
            self.m = Some(if p.ffi { p.kind.make_ffi() } else { p.kind.make() });
        } else if self.pc <= p.ops.len() {
            let m = self.m.as_mut().unwrap();
            let r = apply(&mut **m, &p.ops[self.pc - 1]);
            self.rec.push((r, m.d(), m.p(), m.out().to_vec()));
        } else {
            self.m = None;
        }
        self.pc += 1;
    }
    fn steps(p: &Prog) -> usize {
        p.ops.len() + 2
    }
}
fn solo(p: &Prog) -> Rec {
    let mut i = Inst::new();
    for _ in 0..Inst::steps(p) {
        i.step(p);
    }
    i.rec
}
fn diff(p: &Prog, a: &Rec, b: &Rec) -> Option<String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        let same = near(x.0, y.0, 0.0, 1e-12) && near(x.1, y.1, 0.0, 1e-12) && near(x.2, y.2, 0.0, 1e-12) && x.3.iter().zip(&y.3).all(|(u, v)| near(*u, *v, 1e-3, 1e-12));
        if !same {
            let n = x.3.iter().zip(&y.3).position(|(u, v)| !near(*u, *v, 1e-3, 1e-12));
            let what = match n {
                Some(n) => format!("{} = {:?} instead of {:?}", ON[n], x.3[n], y.3[n]),
                None => format!("result, d, p = {:?}, {:?}, {:?} instead of {:?}, {:?}, {:?}", x.0, x.1, x.2, y.0, y.1, y.2),
            };
            return Some(format!("{}{}: step {} ({}): {what}", p.kind.name(), if p.ffi { " (C)" } else { "" }, i + 1, show_ops(&p.ops[..=i])));
        }
    }
    None
}

fn progs(len: usize) -> Vec<Prog> {
    let a = full();
    let cc = mix(&[(0, 0.9), (2, 0.06), (3, 0.04)]);
    let w = mix(&[(0, 0.5), (17, 0.2), (14, 0.3)]);
    let mut v = vec![];
    for kind in KINDS {
        for ffi in [false, true] {
            let pl: Vec<Vec<Op>> = vec![
                vec![Comp(a), T(300.0), P(5000.0), Dens(0), Prop],
                vec![Comp(cc), D(6.0), T(250.0), Prop, Pres],
                vec![T(300.0), D(6.0), Comp(w), Prop, Mm],
                vec![P(-3.0), T(300.0), Comp(cc), Dens(0), Dens(0)],
            ];
            for ops in pl {
                v.push(Prog { kind, ffi, ops: ops[..len.min(ops.len())].to_vec() });
            }
        }
    }
    v
}

/// the i-th way to merge sequences of the given lengths
fn merge_of(mut i: u64, lens: &[usize]) -> Vec<usize> {
    let mut left = lens.to_vec();
    let mut out = vec![];
    let count = |l: &[usize]| -> u64 {
        let mut r = 1u64;
        let mut n = 0u64;
        for k in l {
            for j in 1..=*k as u64 {
                n += 1;
                r = r * n / j;
            }
        }
        r
    };
    while left.iter().any(|l| *l > 0) {
        for s in 0..left.len() {
            if left[s] == 0 {
                continue;
            }
            left[s] -= 1;
            let c = count(&left);
            if i < c {
                out.push(s);
                break;
            }
            i -= c;
            left[s] += 1;
        }
    }
    out
}
fn merges(lens: &[usize]) -> usize {
    let mut r = 1u64;
    let mut n = 0u64;
    for k in lens {
        for j in 1..=*k as u64 {
            n += 1;
            r = r * n / j;
        }
    }
    r as usize
}

fn inter(name: &str, ps: Vec<Prog>, groups: Vec<Vec<usize>>) -> Space {
    let lens: Vec<usize> = groups[0].iter().map(|i| Inst::steps(&ps[*i])).collect();
    let n = merges(&lens);
    let solos: Vec<Rec> = ps.iter().map(solo).collect();
    let ng = groups.len();
    space(name, ng * n, move |i, c| {
        let g = &groups[i as usize / n];
        let sched = merge_of(i % n as u64, &lens);
        let mut is: Vec<Inst> = g.iter().map(|_| Inst::new()).collect();
        for s in &sched {
            is[*s].step(&ps[g[*s]]);
        }
        c.op(sched.len() as u64);
        c.trace();
        c.state_h(i);
        for (k, inst) in is.iter().enumerate() {
            if let Some(e) = diff(&ps[g[k]], &inst.rec, &solos[g[k]]) {
                let others: Vec<String> = g.iter().enumerate().filter(|(j, _)| *j != k).map(|(_, j)| format!("{}{}: {}", ps[*j].kind.name(), if ps[*j].ffi { " (C)" } else { "" }, show_ops(&ps[*j].ops))).collect();
                c.fail("interleaving", format!("{e} than alone; interleaved {:?} with {}", sched, others.join(" | ")));
                return;
            }
        }
        c.outcome("as alone");
        c.sample(|| format!("schedule {sched:?}"));
    })
}

// ---- helper threads that execute one call each on demand
type Job = Box<dyn FnOnce() + Send>;
struct Pool {
    tx: Vec<std::sync::mpsc::Sender<Job>>,
}
impl Pool {
    fn new(n: usize) -> Pool {
        Pool {
            tx: (0..n)
                .map(|_| {
                    let (tx, rx) = std::sync::mpsc::channel::<Job>();
                    std::thread::spawn(move || {
                        while let Ok(j) = rx.recv() {
                            j();
                        }
                    });
                    tx
                })
                .collect(),
        }
    }
    fn run(&self, th: usize, p: &Prog, i: Inst) -> Result<Inst, (String, String)> {
        let (tx, rx) = std::sync::mpsc::channel();
        let p = p.clone();
        self.tx[th]
            .send(Box::new(move || {
                let mut i = i;
                let r = guarded(|| i.step(&p));
                let _ = tx.send(r.map(|_| i));
            }))
            .unwrap();
        rx.recv().unwrap()
    }
}
thread_local! { static POOL: Pool = Pool::new(2); }

fn h03(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let mut v = vec![];
    let p5 = progs(5);
    let n = p5.len();
    v.push(space("both types may be moved to another thread", 2, |i, c| {
        #[allow(unused_imports)]
        use crate::api::NotSend;
        let (name, ok) = if i == 0 { ("Detail", IsSend::<aga8::detail::Detail>::YES) } else { ("Gerg2008", IsSend::<aga8::gerg2008::Gerg2008>::YES) };
        c.op(1);
        c.trace();
        c.state_h(i | 1 << 42);
        if !ok {
            c.fail("send", format!("{name} is not Send: an instance cannot be moved to another thread"));
        }
    }));
    // two instances, programs of 5 calls plus creation and destruction
    let short = progs(if q { 3 } else { 5 });
    let pairs: Vec<Vec<usize>> = (0..n).flat_map(|a| (0..n).map(move |b| vec![a, b])).collect();
    v.push(inter("all interleavings of two programs", short, pairs));
    let sel: Vec<usize> = if q { vec![0, 1, 6, 8, 13] } else { vec![0, 1, 2, 5, 7, 8, 10, 13, 15] };
    let deep: Vec<Vec<usize>> = sel.iter().flat_map(|a| sel.iter().map(move |b| vec![*a, *b])).collect();
    v.push(inter("all interleavings of two longer programs", p5.clone(), deep));
    // three instances
    let p2 = progs(if q { 2 } else { 3 });
    let tri: Vec<Vec<usize>> = if q { vec![vec![0, 8, 0], vec![0, 1, 9], vec![4, 8, 13]] } else { vec![vec![0, 8, 0], vec![0, 1, 9], vec![4, 8, 13], vec![8, 9, 10], vec![2, 2, 2]] };
    v.push(inter("all interleavings of three programs", p2, tri));
    // two instances, whole calculations: the values matter, the interleaving is of the calls only
    // one instance, every call on either of two threads
    let solos: Vec<Rec> = p5.iter().map(solo).collect();
    let ps = p5.clone();
    let st = Inst::steps(&p5[0]);
    v.push(space("every placement of the calls of one program on two threads", n << st, move |i, c| {
        let p = &ps[i as usize >> st];
        let mut inst = Inst::new();
        // threads that have done nothing before
        let pool = Pool::new(2);
        for s in 0..st {
            let th = (i >> s & 1) as usize;
            match pool.run(th, p, inst) {
                Ok(i) => inst = i,
                Err((loc, msg)) => {
                    if is_harness_panic(&loc) {
                        panic!("{msg}");
                    }
                    c.fail("panic", format!("panic at {loc}: {msg}"));
                    return;
                }
            }
        }
        c.op(st as u64);
        c.trace();
        c.state_h(i | 1 << 40);
        if let Some(e) = diff(p, &inst.rec, &solos[i as usize >> st]) {
            c.fail("placement", format!("{e}; call k ran on thread bit k of {:#b}", i & ((1 << st) - 1)));
            return;
        }
        c.outcome("as on one thread");
    }));
    // two instances, each on a thread of its own, all interleavings (handed over call by call)
    let ps = progs(if q { 3 } else { 4 });
    let lens = vec![Inst::steps(&ps[0]); 2];
    let nm = merges(&lens);
    let solos: Vec<Rec> = ps.iter().map(solo).collect();
    let groups: Vec<(usize, usize)> = (0..n).step_by(2).flat_map(|a| (0..n).step_by(3).map(move |b| (a, b))).collect();
    v.push(space("all interleavings of two programs on two threads", groups.len() * nm, move |i, c| {
        let g = groups[i as usize / nm];
        let g = [g.0, g.1];
        let sched = merge_of(i % nm as u64, &lens);
        let mut is = [Some(Inst::new()), Some(Inst::new())];
        for s in &sched {
            match POOL.with(|q| q.run(*s, &ps[g[*s]], is[*s].take().unwrap())) {
                Ok(i) => is[*s] = Some(i),
                Err((loc, msg)) => {
                    if is_harness_panic(&loc) {
                        panic!("{msg}");
                    }
                    c.fail("panic", format!("panic at {loc}: {msg}"));
                    return;
                }
            }
        }
        c.op(sched.len() as u64);
        c.trace();
        c.state_h(i | 1 << 41);
        for k in 0..2 {
            if let Some(e) = diff(&ps[g[k]], &is[k].as_ref().unwrap().rec, &solos[g[k]]) {
                c.fail("interleaving", format!("{e}; two threads, schedule {sched:?}"));
                return;
            }
        }
        c.outcome("as alone");
    }));
    v.extend(super::long::h03(tier));
    v.extend(threads(tier));
    v.push(super::miri::space_of("threads", "two instances on two threads, data races", 8, 1));
    // what other instances calculated before, whatever it was
    let mut items: Vec<(X, f64, f64)> = vec![];
    for x in (0..21).map(pure).chain(binaries(if q { &[0.1] } else { &[0.1, 0.5, 0.9] })).chain(named().into_iter().map(|g| g.1)) {
        items.push((x, 300.0, 3.0));
    }
    for r in 1..21 {
        let mut x = full();
        x.rotate_left(r);
        items.push((x, 300.0, 3.0));
        let mut x = full();
        x.swap(r - 1, r);
        items.push((x, 300.0, 3.0));
        let mut x = full();
        x.swap(r - 1, 20 - r / 2);
        items.push((x, 300.0, 3.0));
        let mut x = full();
        x[0] -= 1e-7 * r as f64;
        x[r] += 1e-7 * r as f64;
        items.push((x, 300.0, 3.0));
    }
    for x in [mix(&[(0, 0.9), (2, 0.06), (3, 0.04)]), mix(&[(0, 0.9), (4, 0.1)])] {
        for t in [250.0, 299.0, 299.9999, 300.0, 300.0000001, 301.0, 350.0, 600.0] {
            for d in [0.0, 1e-9, 0.5, 2.999999, 3.0, 12.0] {
                items.push((x, t, d));
            }
        }
    }
    let items: Vec<(X, f64, f64)> = items.into_iter().filter(|i| (i.0.iter().sum::<f64>() - 1.0).abs() < 0.01).collect();
    let refs: Vec<Vec<refmodel::State>> = KINDS.iter().map(|k| items.iter().map(|i| k.reference(&i.0, i.1, i.2)).collect()).collect();
    let ni = items.len();
    // the two calculations are the last of their programs; together with the creation they interleave in these ways
    v.push(space("an instance after another one: all ordered pairs of inputs", ni * 4, move |i, c| {
        let i = i as usize;
        let (ka, kb, a) = (KINDS[i / ni / 2], KINDS[i / ni % 2], i % ni);
        for b in 0..ni {
            if ka != kb && (a + b) % 8 != 0 {
                continue;
            }
            let (ia, ib) = (&items[a], &items[b]);
            let mut mb = kb.make();
            if b % 2 == 0 {
                mb.set(&comp(&ib.0));
            }
            let mut ma = ka.make();
            ma.set(&comp(&ia.0));
            ma.set_t(ia.1);
            ma.set_d(ia.2);
            if b % 3 == 0 {
                ma.pressure();
            } else {
                ma.properties();
            }
            if b % 2 == 1 {
                mb.set(&comp(&ib.0));
            }
            mb.set_t(ib.1);
            mb.set_d(ib.2);
            let p1 = mb.pressure();
            let p2 = mb.properties();
            let o = mb.out();
            c.op(3);
            c.trace();
            c.state(&[a as f64, b as f64, ka as u32 as f64, kb as u32 as f64]);
            let r = &refs[kb as usize][b];
            for (n, v, w) in [("pressure()", p1, &r.p), ("p", p2, &r.p), ("cv", o[CV], &r.cv), ("u", o[U], &r.u), ("s", o[S], &r.s), ("dp_dt", o[DPDT], &r.dp_dt), ("dp_dd", o[DPDD], &r.dp_dd)] {
                if !((v - w.v).abs() <= 1e-10 * w.s.abs().max(w.v.abs()) + 1e-300) {
                    c.fail("other instance", format!("{} at T={}, D={}, x={{{}}} after {} at T={}, D={}, x={{{}}}: {n} = {v:?}, the equation gives {:?}", kb.name(), ib.1, ib.2, show(&ib.0), ka.name(), ia.1, ia.2, show(&ia.0), w.v));
                    return;
                }
            }
        }
        c.outcome("the values of the equation");
        c.sample(|| format!("{} T={}, D={}, x={{{}}}, then each of the others", ka.name(), items[a].1, items[a].2, show(&items[a].0)));
    }));
    v.push(alike(tier));
    if step::supported() {
        v.push(Space { cores: 2, ..crate::first::space_of(tier) });
        v.push(Space { cores: 2, ..pattern(tier) });
        for single in [false, true] {
            if !q || !single {
                v.push(Space { cores: 2, ..instr(tier, single) });
            }
        }
    }
    v
}

/// Two instances in turn whose inputs hardly differ: one number of the composition, the temperature or the
/// density is off by a part that goes down to the last bit.
fn alike(tier: Tier) -> Space {
    let mut bases: Vec<X> = named().into_iter().map(|g| g.1).collect();
    bases.extend([mix(&[(0, 0.6), (19, 0.4)]), mix(&[(2, 0.5), (17, 0.5)]), pure(0), pure(10)]);
    // differences: powers of ten, of two, and some between
    let mut steps: Vec<f64> = vec![];
    for e in 1..=15 {
        for f in [1.0, 0.3, 0.6] {
            steps.push(f * 10f64.powi(-e));
        }
    }
    let nb = bases.len();
    let more = tier == Tier::Thorough;
    space("two instances whose inputs hardly differ", nb * 21 * 4, move |i, c| {
        let i = i as usize;
        let (ka, kb) = (KINDS[i % 2], KINDS[i / 2 % 2]);
        if ka != kb && !more && i / 4 % 5 != 0 {
            return;
        }
        let (x, j) = (bases[i / 4 / 21], i / 4 % 21);
        // the component the fraction is taken from
        let from = (0..21).filter(|k| *k != j).max_by(|a, b| x[*a].total_cmp(&x[*b])).unwrap();
        let calc = |m: &mut dyn Eos, x: &X, t: f64, d: f64| {
            m.set(&comp(x));
            m.set_t(t);
            m.set_d(d);
            let p = m.pressure();
            let q = m.properties();
            let mut v = vec![p, q];
            v.extend_from_slice(&m.out());
            v
        };
        for s in &steps {
            for way in 0..4 {
                let (mut y, mut t, mut d) = (x, 290.0, 6.0);
                match way {
                    0 => {
                        if y[from] < *s {
                            continue;
                        }
                        y[j] += s;
                        y[from] -= s;
                    }
                    // the sum changes
                    1 => {
                        if *s > 0.005 {
                            continue;
                        }
                        y[j] += s;
                    }
                    2 => t *= 1.0 + s,
                    _ => d *= 1.0 + s,
                }
                if way > 1 && j > 0 {
                    continue;
                }
                // first x then y, on instances of their own; then again in the other order
                let (mut a, mut b) = (ka.make(), kb.make());
                calc(&mut *a, &x, 290.0, 6.0);
                let got = calc(&mut *b, &y, t, d);
                let back = calc(&mut *a, &x, 290.0, 6.0);
                c.op(9);
                c.trace();
                c.state(&[i as f64, *s, way as f64]);
                for (k, x, t, d, o, n) in [(kb, &y, t, d, &got, "second"), (ka, &x, 290.0, 6.0, &back, "first")] {
                    let r = k.reference(x, t, d);
                    // cv, u and s show the temperature scale; the pressure shows all of it
                    for (name, v, w) in [("pressure()", o[0], &r.p), ("p", o[1], &r.p), ("cv", o[2 + CV], &r.cv), ("u", o[2 + U], &r.u), ("s", o[2 + S], &r.s), ("dp_dt", o[2 + DPDT], &r.dp_dt), ("dp_dd", o[2 + DPDD], &r.dp_dd)] {
                        if !((v - w.v).abs() <= 2e-12 * w.s.abs().max(w.v.abs()) + 1e-300) {
                            c.fail("alike", format!("two instances ({}, {}), x={{{}}}, T=290, D=6 and x={{{}}}, T={t:?}, D={d:?}: {name} of the {n} is {v:?}, the equation gives {:?}", ka.name(), kb.name(), show(&x), show(&y), w.v));
                            return;
                        }
                    }
                }
            }
        }
        c.outcome("the values of the equation");
        c.sample(|| format!("{} and {}, x={{{}}} and component {j} more by 0.1 to 1e-15", ka.name(), kb.name(), show(&x)));
    })
}

/// One operation preempted between its machine instructions by operations of another instance.
///
/// With `single`, one preemption only, at every possible instruction; otherwise the partner runs after
/// every instruction (or every stride-th).
fn instr(tier: Tier, single: bool) -> Space {
    let q = tier == Tier::Quick;
    let xa = mix(&[(0, 0.9), (2, 0.06), (4, 0.04)]);
    let xb = mix(&[(0, 0.85), (1, 0.1), (6, 0.05)]);
    // (kind, ffi, preparation, preempted operation)
    let mut victims: Vec<(Kind, bool, Vec<Op>, Vec<Op>)> = vec![];
    for k in KINDS {
        let prep = vec![Comp(xa), T(290.0), P(4000.0), D(3.0)];
        victims.push((k, false, prep.clone(), vec![Pres]));
        victims.push((k, false, prep.clone(), vec![Prop]));
        victims.push((k, false, [prep.clone(), vec![Prop]].concat(), vec![Comp(xb), Pres]));
        victims.push((k, false, [prep.clone(), vec![Prop]].concat(), vec![T(310.0), Pres]));
        victims.push((k, true, prep.clone(), vec![Comp(xb), Pres]));
        victims.push((k, false, prep.clone(), vec![Mm]));
        if single {
            victims.retain(|v| !matches!(v.3[0], Prop));
        } else if !q {
            victims.push((k, true, prep.clone(), vec![Prop]));
            victims.push((k, false, prep.clone(), vec![Dens(0)]));
            victims.push((k, false, vec![], vec![Comp(xb), T(280.0), D(4.0), Prop]));
        }
    }
    // partner: alternates between its states, one calculation per preemption
    let mut partners: Vec<(Kind, Vec<Op>)> = KINDS.iter().flat_map(|k| [(*k, vec![Pres]), (*k, vec![Prop])]).collect();
    if single {
        partners.retain(|p| matches!(p.1[0], Pres));
    }
    let plans: Vec<(u64, u64)> = if single {
        (0..1_800).map(|k| (1, 9 * k)).collect()
    } else if q { vec![(1, 0), (7, 3)] } else { (1..=4).flat_map(|s| (0..s).map(move |p| (s, p))).collect() };
    let (nv, np, nl) = (victims.len(), partners.len(), plans.len());
    let top = Mutex::new(vec![u64::MAX; nv]);
    space(if single { "one operation, preempted once, at every ninth of its instructions" } else { "one operation, preempted after every instruction" }, nv * np * nl, move |i, c| {
        let i = i as usize;
        let (k, ffi, prep, ops) = &victims[i / np / nl];
        let (pk, pops) = &partners[i / nl % np];
        let plan = if single {
            step::Plan { stride: 1, phase: 0, from: plans[i % nl].1, max: 1 }
        } else {
            step::Plan { stride: plans[i % nl].0, phase: plans[i % nl].1, from: 0, max: u64::MAX }
        };
        if plan.from > top.lock().unwrap()[i / np / nl] {
            c.outcome("operation ends before this instruction");
            return;
        }
        // alone
        let run_alone = || {
            let mut m = if *ffi { k.make_ffi() } else { k.make() };
            for o in prep {
                apply(&mut *m, o);
            }
            let mut r = 0.0;
            for o in ops {
                r = apply(&mut *m, o);
            }
            (r, m.d(), m.out())
        };
        let want = run_alone();
        let pstates = [(xa, 290.0, 3.0), (xb, 335.0, 6.0), (pure(3), 320.0, 0.5)];
        let pm: Vec<Box<dyn Eos>> = pstates
            .iter()
            .map(|s| {
                let mut m = pk.make();
                m.set(&comp(&s.0));
                m
            })
            .collect();
        // the partner's expected results, alone
        let pwant: Vec<[(f64, Out); 2]> = pstates
            .iter()
            .map(|s| {
                [0.0, 11.0].map(|dt| {
                    let mut m = pk.make();
                    m.set(&comp(&s.0));
                    m.set_t(s.1 + dt);
                    m.set_d(s.2);
                    let mut r = 0.0;
                    for o in pops {
                        r = apply(&mut *m, o);
                    }
                    (r, m.out())
                })
            })
            .collect();
        // the last calculation before has the same input
        run_alone();
        let wrong: Mutex<Option<String>> = Mutex::new(None);
        let nwrong = AtomicU64::new(0);
        let partner = step::Partner::new();
        let mut m = if *ffi { k.make_ffi() } else { k.make() };
        for o in prep {
            apply(&mut *m, o);
        }
        let mut got = 0.0;
        let mut res = (0, 0, 0);
        std::thread::scope(|s| {
            let (partner, wrong, nwrong, pwant, plan) = (&partner, &wrong, &nwrong, &pwant, &plan);
            s.spawn(move || {
                let mut pm = pm;
                partner.serve(|n| {
                    let n = n + plan.from;
                    // walks through 3 instances x 2 temperatures
                    let (a, b) = ((n % 3) as usize, (n / 3 % 2) as usize);
                    let m = &mut pm[a];
                    m.set_t(pstates[a].1 + 11.0 * b as f64);
                    m.set_d(pstates[a].2);
                    let r = guarded(|| {
                        let mut r = 0.0;
                        for o in pops {
                            r = apply(&mut **m, o);
                        }
                        r
                    });
                    let w = &pwant[a][b];
                    let bad = match &r {
                        Err((l, t)) => Some(format!("panics at {l}: {t}")),
                        Ok(r) if !near(*r, w.0, 0.0, 1e-12) => Some(format!("gives {r:?} instead of {:?}", w.0)),
                        Ok(_) => {
                            let o = m.out();
                            let full = matches!(pops[0], Prop);
                            (0..15).find(|j| (full || *j == Z) && !near(o[*j], w.1[*j], 1e-3, 1e-12)).map(|j| format!("gives {} = {:?} instead of {:?}", ON[j], o[j], w.1[j]))
                        }
                    };
                    if let Some(b) = bad {
                        if nwrong.fetch_add(1, Relaxed) == 0 {
                            *wrong.lock().unwrap() = Some(format!("its {} number {n} {b}", show_ops(pops)));
                        }
                    }
                });
            });
            res = step::run(partner, plan, || {
                for o in ops {
                    got = apply(&mut *m, o);
                }
            });
            partner.stop();
        });
        c.op(partner.runs() + 1);
        c.trace();
        for k in 0..res.1 {
            c.state_h((i as u64) << 40 | k);
        }
        let what = format!("{}{} {} preempted {} times within {} instructions by {}", k.name(), if *ffi { " (C)" } else { "" }, show_ops(ops), res.1, res.0, pk.name());
        let out = m.out();
        if single && res.1 == 0 {
            let mut g = top.lock().unwrap();
            let t = &mut g[i / np / nl];
            *t = (*t).min(res.0 + 64);
        }
        if !single && res.0 > 0 && res.1 == 0 && plan.stride < res.0 {
            panic!("harness: no preemption took place in {what}");
        }
        if let Some(w) = wrong.into_inner().unwrap() {
            c.fail("preemption", format!("{what}: {w}"));
        } else if !near(got, want.0, 0.0, 1e-12) || !near(m.d(), want.1, 0.0, 1e-12) {
            c.fail("preemption", format!("{what}: gives {got:?} (d={:?}), alone {:?} (d={:?})", m.d(), want.0, want.1));
        } else if let Some(j) = (0..15).find(|j| !near(out[*j], want.2[*j], 1e-3, 1e-12)) {
            c.fail("preemption", format!("{what}: {} = {:?}, alone {:?}", ON[j], out[j], want.2[j]));
        }
        c.outcome(if res.2 > 0 { "partner had to wait for a lock" } else { "partner ran at every chosen instruction" });
        c.max("instructions of one preempted operation", res.0 as f64);
        c.max("preemptions in one execution", res.1 as f64);
        c.sample(|| what.clone());
    })
}


/// One operation preempted after every instruction by operations on the same and on other inputs, in all
/// shifts of a pattern b c b c .. a a ..; `a` is the input of the preempted operation.  A value that is looked up in
/// two steps, or stored in two, meets every order of hit, miss and overwriting in between.
fn pattern(tier: Tier) -> Space {
    let q = tier == Tier::Quick;
    let xa = mix(&[(0, 0.9), (2, 0.06), (4, 0.04)]);
    let xb = mix(&[(0, 0.85), (1, 0.1), (6, 0.05)]);
    let others = [(full(), 333.0, 2.0), (mix(&[(0, 0.5), (5, 0.3), (14, 0.2)]), 271.0, 7.0)];
    let mut victims: Vec<(Kind, bool, Vec<Op>, Vec<Op>, Op)> = vec![];
    for k in KINDS {
        let prep = vec![Comp(xa), T(290.0), P(4000.0), D(3.0)];
        for calc in [Pres, Prop] {
            victims.push((k, false, prep.clone(), vec![calc], calc));
            victims.push((k, false, [prep.clone(), vec![Prop]].concat(), vec![T(310.0), calc], calc));
            if !q || matches!(calc, Pres) {
                victims.push((k, false, [prep.clone(), vec![Prop]].concat(), vec![Comp(xb), calc], calc));
                victims.push((k, true, [prep.clone(), vec![Prop]].concat(), vec![Comp(xb), T(305.0), calc], calc));
            }
        }
        if !q {
            victims.push((k, false, prep.clone(), vec![Mm], Mm));
        }
    }
    // (length of each half, shift)
    let plans: Vec<(u64, u64)> = if q { (0..24).map(|s| (8, s)).collect() } else { [2, 8, 32].into_iter().flat_map(|n| (0..3 * n).map(move |s| (n, s))).collect() };
    let (nv, nl) = (victims.len(), plans.len());
    space("one operation, preempted after every instruction by the same and other inputs", nv * nl, move |i, c| {
        let i = i as usize;
        let (k, ffi, prep, ops, calc) = &victims[i / nl];
        let (n, shift) = plans[i % nl];
        let make = || if *ffi { k.make_ffi() } else { k.make() };
        let mut m = make();
        let mut x = [0.0; 21];
        for o in prep {
            let r = apply(&mut *m, o);
            x = spec_x(&x, o, r);
        }
        // the input of the preempted calculation
        let mut a = (x, m.t(), m.d());
        for o in ops {
            match o {
                Comp(v) => a.0 = *v,
                T(t) => a.1 = *t,
                _ => {}
            }
        }
        let states = [a, others[0], others[1]];
        let want: Vec<(f64, Out)> = states
            .iter()
            .map(|s| {
                let mut m = k.make();
                m.set(&comp(&s.0));
                m.set_t(s.1);
                m.set_d(s.2);
                let r = apply(&mut *m, calc);
                (r, m.out())
            })
            .collect();
        let full = matches!(calc, Prop);
        let compare = |r: f64, o: &Out, w: &(f64, Out)| -> Option<String> {
            if !near(r, w.0, 0.0, 1e-12) {
                return Some(format!("gives {r:?} instead of {:?}", w.0));
            }
            let mm = matches!(calc, Mm);
            (0..15).find(|j| (full || *j == if mm { MM } else { Z }) && !near(o[*j], w.1[*j], 1e-3, 1e-12)).map(|j| format!("gives {} = {:?} instead of {:?}", ON[j], o[j], w.1[j]))
        };
        let wrong: Mutex<Option<String>> = Mutex::new(None);
        let partner = step::Partner::new();
        let mut got = 0.0;
        let mut res = (0, 0, 0);
        // the last calculation before has the same input
        let mut warm = k.make();
        warm.set(&comp(&a.0));
        warm.set_t(a.1);
        warm.set_d(a.2);
        apply(&mut *warm, calc);
        let plan = step::Plan { stride: 1, phase: 0, from: 0, max: u64::MAX };
        std::thread::scope(|s| {
            let (partner, wrong, want, states, compare) = (&partner, &wrong, &want, &states, &compare);
            s.spawn(move || {
                let mut pm = k.make();
                let mut last = 9;
                partner.serve(|r| {
                    let at = (r + shift) % (3 * n);
                    let w = if at >= 2 * n { 0 } else { 1 + (at % 2) as usize };
                    if w != last {
                        pm.set(&comp(&states[w].0));
                        pm.set_t(states[w].1);
                        pm.set_d(states[w].2);
                        last = w;
                    }
                    let bad = match guarded(|| apply(&mut *pm, calc)) {
                        Err((l, t)) => Some(format!("panics at {l}: {t}")),
                        Ok(v) => compare(v, &pm.out(), &want[w]),
                    };
                    if let Some(b) = bad {
                        let mut g = wrong.lock().unwrap();
                        if g.is_none() {
                            *g = Some(format!("its {} number {r} {b}", calc.show()));
                        }
                    }
                });
            });
            res = step::run(partner, &plan, || {
                for o in ops {
                    got = apply(&mut *m, o);
                }
            });
            partner.stop();
        });
        c.op(partner.runs() + 1);
        c.trace();
        for j in 0..res.1 {
            c.state_h((i as u64) << 40 | 1 << 39 | j);
        }
        let what = format!("{}{} {} preempted {} times within {} instructions (pattern {n}, shift {shift})", k.name(), if *ffi { " (C)" } else { "" }, show_ops(ops), res.1, res.0);
        let mut visible = m.out();
        if *ffi {
            // not part of the C structure
            visible[D2PDTD] = want[0].1[D2PDTD];
        }
        if let Some(w) = wrong.into_inner().unwrap() {
            c.fail("preemption", format!("{what}: the other instance: {w}"));
        } else if let Some(w) = compare(if *ffi && full { want[0].0 } else { got }, &visible, &want[0]) {
            c.fail("preemption", format!("{what}: {w}"));
        }
        // and nothing wrong stays behind
        for (s, w) in states.iter().zip(&want) {
            let mut m = k.make();
            m.set(&comp(&s.0));
            m.set_t(s.1);
            m.set_d(s.2);
            let r = apply(&mut *m, calc);
            if let Some(e) = compare(r, &m.out(), w) {
                c.fail("preemption", format!("{what}: a later instance: {e}"));
            }
        }
        c.outcome(if res.2 > 0 { "partner had to wait for a lock" } else { "partner ran after every instruction" });
        c.max("instructions of one preempted operation", res.0 as f64);
        c.max("preemptions in one execution", res.1 as f64);
        c.sample(|| what.clone());
    })
}


/// Many threads, each with an instance of its own; threads that end while their instances go on.
fn threads(tier: Tier) -> Vec<Space> {
    let q = tier == Tier::Quick;
    let sizes: Vec<usize> = if q { vec![2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257] } else { (2..=300).chain([511, 512, 513, 1023, 1024, 1025]).collect() };
    let max = *sizes.last().unwrap();
    let mut xs: Vec<X> = named().into_iter().map(|g| g.1).collect();
    xs.extend((0..21).map(pure));
    let prog = |j: usize, kind: Kind, ffi: bool| {
        let x = xs[j * 3 % xs.len()];
        Prog { kind, ffi, ops: vec![Comp(x), T(280.0 + 0.25 * j as f64), D(0.4 + 0.003 * j as f64), Prop, Pres, T(330.0 - 0.1 * j as f64), P(300.0 + 2.0 * j as f64), Dens(0), Prop] }
    };
    // both kinds take turns
    let kind = |j: usize, mode: usize| if mode < 2 { KINDS[mode] } else { KINDS[j % 2] };
    let mut all = vec![];
    for mode in 0..3 {
        let ps: Vec<Prog> = (0..max).map(|j| prog(j, kind(j, mode), j % 3 == 2)).collect();
        let solos: Vec<Rec> = ps.iter().map(solo).collect();
        all.push((ps, solos));
    }
    let all = std::sync::Arc::new(all);
    let mut v = vec![];
    let a2 = all.clone();
    let sz = sizes.clone();
    // order of the threads in every round: forwards, backwards, alternating
    v.push(space("2 to 257 threads with an instance each, in lock-step", sizes.len() * 9, move |i, c| {
        let i = i as usize;
        let (n, mode, order) = (sz[i / 9], i / 3 % 3, i % 3);
        let (ps, solos) = &a2[mode];
        let pool = Pool::new(n);
        let mut is: Vec<Option<Inst>> = (0..n).map(|_| Some(Inst::new())).collect();
        for s in 0..Inst::steps(&ps[0]) {
            for k in 0..n {
                let j = if order == 1 || order == 2 && s % 2 == 1 { n - 1 - k } else { k };
                match pool.run(j, &ps[j], is[j].take().unwrap()) {
                    Ok(x) => is[j] = Some(x),
                    Err((loc, msg)) => {
                        if is_harness_panic(&loc) {
                            panic!("{msg}");
                        }
                        c.fail("panic", format!("panic at {loc}: {msg}"));
                        return;
                    }
                }
                c.op(1);
            }
        }
        c.trace();
        c.state_h(i as u64 | 1 << 43);
        for j in 0..n {
            if let Some(e) = diff(&ps[j], &is[j].as_ref().unwrap().rec, &solos[j]) {
                c.fail("threads", format!("instance {j} of {n}, each on a thread of its own: {e}"));
                return;
            }
        }
        c.outcome("each as if alone");
    }));
    // the thread that created an instance (and used it) is gone; the others use it
    let gens: usize = if q { 300 } else { 2000 };
    v.push(space("instances whose threads have ended", Inst::steps(&all[0].0[0]) * 3, move |i, c| {
        let (cut, mode) = (i as usize / 3, i as usize % 3);
        let (ps, solos) = &all[mode];
        let mut left: std::collections::VecDeque<(usize, Inst)> = Default::default();
        for g in 0..gens {
            let j = g % ps.len();
            // the instances of earlier threads go on on this one
            let take = if left.len() > 16 { left.pop_front() } else { None };
            let p = ps[j].clone();
            let r = std::thread::scope(|s| {
                s.spawn(|| {
                    guarded(|| {
                        let mut inst = Inst::new();
                        for _ in 0..=cut {
                            inst.step(&p);
                        }
                        let old = take.map(|(k, mut old)| {
                            while old.pc < Inst::steps(&ps[k]) {
                                old.step(&ps[k]);
                            }
                            (k, old)
                        });
                        (inst, old)
                    })
                })
                .join()
                .unwrap()
            });
            c.op(Inst::steps(&ps[0]) as u64);
            match r {
                Err((loc, msg)) => {
                    if is_harness_panic(&loc) {
                        panic!("{msg}");
                    }
                    c.fail("panic", format!("panic at {loc}: {msg}"));
                    return;
                }
                Ok((inst, old)) => {
                    left.push_back((j, inst));
                    if let Some((k, old)) = old {
                        if let Some(e) = diff(&ps[k], &old.rec, &solos[k]) {
                            c.fail("threads", format!("thread number {g}: the instance of a thread that has ended after {} of its steps: {e}", cut + 1));
                            return;
                        }
                    }
                }
            }
        }
        c.trace();
        c.state_h(i | 1 << 44);
        c.outcome("as on one thread");
    }));
    v
}
