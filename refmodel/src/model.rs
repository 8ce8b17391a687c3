//! Reference model: the two equations of state written directly from their published form
//! (reduced Helmholtz energy as a sum of density-factor x temperature-factor terms), with exact
//! density derivatives by truncated Taylor arithmetic.  No caching, no state, no iteration.
//! Every sum also carries the sum of the magnitudes of its terms, so that comparisons can be made
//! relative to the conditioning of the quantity and stay immune to rounding (re)ordering.
use crate::{tab_detail as td, tab_gerg as tg};

pub const EPS: f64 = 1.0e-15;

/// Residual-part derivatives, index [tau order][delta order], scaled: tau^i delta^j d^(i+j) a / dtau^i ddelta^j
#[derive(Clone, Copy, Default)]
struct Acc {
    a: [[f64; 4]; 3],
    s: [[f64; 4]; 3],
}

/// truncated Taylor series in the density variable, up to third order
#[derive(Clone, Copy)]
struct J([f64; 4]);
impl J {
    fn mul(self, o: J) -> J {
        let mut r = [0.0; 4];
        for i in 0..4 {
            for j in 0..4 - i {
                r[i + j] += self.0[i] * o.0[j];
            }
        }
        J(r)
    }
    fn exp(self) -> J {
        // y' = f' y
        let mut y = [self.0[0].exp(), 0.0, 0.0, 0.0];
        for n in 1..4 {
            let mut s = 0.0;
            for k in 1..=n {
                s += k as f64 * self.0[k] * y[n - k];
            }
            y[n] = s / n as f64;
        }
        J(y)
    }
    fn powi(self, n: i32) -> J {
        let mut r = J([1.0, 0.0, 0.0, 0.0]);
        for _ in 0..n {
            r = r.mul(self);
        }
        r
    }
    fn scale(self, k: f64) -> J {
        J([self.0[0] * k, self.0[1] * k, self.0[2] * k, self.0[3] * k])
    }
    fn add(self, o: J) -> J {
        let mut r = self.0;
        for i in 0..4 {
            r[i] += o.0[i];
        }
        J(r)
    }
    fn konst(k: f64) -> J {
        J([k, 0.0, 0.0, 0.0])
    }
}

impl Acc {
    /// add coefficient c * F(delta) * tau^t ; m = magnitude of logarithmic density derivative; cond = relative conditioning
    fn term(&mut self, c: f64, f: J, del: f64, g: f64, t: f64, m: f64, cond: f64) {
        let fact = [1.0, 1.0, 2.0, 6.0];
        let mut dp = 1.0;
        let base = (c * g * f.0[0]).abs() * cond;
        let tt = [1.0, t, t * (t - 1.0)];
        let ts = [1.0, t.abs(), t.abs() * (t.abs() + 1.0)];
        for j in 0..4 {
            let fd = f.0[j] * fact[j] * dp;
            for i in 0..3 {
                self.a[i][j] += c * g * tt[i] * fd;
                self.s[i][j] += base * ts[i] * (m + j as f64).powi(j as i32);
            }
            dp *= del;
        }
    }
}

/// One reported quantity with the magnitude against which errors are to be judged.
#[derive(Clone, Copy, Debug, Default)]
pub struct Q {
    pub v: f64,
    pub s: f64,
}
fn q(v: f64, s: f64) -> Q {
    Q { v, s }
}

/// Base quantities of a state (everything else is an algebraic combination of these).
#[derive(Clone, Copy, Debug, Default)]
pub struct State {
    pub mm: Q,
    pub z: Q,
    pub p: Q,
    pub dp_dd: Q,
    pub d2p_dd2: Q,
    pub dp_dt: Q,
    pub d2p_dtd: Q,
    pub u: Q,
    pub h: Q,
    pub s: Q,
    pub g: Q,
    pub cv: Q,
}

fn finish(r: f64, t: f64, d: f64, mm: f64, a0: [Q; 3], acc: &Acc) -> State {
    let a = &acc.a;
    let s = &acc.s;
    let rt = r * t;
    let z = q(1.0 + a[0][1], 1.0 + s[0][1]);
    let mut o = State { mm: q(mm, mm.abs()), z, ..Default::default() };
    o.p = q(d * rt * z.v, d.abs() * rt * z.s);
    o.dp_dd = q(rt * (1.0 + 2.0 * a[0][1] + a[0][2]), rt * (1.0 + 2.0 * s[0][1] + s[0][2]));
    if d > EPS {
        o.d2p_dd2 = q(
            rt * (2.0 * a[0][1] + 4.0 * a[0][2] + a[0][3]) / d,
            rt * (2.0 * s[0][1] + 4.0 * s[0][2] + s[0][3]) / d,
        );
    }
    o.dp_dt = q(d * r * (1.0 + a[0][1] - a[1][1]), d.abs() * r * (1.0 + s[0][1] + s[1][1]));
    o.d2p_dtd = q(
        r * (1.0 + 2.0 * a[0][1] + a[0][2] - 2.0 * a[1][1] - a[1][2]),
        r * (1.0 + 2.0 * s[0][1] + s[0][2] + 2.0 * s[1][1] + s[1][2]),
    );
    o.u = q(rt * (a0[1].v + a[1][0]), rt * (a0[1].s + s[1][0]));
    o.s = q(
        r * (a0[1].v + a[1][0] - a0[0].v - a[0][0]),
        r * (a0[1].s + s[1][0] + a0[0].s + s[0][0]),
    );
    let (zz, zs) = (z.v, z.s);
    o.h = q(o.u.v + rt * zz, o.u.s + rt * zs);
    o.g = q(rt * (a0[0].v + a[0][0] + zz), rt * (a0[0].s + s[0][0] + zs));
    o.cv = q(-r * (a0[2].v + a[2][0]), r * (a0[2].s + s[2][0]));
    o
}

/// ideal part: sum x_i [ln x_i + ln(d/d0) + c0 + c1/T - (c2-1) ln T + sinh/cosh terms], and tau-derivatives
fn ideal(x: &[f64; 21], t: f64, d: f64, d0: f64, n0: &[[f64; 7]; 21], th0: &[[f64; 7]; 21], scale: f64) -> [Q; 3] {
    let ld = if d > EPS { d.ln() } else { EPS.ln() };
    let mut o = [Q::default(); 3];
    for i in 0..21 {
        let xi = x[i];
        if !(xi > 0.0) {
            continue;
        }
        // n0 is stored as [c0, c1(T-shift), c2, k...]; `scale` multiplies all caloric constants (gas constant ratio)
        let c0 = n0[i][0] * scale;
        let c1 = n0[i][1] * scale;
        let c2 = (n0[i][2] - 1.0) * scale;
        let mut v = [xi.ln() + ld - d0.ln() + c0 + c1 / t - c2 * t.ln(), c2 + c1 / t, -c2];
        let mut s = [
            xi.ln().abs() + ld.abs() + d0.ln().abs() + c0.abs() + (c1 / t).abs() + (c2 * t.ln()).abs(),
            c2.abs() + (c1 / t).abs(),
            c2.abs(),
        ];
        for k in 3..7 {
            let th = th0[i][k] / t;
            if !(th0[i][k] > 0.0) {
                continue;
            }
            let nk = n0[i][k] * scale;
            let (l, l1, l2);
            if k == 3 || k == 5 {
                // + n ln|sinh th| ; tau d/dtau = th coth th ; tau^2 d2 = -th^2/sinh^2
                l = nk * th.sinh().abs().ln();
                l1 = nk * th / th.tanh();
                l2 = -nk * (th / th.sinh()).powi(2);
            } else {
                l = -nk * th.cosh().ln();
                l1 = -nk * th * th.tanh();
                l2 = -nk * (th / th.cosh()).powi(2);
            }
            v[0] += l;
            v[1] += l1;
            v[2] += l2;
            s[0] += l.abs() + nk.abs();
            s[1] += l1.abs();
            s[2] += l2.abs();
        }
        for m in 0..3 {
            o[m].v += xi * v[m];
            o[m].s += xi * s[m];
        }
    }
    o
}

/// AGA8 DETAIL (AGA Report No. 8 Part 1).  t [K], d [mol/l]
pub fn detail(x: &[f64; 21], t: f64, d: f64) -> State {
    // mixture size, energy, orientation, quadrupole, high temperature parameters
    let mut k5 = 0.0;
    let mut u5 = 0.0;
    let mut g = 0.0;
    let mut qq = 0.0;
    let mut f = 0.0;
    for i in 0..21 {
        if x[i] > 0.0 {
            k5 += x[i] * td::KI[i].powf(2.5);
            u5 += x[i] * td::EI[i].powf(2.5);
            g += x[i] * td::GI[i];
            qq += x[i] * td::QI[i];
            f += x[i] * x[i] * td::FI[i];
        }
    }
    k5 *= k5;
    u5 *= u5;
    for i in 0..21 {
        for j in i + 1..21 {
            if x[i] > 0.0 && x[j] > 0.0 {
                let w = 2.0 * x[i] * x[j];
                k5 += w * (td::KIJ[i][j].powi(5) - 1.0) * (td::KI[i] * td::KI[j]).powf(2.5);
                u5 += w * (td::UIJ[i][j].powi(5) - 1.0) * (td::EI[i] * td::EI[j]).powf(2.5);
                g += x[i] * x[j] * (td::GIJ[i][j] - 1.0) * (td::GI[i] + td::GI[j]);
            }
        }
    }
    let k3 = k5.powf(0.6);
    let u = u5.powf(0.2);
    let mut acc = Acc::default();
    // second virial terms: B d
    let dj = J([d, 1.0, 0.0, 0.0]);
    for n in 0..18 {
        let mut b = 0.0;
        let mut bs = 0.0;
        for i in 0..21 {
            for j in i..21 {
                if x[i] > 0.0 && x[j] > 0.0 {
                    let w = if i == j { x[i] * x[i] } else { 2.0 * x[i] * x[j] };
                    let gij = if i == j { td::GI[i] } else { td::GIJ[i][j] * (td::GI[i] + td::GI[j]) / 2.0 };
                    let eij = if i == j { td::EI[i] } else { td::EIJ[i][j] * (td::EI[i] * td::EI[j]).sqrt() };
                    // flags: factor^flag * (1-factor... ) form of the standard reduces to "factor if flag else 1"
                    let mut bb = 1.0;
                    if td::GN[n] == 1 { bb *= gij }
                    if td::QN[n] == 1 { bb *= td::QI[i] * td::QI[j] }
                    if td::FN[n] == 1 { bb *= td::FI[i] * td::FI[j] }
                    if td::SN[n] == 1 { bb *= td::SI[i] * td::SI[j] }
                    if td::WN[n] == 1 { bb *= td::WI[i] * td::WI[j] }
                    let e = w * td::AN[n] * eij.powf(td::UN[n]) * (td::KI[i] * td::KI[j]).powf(1.5) * bb;
                    b += e;
                    bs += e.abs();
                }
            }
        }
        let _ = bs;
        let gt = t.powf(-td::UN[n]);
        acc.term(b, dj, d, gt, td::UN[n], 1.0, 4.0);
    }
    let dr = J([k3 * d, k3, 0.0, 0.0]);
    for n in 12..58 {
        let mut c = td::AN[n] * u.powf(td::UN[n]);
        if td::GN[n] == 1 { c *= g }
        if td::QN[n] == 1 { c *= qq * qq }
        if td::FN[n] == 1 { c *= f }
        let gt = t.powf(-td::UN[n]);
        if n < 18 {
            acc.term(-c, dr, d, gt, td::UN[n], 1.0, 4.0);
        }
        let mut fj = dr.powi(td::BN[n]);
        let mut m = td::BN[n] as f64;
        let mut cond = 4.0;
        if td::KN[n] > 0 {
            let pk = dr.powi(td::KN[n]);
            fj = fj.mul(pk.scale(-1.0).exp());
            m += td::KN[n] as f64 * pk.0[0];
            cond += pk.0[0];
        }
        acc.term(c, fj, d, gt, td::UN[n], m, cond);
    }
    let a0 = ideal(x, t, d, 101.325 / td::R / 298.15, &td::N0, &td::TH0, 1.0);
    let mm: f64 = (0..21).map(|i| x[i] * td::MM[i]).sum();
    finish(td::R, t, d, mm, a0, &acc)
}

/// Reducing density and temperature of a mixture (GERG-2008)
pub fn gerg_reducing(x: &[f64; 21]) -> (f64, f64) {
    let mut vr = 0.0;
    let mut tr = 0.0;
    for i in 0..21 {
        if !(x[i] > EPS) { continue }
        vr += x[i] * x[i] / tg::DC[i];
        tr += x[i] * x[i] * tg::TC[i];
        for j in i + 1..21 {
            if !(x[j] > EPS) { continue }
            let (bv, gv, bt, gt) = (tg::BVIJ[i][j], tg::GVIJ[i][j], tg::BTIJ[i][j], tg::GTIJ[i][j]);
            let w = 2.0 * x[i] * x[j];
            let sv = tg::DC[i].powf(-1.0 / 3.0) + tg::DC[j].powf(-1.0 / 3.0);
            vr += w * bv * gv * (x[i] + x[j]) / (bv * bv * x[i] + x[j]) * sv.powi(3) / 8.0;
            tr += w * bt * gt * (x[i] + x[j]) / (bt * bt * x[i] + x[j]) * (tg::TC[i] * tg::TC[j]).sqrt();
        }
    }
    (1.0 / vr, tr)
}

/// GERG-2008 (AGA Report No. 8 Part 2).  t [K], d [mol/l]
pub fn gerg(x: &[f64; 21], t: f64, d: f64) -> State {
    let (rd, rt) = gerg_reducing(x);
    let del = d / rd;
    let tau = rt / t;
    let lt = tau.ln();
    let dj = J([del, 1.0, 0.0, 0.0]);
    // density factors depend only on (d, c): memoise the ones used
    let mut acc = Acc::default();
    let mut memo: [[Option<(J, f64, f64)>; 8]; 8] = [[None; 8]; 8];
    let mut dens = |n: i32, c: i32| -> (J, f64, f64) {
        *memo[n as usize][c as usize].get_or_insert_with(|| {
            let mut f = dj.powi(n);
            let mut m = n as f64;
            let mut cond = 4.0;
            if c > 0 {
                let pc = dj.powi(c);
                f = f.mul(pc.scale(-1.0).exp());
                m += c as f64 * pc.0[0];
                cond += pc.0[0] * c as f64;
            }
            (f, m, cond)
        })
    };
    for i in 0..21 {
        if !(x[i] > EPS) { continue }
        for k in 0..tg::KPOL[i] + tg::KEXP[i] {
            let te = tg::TOIK[i][k];
            let c = if k < tg::KPOL[i] { 0 } else { tg::COIK[i][k] };
            let (f, m, cond) = dens(tg::DOIK[i][k], c);
            acc.term(x[i] * tg::NOIK[i][k], f, del, (te * lt).exp(), te, m, cond + (te * lt).abs() + te);
        }
    }
    for i in 0..21 {
        for j in i + 1..21 {
            if !(x[i] > EPS && x[j] > EPS) { continue }
            let mn = tg::MNUMB[i][j];
            if mn == 0 { continue }
            let w = x[i] * x[j] * tg::FIJ[i][j];
            for k in 0..tg::KPOLIJ[mn] + tg::KEXPIJ[mn] {
                let te = tg::TIJK[mn][k];
                let n = tg::DIJK[mn][k];
                if k < tg::KPOLIJ[mn] {
                    let (f, m, cond) = dens(n, 0);
                    acc.term(w * tg::NIJK[mn][k], f, del, (te * lt).exp(), te, m, cond + (te * lt).abs() + te);
                } else {
                    // exp[-eta (del-eps)^2 - beta (del-gamma)]
                    let (eta, ep, be, ga) = (tg::CIJK[mn][k], tg::EIJK[mn][k], tg::BIJK[mn][k], tg::GIJK[mn][k]);
                    let a = dj.add(J::konst(-ep));
                    let arg = a.mul(a).scale(-eta).add(dj.add(J::konst(-ga)).scale(-be));
                    let f = dj.powi(n).mul(arg.exp());
                    let m = n as f64 + 2.0 * eta * del * (del + ep) + be * del;
                    let cond = 4.0 + eta * (del * del + 2.0 * ep * del + ep * ep) + be * (del + ga) + (te * lt).abs() + te;
                    acc.term(w * tg::NIJK[mn][k], f, del, (te * lt).exp(), te, m, cond);
                }
            }
        }
    }
    // caloric constants refer to the older gas constant R* = 8.31451; c1 (a temperature) is shifted by T0
    const RS: f64 = 8.31451;
    let a0 = ideal(x, t, d, 101.325 / tg::R / 298.15, &gerg_n0(), &tg::TH0, RS / tg::R);
    let mm: f64 = (0..21).map(|i| x[i] * tg::MM[i]).sum();
    finish(tg::R, t, d, mm, a0, &acc)
}

fn gerg_n0() -> [[f64; 7]; 21] {
    // In GERG-2008 with the c1 constant: h reference shift T0 (c1 + T0) R*/R - T0
    const RS: f64 = 8.31451;
    let k = RS / tg::R;
    let mut n = tg::N0;
    for r in n.iter_mut() {
        r[1] = ((r[1] + 298.15) * k - 298.15) / k;
    }
    n
}
