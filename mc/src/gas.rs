//! Compositions and grids the spaces are built from.
use crate::api::X;

pub fn pure(i: usize) -> X {
    let mut x = [0.0; 21];
    x[i] = 1.0;
    x
}
pub fn mix(parts: &[(usize, f64)]) -> X {
    let mut x = [0.0; 21];
    for (i, f) in parts {
        x[*i] += f;
    }
    x
}
pub fn pairs() -> Vec<(usize, usize)> {
    let mut v = vec![];
    for i in 0..21 {
        for j in i + 1..21 {
            v.push((i, j));
        }
    }
    v
}
pub fn triples() -> Vec<[usize; 3]> {
    let mut v = vec![];
    for i in 0..21 {
        for j in i + 1..21 {
            for k in j + 1..21 {
                v.push([i, j, k]);
            }
        }
    }
    v
}
/// all subsets of size k of the 21 components
pub fn subsets(k: u32) -> Vec<u32> {
    (1u32..1 << 21).filter(|m| m.count_ones() == k).collect()
}
/// unequal fractions on the components of a bit set: component i has weight 1 + (i*7 mod 5)/4
pub fn of_mask(m: u32) -> X {
    let mut x = [0.0; 21];
    let mut s = 0.0;
    for i in 0..21 {
        if m >> i & 1 == 1 {
            x[i] = 1.0 + ((i * 7) % 5) as f64 / 4.0;
            s += x[i];
        }
    }
    for v in x.iter_mut() {
        *v /= s;
    }
    x
}
/// Supports of every size from 5 to 17: k components, `step` apart, from every start; the steps are coprime to 21,
/// so all of them are supports of exactly k components.
pub fn strided() -> Vec<X> {
    let mut v = vec![];
    let mut seen = std::collections::HashSet::new();
    for k in 5..=17usize {
        for step in [1usize, 2, 4, 5, 8, 10] {
            for start in 0..21 {
                let m: u32 = (0..k).map(|j| 1u32 << ((start + j * step) % 21)).sum();
                if seen.insert(m) {
                    v.push(of_mask(m));
                }
            }
        }
    }
    v
}
/// all 21 components, one of them dominant; and one of them missing or a trace
pub fn dominated() -> Vec<X> {
    let mut v = vec![];
    for i in 0..21 {
        for f in [0.98, 0.9, 0.6, 0.3, 1e-6, 1e-10, 1e-13] {
            v.push(std::array::from_fn(|j| if j == i { f } else { (1.0 - f) / 20.0 }));
        }
    }
    v
}
pub fn binaries(fr: &[f64]) -> Vec<X> {
    let mut v = vec![];
    for (i, j) in pairs() {
        for f in fr {
            v.push(mix(&[(i, 1.0 - f), (j, *f)]));
        }
    }
    v
}

pub fn full() -> X {
    [
        0.778_24, 0.02, 0.06, 0.08, 0.03, 0.001_5, 0.003, 0.000_5, 0.001_65, 0.002_15, 0.000_88, 0.000_24, 0.000_15, 0.000_09, 0.004, 0.005, 0.002,
        0.000_1, 0.002_5, 0.007, 0.001,
    ]
}
/// well-known and typical gases
pub fn named() -> Vec<(&'static str, X)> {
    vec![
        ("nist-demo", full()),
        ("gulf-coast", mix(&[(0, 0.965222), (1, 0.002595), (2, 0.005956), (3, 0.018186), (4, 0.004596), (5, 0.000977), (6, 0.001007), (7, 0.000473), (8, 0.000324), (9, 0.000664)])),
        ("amarillo", mix(&[(0, 0.906724), (1, 0.031284), (2, 0.004676), (3, 0.045279), (4, 0.00828), (5, 0.001037), (6, 0.001563), (7, 0.000321), (8, 0.000443), (9, 0.000393)])),
        ("ekofisk", mix(&[(0, 0.859063), (1, 0.010068), (2, 0.014954), (3, 0.084919), (4, 0.023015), (5, 0.003486), (6, 0.003506), (7, 0.000509), (8, 0.00048)])),
        ("high-n2", mix(&[(0, 0.81441), (1, 0.13465), (2, 0.00985), (3, 0.033), (4, 0.00605), (5, 0.001), (6, 0.00104)])),
        ("high-co2", mix(&[(0, 0.81212), (1, 0.05702), (2, 0.07585), (3, 0.04303), (4, 0.00895), (5, 0.00151), (6, 0.00152)])),
        ("biogas", mix(&[(0, 0.60), (2, 0.38), (1, 0.01), (15, 0.002), (17, 0.004), (18, 0.004)])),
        ("h2-blend", mix(&[(0, 0.70), (14, 0.20), (3, 0.06), (1, 0.02), (2, 0.02)])),
        ("sour", mix(&[(0, 0.72), (18, 0.15), (2, 0.10), (3, 0.02), (4, 0.01)])),
        ("rich", mix(&[(0, 0.60), (3, 0.15), (4, 0.10), (5, 0.03), (6, 0.04), (7, 0.02), (8, 0.02), (9, 0.015), (10, 0.01), (11, 0.008), (12, 0.004), (13, 0.003)])),
        ("air", mix(&[(1, 0.78), (15, 0.21), (20, 0.0094), (2, 0.0004), (17, 0.0002)])),
        ("syngas", mix(&[(14, 0.5), (16, 0.35), (2, 0.1), (1, 0.05)])),
        ("noble", mix(&[(19, 0.4), (20, 0.4), (1, 0.2)])),
        ("traces", mix(&[(0, 0.999_999_499), (1, 1e-7), (2, 1e-7), (3, 1e-7), (4, 1e-7), (17, 1e-8), (18, 1e-9), (19, 9e-8)])),
    ]
}

/// Natural gases within the "pipeline quality" box: methane is the remainder.
pub fn pipeline() -> Vec<X> {
    let mut v = vec![];
    for n2 in [0.0, 0.2, 0.5] {
        for co2 in [0.0, 0.1, 0.2] {
            for c2 in [0.0, 0.05, 0.1] {
                for c3 in [0.0, 0.04] {
                    for c4 in [0.0, 0.005] {
                        for c5 in [0.0, 0.001] {
                            for h2 in [0.0, 0.1] {
                                for oth in [0.0, 0.002] {
                                    let mut x = [0.0; 21];
                                    x[1] = n2;
                                    x[2] = co2;
                                    x[3] = c2;
                                    x[4] = c3;
                                    x[5] = c4;
                                    x[6] = c4;
                                    x[7] = c5;
                                    x[8] = c5;
                                    x[9] = c5;
                                    x[14] = h2;
                                    x[15] = oth;
                                    x[16] = oth;
                                    x[19] = oth;
                                    x[20] = oth;
                                    let s: f64 = x.iter().sum();
                                    x[0] = 1.0 - s;
                                    if x[0] >= 0.45 {
                                        v.push(x);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

/// n values from a to b, equally spaced
pub fn lin(a: f64, b: f64, n: usize) -> Vec<f64> {
    (0..n).map(|i| a + (b - a) * i as f64 / (n - 1).max(1) as f64).collect()
}
/// a to b in n parts of one: what instruments show and people write
pub fn per(a: u32, b: u32, n: u32) -> Vec<f64> {
    (a * n..=b * n).map(|k| k as f64 / n as f64).collect()
}
/// pressures as read: 25 Pa apart up to 1 MPa, then 250 Pa
pub fn readings(max: u32) -> Vec<f64> {
    let mut v = per(0, 1000, 40);
    v.remove(0);
    v.extend(per(1000, max, 4).into_iter().skip(1));
    v
}
/// gases for the longest lists of states
pub fn common() -> Vec<X> {
    vec![pure(0), named().into_iter().find(|g| g.0 == "amarillo").unwrap().1, mix(&[(2, 0.6), (3, 0.4)])]
}
/// n values from a to b, equally spaced in the logarithm
pub fn log(a: f64, b: f64, n: usize) -> Vec<f64> {
    lin(a.ln(), b.ln(), n).into_iter().map(|v| v.exp()).collect()
}
pub fn show(x: &X) -> String {
    let v: Vec<String> = (0..21).filter(|i| x[*i] != 0.0).map(|i| format!("{} {:?}", crate::api::NAMES[i], x[i])).collect();
    v.join(", ")
}

/// fractions with the given signs (bit set: negative) and a sum of one; None where they nearly cancel
pub fn signed(mask: u32) -> Option<X> {
    let x: X = std::array::from_fn(|i| (0.2 + (i * 8 % 21) as f64) * if mask >> i & 1 == 1 { -1.0 } else { 1.0 });
    let s: f64 = x.iter().sum();
    let mag: f64 = x.iter().map(|v| v.abs()).sum();
    (s.abs() > 0.01 * mag).then(|| x.map(|v| v / s))
}
