#[doc(hidden)]
#[allow(missing_docs, clippy::all, clippy::pedantic)]
pub mod kv_unit {
    extern crate std;
    use super::*;
    use crate::kv_unit::{br7, cur, pow, Hit, Rng};
    use std::format;
    use std::vec::Vec;
    fn poly(a: &[u16; 256]) -> Polynomial {
        let mut p = Polynomial::default();
        for i in 0..256 {
            p.0[i] = FieldElement(a[i]);
        }
        p
    }
    fn nttp(a: &[u16; 256]) -> NttPolynomial {
        let mut p = NttPolynomial::default();
        for i in 0..256 {
            p.0[i] = FieldElement(a[i]);
        }
        p
    }
    //UNIT C01
    pub fn c01_0(_: &mut Rng) -> Hit {
        for a in 0..3329u32 {
            cur(format!("field operations on {a} and every residue"));
            for b in 0..3329u32 {
                let (x, y) = (FieldElement(a as u16), FieldElement(b as u16));
                let (s, d, m) = ((x + y).0, (x - y).0, (x * y).0);
                if u32::from(s) != (a + b) % 3329 || u32::from(d) != (a + 3329 - b) % 3329 || u32::from(m) != a * b % 3329 {
                    return Some(format!("FieldElement({a}), FieldElement({b}): sum {s}, difference {d}, product {m}"));
                }
            }
        }
        None
    }
    pub fn c01_1(r: &mut Rng) -> Hit {
        let (a, b) = (r.poly(), r.poly());
        cur(format!("NttPolynomial product of {a:?} and {b:?}"));
        let c = &nttp(&a) * &nttp(&b);
        for i in 0..128 {
            let g = pow(17, 2 * br7(i as u32) + 1);
            let [p, q, s, t] = [a[2 * i], a[2 * i + 1], b[2 * i], b[2 * i + 1]].map(u32::from);
            let w = [(p * s + q * t % 3329 * g) % 3329, (p * t + q * s) % 3329];
            for k in 0..2 {
                if u32::from(c.0[2 * i + k].0) != w[k] {
                    return Some(format!("base case {i}: a=({p},{q}) b=({s},{t}): coefficient {k} is {}, specified {}", c.0[2 * i + k].0, w[k]));
                }
            }
        }
        None
    }
    pub fn c01_2(r: &mut Rng) -> Hit {
        let a = r.poly();
        cur(format!("transforms of {a:?}"));
        let f = poly(&a);
        let n = f.ntt();
        for i in 0..128 {
            let g = pow(17, 2 * br7(i as u32) + 1);
            let (mut e, mut o, mut p) = (0, 0, 1);
            for j in 0..128 {
                e = (e + u32::from(a[2 * j]) * p) % 3329;
                o = (o + u32::from(a[2 * j + 1]) * p) % 3329;
                p = p * g % 3329;
            }
            if u32::from(n.0[2 * i].0) != e || u32::from(n.0[2 * i + 1].0) != o {
                return Some(format!("ntt of {a:?}: coefficients {} differ", 2 * i));
            }
        }
        if nttp(&a).ntt_inverse().ntt() != nttp(&a) {
            return Some(format!("ntt(ntt_inverse(f)) != f for {a:?}"));
        }
        None
    }
    pub fn c01_3(r: &mut Rng) -> Hit {
        let (a, b) = (r.poly(), r.poly());
        cur(format!("sums of {a:?} and {b:?}"));
        let (s, d, t) = (&poly(&a) + &poly(&b), &poly(&a) - &poly(&b), &nttp(&a) + &nttp(&b));
        for i in 0..256 {
            if s.0[i].0 != (a[i] + b[i]) % 3329 || d.0[i].0 != (a[i] + 3329 - b[i]) % 3329 || t.0[i].0 != (a[i] + b[i]) % 3329 {
                return Some(format!("sum/difference of {} and {} in a ring element", a[i], b[i]));
            }
        }
        None
    }
    pub fn c01_4(r: &mut Rng) -> Hit {
        use hybrid_array::typenum::{U2, U3, U4};
        fn vec<K: ArraySize>(r: &mut Rng) -> Hit {
            let mut a: NttVector<K> = NttVector::default();
            let mut b: NttVector<K> = NttVector::default();
            for i in 0..K::USIZE {
                a.0[i] = nttp(&r.poly());
                b.0[i] = nttp(&r.poly());
            }
            if r.below(2) == 0 {
                // all products of a slot equal and large: the extremes of accumulated sums
                for i in (0..256).step_by(2) {
                    let span = [20, 129, 1000][r.below(3) as usize];
                    let (u, v) = (FieldElement((3328 - r.below(span)) as u16), FieldElement((3328 - r.below(span)) as u16));
                    for j in 0..K::USIZE {
                        a.0[j].0[i] = u;
                        a.0[j].0[i + 1] = u;
                        b.0[j].0[i] = v;
                        b.0[j].0[i + 1] = v;
                    }
                }
            }
            cur(format!("product of {a:?} and {b:?}"));
            let c = &a * &b;
            for i in 0..128 {
                let g = pow(17, 2 * br7(i as u32) + 1);
                let mut w = [0u32; 2];
                for j in 0..K::USIZE {
                    let v = |p: &NttPolynomial, k: usize| u32::from(p.0[2 * i + k].0);
                    w[0] = (w[0] + v(&a.0[j], 0) * v(&b.0[j], 0) + v(&a.0[j], 1) * v(&b.0[j], 1) % 3329 * g) % 3329;
                    w[1] = (w[1] + v(&a.0[j], 0) * v(&b.0[j], 1) + v(&a.0[j], 1) * v(&b.0[j], 0)) % 3329;
                }
                if u32::from(c.0[2 * i].0) != w[0] || u32::from(c.0[2 * i + 1].0) != w[1] {
                    return Some(format!("vector product, base case {i}, of {a:?} and {b:?}"));
                }
            }
            let s = &a + &b;
            for j in 0..K::USIZE {
                for i in 0..256 {
                    if s.0[j].0[i].0 != (a.0[j].0[i].0 + b.0[j].0[i].0) % 3329 {
                        return Some(format!("vector sum of {a:?} and {b:?}"));
                    }
                }
            }
            None
        }
        match r.below(3) {
            0 => vec::<U2>(r),
            1 => vec::<U3>(r),
            _ => vec::<U4>(r),
        }
    }
    //UNIT C04
    pub struct Stream(Vec<u8>, pub usize);
    impl XofReader for Stream {
        fn read(&mut self, b: &mut [u8]) {
            for x in b {
                *x = self.0[self.1 % self.0.len()];
                self.1 += 1;
            }
        }
    }
    pub fn c04_0(r: &mut Rng) -> Hit {
        // a long stream with a random density of rejected candidates, in runs
        let dens = r.below(97);
        let mut s = Vec::new();
        let mut run = 0;
        for _ in 0..20000 {
            if run == 0 && r.below(40) == 0 {
                run = r.below(700);
            }
            let mut c = || {
                if r.below(100) < dens || run > 0 {
                    3329 + r.below(767)
                } else if r.below(20) == 0 {
                    [0, 1, 3327, 3328][r.below(4) as usize]
                } else {
                    r.below(3329)
                }
            };
            let (x, y) = (c(), c());
            run = run.saturating_sub(1);
            s.extend([x as u8, (x >> 8) as u8 | (y << 4) as u8, (y >> 4) as u8]);
        }
        let mut want = Vec::new();
        let mut used = 0;
        while want.len() < 256 {
            if used + 3 > s.len() {
                return None;
            }
            let b = &s[used..used + 3];
            used += 3;
            for v in [u16::from(b[0]) | u16::from(b[1] & 15) << 8, u16::from(b[1] >> 4) | u16::from(b[2]) << 4] {
                if v < 3329 && want.len() < 256 {
                    want.push(v);
                }
            }
        }
        let hex: std::string::String = s[..used].iter().map(|b| format!("{b:02x}")).collect();
        cur(format!("sample_uniform of the stream {hex}"));
        let p = NttPolynomial::sample_uniform(&mut Stream(s, 0));
        for i in 0..256 {
            if p.0[i].0 != want[i] {
                return Some(format!("sample_uniform: coefficient {i} is {}, specified {}, stream {hex}", p.0[i].0, want[i]));
            }
        }
        None
    }
    pub fn c04_1(r: &mut Rng) -> Hit {
        use hybrid_array::typenum::{U2, U3, U4};
        use sha3::{digest::{ExtendableOutput, Update}, Shake128};
        fn mat<K: ArraySize>(r: &mut Rng) -> Hit {
            let mut rho = B32::default();
            rho.copy_from_slice(&r.bytes(32));
            for tr in [false, true] {
                cur(format!("matrix of {rho:?} transposed {tr}"));
                let m: NttMatrix<K> = NttMatrix::sample_uniform(&rho, tr);
                for i in 0..K::USIZE {
                    for j in 0..K::USIZE {
                        let (a, b) = if tr { (j, i) } else { (i, j) };
                        let mut h = Shake128::default();
                        h.update(&rho);
                        h.update(&[b as u8, a as u8]);
                        let mut s = [0u8; 5040];
                        h.finalize_xof().read(&mut s);
                        let w = NttPolynomial::sample_uniform(&mut Stream(s.to_vec(), 0));
                        if m.0[i].0[j] != w {
                            return Some(format!("matrix entry ({i},{j}) transposed {tr} of seed {rho:?}"));
                        }
                    }
                }
            }
            None
        }
        match r.below(3) {
            0 => mat::<U2>(r),
            1 => mat::<U3>(r),
            _ => mat::<U4>(r),
        }
    }
    //UNIT C05
    pub fn c05_0(r: &mut Rng) -> Hit {
        use hybrid_array::typenum::{U2, U3};
        fn one<E: CbdSamplingSize>(r: &mut Rng, eta: usize) -> Hit {
            let mut b = PrfOutput::<E>::default();
            let v = r.bytes(64 * eta);
            b.copy_from_slice(&v);
            cur(format!("sample_cbd<{eta}> of {v:?}"));
            let p = Polynomial::sample_cbd::<E>(&b);
            let bit = |k: usize| (v[k / 8] >> (k % 8) & 1) as u16;
            for i in 0..256 {
                let x: u16 = (0..eta).map(|j| bit(2 * i * eta + j)).sum();
                let y: u16 = (0..eta).map(|j| bit(2 * i * eta + eta + j)).sum();
                if p.0[i].0 != (x + 3329 - y) % 3329 {
                    return Some(format!("sample_cbd<{eta}>: coefficient {i} is {} for {v:?}", p.0[i].0));
                }
            }
            None
        }
        if r.below(2) == 0 { one::<U2>(r, 2) } else { one::<U3>(r, 3) }
    }
    pub fn c05_1(r: &mut Rng) -> Hit {
        use hybrid_array::typenum::{U2, U3, U4};
        use sha3::{digest::{ExtendableOutput, Update}, Shake256};
        fn one<K: ArraySize, E: CbdSamplingSize>(r: &mut Rng) -> Hit {
            let mut s = B32::default();
            s.copy_from_slice(&r.bytes(32));
            let n = r.below(9) as u8;
            cur(format!("noise vector of seed {s:?} from counter {n}"));
            let v: PolynomialVector<K> = PolynomialVector::sample_cbd::<E>(&s, n);
            for i in 0..K::USIZE {
                let mut h = Shake256::default();
                h.update(&s);
                h.update(&[n + i as u8]);
                let mut b = PrfOutput::<E>::default();
                h.finalize_xof().read(&mut b);
                if v.0[i] != Polynomial::sample_cbd::<E>(&b) {
                    return Some(format!("noise element {i} of seed {s:?} from counter {n}"));
                }
            }
            None
        }
        match r.below(4) {
            0 => one::<U2, U3>(r),
            1 => one::<U2, U2>(r),
            2 => one::<U3, U2>(r),
            _ => one::<U4, U2>(r),
        }
    }
    //END
}
