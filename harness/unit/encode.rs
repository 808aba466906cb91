#[doc(hidden)]
#[allow(missing_docs, clippy::all, clippy::pedantic)]
pub mod kv_unit {
    extern crate std;
    use super::*;
    use crate::kv_unit::{cur, Hit, Rng};
    use std::format;
    use std::vec;
    use std::vec::Vec;
    //UNIT C03
    fn width<D: EncodingSize>(r: &mut Rng) -> Hit {
        let d = D::USIZE;
        let m = r.below(4);
        let v: Vec<u16> = (0..256)
            .map(|_| match m {
                0 => (1u64 << d) - 1,
                1 => r.below(20) / 19 * r.below(1 << d),
                _ => r.below(1 << d),
            } as u16)
            .collect();
        cur(format!("{d}-bit encoding of {v:?}"));
        let mut a = DecodedValue::default();
        for i in 0..256 {
            a[i] = FieldElement(v[i]);
        }
        let e = byte_encode::<D>(&a);
        let mut w = vec![0u8; 32 * d];
        for i in 0..256 {
            for k in 0..d {
                w[(d * i + k) / 8] |= ((v[i] >> k & 1) as u8) << ((d * i + k) % 8);
            }
        }
        if e[..] != w[..] {
            return Some(format!("{d}-bit encoding of {v:?}"));
        }
        let b = r.bytes(32 * d);
        cur(format!("{d}-bit decoding of {b:?}"));
        let mut x = EncodedPolynomial::<D>::default();
        x.copy_from_slice(&b);
        let f = byte_decode::<D>(&x);
        for i in 0..256 {
            let mut w = 0u16;
            for k in 0..d {
                w |= u16::from(b[(d * i + k) / 8] >> ((d * i + k) % 8) & 1) << k;
            }
            if d == 12 {
                w %= 3329;
            }
            if f[i].0 != w {
                return Some(format!("{d}-bit decoding: coefficient {i} is {}, specified {w}, of {b:?}", f[i].0));
            }
        }
        None
    }
    pub fn c03_0(r: &mut Rng) -> Hit {
        use hybrid_array::typenum::{U1, U10, U11, U12, U4, U5};
        match r.below(6) {
            0 => width::<U1>(r),
            1 => width::<U4>(r),
            2 => width::<U5>(r),
            3 => width::<U10>(r),
            4 => width::<U11>(r),
            _ => width::<U12>(r),
        }
    }
    pub fn c03_1(r: &mut Rng) -> Hit {
        // every 12-bit value in every position of a byte triple
        let off = r.below(4096);
        let v: Vec<u16> = (0..256).map(|i| ((off + i * 16 + i / 16) % 4096) as u16).collect();
        let mut b = vec![0u8; 384];
        for i in 0..256 {
            for k in 0..12 {
                b[(12 * i + k) / 8] |= ((v[i] >> k & 1) as u8) << ((12 * i + k) % 8);
            }
        }
        cur(format!("12-bit decoding of {b:?}"));
        let mut x = EncodedPolynomial::<hybrid_array::typenum::U12>::default();
        x.copy_from_slice(&b);
        let f = byte_decode::<hybrid_array::typenum::U12>(&x);
        for i in 0..256 {
            if f[i].0 != v[i] % 3329 {
                return Some(format!("12-bit decoding of the value {}: {}", v[i], f[i].0));
            }
        }
        None
    }
    //END
}
