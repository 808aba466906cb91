#[doc(hidden)]
#[allow(missing_docs, clippy::all, clippy::pedantic)]
pub mod kv_unit {
    extern crate std;
    use super::*;
    use crate::kv_unit::{cur, Hit, Rng};
    use std::format;
    //UNIT C02
    fn width<D: CompressionFactor>() -> Hit {
        let d = D::USIZE as u32;
        for x in 0..3329u32 {
            cur(format!("compress to {d} bits of {x}"));
            let w = ((2 * (x << d) + 3329) / (2 * 3329)) % (1 << d);
            let mut f = FieldElement(x as Integer);
            f.compress::<D>();
            if u32::from(f.0) != w {
                return Some(format!("compress to {d} bits of {x}: {}, specified {w}", f.0));
            }
            let mut p = Polynomial::default();
            p.0[(x % 256) as usize] = FieldElement(x as Integer);
            p.compress::<D>();
            if u32::from(p.0[(x % 256) as usize].0) != w {
                return Some(format!("compress of a ring element to {d} bits, coefficient {x}"));
            }
        }
        for y in 0..1u32 << d {
            cur(format!("decompress from {d} bits of {y}"));
            let w = (2 * y * 3329 + (1 << d)) >> (d + 1);
            let mut f = FieldElement(y as Integer);
            f.decompress::<D>();
            if u32::from(f.0) != w {
                return Some(format!("decompress from {d} bits of {y}: {}, specified {w}", f.0));
            }
        }
        None
    }
    pub fn c02_0(_: &mut Rng) -> Hit {
        use hybrid_array::typenum::{U1, U10, U11, U4, U5};
        width::<U1>().or_else(width::<U4>).or_else(width::<U5>).or_else(width::<U10>).or_else(width::<U11>)
    }
    //END
}
