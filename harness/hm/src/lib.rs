//! Verification entry points of ml-kem (public API only).
#![cfg_attr(not(feature = "native"), no_std)]
#![allow(clippy::all, static_mut_refs)]
use ml_kem::array::Array;
use ml_kem::kem::{Decapsulate, Encapsulate};
use ml_kem::*;
#[path = "../../rng.rs"]
mod rng;
use rng::ExtRng;

type BB32 = Array<u8, ml_kem::array::typenum::U32>;

fn ok<T>(r: Result<T, core::convert::Infallible>) -> T {
    match r {
        Ok(x) => x,
        Err(e) => match e {},
    }
}

macro_rules! set {
    ($k:ty, $kg:ident, $kgref:ident, $enc:ident, $dec:ident, $ekrt:ident, $dkrt:ident, $dkek:ident, $kgdec:ident, $kgenc:ident,
     $rkg:ident, $renc:ident, $size:ident, $init:ident, $gen:ident, $drop:ident, $dkeq:ident,
     $dkenc:ident, $dkcdec:ident, $ekcenc:ident, $ekeq:ident, $rkgdec:ident, $rkgenc:ident) => {
        type_set!($k);
        #[cfg(feature = "det")]
        #[no_mangle]
        pub unsafe extern "C" fn $kg(d: &BB32, z: &BB32, dk: *mut Encoded<Dk<$k>>, ek: *mut Encoded<Ek<$k>>) {
            let (a, b) = <$k>::generate_deterministic(d, z);
            dk.write(a.as_bytes());
            ek.write(b.as_bytes());
        }
        #[cfg(feature = "det")]
        #[no_mangle]
        pub unsafe extern "C" fn $kgref(d: &BB32, z: &BB32, ek: *mut Encoded<Ek<$k>>) {
            let (a, _) = <$k>::generate_deterministic(d, z);
            ek.write(a.encapsulation_key().as_bytes());
        }
        #[cfg(feature = "det")]
        #[no_mangle]
        pub unsafe extern "C" fn $enc(ek: &Encoded<Ek<$k>>, m: &BB32, ct: *mut Ciphertext<$k>, k: *mut SharedKey<$k>) {
            let ek = Ek::<$k>::from_bytes(ek);
            let (c, s) = ok(ek.encapsulate_deterministic(m));
            ct.write(c);
            k.write(s);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $dec(dk: &Encoded<Dk<$k>>, ct: &Ciphertext<$k>, k: *mut SharedKey<$k>) {
            let dk = Dk::<$k>::from_bytes(dk);
            k.write(ok(dk.decapsulate(ct)));
        }
        #[no_mangle]
        pub unsafe extern "C" fn $ekrt(ek: &Encoded<Ek<$k>>, out: *mut Encoded<Ek<$k>>) {
            out.write(Ek::<$k>::from_bytes(ek).as_bytes());
        }
        #[no_mangle]
        pub unsafe extern "C" fn $dkrt(dk: &Encoded<Dk<$k>>, out: *mut Encoded<Dk<$k>>) {
            out.write(Dk::<$k>::from_bytes(dk).as_bytes());
        }
        #[no_mangle]
        pub unsafe extern "C" fn $dkek(dk: &Encoded<Dk<$k>>, out: *mut Encoded<Ek<$k>>) {
            out.write(Dk::<$k>::from_bytes(dk).encapsulation_key().as_bytes());
        }
        #[cfg(feature = "det")]
        #[no_mangle]
        pub unsafe extern "C" fn $kgdec(d: &BB32, z: &BB32, ct: &Ciphertext<$k>, k: *mut SharedKey<$k>) {
            let (a, _) = <$k>::generate_deterministic(d, z);
            k.write(ok(a.decapsulate(ct)));
        }
        #[cfg(feature = "det")]
        #[no_mangle]
        pub unsafe extern "C" fn $kgenc(d: &BB32, z: &BB32, m: &BB32, ct: *mut Ciphertext<$k>, k: *mut SharedKey<$k>) {
            let (_, b) = <$k>::generate_deterministic(d, z);
            let (c, s) = ok(b.encapsulate_deterministic(m));
            ct.write(c);
            k.write(s);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $rkg(dk: *mut Encoded<Dk<$k>>, ek: *mut Encoded<Ek<$k>>) {
            let (a, b) = <$k>::generate(&mut ExtRng);
            dk.write(a.as_bytes());
            ek.write(b.as_bytes());
        }
        #[no_mangle]
        pub unsafe extern "C" fn $renc(ek: &Encoded<Ek<$k>>, ct: *mut Ciphertext<$k>, k: *mut SharedKey<$k>) {
            let ek = Ek::<$k>::from_bytes(ek);
            let (c, s) = ok(ek.encapsulate(&mut ExtRng));
            ct.write(c);
            k.write(s);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $size() -> usize {
            core::mem::size_of::<Dk<$k>>()
        }
        #[no_mangle]
        pub unsafe extern "C" fn $init(p: *mut Dk<$k>, dk: &Encoded<Dk<$k>>) {
            p.write(Dk::<$k>::from_bytes(dk));
        }
        #[no_mangle]
        pub unsafe extern "C" fn $gen(p: *mut Dk<$k>) {
            let (a, _) = <$k>::generate(&mut ExtRng);
            p.write(a);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $drop(p: *mut Dk<$k>) {
            core::ptr::drop_in_place(p);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $dkeq(a: &Encoded<Dk<$k>>, p: *const Dk<$k>) -> bool {
            Dk::<$k>::from_bytes(a) == *p
        }
        /// encapsulation to the public part of an imported private key
        #[cfg(feature = "det")]
        #[no_mangle]
        pub unsafe extern "C" fn $dkenc(dk: &Encoded<Dk<$k>>, m: &BB32, ct: *mut Ciphertext<$k>, k: *mut SharedKey<$k>) {
            let dk = Dk::<$k>::from_bytes(dk);
            let (c, s) = ok(dk.encapsulation_key().encapsulate_deterministic(m));
            ct.write(c);
            k.write(s);
        }
        /// clones outlive the original
        #[no_mangle]
        pub unsafe extern "C" fn $dkcdec(dk: &Encoded<Dk<$k>>, ct: &Ciphertext<$k>, k: *mut SharedKey<$k>) {
            let a = Dk::<$k>::from_bytes(dk);
            let b = a.clone();
            drop(a);
            k.write(ok(b.decapsulate(ct)));
        }
        #[cfg(feature = "det")]
        #[no_mangle]
        pub unsafe extern "C" fn $ekcenc(ek: &Encoded<Ek<$k>>, m: &BB32, ct: *mut Ciphertext<$k>, k: *mut SharedKey<$k>) {
            let a = Ek::<$k>::from_bytes(ek);
            let b = a.clone();
            drop(a);
            let (c, s) = ok(b.encapsulate_deterministic(m));
            ct.write(c);
            k.write(s);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $ekeq(a: &Encoded<Ek<$k>>, b: &Encoded<Ek<$k>>, out: *mut u8) {
            out.write((Ek::<$k>::from_bytes(a) == Ek::<$k>::from_bytes(b)) as u8);
        }
        /// keys used as they were generated, without serialization
        #[no_mangle]
        pub unsafe extern "C" fn $rkgdec(ct: &Ciphertext<$k>, k: *mut SharedKey<$k>) {
            let (a, _) = <$k>::generate(&mut ExtRng);
            k.write(ok(a.decapsulate(ct)));
        }
        #[no_mangle]
        pub unsafe extern "C" fn $rkgenc(ct: *mut Ciphertext<$k>, k: *mut SharedKey<$k>) {
            let (_, b) = <$k>::generate(&mut ExtRng);
            let (c, s) = ok(b.encapsulate(&mut ExtRng));
            ct.write(c);
            k.write(s);
        }
    };
}
macro_rules! type_set {
    ($k:ty) => {};
}
type Dk<K> = <K as KemCore>::DecapsulationKey;
type Ek<K> = <K as KemCore>::EncapsulationKey;

#[cfg(feature = "s512")]
set!(MlKem512, kg_512, kgref_512, enc_512, dec_512, ekrt_512, dkrt_512, dkek_512, kgdec_512, kgenc_512, rkg_512, renc_512, dksize_512, dkinit_512, dkgen_512, dkdrop_512, dkeq_512,
    dkenc_512, dkcdec_512, ekcenc_512, ekeq_512, rkgdec_512, rkgenc_512);
#[cfg(feature = "s768")]
set!(MlKem768, kg_768, kgref_768, enc_768, dec_768, ekrt_768, dkrt_768, dkek_768, kgdec_768, kgenc_768, rkg_768, renc_768, dksize_768, dkinit_768, dkgen_768, dkdrop_768, dkeq_768,
    dkenc_768, dkcdec_768, ekcenc_768, ekeq_768, rkgdec_768, rkgenc_768);
#[cfg(feature = "s1024")]
set!(MlKem1024, kg_1024, kgref_1024, enc_1024, dec_1024, ekrt_1024, dkrt_1024, dkek_1024, kgdec_1024, kgenc_1024, rkg_1024, renc_1024, dksize_1024, dkinit_1024, dkgen_1024, dkdrop_1024, dkeq_1024,
    dkenc_1024, dkcdec_1024, ekcenc_1024, ekeq_1024, rkgdec_1024, rkgenc_1024);
