//! Verification entry points of dhkem (public API only).
#![cfg_attr(not(feature = "native"), no_std)]
#![allow(clippy::all, static_mut_refs)]
use core::mem::size_of;
use dhkem::{DhDecapsulator, DhEncapsulator, DhKem};
use elliptic_curve::ecdh::{EphemeralSecret, SharedSecret};
use elliptic_curve::sec1::{EncodedPoint, ToEncodedPoint};
use elliptic_curve::PublicKey;
use kem::{Decapsulate, Encapsulate};
use zeroize::Zeroize;
#[path = "../../rng.rs"]
mod rng;
use rng::ExtRng;

fn ok<T>(r: Result<T, core::convert::Infallible>) -> T {
    match r {
        Ok(x) => x,
        Err(e) => match e {},
    }
}
macro_rules! kem {
    ($kem:ty, $sk:ty, $pk:ty, $ss:ty, $sizes:ident, $kp:ident, $enc:ident, $dec:ident, $round:ident,
     $ekref:ident, $ekfrom:ident, $ekinto:ident, $dkref:ident, $dkfrom:ident, $dkinto:ident, $dkdrop:ident) => {
        /// sizes of secret, public key, shared secret and of the two wrappers
        #[no_mangle]
        pub unsafe extern "C" fn $sizes(out: *mut [u64; 5]) {
            out.write([size_of::<$sk>() as u64, size_of::<$pk>() as u64, size_of::<$ss>() as u64,
                       size_of::<DhDecapsulator<$sk>>() as u64, size_of::<DhEncapsulator<$pk>>() as u64]);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $kp(dk: *mut DhDecapsulator<$sk>, ek: *mut DhEncapsulator<$pk>) {
            let (a, b) = <$kem as DhKem>::random_keypair(&mut ExtRng);
            dk.write(a);
            ek.write(b);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $enc(ek: *const DhEncapsulator<$pk>, c: *mut $pk, ss: *mut $ss) {
            let (a, b): ($pk, $ss) = ok((*ek).encapsulate(&mut ExtRng));
            c.write(a);
            ss.write(b);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $dec(dk: *const DhDecapsulator<$sk>, c: *const $pk, ss: *mut $ss) {
            let b: $ss = ok((*dk).decapsulate(&*c));
            ss.write(b);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $round(ss: *mut $ss, ss2: *mut $ss) {
            let (dk, ek) = <$kem as DhKem>::random_keypair(&mut ExtRng);
            let (c, s): ($pk, $ss) = ok(ek.encapsulate(&mut ExtRng));
            ss.write(s);
            ss2.write(ok(dk.decapsulate(&c)));
        }
        #[no_mangle]
        pub unsafe extern "C" fn $ekref(ek: *const DhEncapsulator<$pk>) -> *const $pk {
            (*ek).as_ref()
        }
        #[no_mangle]
        pub unsafe extern "C" fn $ekfrom(k: *const $pk, out: *mut DhEncapsulator<$pk>) {
            out.write(DhEncapsulator::from(k.read()));
        }
        #[no_mangle]
        pub unsafe extern "C" fn $ekinto(k: *const DhEncapsulator<$pk>, out: *mut $pk) {
            out.write(k.read().into_inner());
        }
        #[no_mangle]
        pub unsafe extern "C" fn $dkref(dk: *const DhDecapsulator<$sk>) -> *const $sk {
            (*dk).as_ref()
        }
        #[no_mangle]
        pub unsafe extern "C" fn $dkfrom(k: *const $sk, out: *mut DhDecapsulator<$sk>) {
            out.write(DhDecapsulator::from(k.read()));
        }
        #[no_mangle]
        pub unsafe extern "C" fn $dkinto(k: *const DhDecapsulator<$sk>, out: *mut $sk) {
            out.write(k.read().into_inner());
        }
        #[no_mangle]
        pub unsafe extern "C" fn $dkdrop(dk: *mut DhDecapsulator<$sk>) {
            core::ptr::drop_in_place(dk);
        }
    };
}
macro_rules! curve {
    ($c:ty, $encpt:ident, $encpt_in:ident, $szpt:ident, $skfresh:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $szpt() -> usize {
            size_of::<EncodedPoint<$c>>()
        }
        #[no_mangle]
        pub unsafe extern "C" fn $encpt(ek: *const DhEncapsulator<PublicKey<$c>>, compress: bool, out: *mut EncodedPoint<$c>) {
            out.write((*ek).to_encoded_point(compress));
        }
        #[no_mangle]
        pub unsafe extern "C" fn $encpt_in(pk: *const PublicKey<$c>, compress: bool, out: *mut EncodedPoint<$c>) {
            out.write((*pk).to_encoded_point(compress));
        }
        #[no_mangle]
        pub unsafe extern "C" fn $skfresh(out: *mut EphemeralSecret<$c>) {
            out.write(EphemeralSecret::random(&mut ExtRng));
        }
    };
}
type Sk<C> = EphemeralSecret<C>;
type Pk<C> = PublicKey<C>;
type Ss<C> = SharedSecret<C>;
kem!(dhkem::Secp256k1Kem, Sk<k256::Secp256k1>, Pk<k256::Secp256k1>, Ss<k256::Secp256k1>, k256_sizes, k256_kp, k256_enc, k256_dec, k256_round,
     k256_ekref, k256_ekfrom, k256_ekinto, k256_dkref, k256_dkfrom, k256_dkinto, k256_dkdrop);
kem!(dhkem::NistP256Kem, Sk<p256::NistP256>, Pk<p256::NistP256>, Ss<p256::NistP256>, p256_sizes, p256_kp, p256_enc, p256_dec, p256_round,
     p256_ekref, p256_ekfrom, p256_ekinto, p256_dkref, p256_dkfrom, p256_dkinto, p256_dkdrop);
kem!(dhkem::NistP384Kem, Sk<p384::NistP384>, Pk<p384::NistP384>, Ss<p384::NistP384>, p384_sizes, p384_kp, p384_enc, p384_dec, p384_round,
     p384_ekref, p384_ekfrom, p384_ekinto, p384_dkref, p384_dkfrom, p384_dkinto, p384_dkdrop);
kem!(dhkem::NistP521Kem, Sk<p521::NistP521>, Pk<p521::NistP521>, Ss<p521::NistP521>, p521_sizes, p521_kp, p521_enc, p521_dec, p521_round,
     p521_ekref, p521_ekfrom, p521_ekinto, p521_dkref, p521_dkfrom, p521_dkinto, p521_dkdrop);
curve!(k256::Secp256k1, k256_encpt, k256_encpt_in, k256_szpt, k256_skfresh);
curve!(p256::NistP256, p256_encpt, p256_encpt_in, p256_szpt, p256_skfresh);
curve!(p384::NistP384, p384_encpt, p384_encpt_in, p384_szpt, p384_skfresh);
curve!(p521::NistP521, p521_encpt, p521_encpt_in, p521_szpt, p521_skfresh);
use x25519_dalek as xd;
kem!(dhkem::X25519Kem, xd::ReusableSecret, xd::PublicKey, xd::SharedSecret, x255_sizes, x255_kp, x255_enc, x255_dec, x255_round,
     x255_ekref, x255_ekfrom, x255_ekinto, x255_dkref, x255_dkfrom, x255_dkinto, x255_dkdrop);

// explicit erasure and drop: of the wrapper, and of the key inside on its own
macro_rules! erase {
    ($size:ident, $zw:ident, $zi:ident, $dw:ident, $di:ident, $w:ident, $t:ty) => {
        #[no_mangle]
        pub unsafe extern "C" fn $size() -> usize {
            size_of::<$w<$t>>()
        }
        #[no_mangle]
        pub unsafe extern "C" fn $zw(p: *mut $w<$t>) {
            Zeroize::zeroize(&mut *p);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $zi(p: *mut $t) {
            Zeroize::zeroize(&mut *p);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $dw(p: *mut $w<$t>) {
            core::ptr::drop_in_place(p);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $di(p: *mut $t) {
            core::ptr::drop_in_place(p);
        }
    };
}
erase!(sz_ebytes, zw_ebytes, zi_ebytes, dw_ebytes, di_ebytes, DhEncapsulator, [u8; 32]);
erase!(sz_dbytes, zw_dbytes, zi_dbytes, dw_dbytes, di_dbytes, DhDecapsulator, [u8; 32]);
erase!(sz_elimbs, zw_elimbs, zi_elimbs, dw_elimbs, di_elimbs, DhEncapsulator, [u64; 9]);
erase!(sz_dlimbs, zw_dlimbs, zi_dlimbs, dw_dlimbs, di_dlimbs, DhDecapsulator, [u64; 9]);
erase!(sz_dx255, zw_dx255, zi_dx255, dw_dx255, di_dx255, DhDecapsulator, xd::ReusableSecret);
erase!(sz_ex255, zw_ex255, zi_ex255, dw_ex255, di_ex255, DhEncapsulator, xd::PublicKey);
erase!(sz_dk256, zw_dk256, zi_dk256, dw_dk256, di_dk256, DhDecapsulator, Sk<k256::Secp256k1>);
erase!(sz_dp256, zw_dp256, zi_dp256, dw_dp256, di_dp256, DhDecapsulator, Sk<p256::NistP256>);
erase!(sz_dp384, zw_dp384, zi_dp384, dw_dp384, di_dp384, DhDecapsulator, Sk<p384::NistP384>);
erase!(sz_dp521, zw_dp521, zi_dp521, dw_dp521, di_dp521, DhDecapsulator, Sk<p521::NistP521>);

// derived comparison, copy and default are those of the key inside
macro_rules! derived {
    ($t:ident, $eq:ident, $lt:ident, $clone:ident, $default:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $eq(a: *const $t<u8>, b: *const $t<u8>) -> bool {
            *a == *b
        }
        #[no_mangle]
        pub unsafe extern "C" fn $lt(a: *const $t<u8>, b: *const $t<u8>) -> bool {
            *a < *b
        }
        #[no_mangle]
        pub unsafe extern "C" fn $clone(a: *const $t<u8>, out: *mut $t<u8>) {
            out.write((*a).clone());
        }
        #[no_mangle]
        pub unsafe extern "C" fn $default(out: *mut $t<u8>) {
            out.write($t::<u8>::default());
        }
    };
}
derived!(DhEncapsulator, e_eq, e_lt, e_clone, e_default);
derived!(DhDecapsulator, d_eq, d_lt, d_clone, d_default);

// ---------------------------------------------------------------- native oracle (replay and search for failing inputs)
#[cfg(feature = "native")]
pub mod oracle {
    use super::*;
    use crate::rng::tape::{kv_set_tape, kv_tape_pos};
    unsafe fn raw<T>(x: &T) -> &[u8] {
        core::slice::from_raw_parts(x as *const T as *const u8, size_of::<T>())
    }
    /// bits: 1 key pair, 2 encapsulated key, 4 sender secret, 8 receiver secret, 16 amount of randomness
    macro_rules! kem_oracle {
        ($f:ident, $kem:ty, $pk:ty, $ss:ty, $fresh:expr, $pub:expr, $dh:expr, $enc_pk:expr, $enc_ss:expr, $special:expr) => {
            #[no_mangle]
            pub unsafe extern "C" fn $f(t: *const u8, n: usize, special: *const u8) -> u64 {
                let mut bad = 0u64;
                kv_set_tape(t, n);
                let (dk, ek) = <$kem as DhKem>::random_keypair(&mut ExtRng);
                let p1 = kv_tape_pos();
                kv_set_tape(t, n);
                let sk = $fresh;
                let pk = $pub(&sk);
                if kv_tape_pos() != p1 { bad |= 16; }
                if $enc_pk(ek.as_ref()) != $enc_pk(&pk) { bad |= 1; }
                let to: $pk = match $special(special) { Some(x) => x, None => pk };
                let ek2 = DhEncapsulator::from(to.clone());
                kv_set_tape(t.add(p1), n - p1);
                let (c, s): ($pk, $ss) = ok(ek2.encapsulate(&mut ExtRng));
                let p2 = kv_tape_pos();
                kv_set_tape(t.add(p1), n - p1);
                let e = $fresh;
                if kv_tape_pos() != p2 { bad |= 16; }
                if $enc_pk(&c) != $enc_pk(&$pub(&e)) { bad |= 2; }
                if $enc_ss(&s) != $enc_ss(&$dh(&e, &to)) { bad |= 4; }
                let r: $ss = ok(dk.decapsulate(&c));
                if $enc_ss(&r) != $enc_ss(&$dh(&sk, &c)) { bad |= 8; }
                let r: $ss = ok(dk.decapsulate(&to));
                if $enc_ss(&r) != $enc_ss(&$dh(&sk, &to)) { bad |= 8; }
                bad
            }
        };
    }
    macro_rules! ec {
        ($f:ident, $g:ident, $kem:ty, $c:ty) => {
            kem_oracle!($f, $kem, Pk<$c>, Ss<$c>, Sk::<$c>::random(&mut ExtRng), |s: &Sk<$c>| s.public_key(),
                |s: &Sk<$c>, p: &Pk<$c>| s.diffie_hellman(p), |p: &Pk<$c>| p.to_encoded_point(false).as_bytes().to_vec(),
                |s: &Ss<$c>| s.raw_secret_bytes().to_vec(), |_: *const u8| -> Option<Pk<$c>> { None });
            /// bits: 1 as_ref, 2 into_inner, 4 uncompressed encoding, 8 compressed encoding
            #[no_mangle]
            pub unsafe extern "C" fn $g(t: *const u8, n: usize, _special: *const u8) -> u64 {
                let mut bad = 0u64;
                kv_set_tape(t, n);
                let sk = Sk::<$c>::random(&mut ExtRng);
                let pk = sk.public_key();
                let w = DhEncapsulator::from(pk.clone());
                if *w.as_ref() != pk { bad |= 1; }
                if w.to_encoded_point(false) != pk.to_encoded_point(false) { bad |= 4; }
                if w.to_encoded_point(true) != pk.to_encoded_point(true) { bad |= 8; }
                if w.into_inner() != pk { bad |= 2; }
                let d = DhDecapsulator::from(sk);
                if d.as_ref().public_key() != pk { bad |= 1; }
                if d.into_inner().public_key() != pk { bad |= 2; }
                bad
            }
        };
    }
    ec!(k256_oracle, k256_wraps, dhkem::Secp256k1Kem, k256::Secp256k1);
    ec!(p256_oracle, p256_wraps, dhkem::NistP256Kem, p256::NistP256);
    ec!(p384_oracle, p384_wraps, dhkem::NistP384Kem, p384::NistP384);
    ec!(p521_oracle, p521_wraps, dhkem::NistP521Kem, p521::NistP521);
    kem_oracle!(x255_oracle, dhkem::X25519Kem, xd::PublicKey, xd::SharedSecret, xd::ReusableSecret::random_from_rng(&mut ExtRng),
        |s: &xd::ReusableSecret| xd::PublicKey::from(s), |s: &xd::ReusableSecret, p: &xd::PublicKey| s.diffie_hellman(p),
        |p: &xd::PublicKey| p.to_bytes().to_vec(), |s: &xd::SharedSecret| s.to_bytes().to_vec(),
        |b: *const u8| -> Option<xd::PublicKey> { if b.is_null() { None } else { Some(xd::PublicKey::from(*(b as *const [u8; 32]))) } });
    #[no_mangle]
    pub unsafe extern "C" fn x255_wraps(t: *const u8, n: usize, _special: *const u8) -> u64 {
        let mut bad = 0u64;
        kv_set_tape(t, n);
        let sk = xd::ReusableSecret::random_from_rng(&mut ExtRng);
        let pk = xd::PublicKey::from(&sk);
        let w = DhEncapsulator::from(pk);
        if *w.as_ref() != pk { bad |= 1; }
        if w.into_inner() != pk { bad |= 2; }
        let d = DhDecapsulator::from(sk.clone());
        if raw(d.as_ref()) != raw(&sk) { bad |= 1; }
        if raw(&d.into_inner()) != raw(&sk) { bad |= 2; }
        bad
    }
}
