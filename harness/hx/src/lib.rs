//! Verification entry points of x-wing (public API only).
#![cfg_attr(not(feature = "native"), no_std)]
#![allow(clippy::all, static_mut_refs)]
use kem::{Decapsulate, Encapsulate};
use x_wing::*;
#[path = "../../rng.rs"]
mod rng;
use rng::ExtRng;

fn ok<T>(r: Result<T, core::convert::Infallible>) -> T {
    match r {
        Ok(x) => x,
        Err(e) => match e {},
    }
}
type Pk = [u8; ENCAPSULATION_KEY_SIZE];
type Ct = [u8; CIPHERTEXT_SIZE];
type B = [u8; 32];

#[no_mangle]
pub unsafe extern "C" fn xpk(sk: &B, pk: *mut Pk) {
    pk.write(DecapsulationKey::from(*sk).encapsulation_key().as_bytes());
}
#[no_mangle]
pub unsafe extern "C" fn xgen(sk: *mut B, pk: *mut Pk) {
    let (s, p) = generate_key_pair(&mut ExtRng);
    sk.write(*s.as_bytes());
    pk.write(p.as_bytes());
}
#[no_mangle]
pub unsafe extern "C" fn xgen2(sk: *mut B) {
    sk.write(*DecapsulationKey::generate(&mut ExtRng).as_bytes());
}
/// the constructors that use the operating system's random source
#[cfg(feature = "os")]
#[no_mangle]
pub unsafe extern "C" fn xos(sk: *mut B, pk: *mut Pk) {
    let (s, p) = generate_key_pair_from_os_rng();
    sk.write(*s.as_bytes());
    pk.write(p.as_bytes());
}
#[cfg(feature = "os")]
#[no_mangle]
pub unsafe extern "C" fn xos2(sk: *mut B) {
    sk.write(*DecapsulationKey::generate_from_os_rng().as_bytes());
}
#[no_mangle]
pub unsafe extern "C" fn xenc(pk: &Pk, ct: *mut Ct, ss: *mut SharedSecret) {
    let (c, s) = ok(EncapsulationKey::from(pk).encapsulate(&mut ExtRng));
    ct.write(c.as_bytes());
    ss.write(s);
}
#[no_mangle]
pub unsafe extern "C" fn xdec(sk: &B, ct: &Ct, ss: *mut SharedSecret) {
    ss.write(ok(DecapsulationKey::from(*sk).decapsulate(&Ciphertext::from(ct))));
}
#[no_mangle]
pub unsafe extern "C" fn xgenenc(sk: &B, ct: *mut Ct, ss: *mut SharedSecret) {
    let (c, s) = ok(DecapsulationKey::from(*sk).encapsulation_key().encapsulate(&mut ExtRng));
    ct.write(c.as_bytes());
    ss.write(s);
}
/// encapsulates, then decapsulates the ciphertext value itself
#[no_mangle]
pub unsafe extern "C" fn xround(sk: &B, ss: *mut SharedSecret, ss2: *mut SharedSecret) {
    let d = DecapsulationKey::from(*sk);
    let (c, s) = ok(d.encapsulation_key().encapsulate(&mut ExtRng));
    ss.write(s);
    ss2.write(ok(d.decapsulate(&c)));
}
#[no_mangle]
pub unsafe extern "C" fn xpkrt(pk: &Pk, out: *mut Pk) {
    out.write(EncapsulationKey::from(pk).as_bytes());
}
#[no_mangle]
pub unsafe extern "C" fn xctrt(ct: &Ct, out: *mut Ct) {
    out.write(Ciphertext::from(ct).as_bytes());
}
#[no_mangle]
pub unsafe extern "C" fn xskrt(sk: &B, out: *mut B) {
    out.write(*DecapsulationKey::from(*sk).as_bytes());
}
/// 1 when the decoded value of the encoding equals the value
#[no_mangle]
pub unsafe extern "C" fn xpkeq(pk: &Pk, out: *mut u8) {
    let a = EncapsulationKey::from(pk);
    out.write((EncapsulationKey::from(&a.as_bytes()) == a) as u8);
}
#[no_mangle]
pub unsafe extern "C" fn xcteq(ct: &Ct, out: *mut u8) {
    let a = Ciphertext::from(ct);
    out.write((Ciphertext::from(&a.as_bytes()) == a) as u8);
}
#[no_mangle]
pub unsafe extern "C" fn xsksize() -> usize {
    core::mem::size_of::<DecapsulationKey>()
}
#[no_mangle]
pub unsafe extern "C" fn xctsize() -> usize {
    core::mem::size_of::<Ciphertext>()
}
#[no_mangle]
pub unsafe extern "C" fn xskinit(p: *mut DecapsulationKey, sk: &B) {
    p.write(DecapsulationKey::from(*sk));
}
#[no_mangle]
pub unsafe extern "C" fn xskgen(p: *mut DecapsulationKey) {
    p.write(generate_key_pair(&mut ExtRng).0);
}
#[no_mangle]
pub unsafe extern "C" fn xskclone(p: *mut DecapsulationKey, q: *const DecapsulationKey) {
    p.write((*q).clone());
}
#[no_mangle]
pub unsafe extern "C" fn xctinit(p: *mut Ciphertext, ct: &Ct) {
    p.write(Ciphertext::from(ct));
}
#[no_mangle]
pub unsafe extern "C" fn xctclone(p: *mut Ciphertext, q: *const Ciphertext) {
    p.write((*q).clone());
}
#[no_mangle]
pub unsafe extern "C" fn xctenc(p: *mut Ciphertext, pk: &Pk) {
    p.write(ok(EncapsulationKey::from(pk).encapsulate(&mut ExtRng)).0);
}
#[no_mangle]
pub unsafe extern "C" fn xskdrop(p: *mut DecapsulationKey) {
    core::ptr::drop_in_place(p);
}
#[no_mangle]
pub unsafe extern "C" fn xctdrop(p: *mut Ciphertext) {
    core::ptr::drop_in_place(p);
}
#[cfg(feature = "zero")]
#[no_mangle]
pub unsafe extern "C" fn xskzero(p: *mut DecapsulationKey) {
    zeroize::Zeroize::zeroize(&mut *p);
}
#[cfg(feature = "zero")]
#[no_mangle]
pub unsafe extern "C" fn xctzero(p: *mut Ciphertext) {
    zeroize::Zeroize::zeroize(&mut *p);
}
