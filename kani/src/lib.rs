//! Contracts on autocxx's runtime library, checked by Kani on the real crate.  Nothing here loops, so
//! each harness is a complete check of every value and every branch for the types it names: `Obj` stands
//! for a C++ class.  An `Obj` knows the address at which it was constructed, and every construction,
//! copy, move and destruction is entered in a ledger, so a relocated, leaked or twice destroyed object
//! violates a contract.
#![allow(static_mut_refs)]
use autocxx::subclass::*;
use autocxx::{as_copy, as_mov, as_new, RValueParam, RValueParamHandler, ValueParam, ValueParamHandler};
use cxx::{memory::UniquePtrTarget, UniquePtr};
use moveit::new::{self, New};
use moveit::{CopyNew, Emplace, MoveNew, MoveRef};
use std::cell::RefCell;
use std::ffi::c_void;
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::rc::Rc;

pub mod byvalue;
pub mod refs;
pub mod sub;

/// Outside Kani the same harnesses run natively on chosen values, to replay a counterexample.
#[cfg(not(kani))]
pub mod kani {
    pub static mut STATE: u64 = 1;
    pub trait Any { fn of(x: u64) -> Self; }
    impl Any for u64 { fn of(x: u64) -> u64 { x } }
    impl Any for u8 { fn of(x: u64) -> u8 { (x >> 20) as u8 % 3 } }
    impl Any for bool { fn of(x: u64) -> bool { x >> 40 & 1 == 1 } }
    pub fn any<T: Any>() -> T { unsafe { STATE = STATE.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); T::of(STATE) } }
}

/// What happened to objects: made, copied, moved from, destroyed, and whether one was ever found away
/// from where it was made or destroyed twice.
#[derive(Debug)]
pub struct Ledger { pub made: u8, pub copied: u8, pub moved: u8, pub dead: u8, pub bad: bool }
pub static mut L: Ledger = Ledger { made: 0, copied: 0, moved: 0, dead: 0, bad: false };
pub fn made() -> u8 { unsafe { L.made } }
pub fn copied() -> u8 { unsafe { L.copied } }
pub fn moved() -> u8 { unsafe { L.moved } }
pub fn dead() -> u8 { unsafe { L.dead } }
pub fn sound() -> bool { unsafe { !L.bad } }

pub struct Obj { pub v: u64, at: *const Obj, alive: bool }
impl Obj {
    pub fn build(v: u64) -> impl New<Output = Obj> {
        unsafe { new::by_raw(move |this: Pin<&mut MaybeUninit<Obj>>| { let p = Pin::into_inner_unchecked(this).as_mut_ptr(); p.write(Obj { v, at: p, alive: true }); L.made += 1; }) }
    }
    /// The object is where it was made and still lives.
    pub fn ok(&self) -> bool { self.alive && std::ptr::eq(self.at, self) }
}
unsafe impl CopyNew for Obj {
    unsafe fn copy_new(src: &Self, this: Pin<&mut MaybeUninit<Self>>) {
        if !src.ok() { L.bad = true; }
        let p = Pin::into_inner_unchecked(this).as_mut_ptr();
        p.write(Obj { v: src.v, at: p, alive: true });
        L.made += 1;
        L.copied += 1;
    }
}
unsafe impl MoveNew for Obj {
    unsafe fn move_new(src: Pin<MoveRef<Self>>, this: Pin<&mut MaybeUninit<Self>>) {
        if !src.ok() { L.bad = true; }
        let p = Pin::into_inner_unchecked(this).as_mut_ptr();
        p.write(Obj { v: src.v, at: p, alive: true });
        L.made += 1;
        L.moved += 1;
    }
}
impl Drop for Obj {
    fn drop(&mut self) { unsafe { if !self.ok() { L.bad = true; } self.alive = false; L.dead += 1; } }
}
/// cxx implements this in generated code: a pointer which owns.
unsafe impl UniquePtrTarget for Obj {
    fn __typename(_: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
    fn __null() -> MaybeUninit<*mut c_void> { MaybeUninit::new(std::ptr::null_mut()) }
    unsafe fn __raw(raw: *mut Self) -> MaybeUninit<*mut c_void> { MaybeUninit::new(raw as *mut c_void) }
    unsafe fn __get(repr: MaybeUninit<*mut c_void>) -> *const Self { repr.assume_init() as *const Self }
    unsafe fn __release(repr: MaybeUninit<*mut c_void>) -> *mut Self { repr.assume_init() as *mut Self }
    unsafe fn __drop(repr: MaybeUninit<*mut c_void>) { let p = repr.assume_init() as *mut Self; if !p.is_null() { drop(Box::from_raw(p)) } }
}
pub fn boxed(v: u64) -> Pin<Box<Obj>> { Box::emplace(Obj::build(v)) }
pub fn unique(v: u64) -> UniquePtr<Obj> { unsafe { UniquePtr::from_raw(Box::into_raw(Pin::into_inner_unchecked(boxed(v)))) } }
