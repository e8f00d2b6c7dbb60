use super::*;
#[cfg(not(kani))]
use super::kani;
/// The C++ half, as the generated class has it: it holds the Rust half's box and can be told to let go of it.
pub struct Peer { obs: RefCell<Option<CppSubclassRustPeerHolder<Sub>>>, o: Obj }
impl CppSubclassCppPeer for Peer {
    fn relinquish_ownership(&self) {
        // `obs = Sub_relinquish(std::move(obs))` in the generated C++
        let h = self.obs.borrow_mut().take();
        let h = h.map(|h| h.relinquish_ownership());
        *self.obs.borrow_mut() = h;
    }
}
unsafe impl UniquePtrTarget for Peer {
    fn __typename(_: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
    fn __null() -> MaybeUninit<*mut c_void> { MaybeUninit::new(std::ptr::null_mut()) }
    unsafe fn __raw(raw: *mut Self) -> MaybeUninit<*mut c_void> { MaybeUninit::new(raw as *mut c_void) }
    unsafe fn __get(repr: MaybeUninit<*mut c_void>) -> *const Self { repr.assume_init() as *const Self }
    unsafe fn __release(repr: MaybeUninit<*mut c_void>) -> *mut Self { repr.assume_init() as *mut Self }
    unsafe fn __drop(repr: MaybeUninit<*mut c_void>) { let p = repr.assume_init() as *mut Self; if !p.is_null() { drop(Box::from_raw(p)) } }
}
static mut RUST_DEAD: u8 = 0;
fn rust_dead() -> u8 { unsafe { RUST_DEAD } }
#[derive(Default)]
pub struct Sub { v: u64, peer: CppSubclassCppPeerHolder<Peer> }
impl Drop for Sub { fn drop(&mut self) { unsafe { RUST_DEAD += 1 } } }
impl CppPeerConstructor<Peer> for Sub {
    fn make_peer(&mut self, peer_holder: CppSubclassRustPeerHolder<Self>) -> UniquePtr<Peer> {
        let b: Box<MaybeUninit<Peer>> = Box::new(MaybeUninit::uninit());
        let p = Box::into_raw(b) as *mut Peer;
        unsafe {
            std::ptr::addr_of_mut!((*p).obs).write(RefCell::new(Some(peer_holder)));
            let slot = std::ptr::addr_of_mut!((*p).o) as *mut MaybeUninit<Obj>;
            Obj::build(7).new(Pin::new_unchecked(&mut *slot));
            UniquePtr::from_raw(p)
        }
    }
}
impl CppSubclass<Peer> for Sub {
    fn peer_holder(&self) -> &CppSubclassCppPeerHolder<Peer> { &self.peer }
    fn peer_holder_mut(&mut self) -> &mut CppSubclassCppPeerHolder<Peer> { &mut self.peer }
}
impl CppSubclassSelfOwned<Peer> for Sub {}
/// A virtual call arriving at the C++ half: whether it reaches a living Rust half, and which.
fn dispatch(p: &Peer) -> Option<u64> { p.obs.borrow().as_ref().and_then(|h| h.get()).map(|r| { let v = r.as_ref().borrow().v; v }) }
fn all_dead() { assert!(rust_dead() == 1, "the Rust half must be dropped exactly once"); assert!(made() == 1 && dead() == 1 && sound(), "the C++ half must be destroyed exactly once"); }
fn all_live() { assert!(rust_dead() == 0 && dead() == 0 && sound(), "both halves must live as long as their owner"); }
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(3))]
pub fn rust_owned() {
    let v: u64 = kani::any();
    let s = Sub::new_rust_owned(Sub { v, peer: Default::default() });
    all_live();
    assert!(dispatch(s.as_ref().borrow().peer()) == Some(v), "a call on the C++ half must reach the Rust half");
    let at: *const Peer = s.as_ref().borrow().peer();
    assert!(std::ptr::eq(at, &*s.as_ref().borrow_mut().peer_mut()), "there is one C++ half");
    let t = s.clone();
    drop(s);
    all_live();
    assert!(Rc::strong_count(&t) == 1, "a Rust-owned pair must not own itself");
    drop(t);
    all_dead();
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(3))]
pub fn cpp_owned() {
    let v: u64 = kani::any();
    let mut u = Sub::new_cpp_owned(Sub { v, peer: Default::default() });
    all_live();
    assert!(dispatch(&u) == Some(v), "a call on the C++ half must reach the Rust half");
    let at: *const Peer = &*u;
    let r = u.obs.borrow().as_ref().unwrap().get().unwrap();
    assert!(std::ptr::eq(r.as_ref().borrow().peer(), at), "the Rust half must know its C++ half");
    assert!(std::ptr::eq(&*r.as_ref().borrow_mut().peer_mut(), at), "there is one C++ half");
    assert!(Rc::strong_count(&r) == 2, "the C++ half owns the Rust half");
    drop(r);
    all_live();
    let _ = u.pin_mut();
    drop(u);
    all_dead();
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(3))]
pub fn self_owned() {
    let v: u64 = kani::any();
    let s = Sub::new_self_owned(Sub { v, peer: Default::default() });
    let p: *const Peer = s.as_ref().borrow().peer();
    assert!(dispatch(unsafe { &*p }) == Some(v), "a call on the C++ half must reach the Rust half");
    if kani::any() {
        // the caller's reference is not what keeps the pair alive
        drop(s);
        all_live();
        assert!(dispatch(unsafe { &*p }) == Some(v));
        let r = unsafe { &*p }.obs.borrow().as_ref().unwrap().get().unwrap();
        r.as_ref().borrow().delete_self();
        all_live();
        drop(r);
    } else {
        s.as_ref().borrow().delete_self();
        all_live();
        assert!(dispatch(unsafe { &*p }) == Some(v), "while a reference remains, calls still arrive");
        drop(s);
    }
    all_dead();
}
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(3))]
pub fn defaults() {
    match kani::any::<u8>() {
        0 => { let s = <Sub as CppSubclassDefault<Peer>>::default_rust_owned(); assert!(Rc::strong_count(&s) == 1 && s.as_ref().borrow().v == 0); all_live(); drop(s) }
        1 => { let u = <Sub as CppSubclassDefault<Peer>>::default_cpp_owned(); assert!(dispatch(&u) == Some(0)); all_live(); drop(u) }
        _ => { let s = <Sub as CppSubclassSelfOwnedDefault<Peer>>::default_self_owned(); assert!(Rc::strong_count(&s) == 2); all_live(); s.as_ref().borrow().delete_self(); drop(s) }
    }
    all_dead();
}
/// After the Rust half has gone, a call on the C++ half reaches nothing (the generated code then uses the C++ default).
#[cfg_attr(kani, kani::proof)]
#[cfg_attr(kani, kani::unwind(3))]
pub fn holder() {
    let r = Rc::new(RefCell::new(Sub { v: kani::any(), peer: Default::default() }));
    let h = if kani::any() { CppSubclassRustPeerHolder::Owned(r.clone()) } else { CppSubclassRustPeerHolder::Unowned(Rc::downgrade(&r)) };
    assert!(Rc::ptr_eq(&h.get().unwrap(), &r), "the holder denotes this Rust half");
    let h = h.relinquish_ownership();
    assert!(Rc::strong_count(&r) == 1, "after relinquishing, the holder owns nothing");
    assert!(Rc::ptr_eq(&h.get().unwrap(), &r));
    drop(r);
    assert!(rust_dead() == 1);
    assert!(h.get().is_none(), "a dead Rust half is not reached");
}
