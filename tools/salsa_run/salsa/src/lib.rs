//! Stand-in for `salsa-2022` (a git dependency, not available offline) that can be run: it memoises nothing and leaks everything.
//! Used only by demonstrations; no check runs anything.
pub use salsa_macros::{accumulator, db, input, interned, jar, tracked};
pub struct Storage<DB>(std::marker::PhantomData<fn() -> DB>);
impl<DB> Default for Storage<DB> { fn default() -> Self { Storage(std::marker::PhantomData) } }
pub trait AsDb {}
pub trait HasJar<J> {}
pub trait DbWithJar<J>: HasJar<J> + AsDb {}
pub trait Database: AsDb { fn salsa_event(&self, _e: Event) {} fn synthetic_write(&mut self, _d: Durability) {} }
pub trait ParallelDatabase: Database + Send { fn snapshot(&self) -> Snapshot<Self>; }
pub struct Snapshot<DB: ?Sized>(Box<DB>);
pub struct Event;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct Durability(u8);
impl Durability { pub const LOW: Durability = Durability(0); pub const MEDIUM: Durability = Durability(1); pub const HIGH: Durability = Durability(2); }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct Id(pub u32);
pub trait Accumulator { type Data: Clone + 'static; }
#[doc(hidden)] pub mod stub {
    use std::{any::Any, cell::RefCell};
    thread_local! {
        static ARENA: RefCell<Vec<&'static dyn Any>> = RefCell::new(vec![]);
        static ACC: RefCell<Vec<Box<dyn Any>>> = RefCell::new(vec![]);
    }
    pub fn new_id<T: 'static>(fields: T) -> super::Id { ARENA.with(|a| { let mut a = a.borrow_mut(); a.push(Box::leak(Box::new(fields))); super::Id(a.len() as u32 - 1) }) }
    pub fn intern<T: PartialEq + 'static>(fields: T) -> super::Id {
        let old = ARENA.with(|a| a.borrow().iter().position(|x| x.downcast_ref::<T>() == Some(&fields)));
        match old { Some(i) => super::Id(i as u32), None => new_id(fields) }
    }
    pub fn fields<T: 'static>(id: super::Id) -> &'static T { ARENA.with(|a| a.borrow()[id.0 as usize]).downcast_ref().unwrap() }
    pub fn memo<T>(v: T) -> T { v }
    pub fn memo_ref<'db, T>(v: T) -> &'db T { unsafe { &*Box::into_raw(Box::new(v)) } }
    pub fn accumulate<T: 'static>(v: T) { ACC.with(|a| a.borrow_mut().push(Box::new(v))) }
    pub fn reset() { ACC.with(|a| a.borrow_mut().clear()) }
    pub fn accumulated<T: Clone + 'static>() -> Vec<T> { ACC.with(|a| a.borrow().iter().filter_map(|x| x.downcast_ref::<T>().cloned()).collect()) }
}
