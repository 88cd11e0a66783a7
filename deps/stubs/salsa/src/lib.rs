//! Type-level stand-in for `salsa-2022` (a git dependency, not available offline).
//! Only what p4analyzer's queries need in order to be type-resolved; nothing here is ever run.
pub use salsa_macros::{accumulator, db, input, interned, jar, tracked};
pub struct Storage<DB>(std::marker::PhantomData<fn() -> DB>);
impl<DB> Default for Storage<DB> { fn default() -> Self { Storage(std::marker::PhantomData) } }
pub trait AsDb {}
pub trait HasJar<J> {}
pub trait DbWithJar<J>: HasJar<J> + AsDb {}
pub trait Database: AsDb { fn salsa_event(&self, _e: Event) {} fn synthetic_write(&mut self, _d: Durability) {} }
pub trait ParallelDatabase: Database + Send { fn snapshot(&self) -> Snapshot<Self>; }
pub struct Snapshot<DB: ?Sized>(Box<DB>);
pub struct Event;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct Durability(u8);
impl Durability { pub const LOW: Durability = Durability(0); pub const MEDIUM: Durability = Durability(1); pub const HIGH: Durability = Durability(2); }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct Id(pub u32);
pub trait Accumulator { type Data: Clone; }
pub struct Setter<T>(std::marker::PhantomData<T>);
impl<T> Setter<T> { pub fn with_durability(self, _d: Durability) -> Self { self } pub fn to(self, _v: T) -> T { _v } }
#[doc(hidden)] pub mod stub {
    /// Reads one field of a salsa struct.
    pub fn get<T>(_id: super::Id) -> T { loop {} }
    pub fn get_ref<'db, T>(_id: super::Id) -> &'db T { loop {} }
    pub fn set<T>(_id: super::Id) -> super::Setter<T> { super::Setter(std::marker::PhantomData) }
    /// Makes an id out of the fields of a salsa struct.
    pub fn new_id<T>(_fields: T) -> super::Id { super::Id(0) }
    /// Memoises the result of a tracked function.
    pub fn memo<T>(v: T) -> T { v }
    pub fn memo_ref<'db, T>(_v: T) -> &'db T { loop {} }
    pub fn accumulate<T>(_v: T) {}
    pub fn accumulated<T>() -> Vec<T> { Vec::new() }
}
