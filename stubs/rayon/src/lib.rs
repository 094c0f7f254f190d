//! Stand-in for rayon while rudof is executed symbolically by one thread: the tasks of a parallel map
//! run one after another; with `schedules(true)`, in every order, after a first run of all of them whose
//! results are dropped (so that a task may see what any other one records, see the dashmap stand-in).
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

static SCHEDULES: AtomicBool = AtomicBool::new(false);
static PREEMPT: AtomicBool = AtomicBool::new(false);
/// the tasks run in every order, and each may be interrupted before every operation on a dashmap by tasks
/// that have not started yet, which then run to their end (or are interrupted in turn)
pub fn preempt(b: bool) {
    PREEMPT.store(b, Relaxed);
}
pub fn schedules(b: bool) {
    SCHEDULES.store(b, Relaxed);
    dashmap::hook::racing(false);
}
pub struct Par<I>(I);
pub struct Map<I, F>(I, F);
impl<I: Iterator> Par<I> {
    pub fn zip<J: IntoParallelIterator>(self, j: J) -> Par<std::iter::Zip<I, J::It>> {
        Par(self.0.zip(j.into_par_iter().0))
    }
    pub fn enumerate(self) -> Par<std::iter::Enumerate<I>> {
        Par(self.0.enumerate())
    }
    pub fn map<R, F: Fn(I::Item) -> R>(self, f: F) -> Map<I, F> {
        Map(self.0, f)
    }
    pub fn for_each<F: Fn(I::Item)>(self, f: F) {
        Map(self.0, f).run();
    }
    pub fn try_for_each<E, F: Fn(I::Item) -> Result<(), E>>(self, f: F) -> Result<(), E> {
        Map(self.0, f).run().into_iter().collect()
    }
    pub fn filter<F: Fn(&I::Item) -> bool>(self, f: F) -> Par<std::iter::Filter<I, F>> {
        Par(self.0.filter(f))
    }
    pub fn cloned<'a, T: Clone + 'a>(self) -> Par<std::iter::Cloned<I>>
    where
        I: Iterator<Item = &'a T>,
    {
        Par(self.0.cloned())
    }
    pub fn filter_map<R, F: Fn(I::Item) -> Option<R>>(self, f: F) -> Map2<R> {
        Map2(Map(self.0, f).run().into_iter().flatten().collect())
    }
    pub fn flat_map<R: IntoIterator, F: Fn(I::Item) -> R>(self, f: F) -> Map2<R::Item> {
        Map2(Map(self.0, f).run().into_iter().flatten().collect())
    }
    pub fn flat_map_iter<R: IntoIterator, F: Fn(I::Item) -> R>(self, f: F) -> Map2<R::Item> {
        self.flat_map(f)
    }
    pub fn collect<C: FromIterator<I::Item>>(self) -> C {
        self.0.collect()
    }
}
impl<I: Iterator, R, F: Fn(I::Item) -> R> Map<I, F> {
    fn run(self) -> Vec<R> {
        let items: Vec<I::Item> = self.0.collect();
        let n = items.len();
        if PREEMPT.load(Relaxed) && n > 1 {
            let items: Vec<RefCell<Option<I::Item>>> = items.into_iter().map(|i| RefCell::new(Some(i))).collect();
            let left = RefCell::new((0..n).collect::<Vec<usize>>());
            let out: Vec<RefCell<Option<R>>> = (0..n).map(|_| RefCell::new(None)).collect();
            let run = |k: usize| {
                let i = left.borrow_mut().remove(k);
                let item = items[i].take().unwrap();
                let r = (self.1)(item);
                *out[i].borrow_mut() = Some(r);
            };
            let others = || {
                while !left.borrow().is_empty() {
                    let k = symrt::pick(c"interrupt", left.borrow().len() as u32 + 1);
                    if k == 0 {
                        break;
                    }
                    run(k - 1);
                }
            };
            let others: &dyn Fn() = &others;
            dashmap::hook::preempt(Some(&others));
            while !left.borrow().is_empty() {
                let m = left.borrow().len();
                run(if m == 1 { 0 } else { symrt::pick(c"next-task", m as u32) });
            }
            dashmap::hook::preempt(None);
            return out.into_iter().filter_map(|r| r.into_inner()).collect();
        }
        if !SCHEDULES.load(Relaxed) {
            return items.into_iter().map(self.1).collect();
        }
        // the items are references: each can be used again
        let items: Vec<std::mem::ManuallyDrop<I::Item>> = items.into_iter().map(std::mem::ManuallyDrop::new).collect();
        let again = |i: usize| unsafe { std::ptr::read(&*items[i] as *const I::Item) };
        dashmap::hook::racing(false);
        for i in 0..n {
            dashmap::hook::next_task();
            drop((self.1)(again(i)));
        }
        dashmap::hook::racing(true);
        let mut left: Vec<usize> = (0..n).collect();
        let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
        while !left.is_empty() {
            let k = if left.len() == 1 { 0 } else { symrt::pick(c"next-task", left.len() as u32) };
            let i = left.remove(k);
            dashmap::hook::next_task();
            out[i] = Some((self.1)(again(i)));
        }
        dashmap::hook::racing(false);
        out.into_iter().flatten().collect()
    }
    pub fn collect<C: FromIterator<R>>(self) -> C {
        self.run().into_iter().collect()
    }
    pub fn for_each(self, f: impl Fn(R)) {
        self.run().into_iter().for_each(f)
    }
    pub fn flat_map_iter<J: IntoIterator, G: Fn(R) -> J>(self, g: G) -> Map2<J::Item> {
        Map2(self.run().into_iter().flat_map(g).collect())
    }
}
pub struct Map2<R>(Vec<R>);
impl<R> Map2<R> {
    pub fn collect<C: FromIterator<R>>(self) -> C {
        self.0.into_iter().collect()
    }
}
pub trait IntoParallelIterator {
    type It: Iterator;
    fn into_par_iter(self) -> Par<Self::It>;
}
impl<I: Iterator> IntoParallelIterator for Par<I> {
    type It = I;
    fn into_par_iter(self) -> Par<I> {
        self
    }
}
impl<T> IntoParallelIterator for Vec<T> {
    type It = std::vec::IntoIter<T>;
    fn into_par_iter(self) -> Par<Self::It> {
        Par(self.into_iter())
    }
}
impl<'a, T> IntoParallelIterator for &'a Vec<T> {
    type It = std::slice::Iter<'a, T>;
    fn into_par_iter(self) -> Par<Self::It> {
        Par(self.iter())
    }
}
impl<'a, T> IntoParallelIterator for &'a mut Vec<T> {
    type It = std::slice::IterMut<'a, T>;
    fn into_par_iter(self) -> Par<Self::It> {
        Par(self.iter_mut())
    }
}
pub trait ParSlice<T> {
    fn par_iter(&self) -> Par<std::slice::Iter<'_, T>>;
    fn par_iter_mut(&mut self) -> Par<std::slice::IterMut<'_, T>>;
}
impl<T> ParSlice<T> for [T] {
    fn par_iter(&self) -> Par<std::slice::Iter<'_, T>> {
        Par(self.iter())
    }
    fn par_iter_mut(&mut self) -> Par<std::slice::IterMut<'_, T>> {
        Par(self.iter_mut())
    }
}
pub mod iter {
    pub use crate::{IntoParallelIterator, ParSlice as IntoParallelRefIterator};
}
pub mod prelude {
    pub use crate::{IntoParallelIterator, ParSlice};
}
