//! Stand-in for `num_cpus`: the number of CPUs is what the explorer says, for each of its threads.
use std::cell::Cell;
thread_local! { static N: Cell<usize> = const { Cell::new(8) }; }
pub fn set(n: usize) {
    N.with(|c| c.set(n));
}
pub fn get() -> usize {
    N.with(|c| c.get())
}
pub fn get_physical() -> usize {
    get()
}
