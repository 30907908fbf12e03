//! What the stand-in's steps find and do; set by the harness for the calling thread.
use crate::ast::analyzed::Analyzed;
use crate::number::GoldilocksField;
use std::cell::RefCell;

#[derive(Clone)]
pub struct Machine {
    pub name: String,
    pub size: u64,
    pub pil: Analyzed<GoldilocksField>,
    pub vk: Option<Vec<u8>>,
    pub proof: Vec<u8>,
}
#[derive(Clone, Default)]
pub struct World {
    pub machines: Vec<Machine>,
    /// fixed columns and the sizes they come in
    pub columns: Vec<(String, Vec<usize>)>,
    pub chunks: Vec<(Vec<u64>, u64)>,
    /// the step that fails, counting its calls from 0
    pub fault: Option<(String, usize)>,
    pub log: Vec<String>,
}
thread_local!(static WORLD: RefCell<World> = RefCell::new(World::default()));
pub fn set(w: World) {
    WORLD.with(|x| *x.borrow_mut() = w);
}
pub fn get() -> World {
    WORLD.with(|x| x.borrow().clone())
}
/// records a step; true when it is to fail
pub fn step(name: &str, what: String) -> bool {
    WORLD.with(|x| {
        let mut w = x.borrow_mut();
        let n = w.log.iter().filter(|l| l.split(' ').next() == Some(name)).count();
        w.log.push(format!("{name} {what}"));
        w.fault == Some((name.to_string(), n))
    })
}
