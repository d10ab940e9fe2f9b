use crate::runner::Arm;

pub mod builder;
pub mod crowd;
pub mod deep;
pub mod engine;
pub mod extra;
pub mod lang;
pub mod large;
pub mod raw;
pub mod selft;

pub fn arms() -> Vec<Arm> {
    let mut v = vec![];
    lang::register(&mut v);
    large::register(&mut v);
    crowd::register(&mut v);
    engine::register(&mut v);
    builder::register(&mut v);
    raw::register(&mut v);
    extra::register(&mut v);
    selft::register(&mut v);
    v
}
