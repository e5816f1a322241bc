//! `one_of!` and optional values whose every random number comes from one stream when coverage-guided generation
//! drives them (proptest's own split the stream in halves at every choice, to be able to shrink to another alternative).

use proptest::prelude::*;
use proptest::strategy::{NewTree, Union, ValueTree};
use proptest::test_runner::TestRunner;
use std::fmt::Debug;
use std::sync::atomic::{AtomicBool, Ordering};

pub static ONE_STREAM: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Debug)]
pub struct OneOf<T: Debug + 'static> {
    arms: Vec<(u32, BoxedStrategy<T>)>,
    union: Union<BoxedStrategy<T>>,
}
impl<T: Debug + 'static> OneOf<T> {
    pub fn new(arms: Vec<(u32, BoxedStrategy<T>)>) -> Self {
        OneOf { union: Union::new_weighted(arms.clone()), arms }
    }
}
impl<T: Debug + 'static> Strategy for OneOf<T> {
    type Tree = Box<dyn ValueTree<Value = T>>;
    type Value = T;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        if !ONE_STREAM.load(Ordering::Relaxed) {
            return Ok(Box::new(self.union.new_tree(runner)?));
        }
        let total: u32 = self.arms.iter().map(|a| a.0).sum();
        let mut k = runner.rng().next_u32() % total;
        for (w, s) in &self.arms {
            if k < *w {
                return s.new_tree(runner);
            }
            k -= w;
        }
        unreachable!()
    }
}

macro_rules! one_of {
    ($($arm:expr),+ $(,)?) => { one_of![$(1 => $arm),+] };
    ($($w:expr => $arm:expr),+ $(,)?) => {
        crate::oneof::OneOf::new(vec![$(($w as u32, proptest::strategy::Strategy::boxed($arm))),+])
    };
}

/// like `proptest::option::weighted`
pub fn opt_weighted<S: Strategy + 'static>(p: f64, s: S) -> BoxedStrategy<Option<S::Value>>
where
    S::Value: Clone,
{
    let some = (p * 1000.0) as u32;
    one_of![1000 - some => Just(None), some => s.prop_map(Some)].boxed()
}
pub fn opt<S: Strategy + 'static>(s: S) -> BoxedStrategy<Option<S::Value>>
where
    S::Value: Clone,
{
    opt_weighted(0.5, s)
}
