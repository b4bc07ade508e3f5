//! Attributes what is asked of the world to the call in whose task it is asked.
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub struct Scoped<F> {
    pub op: usize,
    pub current: Rc<Cell<Option<usize>>>,
    pub f: Pin<Box<F>>,
}
impl<F: Future> Future for Scoped<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let c = self.current.clone();
        c.set(Some(self.op));
        let r = self.f.as_mut().poll(cx);
        c.set(None);
        r
    }
}
