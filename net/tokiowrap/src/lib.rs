//! The real tokio, except that `#[tokio::main]` runs its body on a single-threaded runtime until
//! the simulated network says that nothing can ever happen again.
pub use tokio::*;
pub use tokiomain::main;

use std::cell::{Cell, RefCell};
use std::future::Future;

use std::task::{Poll, Waker};

thread_local! {
	static QUIET: Cell<bool> = const { Cell::new(false) };
	static WAKER: RefCell<Option<Waker>> = const { RefCell::new(None) };
}
/// Called by the network when nothing can ever happen again.
pub fn mc_quiet() {
	QUIET.with(|q| q.set(true));
	let w = WAKER.with(|w| w.borrow().clone());
	if let Some(w) = w { w.wake(); }
}
/// Runs the future on a new runtime: its output, or `None` if it waits for something that never comes.
pub fn mc_run<T>(f: impl Future<Output = T>) -> Option<T> {
	QUIET.with(|q| q.set(false));
	let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
	let r = rt.block_on(async move {
		let mut f = std::pin::pin!(f);
		std::future::poll_fn(move |cx| {
			WAKER.with(|w| *w.borrow_mut() = Some(cx.waker().clone()));
			match f.as_mut().poll(cx) {
				Poll::Ready(v) => Poll::Ready(Some(v)),
				Poll::Pending => if QUIET.with(|q| q.get()) { Poll::Ready(None) } else { Poll::Pending },
			}
		}).await
	});
	WAKER.with(|w| *w.borrow_mut() = None);
	r
}
