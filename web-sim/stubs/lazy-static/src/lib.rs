//! Stand-in for lazy_static: the statics of a simulated process, which begin anew with each run (and thread).
use std::any::{Any, TypeId};
use std::cell::RefCell;

thread_local!(static ALL: RefCell<Vec<(TypeId, *mut dyn Any)>> = const { RefCell::new(vec![]) });

/// Ends the simulated process. Nothing may hold on to a static of it.
pub fn reset() {
    let old = ALL.with(|a| std::mem::take(&mut *a.borrow_mut()));
    for (_, p) in old {
        drop(unsafe { Box::from_raw(p) });
    }
}
#[doc(hidden)]
pub fn get<K: 'static, T: 'static>(init: fn() -> T) -> &'static T {
    let find = || ALL.with(|a| a.borrow().iter().find(|x| x.0 == TypeId::of::<K>()).map(|x| x.1));
    let p = match find() {
        Some(p) => p,
        None => {
            let p: *mut dyn Any = Box::into_raw(Box::new(init()));
            ALL.with(|a| a.borrow_mut().push((TypeId::of::<K>(), p)));
            p
        }
    };
    unsafe { &*(p as *const T) }
}
#[macro_export]
macro_rules! lazy_static {
    () => {};
    ($(#[$m:meta])* $v:vis static ref $n:ident : $t:ty = $e:expr; $($rest:tt)*) => {
        #[allow(non_camel_case_types)]
        $(#[$m])*
        $v struct $n;
        impl ::core::ops::Deref for $n {
            type Target = $t;
            fn deref(&self) -> &$t {
                fn init() -> $t { $e }
                $crate::get::<$n, $t>(init)
            }
        }
        $crate::lazy_static!($($rest)*);
    };
}
