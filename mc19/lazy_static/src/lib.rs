//! The interface of `lazy_static` on top of the controlled `Once`.
#![allow(non_camel_case_types)]
extern crate mcstd;
pub use mcstd::sync::Once;
#[doc(hidden)]
pub struct Lazy<T: Sync>(mcstd::cell::Cell<Option<T>>, Once);
impl<T: Sync> Lazy<T> {
	pub const INIT: Self = Lazy(mcstd::cell::Cell::new(None), Once::new());
	pub fn get<F: FnOnce() -> T>(&'static self, f: F) -> &'static T {
		self.1.call_once(|| self.0.set(Some(f())));
		unsafe { (*self.0.as_ptr()).as_ref().unwrap() }
	}
}
unsafe impl<T: Sync> Sync for Lazy<T> {}
pub trait LazyStatic {
	fn initialize(lazy: &Self);
}
pub fn initialize<T: LazyStatic>(lazy: &T) {
	LazyStatic::initialize(lazy)
}
#[macro_export]
#[doc(hidden)]
macro_rules! __lazy_static_internal {
	($(#[$attr:meta])* ($($vis:tt)*) static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => {
		#[allow(missing_copy_implementations, non_camel_case_types, dead_code)]
		$(#[$attr])*
		$($vis)* struct $N { __private_field: () }
		#[doc(hidden)]
		#[allow(non_upper_case_globals)]
		$($vis)* static $N: $N = $N { __private_field: () };
		impl ::core::ops::Deref for $N {
			type Target = $T;
			fn deref(&self) -> &$T {
				#[inline(always)]
				fn __static_ref_initialize() -> $T { $e }
				static LAZY: $crate::Lazy<$T> = $crate::Lazy::INIT;
				LAZY.get(__static_ref_initialize)
			}
		}
		impl $crate::LazyStatic for $N {
			fn initialize(lazy: &Self) { let _ = &**lazy; }
		}
		$crate::lazy_static!($($t)*);
	};
	() => ()
}
#[macro_export]
macro_rules! lazy_static {
	($(#[$attr:meta])* static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => {
		$crate::__lazy_static_internal!($(#[$attr])* () static ref $N : $T = $e; $($t)*);
	};
	($(#[$attr:meta])* pub static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => {
		$crate::__lazy_static_internal!($(#[$attr])* (pub) static ref $N : $T = $e; $($t)*);
	};
	($(#[$attr:meta])* pub ($($vis:tt)+) static ref $N:ident : $T:ty = $e:expr; $($t:tt)*) => {
		$crate::__lazy_static_internal!($(#[$attr])* (pub ($($vis)+)) static ref $N : $T = $e; $($t)*);
	};
	() => ()
}
