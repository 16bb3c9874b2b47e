//! Stands in for `std` in the crate under test (and in `lazy_static`): everything is the real standard
//! library, except that the blocking and atomic primitives of `std::sync` (and `thread::yield_now`,
//! `thread::sleep`, `hint::spin_loop`) are scheduling points of a controlled scheduler.  Exactly one
//! controlled thread runs at a time; at every point the scheduler follows a given list of choices and
//! records the alternatives.  Threads that are not controlled see plain std behaviour.
#![allow(clippy::all)]
pub use ::std::*;

pub mod sched {
	use std::cell::Cell;
	use std::sync::{Condvar, Mutex, MutexGuard};

	#[derive(Clone, Copy, PartialEq, Debug)]
	pub enum St {
		Ready,
		/// waits for an object (address) to change
		Blocked(usize),
		Done,
	}
	/// one choice: how many threads could go on, whether staying with the running one was possible, choice
	#[derive(Clone, Copy, Debug)]
	pub struct Choice {
		pub options: u8,
		pub free: bool,
		pub taken: u8,
	}
	pub struct State {
		pub active: bool,
		pub current: usize,
		pub st: Vec<St>,
		pub prefix: Vec<u8>,
		pub trace: Vec<Choice>,
		pub points: u64,
		pub run_length: u64,
		pub deadlock: Option<String>,
		pub limit: u64,
	}
	static S: Mutex<State> = Mutex::new(State { active: false, current: 0, st: Vec::new(), prefix: Vec::new(), trace: Vec::new(), points: 0, run_length: 0, deadlock: None, limit: 0 });
	static CV: Condvar = Condvar::new();
	std::thread_local! { static TID: Cell<usize> = const { Cell::new(usize::MAX) }; }

	fn s() -> MutexGuard<'static, State> {
		match S.lock() {
			Ok(g) => g,
			Err(e) => e.into_inner(),
		}
	}
	pub fn me() -> Option<usize> {
		TID.try_with(|t| t.get()).ok().filter(|t| *t != usize::MAX)
	}
	/// chooses the thread that goes on; `staying`: the running thread could go on
	fn choose(g: &mut State, staying: bool, avoid_me: bool) {
		let me = g.current;
		let mut opts: Vec<usize> = Vec::new();
		let others: Vec<usize> = (0..g.st.len()).filter(|&t| t != me && g.st[t] == St::Ready).collect();
		if staying && !(avoid_me && !others.is_empty()) {
			opts.push(me);
		}
		opts.extend(others);
		if opts.is_empty() {
			if g.st.iter().any(|x| *x != St::Done) {
				g.deadlock = Some(format!("{:?}", g.st));
			}
			CV.notify_all();
			return;
		}
		let i = if opts.len() > 1 {
			let k = g.trace.len();
			let c = g.prefix.get(k).copied().unwrap_or(0);
			let c = (c as usize).min(opts.len() - 1);
			g.trace.push(Choice { options: opts.len() as u8, free: !staying || avoid_me, taken: c as u8 });
			c
		} else {
			0
		};
		if opts[i] != me {
			g.current = opts[i];
			g.run_length = 0;
			CV.notify_all();
		}
	}
	fn wait_turn(mut g: MutexGuard<'static, State>, me: usize) {
		while g.active && g.current != me {
			if g.deadlock.is_some() {
				drop(g);
				park_forever();
			}
			g = match CV.wait(g) {
				Ok(g) => g,
				Err(e) => e.into_inner(),
			};
		}
		if g.deadlock.is_some() && g.active {
			drop(g);
			park_forever();
		}
	}
	fn park_forever() -> ! {
		loop {
			std::thread::park();
		}
	}
	/// a scheduling point before a visible operation
	pub fn point() {
		yield_point(false)
	}
	pub fn yield_point(avoid: bool) {
		let Some(me) = me() else { return };
		let mut g = s();
		if !g.active {
			return;
		}
		g.points += 1;
		g.run_length += 1;
		if g.points > g.limit {
			g.deadlock = Some("step limit reached: the threads do not finish".into());
			CV.notify_all();
			drop(g);
			park_forever();
		}
		// a thread that goes on and on without finishing (a spin loop) has to let the others run
		let avoid = avoid || g.run_length > 5000;
		choose(&mut g, true, avoid);
		wait_turn(g, me);
	}
	/// the running thread can't go on before `obj` is released
	pub fn block_on(obj: usize) {
		let Some(me) = me() else { return };
		let mut g = s();
		if !g.active {
			return;
		}
		g.st[me] = St::Blocked(obj);
		choose(&mut g, false, false);
		wait_turn(g, me);
	}
	/// everything waiting for `obj` may try again
	pub fn release(obj: usize) {
		if me().is_none() {
			return;
		}
		let mut g = s();
		if !g.active {
			return;
		}
		for t in g.st.iter_mut() {
			if *t == St::Blocked(obj) {
				*t = St::Ready;
			}
		}
	}
	pub struct Outcome<T> {
		pub results: Vec<Option<std::thread::Result<T>>>,
		pub trace: Vec<Choice>,
		pub points: u64,
		pub deadlock: Option<String>,
	}
	/// runs the threads under the controlled scheduler
	pub fn run<T: Send + 'static>(bodies: Vec<Box<dyn FnOnce() -> T + Send>>, prefix: Vec<u8>, limit: u64) -> Outcome<T> {
		let n = bodies.len();
		{
			let mut g = s();
			*g = State { active: true, current: usize::MAX, st: vec![St::Ready; n], prefix, trace: vec![], points: 0, run_length: 0, deadlock: None, limit };
		}
		let results = std::sync::Arc::new(Mutex::new((0..n).map(|_| None).collect::<Vec<Option<std::thread::Result<T>>>>()));
		for (i, b) in bodies.into_iter().enumerate() {
			let results = results.clone();
			std::thread::spawn(move || {
				TID.with(|t| t.set(i));
				wait_turn(s(), i);
				let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
				results.lock().unwrap()[i] = Some(r);
				TID.with(|t| t.set(usize::MAX));
				let mut g = s();
				g.st[i] = St::Done;
				choose(&mut g, false, false);
				CV.notify_all();
			});
		}
		let mut g = s();
		// the first thread to run is a free choice
		choose(&mut g, false, false);
		while g.deadlock.is_none() && g.st.iter().any(|x| *x != St::Done) {
			g = match CV.wait(g) {
				Ok(g) => g,
				Err(e) => e.into_inner(),
			};
		}
		let out = Outcome { results: results.lock().unwrap().drain(..).collect(), trace: g.trace.clone(), points: g.points, deadlock: g.deadlock.clone() };
		g.active = g.deadlock.is_some();
		out
	}
}

pub mod hint {
	pub use ::std::hint::*;
	pub fn spin_loop() {
		crate::sched::yield_point(true);
		::std::hint::spin_loop()
	}
}
pub mod thread {
	pub use ::std::thread::*;
	pub fn yield_now() {
		crate::sched::yield_point(true);
		::std::thread::yield_now()
	}
	pub fn sleep(d: ::std::time::Duration) {
		if crate::sched::me().is_some() {
			crate::sched::yield_point(true);
		} else {
			::std::thread::sleep(d)
		}
	}
}

pub mod sync {
	pub use ::std::sync::*;
	use crate::sched;
	use ::std::cell::UnsafeCell;
	use ::std::ops::{Deref, DerefMut};
	use ::std::sync::atomic::{AtomicU8 as RawU8, Ordering as O};

	pub struct Mutex<T: ?Sized> {
		inner: ::std::sync::Mutex<T>,
	}
	pub struct MutexGuard<'a, T: ?Sized + 'a> {
		inner: Option<::std::sync::MutexGuard<'a, T>>,
		obj: usize,
	}
	impl<T> Mutex<T> {
		pub const fn new(t: T) -> Self {
			Mutex { inner: ::std::sync::Mutex::new(t) }
		}
		pub fn into_inner(self) -> LockResult<T> {
			self.inner.into_inner()
		}
	}
	impl<T: ?Sized> Mutex<T> {
		fn obj(&self) -> usize {
			self as *const Self as *const u8 as usize
		}
		pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
			if sched::me().is_none() {
				return match self.inner.lock() {
					Ok(g) => Ok(MutexGuard { inner: Some(g), obj: 0 }),
					Err(e) => Err(PoisonError::new(MutexGuard { inner: Some(e.into_inner()), obj: 0 })),
				};
			}
			sched::point();
			loop {
				match self.inner.try_lock() {
					Ok(g) => return Ok(MutexGuard { inner: Some(g), obj: self.obj() }),
					Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(MutexGuard { inner: Some(e.into_inner()), obj: self.obj() })),
					Err(TryLockError::WouldBlock) => sched::block_on(self.obj()),
				}
			}
		}
		pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
			sched::point();
			match self.inner.try_lock() {
				Ok(g) => Ok(MutexGuard { inner: Some(g), obj: self.obj() }),
				Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { inner: Some(e.into_inner()), obj: self.obj() }))),
				Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
			}
		}
		pub fn is_poisoned(&self) -> bool {
			self.inner.is_poisoned()
		}
		pub fn clear_poison(&self) {
			self.inner.clear_poison()
		}
		pub fn get_mut(&mut self) -> LockResult<&mut T> {
			self.inner.get_mut()
		}
	}
	impl<T: Default> Default for Mutex<T> {
		fn default() -> Self {
			Mutex::new(T::default())
		}
	}
	impl<T> From<T> for Mutex<T> {
		fn from(t: T) -> Self {
			Mutex::new(t)
		}
	}
	impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for Mutex<T> {
		fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
			self.inner.fmt(f)
		}
	}
	impl<T: ?Sized> Deref for MutexGuard<'_, T> {
		type Target = T;
		fn deref(&self) -> &T {
			self.inner.as_ref().unwrap()
		}
	}
	impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
		fn deref_mut(&mut self) -> &mut T {
			self.inner.as_mut().unwrap()
		}
	}
	impl<T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for MutexGuard<'_, T> {
		fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
			(**self).fmt(f)
		}
	}
	impl<T: ?Sized> Drop for MutexGuard<'_, T> {
		fn drop(&mut self) {
			self.inner.take();
			if self.obj != 0 {
				sched::release(self.obj);
			}
		}
	}

	pub struct Condvar {
		real: ::std::sync::Condvar,
	}
	impl Condvar {
		pub const fn new() -> Self {
			Condvar { real: ::std::sync::Condvar::new() }
		}
		fn obj(&self) -> usize {
			self as *const Self as usize
		}
		pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
			if sched::me().is_none() {
				let inner = g.inner.take().unwrap();
				return match self.real.wait(inner) {
					Ok(i) => Ok(MutexGuard { inner: Some(i), obj: 0 }),
					Err(e) => Err(PoisonError::new(MutexGuard { inner: Some(e.into_inner()), obj: 0 })),
				};
			}
			// the mutex is the first field of its wrapper, so the object's address gives it back
			let m = g.obj as *const Mutex<T>;
			drop(g);
			sched::block_on(self.obj());
			unsafe { (*m).lock() }
		}
		pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
			while f(&mut *g) {
				g = self.wait(g)?;
			}
			Ok(g)
		}
		pub fn notify_one(&self) {
			self.notify_all()
		}
		pub fn notify_all(&self) {
			self.real.notify_all();
			sched::point();
			sched::release(self.obj());
		}
	}
	impl Default for Condvar {
		fn default() -> Self {
			Self::new()
		}
	}

	pub struct RwLock<T: ?Sized> {
		inner: ::std::sync::RwLock<T>,
	}
	pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
		inner: Option<::std::sync::RwLockReadGuard<'a, T>>,
		obj: usize,
	}
	pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
		inner: Option<::std::sync::RwLockWriteGuard<'a, T>>,
		obj: usize,
	}
	impl<T> RwLock<T> {
		pub const fn new(t: T) -> Self {
			RwLock { inner: ::std::sync::RwLock::new(t) }
		}
		pub fn into_inner(self) -> LockResult<T> {
			self.inner.into_inner()
		}
	}
	macro_rules! rw {
		($name:ident, $tryname:ident, $guard:ident) => {
			pub fn $name(&self) -> LockResult<$guard<'_, T>> {
				if sched::me().is_none() {
					return match self.inner.$name() {
						Ok(g) => Ok($guard { inner: Some(g), obj: 0 }),
						Err(e) => Err(PoisonError::new($guard { inner: Some(e.into_inner()), obj: 0 })),
					};
				}
				sched::point();
				loop {
					match self.inner.$tryname() {
						Ok(g) => return Ok($guard { inner: Some(g), obj: self.obj() }),
						Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new($guard { inner: Some(e.into_inner()), obj: self.obj() })),
						Err(TryLockError::WouldBlock) => sched::block_on(self.obj()),
					}
				}
			}
			pub fn $tryname(&self) -> TryLockResult<$guard<'_, T>> {
				sched::point();
				match self.inner.$tryname() {
					Ok(g) => Ok($guard { inner: Some(g), obj: self.obj() }),
					Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new($guard { inner: Some(e.into_inner()), obj: self.obj() }))),
					Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
				}
			}
		};
	}
	impl<T: ?Sized> RwLock<T> {
		fn obj(&self) -> usize {
			self as *const Self as *const u8 as usize
		}
		rw!(read, try_read, RwLockReadGuard);
		rw!(write, try_write, RwLockWriteGuard);
		pub fn is_poisoned(&self) -> bool {
			self.inner.is_poisoned()
		}
		pub fn get_mut(&mut self) -> LockResult<&mut T> {
			self.inner.get_mut()
		}
	}
	impl<T: Default> Default for RwLock<T> {
		fn default() -> Self {
			RwLock::new(T::default())
		}
	}
	impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
		type Target = T;
		fn deref(&self) -> &T {
			self.inner.as_ref().unwrap()
		}
	}
	impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
		type Target = T;
		fn deref(&self) -> &T {
			self.inner.as_ref().unwrap()
		}
	}
	impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
		fn deref_mut(&mut self) -> &mut T {
			self.inner.as_mut().unwrap()
		}
	}
	impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
		fn drop(&mut self) {
			self.inner.take();
			if self.obj != 0 {
				sched::release(self.obj);
			}
		}
	}
	impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
		fn drop(&mut self) {
			self.inner.take();
			if self.obj != 0 {
				sched::release(self.obj);
			}
		}
	}

	// ---- one-time initialisation -------------------------------------------------------------
	const NEW: u8 = 0;
	const RUNNING: u8 = 1;
	const DONE: u8 = 2;
	const POISONED: u8 = 3;
	pub struct OnceState(bool);
	impl OnceState {
		pub fn is_poisoned(&self) -> bool {
			self.0
		}
	}
	pub struct Once {
		st: RawU8,
		gate: ::std::sync::Mutex<()>,
	}
	impl Once {
		pub const fn new() -> Self {
			Once { st: RawU8::new(NEW), gate: ::std::sync::Mutex::new(()) }
		}
		fn obj(&self) -> usize {
			self as *const Self as usize
		}
		pub fn is_completed(&self) -> bool {
			sched::point();
			self.st.load(O::SeqCst) == DONE
		}
		pub fn call_once<F: FnOnce()>(&self, f: F) {
			self.go(false, |_| f())
		}
		pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
			self.go(true, f)
		}
		pub fn wait(&self) {
			loop {
				sched::point();
				if self.st.load(O::SeqCst) == DONE {
					return;
				}
				sched::block_on(self.obj());
			}
		}
		fn go<F: FnOnce(&OnceState)>(&self, force: bool, f: F) {
			let controlled = sched::me().is_some();
			let _g = if controlled {
				sched::point();
				None
			} else {
				if self.st.load(O::SeqCst) == DONE {
					return;
				}
				Some(self.gate.lock())
			};
			let mut was_poisoned = false;
			loop {
				match self.st.load(O::SeqCst) {
					DONE => return,
					POISONED if !force => panic!("Once instance has previously been poisoned"),
					RUNNING => {
						if !controlled {
							panic!("one-time initialization may not be performed recursively");
						}
						sched::block_on(self.obj());
					}
					x => {
						was_poisoned |= x == POISONED;
						self.st.store(RUNNING, O::SeqCst);
						struct Fin<'a>(&'a Once, u8);
						impl Drop for Fin<'_> {
							fn drop(&mut self) {
								self.0.st.store(self.1, O::SeqCst);
								sched::release(self.0.obj());
							}
						}
						let mut fin = Fin(self, POISONED);
						f(&OnceState(was_poisoned));
						fin.1 = DONE;
						return;
					}
				}
			}
		}
	}
	pub const ONCE_INIT: Once = Once::new();

	pub struct OnceLock<T> {
		once: Once,
		v: UnsafeCell<Option<T>>,
	}
	unsafe impl<T: Sync + Send> Sync for OnceLock<T> {}
	unsafe impl<T: Send> Send for OnceLock<T> {}
	impl<T> OnceLock<T> {
		pub const fn new() -> Self {
			OnceLock { once: Once::new(), v: UnsafeCell::new(None) }
		}
		pub fn get(&self) -> Option<&T> {
			if self.once.is_completed() {
				unsafe { (*self.v.get()).as_ref() }
			} else {
				None
			}
		}
		pub fn set(&self, t: T) -> Result<(), T> {
			let mut t = Some(t);
			self.once.call_once_force(|_| unsafe { *self.v.get() = t.take() });
			match t {
				None => Ok(()),
				Some(t) => Err(t),
			}
		}
		pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
			self.once.call_once_force(|_| unsafe { *self.v.get() = Some(f()) });
			unsafe { (*self.v.get()).as_ref().unwrap() }
		}
	}
	impl<T> Default for OnceLock<T> {
		fn default() -> Self {
			Self::new()
		}
	}
	pub struct LazyLock<T, F = fn() -> T> {
		once: Once,
		v: UnsafeCell<Option<T>>,
		f: UnsafeCell<Option<F>>,
	}
	unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
	impl<T, F: FnOnce() -> T> LazyLock<T, F> {
		pub const fn new(f: F) -> Self {
			LazyLock { once: Once::new(), v: UnsafeCell::new(None), f: UnsafeCell::new(Some(f)) }
		}
		pub fn force(this: &Self) -> &T {
			this.once.call_once(|| unsafe {
				let f = (*this.f.get()).take().unwrap();
				*this.v.get() = Some(f());
			});
			unsafe { (*this.v.get()).as_ref().unwrap() }
		}
	}
	impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
		type Target = T;
		fn deref(&self) -> &T {
			LazyLock::force(self)
		}
	}

	pub mod atomic {
		pub use ::std::sync::atomic::*;
		use crate::sched::point;
		use ::std::sync::atomic as real;
		macro_rules! common {
			($name:ident, $t:ty) => {
				#[derive(Default, Debug)]
				pub struct $name(real::$name);
				impl $name {
					pub const fn new(v: $t) -> Self {
						$name(real::$name::new(v))
					}
					pub fn load(&self, o: Ordering) -> $t {
						point();
						self.0.load(o)
					}
					pub fn store(&self, v: $t, o: Ordering) {
						point();
						self.0.store(v, o)
					}
					pub fn swap(&self, v: $t, o: Ordering) -> $t {
						point();
						self.0.swap(v, o)
					}
					pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
						point();
						self.0.compare_exchange(a, b, s, f)
					}
					pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
						point();
						self.0.compare_exchange(a, b, s, f)
					}
					pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
						point();
						self.0.fetch_update(s, f, g)
					}
					pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
						point();
						self.0.fetch_or(v, o)
					}
					pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
						point();
						self.0.fetch_and(v, o)
					}
					pub fn get_mut(&mut self) -> &mut $t {
						self.0.get_mut()
					}
					pub fn into_inner(self) -> $t {
						self.0.into_inner()
					}
				}
			};
		}
		macro_rules! ints {
			($($name:ident $t:ty),*) => { $(
				common!($name, $t);
				impl $name {
					pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_add(v, o) }
					pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_sub(v, o) }
					pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_max(v, o) }
					pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_min(v, o) }
				}
			)* };
		}
		common!(AtomicBool, bool);
		ints!(AtomicUsize usize, AtomicIsize isize, AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64);
	}
}
