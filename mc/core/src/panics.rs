//! Silent panics whose message and place can be queried.
use std::any::Any;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
    static COUNT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

pub fn install() {
    std::panic::set_hook(Box::new(|info| {
        crate::falloc::unguarded(|| {
            let m = format!("{}", info);
            let _ = COUNT.try_with(|c| c.set(c.get() + 1));
            let _ = LAST.try_with(|l| *l.borrow_mut() = m);
        })
    }));
}

/// Number of panics (caught or not) of this thread so far.
pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}

pub fn message(p: &(dyn Any + Send)) -> String {
    let from_payload = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    };
    let last = LAST.with(|l| l.borrow().clone());
    if last.contains(&from_payload) {
        last.replace('\n', " ")
    } else {
        from_payload.replace('\n', " ")
    }
}

/// Runs `f`; `Err` with the message if it panics.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<crate::explore::Diverged>() {
                std::panic::resume_unwind(p);
            }
            Err(message(&*p))
        }
    }
}
