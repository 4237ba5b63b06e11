//! Stand-in for `num_threads`: never claims that the process has only one thread.
use std::num::NonZeroUsize;

pub fn num_threads() -> Option<NonZeroUsize> {
    None
}

pub fn is_single_threaded() -> Option<bool> {
    None
}
