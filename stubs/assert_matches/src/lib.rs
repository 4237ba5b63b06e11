//! Stand-in for `assert_matches` (only air's own tests use it).
#[macro_export]
macro_rules! assert_matches {
    ($e:expr, $($pat:pat_param)|+ $(if $cond:expr)? $(,)?) => {
        match $e { $($pat)|+ $(if $cond)? => (), ref e => panic!("assertion failed: `{:?}` does not match", e) }
    };
    ($e:expr, $($pat:pat_param)|+ $(if $cond:expr)? => $arm:expr $(,)?) => {
        match $e { $($pat)|+ $(if $cond)? => $arm, ref e => panic!("assertion failed: `{:?}` does not match", e) }
    };
}
