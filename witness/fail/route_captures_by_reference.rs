use octane::prelude::*;
pub fn f() -> octane::router::Closure {
    let v = String::new();
    let c: octane::router::Closure = route!(|req, res| { let _ = v.len(); Flow::Next });
    drop(v);
    c
}
