use octane::prelude::*;
pub fn f() -> octane::router::Closure { route!(|req| Flow::Next) }
