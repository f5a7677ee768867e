#[octane::main]
pub fn entry() { }
