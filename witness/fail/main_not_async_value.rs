#[octane::main]
pub fn entry() -> u32 { 3 }
