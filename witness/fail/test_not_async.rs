#[octane::test]
pub fn entry() { }
