use octane::prelude::path;
pub const P: &str = path!("/data/missing.txt");
