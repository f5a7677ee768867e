//! Uses of path!; data/ lies beside the manifest directory this is compiled with.
use octane::prelude::path;
pub const FILE: &str = path!("/data/file.txt");
pub const DIR: &str = path!("/data");
pub const DEEP: &str = path!("/data/sub dir/x{y}.html");
pub const DOUBLE: &str = path!("//data/./sub dir//x{y}.html");
