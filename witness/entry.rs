//! Functions under the entry-point macros. Compiled as a test harness, so that #[octane::test] functions are there too.
pub struct Fail;
pub fn step(_: u32) -> u32 {
    unimplemented!()
}
pub fn ok(_: u32) -> bool {
    unimplemented!()
}
pub async fn wait(_: u32) -> u32 {
    unimplemented!()
}

pub mod m_unit {
    use super::*;
    #[octane::main]
    pub async fn entry() {
        step(1);
        wait(2).await;
        step(3);
    }
}
pub mod m_result {
    use super::*;
    #[octane::main]
    pub async fn entry() -> Result<u32, Box<dyn std::error::Error>> {
        let a = step(1);
        if ok(a) {
            return Err("no".into());
        }
        let b = wait(a).await;
        Ok(b)
    }
}
pub mod m_value {
    use super::*;
    #[octane::main]
    pub async fn other_name() -> u32 {
        wait(step(1)).await
    }
}
pub mod m_args {
    use super::*;
    #[octane::main]
    pub(crate) async fn entry<T: Into<u32>>(a: T, b: [u32; 2]) -> (u32, u32)
    where
        T: Copy,
    {
        let x = wait(a.into()).await;
        (x, step(b[0]))
    }
}
#[octane::main]
#[allow(dead_code)]
#[doc = "documented { here }"]
pub async fn attributes() -> u32 {
    step(7)
}

/// the same, written out
pub mod hand {
    use super::*;
    use tokio::runtime::Runtime;
    pub fn m_unit(rt: Runtime) {
        rt.block_on(async {
            step(1);
            wait(2).await;
            step(3);
        })
    }
    pub fn m_result(rt: Runtime) -> Result<u32, Box<dyn std::error::Error>> {
        rt.block_on(async {
            let a = step(1);
            if ok(a) {
                return Err("no".into());
            }
            let b = wait(a).await;
            Ok(b)
        })
    }
    pub fn m_value(rt: Runtime) -> u32 {
        rt.block_on(async { wait(step(1)).await })
    }
    pub fn m_args<T: Into<u32>>(a: T, b: [u32; 2], rt: Runtime) -> (u32, u32)
    where
        T: Copy,
    {
        rt.block_on(async {
            let x = wait(a.into()).await;
            (x, step(b[0]))
        })
    }
    pub fn attributes(rt: Runtime) -> u32 {
        rt.block_on(async { step(7) })
    }
    pub fn t_unit(rt: Runtime) {
        rt.block_on(async {
            step(1);
            wait(2).await;
            step(3);
        })
    }
    pub fn t_result(rt: Runtime) -> Result<(), String> {
        rt.block_on(async {
            let a = step(1);
            if ok(a) {
                return Err(String::new());
            }
            wait(a).await;
            Ok(())
        })
    }
    pub fn t_panic(rt: Runtime) {
        rt.block_on(async {
            step(9);
        })
    }
}

#[octane::test]
async fn t_unit() {
    step(1);
    wait(2).await;
    step(3);
}
#[octane::test]
async fn t_result() -> Result<(), String> {
    let a = step(1);
    if ok(a) {
        return Err(String::new());
    }
    wait(a).await;
    Ok(())
}
#[octane::test]
#[should_panic]
async fn t_panic() {
    step(9);
}

/// every return type is the one written
pub fn types() {
    let _: fn() = m_unit::entry;
    let _: fn() -> Result<u32, Box<dyn std::error::Error>> = m_result::entry;
    let _: fn() -> u32 = m_value::other_name;
    let _: fn(u32, [u32; 2]) -> (u32, u32) = m_args::entry::<u32>;
    let _: fn() -> u32 = attributes;
}
