//! C20 on tokio: multi-thread and current-thread executors; built with `singlethreaded`, a LocalSet.

mod prog;

use std::future::Future;

#[derive(Debug, Clone, Copy, Default, Eq, PartialEq, Ord, PartialOrd)]
pub struct C;
impl openraft::RaftTypeConfig for C {
    type D = u64;
    type R = u64;
    type NodeId = u64;
    type Node = openraft::BasicNode;
    type Entry = openraft::Entry<C>;
    type SnapshotData = std::io::Cursor<Vec<u8>>;
    type AsyncRuntime = openraft::TokioRuntime;
    type Responder = openraft::impls::OneshotResponder<C>;
}

pub const PANICS: bool = true;

pub fn join_panicked(e: &openraft::alias::JoinErrorOf<C>) -> bool {
    <openraft::TokioRuntime as openraft::AsyncRuntime>::is_panic(e)
}

#[cfg(feature = "local")]
pub fn run<F: Future<Output = ()> + 'static>(seed: u64, c: &mut common::Case, f: F) {
    let mut b = if seed % 2 == 0 {
        tokio::runtime::Builder::new_current_thread()
    } else {
        let mut b = tokio::runtime::Builder::new_multi_thread();
        b.worker_threads(2);
        b
    };
    c.count("executor.tokio_local");
    let rt = b.enable_all().build().expect("runtime");
    tokio::task::LocalSet::new().block_on(&rt, f);
}

#[cfg(not(feature = "local"))]
pub fn run<F: Future<Output = ()> + Send + 'static>(seed: u64, c: &mut common::Case, f: F) {
    if seed % 4 == 0 {
        c.count("executor.tokio_current");
        tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime").block_on(f);
    } else {
        c.count("executor.tokio_multi");
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1 + (seed % 4) as usize).enable_all().build().expect("runtime");
        if seed % 3 == 0 {
            rt.block_on(f);
        } else {
            rt.block_on(async move { tokio::spawn(f).await.unwrap_or_else(|e| std::panic::resume_unwind(e.into_panic())) });
        }
    }
}

fn main() {
    prog::main()
}
