//! C20 on monoio.

#[path = "../../rtp/src/prog.rs"]
mod prog;

use std::future::Future;

#[derive(Debug, Clone, Copy, Default, Eq, PartialEq, Ord, PartialOrd)]
pub struct C;
impl openraft::RaftTypeConfig for C {
    type D = u64;
    type R = u64;
    type NodeId = u64;
    type Node = openraft::BasicNode;
    type Entry = openraft::Entry<C>;
    type SnapshotData = std::io::Cursor<Vec<u8>>;
    type AsyncRuntime = openraft_rt_monoio::MonoioRuntime;
    type Responder = openraft::impls::OneshotResponder<C>;
}

/// A panic in a monoio task unwinds through the executor: joining never fails.
pub const PANICS: bool = false;

pub fn join_panicked(_e: &openraft::alias::JoinErrorOf<C>) -> bool {
    false
}

pub fn run<F: Future<Output = ()> + 'static>(seed: u64, c: &mut common::Case, f: F) {
    if seed % 2 == 0 {
        if let Ok(mut rt) = monoio::RuntimeBuilder::<monoio::FusionDriver>::new().enable_all().build() {
            c.count("executor.monoio_fusion");
            rt.block_on(f);
            return;
        }
    }
    c.count("executor.monoio_legacy");
    let mut rt = monoio::RuntimeBuilder::<monoio::LegacyDriver>::new().enable_all().build().expect("runtime");
    rt.block_on(f);
}

fn main() {
    prog::main()
}
