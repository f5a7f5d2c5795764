//! Debugging aid: copies the library's own tracing events into the run's trace (SIM_LOG=from_us,to_us).
use std::fmt::Write;
use std::sync::atomic::{AtomicU64, Ordering};

use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::{Event, Metadata, Subscriber};

use crate::{mon, rt};

struct Sub {
    from: u64,
    to: u64,
    seq: AtomicU64,
}

struct V(String);
impl Visit for V {
    fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
        let _ = write!(self.0, " {}={:?}", f.name(), v);
    }
}

impl Subscriber for Sub {
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        m.is_event() && m.target().starts_with("openraft")
    }
    fn new_span(&self, _: &Attributes<'_>) -> Id {
        Id::from_u64(self.seq.fetch_add(1, Ordering::Relaxed) + 1)
    }
    fn record(&self, _: &Id, _: &Record<'_>) {}
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        let t = rt::now_ns() / 1000;
        if t < self.from || t > self.to {
            return;
        }
        let mut v = V(String::new());
        e.record(&mut v);
        let tag = rt::cur_tag();
        mon::ev_try(|| format!("   LOG[{}] {}{}", tag, e.metadata().target(), v.0));
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}

pub fn install() {
    let Ok(s) = std::env::var("SIM_LOG") else { return };
    let mut it = s.split(',').map(|x| x.parse::<u64>().unwrap_or(0));
    let (from, to) = (it.next().unwrap_or(0), it.next().unwrap_or(u64::MAX));
    let _ = tracing::subscriber::set_global_default(Sub { from, to, seq: AtomicU64::new(0) });
}
