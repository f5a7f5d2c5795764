//! Seeded programs over the runtime interface, each judged against what the interface promises.
//! Shared by the tokio and the monoio harness: `crate::C` names the type configuration.
//! All time checks are lower bounds, so that a loaded machine raises no alarm.

use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex as StdMutex};
use std::task::{Context, Poll};
use std::time::Duration;

use common::{hash2, hash_str, Case};
use openraft::alias::*;
use openraft::async_runtime::mutex::Mutex as RtMutex;
use openraft::async_runtime::watch::{WatchReceiver, WatchSender};
use openraft::async_runtime::*;
use openraft::type_config::TypeConfigExt;
use openraft::{Instant, OptionalSend};
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};

use crate::C;

const HANG: Duration = Duration::from_secs(40);

#[derive(Default)]
pub struct Hist {
    viols: StdMutex<Vec<(String, String)>>,
    n: StdMutex<BTreeMap<String, u64>>,
    log: StdMutex<Vec<String>>,
    states: StdMutex<HashSet<u64>>,
}
type H = Arc<Hist>;

impl Hist {
    fn viol(&self, k: &str, m: impl Into<String>) {
        self.viols.lock().unwrap().push((k.to_string(), m.into()));
    }
    fn add(&self, k: &str, n: u64) {
        *self.n.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    fn count(&self, k: &str) {
        self.add(k, 1)
    }
    fn log(&self, s: impl Into<String>) {
        self.log.lock().unwrap().push(s.into());
    }
    fn state(&self, s: u64) {
        self.states.lock().unwrap().insert(s);
    }
}

fn rng(seed: u64, k: u64) -> SmallRng {
    SmallRng::seed_from_u64(hash2(seed, k))
}

macro_rules! suite {
    ($name:ident, $f:path) => {
        pub fn $name(seed: u64, c: &mut Case) {
            let h = H::default();
            let h2 = h.clone();
            crate::run(hash2(seed, 77), c, async move {
                let r = <C as TypeConfigExt>::timeout(HANG, $f(seed, h2.clone())).await;
                if r.is_err() {
                    h2.viol("rt.hang", format!("{} did not finish within {:?}", stringify!($name), HANG));
                }
            });
            for l in h.log.lock().unwrap().drain(..) {
                c.op(l);
            }
            for (k, n) in h.n.lock().unwrap().iter() {
                c.add(k, *n);
            }
            let mut seen: Vec<u64> = h.states.lock().unwrap().iter().copied().collect();
            seen.sort();
            c.op(format!("observed {:?}", seen));
            c.states.extend(seen);
            for (k, m) in h.viols.lock().unwrap().drain(..) {
                c.viol(&k, m);
            }
        }
    };
}

suite!(oneshot_case, oneshot);
suite!(bounded_case, bounded);
suite!(unbounded_case, unbounded);
suite!(watch_case, watch);
suite!(mutex_case, mutex);
suite!(timer_case, timer);
suite!(spawn_case, spawn);
suite!(actor_case, actor);

pub fn main() {
    common::main(&[
        ("oneshot", 3, oneshot_case),
        ("bounded", 5, bounded_case),
        ("unbounded", 4, unbounded_case),
        ("watch", 4, watch_case),
        ("mutex", 2, mutex_case),
        ("timer", 2, timer_case),
        ("spawn", 2, spawn_case),
        ("actor", 3, actor_case),
    ])
}

// ---- small helpers

struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

/// Let others run: nothing, a few yields, or a short sleep.
async fn pause(r: &mut SmallRng) {
    match r.gen_range(0..24) {
        0..=11 => {}
        12..=21 => {
            for _ in 0..r.gen_range(1..4) {
                Yield(false).await
            }
        }
        _ => C::sleep(Duration::from_micros(r.gen_range(0..1500))).await,
    }
}

/// One poll of a future with the waker of the current task.
async fn poll_once<F: Future>(mut f: Pin<&mut F>) -> Option<F::Output> {
    std::future::poll_fn(|cx| {
        Poll::Ready(match f.as_mut().poll(cx) {
            Poll::Ready(v) => Some(v),
            Poll::Pending => None,
        })
    })
    .await
}

async fn join<T: OptionalSend + 'static>(h: &H, j: JoinHandleOf<C, T>) -> Option<T> {
    match j.await {
        Ok(v) => Some(v),
        Err(e) => {
            h.viol("rt.join", format!("a task that ended normally reported {}", e));
            None
        }
    }
}

// ---- one-shot

async fn oneshot(seed: u64, h: H) {
    let mut r = rng(seed, 1);
    let n = r.gen_range(1..12);
    let mut hs = vec![];
    for i in 0..n {
        let (tx, rx) = C::oneshot::<u64>();
        let sends = r.gen_range(0..5) != 0; // otherwise the sender is dropped
        let drops = r.gen_range(0..4) == 0; // the receiver is dropped, maybe after some polls
        let timed = r.gen_range(0..3) == 0;
        let dropped = Arc::new(AtomicBool::new(false));
        let started = Arc::new(AtomicBool::new(false));
        let sent = Arc::new(AtomicBool::new(false));
        let (d2, s2, sent2) = (dropped.clone(), started.clone(), sent.clone());
        let order = r.gen_range(0..3);
        h.log(format!("oneshot {} sends={} drops={} timed={} order={}", i, sends, drops, timed, order));
        let v = hash2(seed, i);
        let mut ra = rng(seed, 100 + i);
        let mut rb = rng(seed, 200 + i);
        let (ha, hb) = (h.clone(), h.clone());
        let a = async move {
            if order == 1 {
                pause(&mut ra).await;
                pause(&mut ra).await;
            }
            pause(&mut ra).await;
            if !sends {
                started.store(true, SeqCst);
                drop(tx);
                return;
            }
            let was = dropped.load(SeqCst);
            started.store(true, SeqCst);
            match OneshotSender::send(tx, v) {
                Ok(()) => {
                    if was {
                        ha.viol("rt.oneshot", format!("oneshot {}: sending to a dropped receiver succeeded", i));
                    }
                    sent.store(true, SeqCst);
                    ha.count("oneshot.sent");
                }
                Err(back) => {
                    if back != v {
                        ha.viol("rt.oneshot", format!("oneshot {}: the refused value came back as {} instead of {}", i, back, v));
                    }
                    if !drops {
                        ha.viol("rt.oneshot", format!("oneshot {}: refused although the receiver lives", i));
                    }
                    ha.count("oneshot.refused");
                }
            }
        };
        let b = async move {
            let mut rx = rx;
            if order == 2 {
                pause(&mut rb).await;
                pause(&mut rb).await;
            }
            pause(&mut rb).await;
            let (mut res, tries) = (None, rb.gen_range(0..3));
            if drops || timed {
                for _ in 0..tries {
                    let was = s2.load(SeqCst);
                    if let Some(x) = poll_once(Pin::new(&mut rx)).await {
                        if !s2.load(SeqCst) && !was {
                            hb.viol("rt.oneshot", format!("oneshot {}: resolved before anything was sent or dropped", i));
                        }
                        res = Some(x);
                        break;
                    }
                    Yield(false).await;
                }
            }
            if res.is_none() && drops {
                drop(rx);
                d2.store(true, SeqCst);
                return;
            }
            let res = match res {
                Some(x) => x,
                None => rx.await,
            };
            match res {
                Ok(x) => {
                    hb.count("oneshot.received");
                    if !sends || x != v {
                        hb.viol("rt.oneshot", format!("oneshot {}: received {} (sends={}, sent {})", i, x, sends, v));
                    }
                }
                Err(e) => {
                    hb.count("oneshot.closed");
                    if sends || !s2.load(SeqCst) || sent2.load(SeqCst) {
                        hb.viol("rt.oneshot", format!("oneshot {}: receiver saw '{}' (sends={})", i, e, sends));
                    }
                }
            }
        };
        if r.gen() {
            hs.push(C::spawn(a));
            hs.push(C::spawn(b));
        } else {
            hs.push(C::spawn(b));
            hs.push(C::spawn(a));
        }
    }
    for j in hs {
        join(&h, j).await;
    }
    // directed: value waits for a late receiver; a waiting receiver is woken
    let (tx, rx) = C::oneshot::<u64>();
    let _ = OneshotSender::send(tx, 5).map_err(|_| h.viol("rt.oneshot", "send to a live receiver refused"));
    if rx.await.ok() != Some(5) {
        h.viol("rt.oneshot", "the value sent before the receiver was polled is lost");
    }
}

// ---- mpsc channels

trait Tx: Clone + OptionalSend + 'static {
    type W: Clone + OptionalSend + 'static;
    fn put(&self, v: u64) -> impl Future<Output = Result<(), u64>> + OptionalSend;
    fn down(&self) -> Self::W;
    fn up(w: &Self::W) -> Option<Self>;
}
trait Rx: OptionalSend + 'static {
    fn take(&mut self) -> impl Future<Output = Option<u64>> + OptionalSend;
    fn try_take(&mut self) -> Result<u64, TryRecvError>;
}

struct BTx(MpscSenderOf<C, u64>);
struct BRx(MpscReceiverOf<C, u64>);
struct BW(MpscWeakSenderOf<C, u64>);
impl Clone for BTx {
    fn clone(&self) -> Self {
        BTx(self.0.clone())
    }
}
impl Clone for BW {
    fn clone(&self) -> Self {
        BW(self.0.clone())
    }
}
impl Tx for BTx {
    type W = BW;
    async fn put(&self, v: u64) -> Result<(), u64> {
        MpscSender::send(&self.0, v).await.map_err(|e| e.0)
    }
    fn down(&self) -> BW {
        BW(MpscSender::downgrade(&self.0))
    }
    fn up(w: &BW) -> Option<Self> {
        MpscWeakSender::upgrade(&w.0).map(BTx)
    }
}
impl Rx for BRx {
    async fn take(&mut self) -> Option<u64> {
        MpscReceiver::recv(&mut self.0).await
    }
    fn try_take(&mut self) -> Result<u64, TryRecvError> {
        MpscReceiver::try_recv(&mut self.0)
    }
}

struct UTx(MpscUnboundedSenderOf<C, u64>);
struct URx(MpscUnboundedReceiverOf<C, u64>);
struct UW(MpscUnboundedWeakSenderOf<C, u64>);
impl Clone for UTx {
    fn clone(&self) -> Self {
        UTx(self.0.clone())
    }
}
impl Clone for UW {
    fn clone(&self) -> Self {
        UW(self.0.clone())
    }
}
impl Tx for UTx {
    type W = UW;
    async fn put(&self, v: u64) -> Result<(), u64> {
        MpscUnboundedSender::send(&self.0, v).map_err(|e| e.0)
    }
    fn down(&self) -> UW {
        UW(MpscUnboundedSender::downgrade(&self.0))
    }
    fn up(w: &UW) -> Option<Self> {
        MpscUnboundedWeakSender::upgrade(&w.0).map(UTx)
    }
}
impl Rx for URx {
    async fn take(&mut self) -> Option<u64> {
        MpscUnboundedReceiver::recv(&mut self.0).await
    }
    fn try_take(&mut self) -> Result<u64, TryRecvError> {
        MpscUnboundedReceiver::try_recv(&mut self.0)
    }
}

#[derive(Default)]
struct Sh {
    clock: AtomicU64,
    /// completed sends; never above the real number
    done: AtomicU64,
    /// receives begun; never below the real number of receives
    took: AtomicU64,
    /// never above / never below the real number of strong senders
    low: AtomicI64,
    high: AtomicI64,
    closing: AtomicBool,
    closed: AtomicBool,
    /// value -> (start, end, outcome)
    sends: StdMutex<BTreeMap<u64, (u64, u64, &'static str)>>,
}

async fn producer<T: Tx>(seed: u64, p: u64, m: u64, cap: Option<u64>, tx: T, sh: Arc<Sh>, h: H) {
    let mut r = rng(seed, 1000 + p);
    let kind = if cap.is_some() { "rt.bounded" } else { "rt.unbounded" };
    let mut tx = Some(tx);
    for j in 0..m {
        pause(&mut r).await;
        // give up the strong sender for a while
        if r.gen_range(0..10) == 0 {
            let t = tx.take().unwrap();
            let w = t.down();
            sh.low.fetch_sub(1, SeqCst);
            drop(t);
            sh.high.fetch_sub(1, SeqCst);
            pause(&mut r).await;
            sh.high.fetch_add(1, SeqCst);
            let none_left = sh.high.load(SeqCst) == 1;
            match T::up(&w) {
                Some(t) => {
                    sh.low.fetch_add(1, SeqCst);
                    h.count("weak.upgraded");
                    if none_left {
                        h.viol(kind, format!("producer {}: a weak sender was upgraded after the last sender was dropped", p));
                    }
                    tx = Some(t);
                }
                None => {
                    sh.high.fetch_sub(1, SeqCst);
                    h.count("weak.refused");
                    if sh.low.load(SeqCst) > 0 {
                        h.viol(kind, format!("producer {}: a weak sender could not be upgraded while a sender lives", p));
                    }
                    return;
                }
            }
        }
        // a second handle sends some of the values
        let extra = if r.gen_range(0..8) == 0 {
            sh.high.fetch_add(1, SeqCst);
            let e = tx.as_ref().unwrap().clone();
            sh.low.fetch_add(1, SeqCst);
            Some(e)
        } else {
            None
        };
        let v = p * 1000 + j;
        let was_closed = sh.closed.load(SeqCst);
        let start = sh.clock.fetch_add(1, SeqCst);
        let s = extra.as_ref().or(tx.as_ref()).unwrap();
        let res = if r.gen_range(0..8) == 0 {
            let d = Duration::from_micros(r.gen_range(0..1200));
            C::timeout(d, s.put(v)).await.ok()
        } else if r.gen_range(0..12) == 0 {
            let mut f = pin!(s.put(v));
            match poll_once(f.as_mut()).await {
                Some(x) => Some(x),
                None if r.gen() => None,
                None => Some(f.await),
            }
        } else {
            Some(s.put(v).await)
        };
        let end = sh.clock.fetch_add(1, SeqCst);
        let out = match res {
            Some(Ok(())) => {
                let d = sh.done.fetch_add(1, SeqCst) + 1;
                let t = sh.took.load(SeqCst);
                if let Some(k) = cap {
                    if d > k + t {
                        h.viol(kind, format!("no back-pressure: {} sends completed with capacity {} and {} receives begun", d, k, t));
                    }
                }
                if was_closed {
                    h.viol(kind, format!("producer {}: send succeeded after the receiver was dropped", p));
                }
                "ok"
            }
            Some(Err(x)) => {
                if x != v {
                    h.viol(kind, format!("producer {}: refused value {} came back as {}", p, v, x));
                }
                if !sh.closing.load(SeqCst) {
                    h.viol(kind, format!("producer {}: send refused while the receiver lives", p));
                }
                "refused"
            }
            None => "cancelled",
        };
        h.count(&format!("send.{}", out));
        sh.sends.lock().unwrap().insert(v, (start, end, out));
        if let Some(e) = extra {
            sh.low.fetch_sub(1, SeqCst);
            drop(e);
            sh.high.fetch_sub(1, SeqCst);
        }
        if out == "refused" {
            break;
        }
    }
    sh.low.fetch_sub(1, SeqCst);
    drop(tx);
    sh.high.fetch_sub(1, SeqCst);
}

async fn consumer<R: Rx>(seed: u64, stop: Option<u64>, bounded: bool, rx: R, sh: Arc<Sh>, h: H) -> (Vec<u64>, bool) {
    let mut r = rng(seed, 7);
    let kind = if bounded { "rt.bounded" } else { "rt.unbounded" };
    let mut rx = rx;
    let mut got = vec![];
    let lazy = r.gen_range(0..3) == 0;
    loop {
        if stop == Some(got.len() as u64) {
            sh.closing.store(true, SeqCst);
            drop(rx);
            sh.closed.store(true, SeqCst);
            return (got, false);
        }
        if lazy {
            pause(&mut r).await;
        }
        pause(&mut r).await;
        sh.took.fetch_add(1, SeqCst);
        let x = match r.gen_range(0..6) {
            0 | 1 => {
                let (done, none) = (sh.done.load(SeqCst), sh.high.load(SeqCst) == 0);
                match rx.try_take() {
                    Ok(v) => Some(v),
                    Err(TryRecvError::Empty) => {
                        sh.took.fetch_sub(1, SeqCst);
                        h.count("try_recv.empty");
                        if done > got.len() as u64 {
                            h.viol(kind, format!("try_recv says empty with {} sent and {} received", done, got.len()));
                        }
                        if none {
                            h.viol(kind, "try_recv says empty after the last sender was dropped");
                        }
                        Yield(false).await;
                        continue;
                    }
                    Err(TryRecvError::Disconnected) => None,
                }
            }
            2 => {
                let d = Duration::from_micros(r.gen_range(0..1200));
                match C::timeout(d, rx.take()).await {
                    Ok(x) => x,
                    Err(_) => {
                        sh.took.fetch_sub(1, SeqCst);
                        h.count("recv.cancelled");
                        continue;
                    }
                }
            }
            _ => rx.take().await,
        };
        match x {
            Some(v) => got.push(v),
            None => {
                sh.took.fetch_sub(1, SeqCst);
                let l = sh.low.load(SeqCst);
                if l > 0 {
                    h.viol(kind, format!("the receiver saw the end while {} senders live", l));
                }
                if rx.take().await.is_some() || rx.try_take() != Err(TryRecvError::Disconnected) {
                    h.viol(kind, "the closed channel yields again");
                }
                return (got, true);
            }
        }
    }
}

async fn channel<T: Tx, R: Rx>(seed: u64, h: H, cap: Option<u64>, tx: T, rx: R, r: &mut SmallRng) {
    let kind = if cap.is_some() { "rt.bounded" } else { "rt.unbounded" };
    let p = r.gen_range(1..6u64);
    let m = [1u64, 5, 20, 60][r.gen_range(0..4)];
    let stop = if r.gen_range(0..4) == 0 { Some(r.gen_range(0..=p * m)) } else { None };
    h.log(format!("channel cap={:?} producers={} messages={} stop={:?}", cap, p, m, stop));
    let sh = Arc::new(Sh::default());
    sh.low.store(p as i64, SeqCst);
    sh.high.store(p as i64, SeqCst);
    let mut txs: Vec<T> = (1..p).map(|_| tx.clone()).collect();
    txs.push(tx);
    let mut ps = vec![];
    let consumer_first = r.gen::<bool>();
    let mut cons = None;
    let mut rx = Some(rx);
    if consumer_first {
        cons = Some(C::spawn(consumer(seed, stop, cap.is_some(), rx.take().unwrap(), sh.clone(), h.clone())));
    }
    for (i, t) in txs.into_iter().enumerate() {
        ps.push(C::spawn(producer(seed, i as u64, m, cap, t, sh.clone(), h.clone())));
    }
    if !consumer_first {
        cons = Some(C::spawn(consumer(seed, stop, cap.is_some(), rx.take().unwrap(), sh.clone(), h.clone())));
    }
    for j in ps {
        join(&h, j).await;
    }
    let Some((got, drained)) = join(&h, cons.unwrap()).await else { return };
    let sends = sh.sends.lock().unwrap().clone();
    h.add("channel.received", got.len() as u64);
    h.state(got.iter().fold(kind.len() as u64, |a, v| hash2(a, v / 1000)));
    let mut seen = HashSet::new();
    let mut last: BTreeMap<u64, u64> = BTreeMap::new();
    let mut max_start = 0;
    for v in &got {
        if !seen.insert(*v) {
            h.viol(kind, format!("value {} was delivered twice", v));
        }
        match sends.get(v) {
            Some((s, e, "ok")) => {
                if *e < max_start {
                    h.viol(kind, format!("value {} was overtaken by one whose send began after its own had ended", v));
                }
                max_start = max_start.max(*s);
            }
            o => h.viol(kind, format!("value {} was delivered but its send is {:?}", v, o)),
        }
        if let Some(l) = last.insert(v / 1000, *v) {
            if l > *v {
                h.viol(kind, format!("producer {}: {} delivered after {}", v / 1000, v, l));
            }
        }
    }
    if drained {
        for (v, (_, _, o)) in &sends {
            if *o == "ok" && !seen.contains(v) {
                h.viol(kind, format!("value {} was accepted and never delivered", v));
            }
        }
        h.count("channel.drained");
    } else {
        // what is received from one producer is a prefix of what it had accepted
        for (p, l) in &last {
            for (v, (_, _, o)) in sends.range(p * 1000..*l) {
                if *o == "ok" && !seen.contains(v) {
                    h.viol(kind, format!("value {} was accepted, skipped, and {} delivered", v, l));
                }
            }
        }
        h.count("channel.stopped");
    }
}

async fn bounded(seed: u64, h: H) {
    let mut r = rng(seed, 2);
    let k = [1usize, 1, 2, 3, 8, 64][r.gen_range(0..6)];
    // directed: exactly k sends complete, the next waits, a cancelled one leaves nothing behind
    let (tx, rx) = C::mpsc::<u64>(k);
    let (tx, mut rx) = (BTx(tx), BRx(rx));
    for i in 0..k {
        if tx.put(i as u64).await.is_err() {
            h.viol("rt.bounded", "send refused on an open channel");
        }
    }
    {
        let mut f = pin!(tx.put(1000));
        if poll_once(f.as_mut()).await.is_some() {
            h.viol("rt.bounded", format!("send number {} completed on a full channel of capacity {}", k + 1, k));
        }
    }
    {
        let mut f = pin!(tx.put(2000));
        if poll_once(f.as_mut()).await.is_some() {
            h.viol("rt.bounded", format!("send number {} completed on a full channel of capacity {}", k + 1, k));
        }
        if rx.take().await != Some(0) {
            h.viol("rt.bounded", "first value out is not the first in");
        }
        if f.await.is_err() {
            h.viol("rt.bounded", "waiting send refused after room was made");
        }
    }
    let mut rest = vec![];
    while let Ok(v) = rx.try_take() {
        rest.push(v);
    }
    let want: Vec<u64> = (1..k as u64).chain([2000]).collect();
    if rest != want {
        h.viol("rt.bounded", format!("expected {:?} in the channel, found {:?}", want, rest));
    }
    // a sender waiting for room is released when the receiver goes
    for i in 0..k {
        let _ = tx.put(i as u64).await;
    }
    let t2 = tx.clone();
    let j = C::spawn(async move { t2.put(77).await });
    pause(&mut r).await;
    drop(rx);
    if let Some(x) = join(&h, j).await {
        if x != Err(77) {
            h.viol("rt.bounded", format!("a send waiting when the receiver was dropped returned {:?}", x));
        }
    }
    let (tx, rx) = C::mpsc::<u64>(k);
    channel(seed, h, Some(k as u64), BTx(tx), BRx(rx), &mut r).await;
}

async fn unbounded(seed: u64, h: H) {
    let mut r = rng(seed, 3);
    // directed: many sends complete without any receive
    let (tx, rx) = C::mpsc_unbounded::<u64>();
    let (tx, mut rx) = (UTx(tx), URx(rx));
    let n = r.gen_range(1..300);
    for i in 0..n {
        let mut f = pin!(tx.put(i));
        if poll_once(f.as_mut()).await != Some(Ok(())) {
            h.viol("rt.unbounded", "a send on an open unbounded channel did not complete at once");
        }
    }
    let w = tx.down();
    drop(tx);
    if UTx::up(&w).is_some() {
        h.viol("rt.unbounded", "a weak sender was upgraded after the last sender was dropped");
    }
    for i in 0..n {
        let x = rx.take().await;
        if x != Some(i) {
            h.viol("rt.unbounded", format!("expected {}, received {:?}", i, x));
        }
    }
    if rx.take().await.is_some() {
        h.viol("rt.unbounded", "the drained channel without senders yields a value");
    }
    let (tx, rx) = C::mpsc_unbounded::<u64>();
    channel(seed, h, None, UTx(tx), URx(rx), &mut r).await;
}

// ---- watch

type WTx = WatchSenderOf<C, (u64, u64)>;
type WRx = WatchReceiverOf<C, (u64, u64)>;
type W = WatchOf<C>;

fn wsend(tx: &WTx, v: u64) -> Result<(), (u64, u64)> {
    <WTx as WatchSender<W, (u64, u64)>>::send(tx, (v, !v)).map_err(|e| e.0)
}
fn wmod(tx: &WTx, f: impl FnOnce(&mut (u64, u64)) -> bool) -> bool {
    <WTx as WatchSender<W, (u64, u64)>>::send_if_modified(tx, f)
}
fn wlook(tx: &WTx) -> (u64, u64) {
    let g = <WTx as WatchSender<W, (u64, u64)>>::borrow_watched(tx);
    *g
}
fn rlook(rx: &WRx) -> (u64, u64) {
    let g = <WRx as WatchReceiver<W, (u64, u64)>>::borrow_watched(rx);
    *g
}
async fn changed(rx: &mut WRx) -> bool {
    <WRx as WatchReceiver<W, (u64, u64)>>::changed(rx).await.is_ok()
}

async fn watch(seed: u64, h: H) {
    let mut r = rng(seed, 4);
    // directed
    {
        let (tx, mut rx) = C::watch_channel((0u64, !0u64));
        let mut rx2 = rx.clone();
        if poll_once(pin!(changed(&mut rx))).await.is_some() {
            h.viol("rt.watch", "a change is reported on a fresh channel");
        }
        if wmod(&tx, |_| false) {
            h.viol("rt.watch", "send_if_modified reports a change the closure denied");
        }
        if poll_once(pin!(changed(&mut rx))).await.is_some() {
            h.viol("rt.watch", "an unmodified value woke the receiver");
        }
        let silent = r.gen::<bool>();
        if silent {
            wmod(&tx, |v| {
                *v = (3, !3);
                false
            });
            if poll_once(pin!(changed(&mut rx))).await.is_some() {
                h.viol("rt.watch", "a silent modification woke the receiver");
            }
            if rlook(&rx).0 != 3 || wlook(&tx).0 != 3 {
                h.viol("rt.watch", "a silent modification is not visible");
            }
        }
        let waiter = C::spawn(async move {
            let ok = changed(&mut rx2).await;
            (ok, rlook(&rx2).0)
        });
        pause(&mut r).await;
        if r.gen() {
            if wsend(&tx, 9).is_err() {
                h.viol("rt.watch", "send refused while receivers live");
            }
        } else if !wmod(&tx, |v| {
            *v = (9, !9);
            true
        }) {
            h.viol("rt.watch", "send_if_modified denies the change the closure reported");
        }
        if let Some(x) = join(&h, waiter).await {
            if x != (true, 9) {
                h.viol("rt.watch", format!("the waiting receiver was woken with {:?}", x));
            }
        }
        if wlook(&tx).0 != 9 || rlook(&rx).0 != 9 {
            h.viol("rt.watch", "the value sent is not the value read");
        }
        if !changed(&mut rx).await {
            h.viol("rt.watch", "the change is not reported");
        }
        if poll_once(pin!(changed(&mut rx))).await.is_some() {
            h.viol("rt.watch", "a change is reported twice");
        }
        // the last change is still reported after the sender is gone, then its end
        let late = r.gen::<bool>();
        if late {
            let _ = wsend(&tx, 10);
        }
        drop(tx);
        if late && !changed(&mut rx).await {
            h.viol("rt.watch", "the last change is lost when the sender is dropped");
        }
        if changed(&mut rx).await {
            h.viol("rt.watch", "the dropped sender is reported as a change");
        }
        if rlook(&rx).0 != if late { 10 } else { 9 } {
            h.viol("rt.watch", "the last value is lost when the sender is dropped");
        }
        let (tx, rx) = C::watch_channel((1u64, !1u64));
        drop(rx);
        match wsend(&tx, 2) {
            Ok(()) => h.viol("rt.watch", "send succeeds without receivers"),
            Err(x) if x != (2, !2) => h.viol("rt.watch", "the refused value came back changed"),
            Err(_) => {}
        }
    }
    // one sender, several receivers
    let n = [3u64, 20, 80][r.gen_range(0..3)];
    let k = r.gen_range(1..5u64);
    let (tx, rx) = C::watch_channel((0u64, !0u64));
    let sent = Arc::new(AtomicU64::new(0)); // completed
    let begun = Arc::new(AtomicU64::new(0));
    let over = Arc::new(AtomicBool::new(false));
    h.log(format!("watch sends={} receivers={}", n, k));
    let mut hs = vec![];
    for i in 0..k {
        let mut rx = rx.clone();
        let (sent, begun, over, h) = (sent.clone(), begun.clone(), over.clone(), h.clone());
        let quits = r.gen_range(0..4) == 0;
        hs.push(C::spawn(async move {
            let mut r = rng(seed, 300 + i);
            let (mut last, mut changes) = (0, 0u64);
            let mut hash = 0;
            loop {
                if quits && r.gen_range(0..10) == 0 {
                    return;
                }
                pause(&mut r).await;
                let ok = if r.gen_range(0..4) == 0 {
                    match C::timeout(Duration::from_micros(r.gen_range(0..1000)), changed(&mut rx)).await {
                        Ok(x) => x,
                        Err(_) => continue,
                    }
                } else {
                    changed(&mut rx).await
                };
                let low = sent.load(SeqCst);
                let v = rlook(&rx);
                let high = begun.load(SeqCst);
                if v.1 != !v.0 {
                    h.viol("rt.watch", format!("receiver {} read a torn value {:?}", i, v));
                }
                if v.0 < last || v.0 < low {
                    h.viol("rt.watch", format!("receiver {} read {} after {} and {} had been sent", i, v.0, last, low));
                }
                if v.0 > high {
                    h.viol("rt.watch", format!("receiver {} read {} before it was sent", i, v.0));
                }
                last = v.0;
                hash = hash2(hash, last);
                if ok {
                    changes += 1;
                    if changes > high {
                        h.viol("rt.watch", format!("receiver {} saw {} changes of {}", i, changes, high));
                    }
                } else {
                    h.state(hash);
                    if !over.load(SeqCst) {
                        h.viol("rt.watch", format!("receiver {} saw the end while the sender lives", i));
                    }
                    if last != n {
                        h.viol("rt.watch", format!("receiver {} ended with {} instead of the last value {}", i, last, n));
                    }
                    h.add("watch.changes", changes);
                    return;
                }
            }
        }));
    }
    let keep = rx; // a receiver that never looks
    for v in 1..=n {
        pause(&mut r).await;
        begun.store(v, SeqCst);
        match r.gen_range(0..3) {
            0 => {
                wmod(&tx, |_| false);
                if wsend(&tx, v).is_err() {
                    h.viol("rt.watch", "send refused while a receiver lives");
                }
            }
            1 => {
                if wsend(&tx, v).is_err() {
                    h.viol("rt.watch", "send refused while a receiver lives");
                }
            }
            _ => {
                if !wmod(&tx, |x| {
                    *x = (v, !v);
                    true
                }) {
                    h.viol("rt.watch", "send_if_modified denies the change the closure reported");
                }
            }
        }
        sent.store(v, SeqCst);
        if wlook(&tx) != (v, !v) || rlook(&keep) != (v, !v) {
            h.viol("rt.watch", format!("value {} is not visible after it was sent", v));
        }
    }
    pause(&mut r).await;
    over.store(true, SeqCst);
    drop(tx);
    for j in hs {
        join(&h, j).await;
    }
    h.add("watch.sent", n);
}

// ---- mutex

async fn mutex(seed: u64, h: H) {
    let mut r = rng(seed, 5);
    let m: Arc<MutexOf<C, (u64, Vec<u64>)>> = Arc::new(C::mutex((0u64, Vec::new())));
    // directed: held means pending; a cancelled waiter takes nothing along
    {
        let g = RtMutex::lock(&*m).await;
        let mut f = pin!(RtMutex::lock(&*m));
        if poll_once(f.as_mut()).await.is_some() {
            h.viol("rt.mutex", "a held mutex was locked again");
        }
        let mut f2 = Box::pin(RtMutex::lock(&*m));
        let _ = poll_once(f2.as_mut()).await;
        drop(f2);
        drop(g);
        drop(f.await);
    }
    let n = r.gen_range(2..7u64);
    let k = r.gen_range(1..30u64);
    h.log(format!("mutex tasks={} rounds={}", n, k));
    let inside = Arc::new(AtomicBool::new(false));
    let total = Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    for i in 0..n {
        let (m, inside, total, h) = (m.clone(), inside.clone(), total.clone(), h.clone());
        hs.push(C::spawn(async move {
            let mut r = rng(seed, 400 + i);
            for _ in 0..k {
                pause(&mut r).await;
                let g = if r.gen_range(0..6) == 0 {
                    match C::timeout(Duration::from_micros(r.gen_range(0..600)), RtMutex::lock(&*m)).await {
                        Ok(g) => Some(g),
                        Err(_) => None,
                    }
                } else {
                    Some(RtMutex::lock(&*m).await)
                };
                let Some(mut g) = g else {
                    h.count("mutex.cancelled");
                    continue;
                };
                if inside.swap(true, SeqCst) {
                    h.viol("rt.mutex", "two tasks hold the mutex");
                }
                let x = g.0;
                pause(&mut r).await;
                g.0 = x + 1;
                g.1.push(i);
                total.fetch_add(1, SeqCst);
                inside.store(false, SeqCst);
                drop(g);
                h.count("mutex.held");
            }
        }));
    }
    for j in hs {
        join(&h, j).await;
    }
    let g = RtMutex::lock(&*m).await;
    if g.0 != total.load(SeqCst) {
        h.viol("rt.mutex", format!("{} increments under the mutex left {}", total.load(SeqCst), g.0));
    }
    h.state(g.1.iter().fold(9, |a, v| hash2(a, *v)));
}

// ---- time

async fn timer(seed: u64, h: H) {
    let mut r = rng(seed, 6);
    // arithmetic of instants
    let t = <InstantOf<C> as Instant>::now();
    let (a, b) = (Duration::from_nanos(r.gen_range(0..5_000_000_000)), Duration::from_nanos(r.gen_range(1..3_000_000_000)));
    let mut x = t + a;
    let bad = |w: &str| h.viol("rt.instant", format!("{} with {:?} {:?}", w, a, b));
    if x - t != a || x < t || (x > t) != (a > Duration::ZERO) {
        bad("adding");
    }
    if (x + b) - b != x || (x + b) <= x {
        bad("adding and subtracting");
    }
    x += b;
    if x - t != a + b {
        bad("add-assign");
    }
    x -= b;
    if x != t + a {
        bad("sub-assign");
    }
    if x.saturating_duration_since(t) != a || t.saturating_duration_since(x + b) != Duration::ZERO {
        bad("saturating_duration_since");
    }
    if (t + Duration::from_secs(1000)).elapsed() != Duration::ZERO {
        bad("elapsed of a later instant");
    }
    let e = t.elapsed();
    let n2 = C::now();
    if n2 < t || e > n2 - t {
        bad("now or elapsed");
    }
    let n = r.gen_range(3..16u64);
    h.log(format!("timer tasks={}", n));
    let mut hs = vec![];
    for i in 0..n {
        let h = h.clone();
        hs.push(C::spawn(async move {
            let mut r = rng(seed, 500 + i);
            for _ in 0..r.gen_range(1..4) {
                let us = [0u64, 1, 999, 1000, 1001, r.gen_range(0..9000), r.gen_range(0..30000)][r.gen_range(0..7)];
                let d = Duration::from_micros(us);
                let (t, w) = (C::now(), std::time::Instant::now());
                let what = r.gen_range(0..12);
                h.count(&format!("timer.kind{}", what));
                match what {
                    0 | 1 => {
                        C::sleep(d).await;
                        if w.elapsed() < d {
                            h.viol("rt.sleep", format!("sleep({:?}) ended after {:?}", d, w.elapsed()));
                        }
                        if C::now() < t + d || t.elapsed() < d {
                            h.viol("rt.sleep", format!("sleep({:?}) ended before its time on the runtime's clock", d));
                        }
                    }
                    2 | 3 => {
                        let at = t + d;
                        C::sleep_until(at).await;
                        if C::now() < at {
                            h.viol("rt.sleep", format!("sleep_until {:?} ahead ended early", d));
                        }
                    }
                    4 => {
                        // in the past
                        C::sleep_until(t - d).await;
                        C::sleep_until(t).await;
                    }
                    5 => match C::timeout(d, async { 7u64 }).await {
                        Ok(7) => {}
                        x => h.viol("rt.timeout", format!("timeout({:?}) of a ready future gave {:?}", d, x.ok())),
                    },
                    6 => match C::timeout_at(t - d, async { 8u64 }).await {
                        Ok(8) => {}
                        x => h.viol("rt.timeout", format!("timeout_at in the past of a ready future gave {:?}", x.ok())),
                    },
                    7 => {
                        if C::timeout(d, std::future::pending::<()>()).await.is_ok() {
                            h.viol("rt.timeout", "a pending future finished");
                        }
                        if w.elapsed() < d || C::now() < t + d {
                            h.viol("rt.timeout", format!("timeout({:?}) fired after {:?}", d, w.elapsed()));
                        }
                    }
                    8 => {
                        let at = t + d;
                        if C::timeout_at(at, std::future::pending::<()>()).await.is_ok() {
                            h.viol("rt.timeout", "a pending future finished");
                        }
                        if C::now() < at {
                            h.viol("rt.timeout", format!("timeout_at {:?} ahead fired early", d));
                        }
                        if C::timeout_at(t - d, std::future::pending::<()>()).await.is_ok() {
                            h.viol("rt.timeout", "a pending future finished");
                        }
                    }
                    9 => {
                        // the inner future is in time by far
                        let x = C::timeout(Duration::from_secs(600), async {
                            C::sleep(d).await;
                            9u64
                        })
                        .await;
                        if x.ok() != Some(9) || w.elapsed() < d {
                            h.viol("rt.timeout", "a future in time was cut off");
                        }
                    }
                    10 => {
                        // the inner future is late by far, and is dropped with the timeout
                        let gone = Arc::new(AtomicBool::new(false));
                        struct G(Arc<AtomicBool>);
                        impl Drop for G {
                            fn drop(&mut self) {
                                self.0.store(true, SeqCst)
                            }
                        }
                        let g = G(gone.clone());
                        let x = C::timeout(d, async move {
                            let _g = g;
                            C::sleep(Duration::from_secs(600)).await;
                        })
                        .await;
                        if x.is_ok() {
                            h.viol("rt.timeout", "a late future was waited for");
                        }
                        if w.elapsed() < d {
                            h.viol("rt.timeout", "a timeout fired early");
                        }
                        if !gone.load(SeqCst) {
                            h.viol("rt.timeout", "the cut-off future lives on");
                        }
                    }
                    _ => {
                        // a dropped sleep disturbs nobody
                        let s = C::sleep(d);
                        let mut s = Box::pin(s);
                        let _ = poll_once(s.as_mut()).await;
                        drop(s);
                    }
                }
                h.count("timer.done");
            }
        }));
    }
    for j in hs {
        join(&h, j).await;
    }
}

// ---- tasks

async fn spawn(seed: u64, h: H) {
    let mut r = rng(seed, 8);
    let n = r.gen_range(2..20u64);
    let ran = Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    let mut detached = 0;
    h.log(format!("spawn tasks={}", n));
    for i in 0..n {
        let ran = ran.clone();
        let boom = crate::PANICS && r.gen_range(0..6) == 0;
        let nest = r.gen_range(0..3) == 0;
        let h2 = h.clone();
        let j = C::spawn(async move {
            let mut r = rng(seed, 600 + i);
            pause(&mut r).await;
            let add = if nest {
                let ran = ran.clone();
                let j = C::spawn(async move {
                    Yield(false).await;
                    ran.fetch_add(1, SeqCst);
                    i * 3
                });
                join(&h2, j).await.unwrap_or(0)
            } else {
                0
            };
            pause(&mut r).await;
            ran.fetch_add(1, SeqCst);
            if boom {
                panic!("planned");
            }
            i * 7 + add
        });
        let total = 1 + nest as u64;
        if r.gen_range(0..4) == 0 {
            drop(j); // detached: it still runs
            detached += total;
            continue;
        }
        hs.push((i, boom, nest, j));
        detached += total;
    }
    for (i, boom, nest, j) in hs {
        match j.await {
            Ok(v) => {
                let want = i * 7 + if nest { i * 3 } else { 0 };
                if boom {
                    h.viol("rt.join", format!("task {} panicked and its handle yields a value", i));
                } else if v != want {
                    h.viol("rt.join", format!("task {} returned {} and its handle yields {}", i, want, v));
                }
                h.count("spawn.joined");
            }
            Err(e) => {
                if !boom {
                    h.viol("rt.join", format!("task {} ended normally and its handle reports {}", i, e));
                } else if !crate::join_panicked(&e) {
                    h.viol("rt.join", format!("task {} panicked and its handle reports {}", i, e));
                }
                h.count("spawn.panicked");
            }
        }
    }
    // every task runs, the detached ones too
    let t = C::now();
    while ran.load(SeqCst) != detached {
        C::sleep(Duration::from_millis(1)).await;
        if t.elapsed() > HANG / 2 {
            h.viol("rt.spawn", format!("{} of {} tasks ran", ran.load(SeqCst), detached));
            return;
        }
    }
    h.add("spawn.ran", detached);
    let mut rng = <<C as openraft::RaftTypeConfig>::AsyncRuntime as AsyncRuntime>::thread_rng();
    let xs: HashSet<u64> = (0..4).map(|_| rng.gen()).collect();
    if xs.len() == 1 {
        h.viol("rt.rng", "the random numbers do not vary");
    }
}

// ---- an actor as the library uses the runtime: requests with one-shot answers, a watch, a tick, a shutdown

async fn actor(seed: u64, h: H) {
    let mut r = rng(seed, 9);
    let clients = r.gen_range(1..6u64);
    let per = r.gen_range(1..25u64);
    let bounded = r.gen::<bool>();
    h.log(format!("actor clients={} requests={} bounded={}", clients, per, bounded));
    type Req = (u64, OneshotSenderOf<C, (u64, u64)>);
    let (tx, mut rx) = C::mpsc_unbounded::<Req>();
    let (btx, mut brx) = C::mpsc::<Req>(2);
    let (wtx, wrx) = C::watch_channel((0u64, !0u64));
    let (stop_tx, stop_rx) = C::oneshot::<u64>();
    let h2 = h.clone();
    let core = C::spawn(async move {
        let mut r = rng(seed, 700);
        let mut served = 0u64;
        let mut open = [true, true];
        while open[0] || open[1] {
            let which = if open[0] && open[1] { r.gen_range(0..2usize) } else { open[1] as usize };
            let got = if which == 0 {
                if open[1] {
                    C::timeout(Duration::from_micros(r.gen_range(0..400)), MpscUnboundedReceiver::recv(&mut rx)).await
                } else {
                    Ok(MpscUnboundedReceiver::recv(&mut rx).await)
                }
            } else if open[0] {
                C::timeout(Duration::from_micros(r.gen_range(0..400)), MpscReceiver::recv(&mut brx)).await
            } else {
                Ok(MpscReceiver::recv(&mut brx).await)
            };
            match got {
                Err(_) => {}
                Ok(None) => open[which] = false,
                Ok(Some((x, ans))) => {
                    served += 1;
                    let _ = wsend(&wtx, served);
                    match OneshotSender::send(ans, (x, served)) {
                        Ok(()) => {}
                        Err((y, _)) => {
                            if y != x {
                                h2.viol("rt.oneshot", "the refused answer came back changed");
                            }
                            h2.count("actor.unwanted");
                        }
                    }
                }
            }
        }
        let _ = OneshotSender::send(stop_tx, served);
        served
    });
    let mut hs = vec![];
    for i in 0..clients {
        let (h, wrx) = (h.clone(), wrx.clone());
        let (tx, btx) = (tx.clone(), btx.clone());
        hs.push(C::spawn(async move {
            let mut r = rng(seed, 800 + i);
            let mut last = 0;
            for j in 0..per {
                pause(&mut r).await;
                let (atx, arx) = C::oneshot();
                let x = i * 1000 + j;
                let ok = if bounded && r.gen() {
                    MpscSender::send(&btx, (x, atx)).await.is_ok()
                } else {
                    MpscUnboundedSender::send(&tx, (x, atx)).is_ok()
                };
                if !ok {
                    h.viol("rt.actor", "request refused while the server lives");
                    return (per, last);
                }
                let ans = if r.gen_range(0..8) == 0 {
                    C::timeout(Duration::from_micros(r.gen_range(0..300)), arx).await.ok()
                } else {
                    Some(arx.await)
                };
                match ans {
                    None => h.count("actor.given_up"),
                    Some(Ok((y, n))) => {
                        let seen = rlook(&wrx).0;
                        if y != x || n <= last || seen < n {
                            h.viol("rt.actor", format!("request {}: answer ({}, {}) after {} with {} on the watch", x, y, n, last, seen));
                        }
                        last = n;
                        h.count("actor.answered");
                    }
                    Some(Err(_)) => h.viol("rt.actor", format!("request {} was dropped unanswered", x)),
                }
            }
            (per, last)
        }));
    }
    drop((tx, btx));
    let mut total = 0;
    for j in hs {
        total += join(&h, j).await.map(|x| x.0).unwrap_or(0);
    }
    let served = join(&h, core).await.unwrap_or(0);
    if served != total {
        h.viol("rt.actor", format!("{} requests were accepted and {} served", total, served));
    }
    if stop_rx.await.ok() != Some(served) {
        h.viol("rt.actor", "the closing message is lost");
    }
    if rlook(&wrx).0 != served {
        h.viol("rt.actor", "the watch does not show the last value");
    }
    h.state(hash_str(&format!("{} {}", served, total)));
}
