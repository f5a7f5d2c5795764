//! Deterministic single-threaded async runtime with virtual time, implementing openraft's
//! `AsyncRuntime`. Tasks carry a node tag: a tag can be killed (crash) or paused (stall).

use std::cell::Cell;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::collections::BinaryHeap;
use std::cmp::Reverse;
use std::fmt;
use std::future::Future;
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::Mutex;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

use openraft::AsyncRuntime;
use openraft::OptionalSend;
use openraft::TokioRuntime;
use rand::rngs::SmallRng;
use rand::Rng;
use rand::RngCore;
use rand::SeedableRng;

/// Tag of tasks that belong to the harness (clients, network, faults).
pub const TAG_HARNESS: u64 = 0;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sched {
    /// uniformly random ready task
    Random,
    /// oldest task id first (close to FIFO) with rare random picks
    Mostly,
    /// random priority per task, re-drawn at change points
    Prio,
}

struct Task {
    fut: Option<Pin<Box<dyn Future<Output = ()> + Send>>>,
    tag: u64,
    prio: u32,
    waker: Waker,
}

struct WakeHandle {
    id: u64,
    q: Arc<Mutex<Vec<u64>>>,
}

impl Wake for WakeHandle {
    fn wake(self: Arc<Self>) {
        self.q.lock().unwrap().push(self.id);
    }
}

pub struct PanicInfo {
    pub tag: u64,
    pub at: u64,
    pub msg: String,
}

struct Exec {
    now: Cell<u64>,
    next_id: Cell<u64>,
    polls: Cell<u64>,
    tasks: RefCell<BTreeMap<u64, Task>>,
    ready: RefCell<BTreeSet<u64>>,
    paused_ready: RefCell<BTreeSet<u64>>,
    wakes: Arc<Mutex<Vec<u64>>>,
    timers: RefCell<BinaryHeap<Reverse<(u64, u64)>>>,
    timer_wakers: RefCell<BTreeMap<u64, Waker>>,
    timer_seq: Cell<u64>,
    rng: RefCell<SmallRng>,
    sched: Cell<Sched>,
    cur: Cell<u64>,
    cur_tag: Cell<u64>,
    dead: RefCell<BTreeSet<u64>>,
    paused: RefCell<BTreeSet<u64>>,
    panics: RefCell<Vec<PanicInfo>>,
    sig: Cell<u64>,
}

thread_local! {
    static EXEC: RefCell<Option<std::rc::Rc<Exec>>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn exec() -> std::rc::Rc<Exec> {
    EXEC.with(|e| e.borrow().as_ref().expect("sim executor not running").clone())
}

pub fn install_panic_hook(verbose: bool) {
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let text = format!("{} at {}", msg, loc);
        if verbose {
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            let lines: Vec<&str> = bt.lines().filter(|l| l.contains("/repo/")).map(|l| l.trim()).take(12).collect();
            let _ = PANIC_BT.try_with(|p| *p.borrow_mut() = lines.join(" | "));
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(text));
    }));
}

thread_local! {
    static PANIC_BT: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn panic_bt() -> String {
    PANIC_BT.with(|p| p.borrow().clone())
}

pub fn take_last_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

pub fn now_ns() -> u64 {
    exec().now.get()
}
pub fn now_ms() -> u64 {
    now_ns() / 1_000_000
}
pub fn polls() -> u64 {
    exec().polls.get()
}
pub fn sig() -> u64 {
    exec().sig.get()
}
pub fn cur_tag() -> u64 {
    EXEC.with(|e| e.borrow().as_ref().map(|x| x.cur_tag.get()).unwrap_or(0))
}
pub fn set_sched(s: Sched) {
    exec().sched.set(s)
}
pub fn rng_u64() -> u64 {
    exec().rng.borrow_mut().next_u64()
}
/// uniform in lo..=hi
pub fn range(lo: u64, hi: u64) -> u64 {
    if hi <= lo {
        return lo;
    }
    exec().rng.borrow_mut().gen_range(lo..=hi)
}
pub fn chance(p: f64) -> bool {
    if p <= 0.0 {
        return false;
    }
    exec().rng.borrow_mut().gen_bool(p.min(1.0))
}
pub fn pick<T: Clone>(v: &[T]) -> T {
    v[range(0, v.len() as u64 - 1) as usize].clone()
}

pub fn is_dead(tag: u64) -> bool {
    exec().dead.borrow().contains(&tag)
}

/// Kill all tasks with the tag: futures are dropped where they stand.
pub fn kill_tag(tag: u64) {
    let ex = exec();
    ex.dead.borrow_mut().insert(tag);
    ex.paused.borrow_mut().remove(&tag);
    loop {
        let victim = ex.tasks.borrow().iter().find(|(id, t)| t.tag == tag && **id != ex.cur.get()).map(|(id, _)| *id);
        let Some(id) = victim else { break };
        let t = ex.tasks.borrow_mut().remove(&id);
        ex.ready.borrow_mut().remove(&id);
        ex.paused_ready.borrow_mut().remove(&id);
        let saved = ex.cur_tag.get();
        ex.cur_tag.set(tag);
        drop(t);
        ex.cur_tag.set(saved);
    }
}

pub fn pause_tag(tag: u64) {
    exec().paused.borrow_mut().insert(tag);
}
pub fn resume_tag(tag: u64) {
    let ex = exec();
    ex.paused.borrow_mut().remove(&tag);
    let mut pr = ex.paused_ready.borrow_mut();
    let all: Vec<u64> = pr.iter().copied().collect();
    pr.clear();
    drop(pr);
    ex.ready.borrow_mut().extend(all);
}

pub fn live_tasks(tag: u64) -> usize {
    exec().tasks.borrow().values().filter(|t| t.tag == tag).count()
}

pub fn take_panics() -> Vec<PanicInfo> {
    std::mem::take(&mut *exec().panics.borrow_mut())
}

#[derive(Debug)]
pub enum SimJoinError {
    Cancelled,
    Panic,
}
impl fmt::Display for SimJoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}

struct JoinState<T> {
    res: Option<Result<T, SimJoinError>>,
    done: bool,
    waker: Option<Waker>,
}

pub struct JoinHandle<T> {
    st: Arc<Mutex<JoinState<T>>>,
}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, SimJoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut st = self.st.lock().unwrap();
        if let Some(r) = st.res.take() {
            return Poll::Ready(r);
        }
        if st.done {
            return Poll::Ready(Err(SimJoinError::Cancelled));
        }
        st.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

struct Wrapper<F: Future> {
    fut: Pin<Box<F>>,
    st: Arc<Mutex<JoinState<F::Output>>>,
    tag: u64,
}

impl<F: Future> Future for Wrapper<F> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let this = &mut *self;
        let r = std::panic::catch_unwind(AssertUnwindSafe(|| this.fut.as_mut().poll(cx)));
        let res = match r {
            Ok(Poll::Pending) => return Poll::Pending,
            Ok(Poll::Ready(x)) => Ok(x),
            Err(_) => {
                let msg = take_last_panic().unwrap_or_default();
                let ex = exec();
                ex.panics.borrow_mut().push(PanicInfo { tag: this.tag, at: ex.now.get(), msg });
                Err(SimJoinError::Panic)
            }
        };
        let mut st = this.st.lock().unwrap();
        st.res = Some(res);
        st.done = true;
        if let Some(w) = st.waker.take() {
            w.wake();
        }
        Poll::Ready(())
    }
}

impl<F: Future> Drop for Wrapper<F> {
    fn drop(&mut self) {
        let mut st = self.st.lock().unwrap();
        if !st.done {
            st.done = true;
            if let Some(w) = st.waker.take() {
                w.wake();
            }
        }
    }
}

pub fn spawn_on<F>(tag: u64, fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let st = Arc::new(Mutex::new(JoinState { res: None, done: false, waker: None }));
    let ex = exec();
    let w = Wrapper { fut: Box::pin(fut), st: st.clone(), tag };
    if ex.dead.borrow().contains(&tag) {
        drop(w);
        return JoinHandle { st };
    }
    let id = ex.next_id.get();
    ex.next_id.set(id + 1);
    let waker = Waker::from(Arc::new(WakeHandle { id, q: ex.wakes.clone() }));
    let prio = ex.rng.borrow_mut().gen::<u32>();
    ex.tasks.borrow_mut().insert(id, Task { fut: Some(Box::pin(w)), tag, prio, waker });
    ex.ready.borrow_mut().insert(id);
    JoinHandle { st }
}

pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn_on(cur_tag(), fut)
}

pub fn spawn_harness<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn_on(TAG_HARNESS, fut)
}

pub struct Sleep {
    at: u64,
    key: Option<u64>,
}

impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let ex = exec();
        if ex.now.get() >= self.at {
            return Poll::Ready(());
        }
        let key = match self.key {
            Some(k) => k,
            None => {
                let k = ex.timer_seq.get();
                ex.timer_seq.set(k + 1);
                ex.timers.borrow_mut().push(Reverse((self.at, k)));
                self.key = Some(k);
                k
            }
        };
        ex.timer_wakers.borrow_mut().insert(key, cx.waker().clone());
        Poll::Pending
    }
}

impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(k) = self.key {
            EXEC.with(|e| {
                if let Some(ex) = e.borrow().as_ref() {
                    ex.timer_wakers.borrow_mut().remove(&k);
                }
            });
        }
    }
}

pub fn sleep(d: Duration) -> Sleep {
    let at = now_ns().saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64);
    Sleep { at, key: None }
}
pub fn sleep_us(us: u64) -> Sleep {
    sleep(Duration::from_micros(us))
}
pub fn sleep_ms(ms: u64) -> Sleep {
    sleep(Duration::from_millis(ms))
}

pub async fn yield_now() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                return Poll::Ready(());
            }
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
    Y(false).await
}

/// Random suspension: sometimes nothing, sometimes a yield, sometimes a delay up to max_us.
pub async fn jitter(max_us: u64) {
    match range(0, 3) {
        0 => {}
        1 => yield_now().await,
        _ => {
            if max_us > 0 {
                sleep_us(range(1, max_us)).await
            }
        }
    }
}

#[derive(Debug)]
pub struct Elapsed;
impl fmt::Display for Elapsed {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "sim timeout elapsed")
    }
}

pub struct Timeout<T> {
    fut: Pin<Box<T>>,
    sleep: Sleep,
}

impl<T: Future> Future for Timeout<T> {
    type Output = Result<T::Output, Elapsed>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Poll::Ready(x) = self.fut.as_mut().poll(cx) {
            return Poll::Ready(Ok(x));
        }
        if Pin::new(&mut self.sleep).poll(cx).is_ready() {
            return Poll::Ready(Err(Elapsed));
        }
        Poll::Pending
    }
}

pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> {
    Timeout { fut: Box::pin(f), sleep: sleep(d) }
}
pub fn timeout_ms<F: Future>(ms: u64, f: F) -> Timeout<F> {
    timeout(Duration::from_millis(ms), f)
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SimInstant(pub u64);

impl fmt::Debug for SimInstant {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}us", self.0 / 1000)
    }
}
fn ns(d: Duration) -> u64 {
    d.as_nanos().min(u64::MAX as u128 / 4) as u64
}
impl Add<Duration> for SimInstant {
    type Output = Self;
    fn add(self, d: Duration) -> Self {
        SimInstant(self.0.saturating_add(ns(d)))
    }
}
impl AddAssign<Duration> for SimInstant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl Sub<Duration> for SimInstant {
    type Output = Self;
    fn sub(self, d: Duration) -> Self {
        SimInstant(self.0.saturating_sub(ns(d)))
    }
}
impl Sub<SimInstant> for SimInstant {
    type Output = Duration;
    fn sub(self, o: Self) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
}
impl SubAssign<Duration> for SimInstant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d
    }
}
impl openraft::Instant for SimInstant {
    fn now() -> Self {
        SimInstant(now_ns())
    }
}

/// Rng handed to openraft: draws from the executor's seeded generator.
pub struct SimRng;
impl RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        rng_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        rng_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        exec().rng.borrow_mut().fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

#[derive(Debug, Default, PartialEq, Eq)]
pub struct SimRuntime;

impl AsyncRuntime for SimRuntime {
    type JoinError = SimJoinError;
    type JoinHandle<T: OptionalSend + 'static> = JoinHandle<T>;
    type Sleep = Sleep;
    type Instant = SimInstant;
    type TimeoutError = Elapsed;
    type Timeout<R, T: Future<Output = R> + OptionalSend> = Timeout<T>;
    type ThreadLocalRng = SimRng;

    fn spawn<T>(future: T) -> Self::JoinHandle<T::Output>
    where
        T: Future + OptionalSend + 'static,
        T::Output: OptionalSend + 'static,
    {
        spawn(future)
    }
    fn sleep(duration: Duration) -> Self::Sleep {
        sleep(duration)
    }
    fn sleep_until(deadline: Self::Instant) -> Self::Sleep {
        Sleep { at: deadline.0, key: None }
    }
    fn timeout<R, F: Future<Output = R> + OptionalSend>(duration: Duration, future: F) -> Self::Timeout<R, F> {
        timeout(duration, future)
    }
    fn timeout_at<R, F: Future<Output = R> + OptionalSend>(deadline: Self::Instant, future: F) -> Self::Timeout<R, F> {
        Timeout { fut: Box::pin(future), sleep: Sleep { at: deadline.0, key: None } }
    }
    fn is_panic(join_error: &Self::JoinError) -> bool {
        matches!(join_error, SimJoinError::Panic)
    }
    fn thread_rng() -> Self::ThreadLocalRng {
        SimRng
    }
    type Mpsc = <TokioRuntime as AsyncRuntime>::Mpsc;
    type MpscUnbounded = <TokioRuntime as AsyncRuntime>::MpscUnbounded;
    type Watch = <TokioRuntime as AsyncRuntime>::Watch;
    type Oneshot = <TokioRuntime as AsyncRuntime>::Oneshot;
    type Mutex<T: OptionalSend + 'static> = <TokioRuntime as AsyncRuntime>::Mutex<T>;
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum End {
    Done,
    PollLimit,
    Deadlock,
    WallLimit,
}

/// Run `main` to completion under the given seed.
pub fn run<F>(seed: u64, sched: Sched, max_polls: u64, wall: Duration, main: F) -> End
where F: Future<Output = ()> + Send + 'static {
    let ex = std::rc::Rc::new(Exec {
        now: Cell::new(1_000_000_000),
        next_id: Cell::new(1),
        polls: Cell::new(0),
        tasks: Default::default(),
        ready: Default::default(),
        paused_ready: Default::default(),
        wakes: Default::default(),
        timers: Default::default(),
        timer_wakers: Default::default(),
        timer_seq: Cell::new(0),
        rng: RefCell::new(SmallRng::seed_from_u64(seed)),
        sched: Cell::new(sched),
        cur: Cell::new(0),
        cur_tag: Cell::new(0),
        dead: Default::default(),
        paused: Default::default(),
        panics: Default::default(),
        sig: Cell::new(0xcbf29ce484222325),
    });
    EXEC.with(|e| *e.borrow_mut() = Some(ex.clone()));
    let main = spawn_harness(main);
    let t0 = std::time::Instant::now();
    let end = loop {
        // collect wakes
        {
            let mut w = ex.wakes.lock().unwrap();
            let mut ready = ex.ready.borrow_mut();
            let tasks = ex.tasks.borrow();
            for id in w.drain(..) {
                if tasks.contains_key(&id) {
                    ready.insert(id);
                }
            }
        }
        if main.st.lock().unwrap().done {
            break End::Done;
        }
        let n = ex.ready.borrow().len();
        if n == 0 {
            // advance to the next timer
            let mut fired = false;
            loop {
                let top = ex.timers.borrow_mut().pop();
                let Some(Reverse((at, key))) = top else { break };
                let w = ex.timer_wakers.borrow_mut().remove(&key);
                if let Some(w) = w {
                    if at > ex.now.get() {
                        ex.now.set(at);
                    }
                    w.wake();
                    fired = true;
                    break;
                }
            }
            if !fired {
                break End::Deadlock;
            }
            continue;
        }
        // also fire timers that are due
        loop {
            let due = matches!(ex.timers.borrow().peek(), Some(Reverse((at, _))) if *at <= ex.now.get());
            if !due {
                break;
            }
            let Reverse((_, key)) = ex.timers.borrow_mut().pop().unwrap();
            let w = ex.timer_wakers.borrow_mut().remove(&key);
            if let Some(w) = w {
                w.wake();
            }
        }
        let id = {
            let ready = ex.ready.borrow();
            match ex.sched.get() {
                Sched::Random => *ready.iter().nth(range_ix(&ex, n)).unwrap(),
                Sched::Mostly => {
                    if ex.rng.borrow_mut().gen_bool(0.1) {
                        *ready.iter().nth(range_ix(&ex, n)).unwrap()
                    } else {
                        *ready.iter().next().unwrap()
                    }
                }
                Sched::Prio => {
                    if ex.rng.borrow_mut().gen_bool(0.02) {
                        // change point: redraw one priority
                        let k = *ready.iter().nth(range_ix(&ex, n)).unwrap();
                        let p = ex.rng.borrow_mut().gen::<u32>();
                        if let Some(t) = ex.tasks.borrow_mut().get_mut(&k) {
                            t.prio = p;
                        }
                    }
                    let tasks = ex.tasks.borrow();
                    *ready.iter().max_by_key(|i| tasks.get(i).map(|t| t.prio).unwrap_or(0)).unwrap()
                }
            }
        };
        ex.ready.borrow_mut().remove(&id);
        let (mut fut, tag, waker) = {
            let mut tasks = ex.tasks.borrow_mut();
            let Some(t) = tasks.get_mut(&id) else { continue };
            if ex.paused.borrow().contains(&t.tag) {
                ex.paused_ready.borrow_mut().insert(id);
                continue;
            }
            (t.fut.take().unwrap(), t.tag, t.waker.clone())
        };
        ex.cur.set(id);
        ex.cur_tag.set(tag);
        let p = ex.polls.get() + 1;
        ex.polls.set(p);
        ex.sig.set((ex.sig.get() ^ (tag << 32 | n as u64)).wrapping_mul(0x100000001b3));
        // every step takes a little virtual time
        let step = ex.rng.borrow_mut().gen_range(200..3000u64);
        ex.now.set(ex.now.get() + step);
        let mut cx = Context::from_waker(&waker);
        let r = fut.as_mut().poll(&mut cx);
        if r.is_ready() || ex.dead.borrow().contains(&tag) {
            ex.tasks.borrow_mut().remove(&id);
            drop(fut);
        } else if let Some(t) = ex.tasks.borrow_mut().get_mut(&id) {
            t.fut = Some(fut);
        }
        ex.cur.set(0);
        ex.cur_tag.set(0);
        if p >= max_polls {
            break End::PollLimit;
        }
        if p % 4096 == 0 && t0.elapsed() > wall {
            break End::WallLimit;
        }
    };
    end
}

/// Tear down all tasks (after results were taken).
pub fn teardown() {
    let ex = exec();
    let all: Vec<u64> = ex.tasks.borrow().keys().copied().collect();
    for id in all {
        let t = ex.tasks.borrow_mut().remove(&id);
        drop(t);
    }
    EXEC.with(|e| *e.borrow_mut() = None);
}

fn range_ix(ex: &Exec, n: usize) -> usize {
    ex.rng.borrow_mut().gen_range(0..n)
}
