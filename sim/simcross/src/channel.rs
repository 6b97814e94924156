use crossbeam_channel as cc;
pub use cc::{
    RecvError, RecvTimeoutError, SendError, SendTimeoutError, TryRecvError, TrySendError,
};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

struct Env<T> {
    label: u32,
    msg: T,
}

struct Chan {
    id: u64,
    seq: AtomicU64,
    /// How often the waiting threads have been woken
    woken: AtomicU64,
}

fn wake(c: &Chan) {
    c.woken.fetch_add(1, Ordering::SeqCst);
    simrt::wake(key(c));
}

/// Observer of message receptions: (channel, sender's label, receiver's label).
pub static mut ON_RECV: Option<fn(u64, u32, u32)> = None;
/// Observer of sends: (channel, sender's label, queue length after, capacity or MAX).
pub static mut ON_SEND: Option<fn(u64, u32, usize, usize)> = None;

static NEXT: AtomicU64 = AtomicU64::new(1);

fn key(c: &Chan) -> simrt::Key {
    simrt::Key::Chan(c.id)
}

pub struct Sender<T> {
    c: Arc<Chan>,
    tx: Option<cc::Sender<Env<T>>>,
}

pub struct Receiver<T> {
    c: Arc<Chan>,
    rx: Option<cc::Receiver<Env<T>>>,
}

fn pair<T>(tx: cc::Sender<Env<T>>, rx: cc::Receiver<Env<T>>) -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Chan {
        id: NEXT.fetch_add(1, Ordering::Relaxed),
        seq: AtomicU64::new(0),
        woken: AtomicU64::new(0),
    });
    (
        Sender {
            c: c.clone(),
            tx: Some(tx),
        },
        Receiver { c, rx: Some(rx) },
    )
}

pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    let (a, b) = cc::unbounded();
    pair(a, b)
}

pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    let (a, b) = cc::bounded(cap);
    pair(a, b)
}

impl<T> Sender<T> {
    fn tx(&self) -> &cc::Sender<Env<T>> {
        self.tx.as_ref().unwrap()
    }
    fn sent(&self) {
        self.c.seq.fetch_add(1, Ordering::Relaxed);
        unsafe {
            if let Some(f) = ON_SEND {
                f(
                    self.c.id,
                    simrt::label(),
                    self.tx().len(),
                    self.tx().capacity().unwrap_or(usize::MAX),
                );
            }
        }
        wake(&self.c);
    }
    pub fn try_send(&self, msg: T) -> Result<(), TrySendError<T>> {
        simrt::yield_point(simrt::Y_SEND);
        let tag = simrt::generic_tag();
        let r = self.tx().try_send(Env {
            label: simrt::label(),
            msg,
        });
        simrt::set_tag(tag);
        match r {
            Ok(()) => {
                self.sent();
                Ok(())
            }
            Err(TrySendError::Full(e)) => Err(TrySendError::Full(e.msg)),
            Err(TrySendError::Disconnected(e)) => Err(TrySendError::Disconnected(e.msg)),
        }
    }
    fn send_until(&self, msg: T, deadline: u64) -> Result<(), SendTimeoutError<T>> {
        simrt::yield_point(simrt::Y_SEND);
        if !simrt::in_sim() {
            return self
                .tx()
                .send(Env {
                    label: u32::MAX,
                    msg,
                })
                .map_err(|e| SendTimeoutError::Disconnected(e.0.msg));
        }
        let mut env = Env {
            label: simrt::label(),
            msg,
        };
        loop {
            let seen = self.c.woken.load(Ordering::SeqCst);
            let tag = simrt::generic_tag();
            let r = self.tx().try_send(env);
            simrt::set_tag(tag);
            match r {
                Ok(()) => {
                    self.sent();
                    return Ok(());
                }
                Err(TrySendError::Disconnected(e)) => {
                    return Err(SendTimeoutError::Disconnected(e.msg))
                }
                Err(TrySendError::Full(e)) => {
                    if simrt::now_ns() >= deadline {
                        return Err(SendTimeoutError::Timeout(e.msg));
                    }
                    env = e;
                    simrt::block_unless(key(&self.c), deadline, &self.c.woken, seen);
                }
            }
        }
    }
    pub fn send(&self, msg: T) -> Result<(), SendError<T>> {
        self.send_until(msg, u64::MAX)
            .map_err(|e| SendError(e.into_inner()))
    }
    pub fn send_timeout(&self, msg: T, d: Duration) -> Result<(), SendTimeoutError<T>> {
        self.send_until(msg, simrt::now_ns() + d.as_nanos() as u64)
    }
    pub fn send_deadline(&self, msg: T, at: Instant) -> Result<(), SendTimeoutError<T>> {
        self.send_timeout(msg, at.saturating_duration_since(Instant::now()))
    }
    pub fn is_full(&self) -> bool {
        self.tx().is_full()
    }
    pub fn is_empty(&self) -> bool {
        self.tx().is_empty()
    }
    pub fn len(&self) -> usize {
        self.tx().len()
    }
    pub fn capacity(&self) -> Option<usize> {
        self.tx().capacity()
    }
    pub fn same_channel(&self, o: &Sender<T>) -> bool {
        self.tx().same_channel(o.tx())
    }
}

impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        Self {
            c: self.c.clone(),
            tx: self.tx.clone(),
        }
    }
}

impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.tx = None;
        wake(&self.c);
    }
}

impl<T> std::fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Sender { .. }")
    }
}

impl<T> Receiver<T> {
    fn rx(&self) -> &cc::Receiver<Env<T>> {
        self.rx.as_ref().unwrap()
    }
    fn got(&self, e: Env<T>) -> T {
        unsafe {
            if let Some(f) = ON_RECV {
                f(self.c.id, e.label, simrt::label());
            }
        }
        wake(&self.c);
        e.msg
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        simrt::yield_point(simrt::Y_RECV);
        match self.rx().try_recv() {
            Ok(e) => Ok(self.got(e)),
            Err(e) => Err(e),
        }
    }
    fn recv_until(&self, deadline: u64) -> Result<T, RecvTimeoutError> {
        simrt::yield_point(simrt::Y_RECV);
        if !simrt::in_sim() {
            return self
                .rx()
                .recv()
                .map(|e| e.msg)
                .map_err(|_| RecvTimeoutError::Disconnected);
        }
        loop {
            let seen = self.c.woken.load(Ordering::SeqCst);
            match self.rx().try_recv() {
                Ok(e) => return Ok(self.got(e)),
                Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected),
                Err(TryRecvError::Empty) => {
                    if simrt::now_ns() >= deadline {
                        return Err(RecvTimeoutError::Timeout);
                    }
                    simrt::block_unless(key(&self.c), deadline, &self.c.woken, seen);
                }
            }
        }
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        self.recv_until(u64::MAX).map_err(|_| RecvError)
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        self.recv_until(simrt::now_ns() + d.as_nanos() as u64)
    }
    pub fn recv_deadline(&self, at: Instant) -> Result<T, RecvTimeoutError> {
        self.recv_timeout(at.saturating_duration_since(Instant::now()))
    }
    pub fn is_full(&self) -> bool {
        self.rx().is_full()
    }
    pub fn is_empty(&self) -> bool {
        self.rx().is_empty()
    }
    pub fn len(&self) -> usize {
        self.rx().len()
    }
    pub fn capacity(&self) -> Option<usize> {
        self.rx().capacity()
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter { r: self }
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter { r: self }
    }
    pub fn same_channel(&self, o: &Receiver<T>) -> bool {
        self.rx().same_channel(o.rx())
    }
}

impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        Self {
            c: self.c.clone(),
            rx: self.rx.clone(),
        }
    }
}

impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.rx = None;
        wake(&self.c);
    }
}

impl<T> std::fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Receiver { .. }")
    }
}

pub struct Iter<'a, T> {
    r: &'a Receiver<T>,
}
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.r.recv().ok()
    }
}
pub struct TryIter<'a, T> {
    r: &'a Receiver<T>,
}
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.r.try_recv().ok()
    }
}
pub struct IntoIter<T> {
    r: Receiver<T>,
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.r.recv().ok()
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter { r: self }
    }
}
