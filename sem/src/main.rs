//! Every interleaving of a few threads using the program's own semaphore (src/semaphored.rs, with
//! its atomics and its futex calls replaced by loom's and by a futex built on those).
#![allow(dead_code, unused_imports)]
mod semaphored;
pub mod shim;

use loom::sync::Arc;
use loom::sync::atomic::{AtomicU32, AtomicUsize as Probe, Ordering::*};
use std::sync::atomic::AtomicUsize;
use std::time::Instant;

fn main() {
    let a: Vec<usize> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let (threads, limit, rounds, bound) = (a[0], a[1], a[2], a[3]);
    let mut b = loom::model::Builder::new();
    b.max_branches = 100_000;
    if bound > 0 {
        b.preemption_bound = Some(bound);
    }
    static N: AtomicUsize = AtomicUsize::new(0);
    static MOST: AtomicUsize = AtomicUsize::new(0);
    let t = Instant::now();
    b.check(move || {
        N.fetch_add(1, Relaxed);
        let count = Arc::new(AtomicU32::new(limit as u32));
        let active = Arc::new(AtomicUsize::new(0));
        let probe = Arc::new(Probe::new(0));
        let work = move |count: &AtomicU32, active: &AtomicUsize, probe: &Probe| {
            for _ in 0..rounds {
                let g = semaphored::dec(count);
                let now = active.fetch_add(1, SeqCst) + 1;
                MOST.fetch_max(now, Relaxed);
                assert!(now <= limit, "LIMIT: {now} operations at once with a limit of {limit}");
                probe.fetch_add(1, Relaxed);
                active.fetch_sub(1, SeqCst);
                drop(g);
            }
        };
        let kids: Vec<_> = (1..threads)
            .map(|_| {
                let (c, a, p) = (count.clone(), active.clone(), probe.clone());
                loom::thread::spawn(move || work(&c, &a, &p))
            })
            .collect();
        work(&count, &active, &probe);
        for k in kids {
            k.join().unwrap();
        }
        // the full capacity is there again
        for _ in 0..limit {
            std::mem::forget(semaphored::dec(&*count));
        }
    });
    println!("OK {} executions, {} at once, {:.1}s", N.load(Relaxed), MOST.load(Relaxed), t.elapsed().as_secs_f64());
}
