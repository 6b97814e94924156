//! Shrinks a failing plan and pins its schedule.

use crate::plan::*;
use crate::runner::{run_one, Keep, Outcome};
use std::time::{Duration, Instant};

pub struct Min {
    pub deadline: Instant,
    pub oracle: String,
    pub tries: u64,
}

impl Min {
    fn fails(&mut self, p: &Plan) -> bool {
        if Instant::now() > self.deadline {
            return false;
        }
        self.tries += 1;
        let o = run_one(p, Keep::default());
        o.status == 2 && o.viol.as_ref().map_or(false, |v| v.oracle == self.oracle)
    }

    fn without_call(p: &Plan, a: usize, b: usize) -> Plan {
        let mut q = p.clone();
        q.calls.drain(a..b);
        let n = (b - a) as u32;
        for o in q.ops.iter_mut() {
            let g = o.g as usize;
            if g >= b {
                o.g -= n;
            } else if g >= a {
                o.g = a as u32;
                o.during = false;
            }
        }
        for e in q.engines.iter_mut() {
            if let Some(l) = e.lost_at.as_mut() {
                if *l as usize >= b {
                    *l -= n;
                } else if *l as usize > a {
                    *l = a as u32;
                }
            }
        }
        q
    }

    fn pass(&mut self, p: &mut Plan) -> bool {
        let mut any = false;
        // calls, from the end
        let mut size = p.calls.len().max(1);
        while size > 0 {
            let mut i = p.calls.len();
            while i > 0 && p.calls.len() > 1 {
                let a = i.saturating_sub(size);
                let q = Self::without_call(p, a, i);
                if !q.calls.is_empty() && self.fails(&q) {
                    *p = q;
                    any = true;
                }
                i = a;
            }
            size /= 2;
        }
        let mut size = p.ops.len().max(1);
        while size > 0 {
            let mut i = p.ops.len();
            while i > 0 {
                let a = i.saturating_sub(size);
                let mut q = p.clone();
                q.ops.drain(a..i.min(q.ops.len()));
                if self.fails(&q) {
                    *p = q;
                    any = true;
                }
                i = a;
            }
            size /= 2;
        }
        any
    }

    pub fn run(oracle: &str, plan: &Plan, secs: u64) -> (Plan, Outcome) {
        let mut m = Min {
            deadline: Instant::now() + Duration::from_secs(secs),
            oracle: oracle.into(),
            tries: 0,
        };
        let mut p = plan.clone();
        macro_rules! attempt {
            ($q:ident, $b:block) => {{
                let mut $q = p.clone();
                $b;
                if $q != p && m.fails(&$q) {
                    p = $q;
                }
            }};
        }
        attempt!(q, { q.sched.starve.clear() });
        attempt!(q, { q.world.jitter = None });
        attempt!(q, { q.world.id_offset = 0 });
        attempt!(q, { q.world.clock_step = 0 });
        attempt!(q, { q.world.pipe = None });
        attempt!(q, { q.sched.bb_mean = 0 });
        attempt!(q, { q.sched.atomic_mean = 0 });
        attempt!(q, {
            q.sched.mode = 2;
            q.sched.bb_mean = 0;
            q.sched.atomic_mean = 0
        });
        attempt!(q, { q.offline = true });
        attempt!(q, { q.teardown = 0 });
        for _ in 0..if p.leak_check && oracle == "memory-growth" { 0 } else { 3 } {
            if !m.pass(&mut p) {
                break;
            }
        }
        attempt!(q, {
            for o in q.ops.iter_mut() {
                o.times = 1
            }
        });
        for i in 0..p.ops.len() {
            while p.ops[i].times > 1 {
                let before = p.ops[i].times;
                attempt!(q, { q.ops[i].times = before / 2 });
                if p.ops[i].times == before {
                    attempt!(q, { q.ops[i].times = before - before.div_ceil(16) });
                }
                if p.ops[i].times == before {
                    break;
                }
            }
        }
        for i in 0..if p.leak_check { 0 } else { p.calls.len() } {
            attempt!(q, { q.calls[i].buf = 1 });
            attempt!(q, {
                q.calls[i].frames = q.calls[i].frames.min(1);
            });
            attempt!(q, { q.calls[i].frames /= 2 });
            attempt!(q, { q.calls[i].in_ch = q.calls[i].in_ch.min(1) });
        }
        attempt!(q, {
            for e in q.engines.iter_mut() {
                e.lost_at = None
            }
        });
        attempt!(q, { q.interleaved = false });
        // pin the schedule
        let o = run_one(
            &p,
            Keep {
                schedule: true,
                outs: false,
            },
        );
        let mut best = o.clone();
        if !o.schedule.is_empty() && o.status == 2 {
            let mut q = p.clone();
            q.sched.list = Some(o.schedule.clone());
            let mut o2 = run_one(&q, Keep::default());
            if o2.status == 2 && o2.viol.as_ref().map(|v| &v.oracle) == o.viol.as_ref().map(|v| &v.oracle) {
                p = q;
                // drop hand-overs that do not matter
                let mut size = o.schedule.len();
                while size > 0 {
                    let mut i = p.sched.list.as_ref().unwrap().len();
                    while i > 0 {
                        let a = i.saturating_sub(size);
                        let mut q = p.clone();
                        let l = q.sched.list.as_mut().unwrap();
                        l.drain(a..i.min(l.len()));
                        if m.fails(&q) {
                            p = q;
                        }
                        i = a;
                    }
                    size /= 2;
                }
                o2 = run_one(&p, Keep::default());
                best = o2;
            }
        }
        (p, best)
    }
}
