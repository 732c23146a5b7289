//! Minimisation: as little plan and as few scheduling decisions as possible
//! which still lead to the same class of violation.
use crate::judge::{self, Finding, Opts};
use crate::plan::*;
use crate::world::{self, Factory, RunLog};
use std::time::{Duration, Instant};

/// Execute and judge a plan with respect to one property
pub fn evaluate(plan: &Plan, prop: &str, factory: Factory) -> (RunLog, judge::Verdict) {
    let log = world::run(plan, factory);
    let mut v = judge::judge(plan, &log, factory, &Opts { cold: prop == "C02" });
    if prop == "C14" {
        judge::compare_transport(&mut v, plan, &log, factory);
    }
    v.findings.retain(|f| f.prop == prop);
    (log, v)
}

pub struct Shrinker {
    pub prop: String,
    pub class: String,
    pub factory: Factory,
    pub until: Instant,
    pub tried: u64,
    pub best: Plan,
    pub finding: Finding,
    /// scheduling seeds to try when the recorded choices no longer fit
    pub reseed: u64,
}

impl Shrinker {
    pub fn new(plan: Plan, finding: Finding, prop: &str, factory: Factory, budget: Duration) -> Self {
        Shrinker {
            prop: prop.into(),
            class: finding.class.clone(),
            factory,
            until: Instant::now() + budget,
            tried: 0,
            best: plan,
            finding,
            reseed: 0,
        }
    }

    fn over(&self) -> bool {
        Instant::now() > self.until
    }

    fn fails(&mut self, p: &Plan) -> Option<(Finding, Vec<u32>)> {
        if self.over() {
            return None;
        }
        self.tried += 1;
        let (log, v) = evaluate(p, &self.prop, self.factory);
        let f = v.findings.into_iter().find(|f| f.class == self.class)?;
        Some((f, log.choices))
    }

    fn attempt(&mut self, p: Plan) -> bool {
        if let Some((f, rec)) = self.fails(&p) {
            let mut p = p;
            // keep what was actually consumed
            p.choices = Some(trim(rec));
            self.best = p;
            self.finding = f;
            return true;
        }
        false
    }

    /// With the recorded choices, or else under some other schedule
    fn attempt_any(&mut self, p: Plan) -> bool {
        if self.attempt(p.clone()) {
            return true;
        }
        if self.best.choices.as_ref().map_or(false, |c| c.is_empty()) {
            return false;
        }
        for i in 0..self.reseed {
            let mut q = p.clone();
            q.choices = None;
            q.seed = p.seed.wrapping_add(1 + i);
            if self.attempt(q) {
                return true;
            }
        }
        false
    }

    pub fn run(&mut self) {
        // The most sequential schedule first
        let mut p = self.best.clone();
        p.choices = Some(vec![]);
        let sequential = self.attempt(p);
        if !sequential {
            let mut p = self.best.clone();
            p.choices = None;
            if !self.attempt(p) {
                return;
            }
            self.reseed = 6;
        }
        self.config();
        loop {
            let before = serde_json::to_string(&self.best).map_or(0, |s| s.len());
            self.ops();
            self.texts();
            self.config();
            self.choices();
            let after = serde_json::to_string(&self.best).map_or(0, |s| s.len());
            if after >= before || self.over() {
                return;
            }
        }
    }

    fn ops(&mut self) {
        let mut size = (self.best.ops.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < self.best.ops.len() {
                if self.over() {
                    return;
                }
                let mut p = self.best.clone();
                let end = (at + size).min(p.ops.len());
                p.ops.drain(at..end);
                if !self.attempt_any(p) {
                    at += size;
                }
            }
            if size == 1 {
                return;
            }
            size /= 2;
        }
    }

    fn texts(&mut self) {
        for i in 0..self.best.ops.len() {
            let n = match &self.best.ops[i] {
                Op::Open { .. } => 1,
                Op::Change { texts, .. } => texts.len(),
                _ => continue,
            };
            for k in 0..n {
                let get = |p: &Plan| -> String {
                    match &p.ops[i] {
                        Op::Open { text, .. } => text.clone(),
                        Op::Change { texts, .. } => texts[k].clone(),
                        _ => String::new(),
                    }
                };
                let lines: Vec<String> = get(&self.best).split_inclusive('\n').map(str::to_string).collect();
                let mut size = (lines.len() / 2).max(1);
                let mut cur = lines;
                loop {
                    let mut at = 0;
                    while at < cur.len() {
                        if self.over() {
                            return;
                        }
                        let mut cand = cur.clone();
                        let end = (at + size).min(cand.len());
                        cand.drain(at..end);
                        let t = cand.concat();
                        let mut p = self.best.clone();
                        match &mut p.ops[i] {
                            Op::Open { text, .. } => *text = t,
                            Op::Change { texts, .. } => texts[k] = t,
                            _ => {}
                        }
                        if self.attempt_any(p) {
                            cur = cand;
                        } else {
                            at += size;
                        }
                    }
                    if size == 1 {
                        break;
                    }
                    size /= 2;
                }
            }
        }
    }

    fn config(&mut self) {
        let edits: [fn(&mut Cfg); 12] = [
            |c| c.frag = 0,
            |c| c.max_read = 0,
            |c| c.max_write = 0,
            |c| c.credit = 0,
            |c| c.header = 0,
            |c| c.ids = 0,
            |c| c.fs.clear(),
            |c| c.roots.clear(),
            |c| c.root_mode = 2,
            |c| c.window = 1,
            |c| c.w[5] = 0,
            |c| c.end = End::Keep,
        ];
        for e in edits {
            let mut p = self.best.clone();
            e(&mut p.cfg);
            if p.cfg != self.best.cfg {
                self.attempt_any(p);
            }
        }
    }

    fn choices(&mut self) {
        let Some(list) = self.best.choices.clone() else { return };
        // Cut the end off, then zero out stretches
        let mut len = list.len();
        while len > 0 && !self.over() {
            let mut p = self.best.clone();
            len /= 2;
            p.choices.as_mut().unwrap().truncate(len);
            if !self.attempt(p) {
                break;
            }
        }
        let mut size = (self.best.choices.as_ref().map_or(0, Vec::len) / 2).max(1);
        while size > 0 && !self.over() {
            let mut at = 0;
            while at < self.best.choices.as_ref().map_or(0, Vec::len) {
                let mut p = self.best.clone();
                let c = p.choices.as_mut().unwrap();
                let end = (at + size).min(c.len());
                if c[at..end].iter().any(|x| *x != 0) {
                    c[at..end].iter_mut().for_each(|x| *x = 0);
                    self.attempt(p);
                }
                if self.over() {
                    return;
                }
                at += size;
            }
            size /= 2;
        }
    }
}

fn trim(mut c: Vec<u32>) -> Vec<u32> {
    while c.last() == Some(&0) {
        c.pop();
    }
    c
}
