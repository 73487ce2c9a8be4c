//! Minimisation of a failing choice tape. Every attempt is a run in a process of its own, so
//! that crashes and hangs can be minimised like any other violation.

use std::time::{Duration, Instant};

pub struct Shrinker<'a> {
    /// Runs a tape: the tape actually consumed if the violation is still there.
    pub attempt: &'a mut dyn FnMut(&[u32]) -> Option<Vec<u32>>,
    pub deadline: Instant,
    pub attempts: usize,
    pub max_attempts: usize,
}

impl<'a> Shrinker<'a> {
    fn spent(&self) -> bool {
        self.attempts >= self.max_attempts || Instant::now() >= self.deadline
    }

    fn try_tape(&mut self, best: &mut Vec<u32>, candidate: Vec<u32>) -> bool {
        if self.spent() || !simpler(&candidate, best) {
            return false;
        }
        self.attempts += 1;
        match (self.attempt)(&candidate) {
            Some(consumed) => {
                // What the run consumed beyond the candidate were zeros
                let mut t = if consumed.len() < candidate.len() { consumed } else { candidate };
                while t.last() == Some(&0) {
                    t.pop();
                }
                if simpler(&t, best) {
                    *best = t;
                }
                true
            }
            None => false,
        }
    }

    pub fn minimise(&mut self, tape: Vec<u32>) -> Vec<u32> {
        let mut best = tape;
        loop {
            let before = best.clone();
            // Shorter
            let mut keep = best.len() / 2;
            while keep < best.len() && !self.spent() {
                let c = best[..keep].to_vec();
                if self.try_tape(&mut best, c) {
                    keep = best.len() / 2;
                } else {
                    keep += (best.len() - keep).div_ceil(2).max(1);
                }
            }
            // Without chunks
            let mut size = (best.len() / 2).max(1);
            while size >= 1 && !self.spent() {
                let mut at = 0;
                while at < best.len() && !self.spent() {
                    let end = (at + size).min(best.len());
                    let mut c = best[..at].to_vec();
                    c.extend_from_slice(&best[end..]);
                    if !self.try_tape(&mut best, c) {
                        at += size;
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            // With chunks of the simplest choices
            let mut size = (best.len() / 2).max(1);
            while size >= 1 && !self.spent() {
                let mut at = 0;
                while at < best.len() && !self.spent() {
                    let end = (at + size).min(best.len());
                    if best[at..end].iter().any(|&v| v != 0) {
                        let mut c = best.clone();
                        c[at..end].fill(0);
                        self.try_tape(&mut best, c);
                    }
                    at += size;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            // With smaller values
            let mut at = 0;
            while at < best.len() && !self.spent() {
                for smaller in [best[at] / 2, best[at].saturating_sub(1)] {
                    if at < best.len() && smaller < best[at] {
                        let mut c = best.clone();
                        c[at] = smaller;
                        self.try_tape(&mut best, c);
                    }
                }
                at += 1;
            }
            if best == before || self.spent() {
                return best;
            }
        }
    }
}

/// Order of simplicity: shorter, then lexicographically smaller.
fn simpler(a: &[u32], b: &[u32]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

pub fn deadline(seconds: u64) -> Instant {
    Instant::now() + Duration::from_secs(seconds)
}
