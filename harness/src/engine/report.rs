//! What a scenario hands back to the runner.

use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Viol {
    /// properties this observation contradicts
    pub props: Vec<&'static str>,
    /// short stable class, used to match known findings and to group
    pub class: &'static str,
    pub msg: String,
}

#[derive(Default, Debug)]
pub struct Res {
    pub viols: Vec<Viol>,
    pub stats: BTreeMap<&'static str, u64>,
    /// identifies the observed behaviour (event order), for the distinct count
    pub fingerprint: u64,
    /// the scenario exercised what the property is about
    pub nontrivial: bool,
    /// no verdict (time ran out)
    pub inconclusive: bool,
    /// one line description of the case and of what was observed
    pub sample: String,
    /// event log, kept for violations
    pub log: String,
    /// the process holds leaked threads and should be restarted
    pub poisoned: bool,
}

impl Res {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.stats.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn viol(&mut self, class: &'static str, props: &[&'static str], msg: impl Into<String>) {
        self.viols.push(Viol {
            props: props.to_vec(),
            class,
            msg: msg.into(),
        });
    }
}

pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Self(0xcbf2_9ce4_8422_2325)
    }
}
impl Fnv {
    pub fn put(&mut self, v: u64) {
        for b in v.to_le_bytes() {
            self.0 = (self.0 ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
        }
    }
    pub fn bytes(&mut self, v: &[u8]) {
        for b in v {
            self.0 = (self.0 ^ u64::from(*b)).wrapping_mul(0x0100_0000_01b3);
        }
    }
}
