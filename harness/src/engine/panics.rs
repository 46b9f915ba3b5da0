//! Records every panic of the process; injected ones carry a marker.

use parking_lot::Mutex;

pub static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if msg.contains("VH-INJECTED") {
            return;
        }
        let loc = info.location().map(ToString::to_string).unwrap_or_default();
        let mut p = PANICS.lock();
        if p.len() < 50 {
            p.push(format!("panic at {loc}: {msg}"));
        }
    }));
}

pub fn take() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock())
}

/// Whether a recorded panic is a defect of the harness itself.
pub fn own(p: &str) -> bool {
    p.starts_with("panic at src/engine/")
}
