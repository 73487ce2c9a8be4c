//! The properties. Each `run` is one simulated run, driven by the tape.

use crate::env::R;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;

pub struct Property {
    pub id: &'static str,
    pub run: fn() -> R,
    /// Runs per tier.
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

pub const ALL: &[Property] = &[
    c01::PROPERTY,
    c02::PROPERTY,
    c03::PROPERTY,
    c04::PROPERTY,
    c05::PROPERTY,
    c06::PROPERTY,
    c07::PROPERTY,
    c08::PROPERTY,
    c09::PROPERTY,
    c10::PROPERTY,
    c11::PROPERTY,
    c12::PROPERTY,
    c13::PROPERTY,
    c14::PROPERTY,
    c15::PROPERTY,
    c16::PROPERTY,
    c17::PROPERTY,
    c18::PROPERTY,
];

pub fn find(id: &str) -> Option<&'static Property> {
    ALL.iter().find(|p| p.id == id)
}

/// The listed findings that still show on this tree.
pub fn known_findings(id: &str, root: &std::path::Path) -> Vec<String> {
    let text = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        let rest = match line.strip_prefix(&format!("finding: property={} key=", id)) {
            Some(r) => r,
            None => continue,
        };
        let (key, what) = rest.split_once(": ").unwrap_or((rest, ""));
        // A process of its own, as it may die
        let dies = std::env::current_exe()
            .ok()
            .and_then(|exe| std::process::Command::new(exe).args(["probe", key]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status().ok())
            .map(|s| !s.success())
            .unwrap_or(false);
        if dies {
            out.push(format!("{}: {}", key, what));
        }
    }
    out
}
