//! The committed list of genuine defects that were recorded instead of repaired.
use crate::scen::{Scenario, Viol};
use serde::Deserialize;
use std::sync::OnceLock;

#[derive(Deserialize, Clone, Debug)]
pub struct Known {
    pub property: String,
    pub class: String,
    /// the exact source text that fails
    #[serde(default)]
    pub source: Option<String>,
    /// part of the message
    #[serde(default)]
    pub detail: Option<String>,
    pub what: String,
    /// scenario that shows it, relative to /verif
    #[serde(default)]
    pub replay: Option<String>,
}

static LIST: OnceLock<Vec<Known>> = OnceLock::new();

pub fn list() -> &'static Vec<Known> {
    LIST.get_or_init(|| {
        let text = std::fs::read_to_string(crate::root().join("known-findings.txt")).unwrap_or_default();
        text.lines().filter_map(|l| l.strip_prefix("known: ")).filter_map(|l| serde_json::from_str(l).ok()).collect()
    })
}

pub fn matching(sc: &Scenario, v: &Viol) -> Option<String> {
    list()
        .iter()
        .find(|k| {
            k.property == sc.prop
                && k.class == v.class
                && k.source.as_ref().map_or(true, |t| sc.srcs.iter().any(|s| &s.text == t))
                && k.detail.as_ref().map_or(true, |d| v.detail.contains(d.as_str()))
                && (k.source.is_some() || k.detail.is_some())
        })
        .map(|k| k.what.clone())
}
