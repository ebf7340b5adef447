//! Reads /verif/known_findings.txt: a violation listed there is reported as KNOWN-FINDING.
pub fn listed(property: &str, key: &str) -> bool {
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    std::fs::read_to_string(format!("{dir}/known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .any(|l| {
            let l = l.trim();
            l.starts_with("known:")
                && l.contains(&format!("property={property} "))
                && l.contains(&format!("key={key} "))
        })
}
