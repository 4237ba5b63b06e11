//! Stand-in for biome_string_case: snake case, for generated test names.

pub enum Case {
    Snake,
}

impl Case {
    pub fn convert(self, value: &str) -> String {
        let mut out = String::new();
        let mut lower = false;
        for c in value.chars() {
            if !c.is_alphanumeric() {
                if !out.is_empty() && !out.ends_with('_') {
                    out.push('_');
                }
                lower = false;
            } else {
                if c.is_uppercase() && lower {
                    out.push('_');
                }
                lower = !c.is_uppercase();
                out.extend(c.to_lowercase());
            }
        }
        out.trim_end_matches('_').to_string()
    }
}
