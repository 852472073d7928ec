//! Stand-in: score = 3 for passwords of length >= 8 not contained in user inputs, else 1; empty is an error.
#[derive(Debug)] pub struct ZxcvbnError; impl std::fmt::Display for ZxcvbnError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "blank password") } }
pub struct Entropy(u8); impl Entropy { pub fn score(&self) -> u8 { self.0 } }
pub fn zxcvbn(p: &str, ui: &[&str]) -> Result<Entropy, ZxcvbnError> {
    if p.is_empty() { return Err(ZxcvbnError); }
    Ok(Entropy(if p.len() >= 8 && !ui.contains(&p) { 3 } else { 1 }))
}
