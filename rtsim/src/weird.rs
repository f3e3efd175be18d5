//! A storage type of the user's own: its formatting yields, nests, fails and panics.
use crate::seams;
use serde::{Deserialize, Serialize};
use std::fmt;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Weird {
    pub pieces: Vec<String>,
    /// Use the formatter's padding on the whole instead of writing pieces.
    pub pad: bool,
    pub fail_at: Option<usize>,
    pub panic_at: Option<usize>,
}
impl fmt::Display for Weird {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.pad {
            seams::seam(0x70);
            if self.fail_at.is_some() {
                return Err(fmt::Error);
            }
            return f.pad(&self.pieces.concat());
        }
        for (i, p) in self.pieces.iter().enumerate() {
            seams::seam(0x71);
            if self.fail_at == Some(i) {
                return Err(fmt::Error);
            }
            if self.panic_at == Some(i) {
                std::panic::panic_any(seams::Abandoned);
            }
            if i == 0 && f.sign_plus() {
                f.write_str("+")?;
            }
            f.write_str(p)?;
        }
        if let Some(p) = f.precision() {
            write!(f, "p{p}")?;
        }
        Ok(())
    }
}
