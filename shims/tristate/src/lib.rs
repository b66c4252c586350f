//! Stand-in for the tristate 0.1.1 crate, which is not in the offline cargo cache.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum TriState { Yes, No, Unknown }
impl From<bool> for TriState {
    fn from(b: bool) -> TriState { if b { TriState::Yes } else { TriState::No } }
}
