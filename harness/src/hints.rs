//! Iterators with every kind of size hint around one byte sequence.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Hint {
    Exact,
    None0,       // (0, None)
    UpExact,     // (0, Some(n))
    UpLoose,     // (0, Some(n + 9))
    UpHuge,      // (0, Some(usize::MAX))
    LoHalf,      // (n/2, None)
    LoHalfUpHuge, // (n/2, Some(usize::MAX))
    LoExact,     // (n, None)
}
pub const HINTS: [Hint; 8] = [
    Hint::Exact,
    Hint::None0,
    Hint::UpExact,
    Hint::UpLoose,
    Hint::UpHuge,
    Hint::LoHalf,
    Hint::LoHalfUpHuge,
    Hint::LoExact,
];
pub struct HintIter<T> {
    pub items: std::vec::IntoIter<T>,
    pub hint: Hint,
}
impl<T> Iterator for HintIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            Hint::Exact => (n, Some(n)),
            Hint::None0 => (0, None),
            Hint::UpExact => (0, Some(n)),
            Hint::UpLoose => (0, Some(n + 9)),
            Hint::UpHuge => (0, Some(usize::MAX)),
            Hint::LoHalf => (n / 2, None),
            Hint::LoHalfUpHuge => (n / 2, Some(usize::MAX)),
            Hint::LoExact => (n, None),
        }
    }
}
