//! Contracts of crates/service/src/idx.rs.
impl Idx {
    fn is_def(&self) -> bool {
        self.num.is_some()
    }

    /// either a name or a number
    fn is_ref(&self) -> bool {
        self.name.is_some() != self.num.is_some()
    }

    /// a number denotes the declaration with that index, a name the declaration with that name
    fn is_defined_by(&self, other: &Self) -> bool {
        if self.num.is_some() && other.num.is_some() {
            self.num.unwrap() == other.num.unwrap()
        } else {
            self.name.is_some() && other.name.is_some() && self.name.unwrap() == other.name.unwrap()
        }
    }
}
