//! Contracts of crates/syntax/src/ast/mod.rs: every accessor returns what it is named after.

impl Root {
    pub fn modules(&self) -> AstChildren<Module> {
        children(&self.syntax)
    }
}
