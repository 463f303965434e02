// Depends on every crate of the repository, so that one `cargo check` type-checks all of them.
