pub mod string {
    /// Its type name is "alloc::string::String", as that of the standard string type.
    #[derive(PartialEq, Eq, Hash, Debug)]
    pub struct String(pub [usize; 3]);
}
