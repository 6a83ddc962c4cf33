use std::fmt;
#[derive(Debug, Clone)]
pub struct ErrorStack(pub String);
impl fmt::Display for ErrorStack {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for ErrorStack {}
