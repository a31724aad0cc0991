//! There is no network.
#[derive(Clone, Default)]
pub struct Client;
impl Client {
    pub fn new() -> Self {
        Client
    }
}
pub struct StatusCode(pub u16);
impl StatusCode {
    pub fn is_success(&self) -> bool {
        self.0 / 100 == 2
    }
}
impl std::fmt::Display for StatusCode {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "no network")
    }
}
impl std::error::Error for Error {}
pub struct Response;
impl Response {
    pub fn status(&self) -> StatusCode {
        StatusCode(503)
    }
    pub async fn text(self) -> Result<String, Error> {
        Err(Error)
    }
}
