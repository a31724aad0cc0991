#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum UiAccountEncoding {
    Base64,
    JsonParsed,
}
