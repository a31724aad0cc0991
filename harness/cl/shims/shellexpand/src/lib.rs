pub fn tilde(s: &str) -> std::borrow::Cow<'_, str> {
    s.into()
}
