pub struct EnvFilter;
impl EnvFilter {
    pub fn from_default_env() -> Self {
        EnvFilter
    }
}
pub mod fmt {
    pub mod format {
        pub struct Format;
        impl Format {
            pub fn with_ansi(self, _: bool) -> Self {
                self
            }
        }
    }
    pub fn format() -> format::Format {
        format::Format
    }
    pub struct Builder;
    impl Builder {
        pub fn with_env_filter(self, _: crate::EnvFilter) -> Self {
            self
        }
        pub fn event_format(self, _: format::Format) -> Self {
            self
        }
        pub fn init(self) {}
    }
}
pub fn fmt() -> fmt::Builder {
    fmt::Builder
}
