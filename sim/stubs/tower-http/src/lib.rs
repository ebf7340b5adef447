pub mod cors {
    pub struct Any;
    #[derive(Default)]
    pub struct CorsLayer;
    impl CorsLayer {
        pub fn new() -> Self {
            Self
        }
        pub fn max_age<T>(self, _: T) -> Self {
            self
        }
        pub fn allow_methods<T>(self, _: T) -> Self {
            self
        }
        pub fn allow_origin<T>(self, _: T) -> Self {
            self
        }
        pub fn allow_headers<T>(self, _: T) -> Self {
            self
        }
    }
}
