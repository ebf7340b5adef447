pub struct ServiceBuilder;
impl ServiceBuilder {
    pub fn new() -> Self {
        Self
    }
    pub fn layer<T>(self, _: T) -> Self {
        self
    }
}
