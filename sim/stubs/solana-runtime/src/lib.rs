pub mod epoch_stakes {
    #[derive(Clone, Debug, Default, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
    pub struct EpochStakes(pub u64);
}
pub mod stakes {
    #[derive(Clone, Debug, Default, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
    pub struct Stakes<T>(pub Vec<T>);
}
pub mod snapshot_utils {
    pub const SNAPSHOT_STATUS_CACHE_FILENAME: &str = "status_cache";
}
