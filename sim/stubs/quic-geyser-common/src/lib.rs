pub mod compression {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
    pub enum CompressionType {
        None,
        Lz4Fast(i32),
        Lz4(i32),
    }
}
pub mod filters {
    #[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
    pub enum Filter {
        Account,
        AccountsAll,
        Slot,
    }
}
pub mod types {
    pub mod connections_parameters {
        #[derive(Clone, Debug, Default)]
        pub struct ConnectionParameters {}
    }
    pub mod account {
        use solana_sdk::pubkey::Pubkey;
        #[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
        pub struct SlotIdentifier {
            pub slot: u64,
        }
        #[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
        pub struct Account {
            pub slot_identifier: SlotIdentifier,
            pub pubkey: Pubkey,
            pub owner: Pubkey,
            pub lamports: u64,
            pub executable: bool,
            pub rent_epoch: u64,
            pub write_version: u64,
            pub data: Vec<u8>,
            pub compression_type: crate::compression::CompressionType,
            pub data_length: u64,
        }
    }
    pub mod slot_status {
        #[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
        pub struct SlotMeta {
            pub slot: u64,
            pub parent: u64,
            pub commitment_config: solana_sdk::commitment_config::CommitmentConfig,
        }
    }
}
pub mod message {
    #[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
    pub enum Message {
        AccountMsg(crate::types::account::Account),
        SlotMsg(crate::types::slot_status::SlotMeta),
        Filters(Vec<crate::filters::Filter>),
        Ping,
    }
}
