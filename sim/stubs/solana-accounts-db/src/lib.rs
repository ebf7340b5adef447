//! The layouts of stored accounts are those of solana-accounts-db 1.18; the parts of the bank that the
//! program reads and drops are plain numbers.
pub mod account_storage {
    pub mod meta {
        use solana_sdk::pubkey::Pubkey;
        pub type StoredMetaWriteVersion = u64;
        #[derive(Clone, PartialEq, Eq, Debug)]
        #[repr(C)]
        pub struct StoredMeta {
            pub write_version_obsolete: StoredMetaWriteVersion,
            pub data_len: u64,
            pub pubkey: Pubkey,
        }
        #[derive(Clone, Debug, Default, Eq, PartialEq)]
        #[repr(C)]
        pub struct AccountMeta {
            pub lamports: u64,
            pub rent_epoch: u64,
            pub owner: Pubkey,
            pub executable: bool,
        }
    }
}
pub mod accounts_file {
    pub const ALIGN_BOUNDARY_OFFSET: usize = std::mem::size_of::<u64>();
    #[macro_export]
    macro_rules! u64_align {
        ($addr: expr) => {
            ($addr + (ALIGN_BOUNDARY_OFFSET - 1)) & !(ALIGN_BOUNDARY_OFFSET - 1)
        };
    }
}
pub mod append_vec {
    pub const MAXIMUM_APPEND_VEC_FILE_SIZE: u64 = 16 * 1024 * 1024 * 1024;
}
macro_rules! plain {
    ($m:ident, $t:ident) => {
        pub mod $m {
            #[derive(Clone, Debug, Default, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
            pub struct $t(pub u64);
        }
    };
}
plain!(accounts_db, BankHashStats);
plain!(ancestors, AncestorsForSerialization);
plain!(blockhash_queue, BlockhashQueue);
plain!(rent_collector, RentCollector);
