//! Executable specification of the account store: what each commitment view must show.
use crate::util::*;
use crate::viol;
use lite_account_manager_common::{
    account_data::{Account, AccountData, CompressionMethod},
    account_filter::{AccountFilter, AccountFilterType, MemcmpFilter, MemcmpFilterData},
    account_store_interface::AccountStorageInterface,
    commitment::Commitment,
    slot_info::SlotInfo,
};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

pub const COMMITMENTS: [Commitment; 3] = [
    Commitment::Processed,
    Commitment::Confirmed,
    Commitment::Finalized,
];
pub fn cname(c: Commitment) -> &'static str {
    ["processed", "confirmed", "finalized"][c as usize]
}
pub fn ccopy(c: &Commitment) -> Commitment {
    *c
}

/// One version of an account, as written by the workload.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ver {
    pub slot: u64,
    pub wv: u64,
    pub lamports: u64,
    pub owner: Pubkey,
    pub data: Vec<u8>,
    pub executable: bool,
    pub rent_epoch: u64,
}

impl Ver {
    pub fn key(&self) -> (u64, u64) {
        (self.slot, self.wv)
    }
    pub fn live(&self) -> bool {
        self.lamports > 0
    }
    pub fn short(&self) -> String {
        format!(
            "slot={} wv={} lamports={} owner={} len={} h={:08x}",
            self.slot,
            self.wv,
            self.lamports,
            &self.owner.to_string()[..4],
            self.data.len(),
            hash_of(&self.data) as u32
        )
    }
    pub fn to_account_data(&self, pk: Pubkey, compression: CompressionMethod) -> AccountData {
        AccountData {
            pubkey: pk,
            account: Arc::new(Account::from_solana_account(
                solana_sdk::account::Account {
                    lamports: self.lamports,
                    data: self.data.clone(),
                    owner: self.owner,
                    executable: self.executable,
                    rent_epoch: self.rent_epoch,
                },
                compression,
            )),
            updated_slot: self.slot,
            write_version: self.wv,
        }
    }
    pub fn of(a: &AccountData) -> Ver {
        Ver {
            slot: a.updated_slot,
            wv: a.write_version,
            lamports: a.account.lamports,
            owner: a.account.owner,
            data: a.account.data.data(),
            executable: a.account.executable,
            rent_epoch: a.account.rent_epoch,
        }
    }
}

/// RPC filter semantics, independent of the implementation.
pub fn filter_matches(f: &AccountFilterType, data: &[u8]) -> bool {
    match f {
        AccountFilterType::Datasize(n) => data.len() as u64 == *n,
        AccountFilterType::Memcmp(MemcmpFilter { offset, data: d }) => {
            let bytes = match d {
                MemcmpFilterData::Bytes(b) => Some(b.clone()),
                MemcmpFilterData::Base58(s) => bs58::decode(s).into_vec().ok(),
                MemcmpFilterData::Base64(s) => {
                    use base64::Engine;
                    base64::engine::general_purpose::STANDARD.decode(s).ok()
                }
            };
            // what cannot be decoded matches nothing
            let (Ok(off), Some(bytes)) = (usize::try_from(*offset), bytes) else {
                return false;
            };
            off.checked_add(bytes.len())
                .and_then(|e| data.get(off..e))
                .map_or(false, |s| s == &bytes[..])
        }
    }
}
pub fn all_match(fs: &Option<Vec<AccountFilterType>>, data: &[u8]) -> bool {
    fs.iter().flatten().all(|f| filter_matches(f, data))
}

/// The configured coverage, evaluated by the model.
#[derive(Clone, Debug, Default)]
pub struct Coverage {
    pub accounts: BTreeSet<Pubkey>,
    pub programs: Vec<(Pubkey, Option<Vec<AccountFilterType>>)>,
}
impl Coverage {
    pub fn covers(&self, pk: &Pubkey, v: &Ver) -> bool {
        self.accounts.contains(pk)
            || self
                .programs
                .iter()
                .any(|(p, f)| *p == v.owner && all_match(f, &v.data))
    }
    pub fn to_filters(&self) -> Vec<AccountFilter> {
        let mut out: Vec<AccountFilter> = self
            .programs
            .iter()
            .map(|(p, f)| AccountFilter {
                accounts: vec![],
                program_id: Some(*p),
                filters: f.clone(),
            })
            .collect();
        if !self.accounts.is_empty() {
            out.push(AccountFilter {
                accounts: self.accounts.iter().copied().collect(),
                program_id: None,
                filters: None,
            });
        }
        out
    }
}

#[derive(Clone, Default)]
pub struct MSlot {
    pub commit: u8,
    pub parent: Option<u64>,
    pub touched: BTreeSet<Pubkey>,
}

#[derive(Clone, Default, Debug)]
pub struct MAcc {
    pub versions: BTreeMap<u64, Ver>,
    pub conf: Option<Ver>,
    pub fin: Option<Ver>,
    /// the finalized version is a closed account, or one whose owner is not covered: the store may
    /// have forgotten the account
    pub maybe_removed: bool,
    /// newest slot whose finalized version closed the account (or moved it out of coverage)
    pub tomb: Option<u64>,
}

impl MAcc {
    pub fn view(&self, c: Commitment) -> Option<&Ver> {
        match c {
            Commitment::Processed => self
                .versions
                .last_key_value()
                .map(|x| x.1)
                .or(self.conf.as_ref()),
            Commitment::Confirmed => self.conf.as_ref(),
            Commitment::Finalized => self.fin.as_ref(),
        }
    }
    pub fn newest(&self) -> Option<(u64, u64)> {
        let a = self.versions.last_key_value().map(|x| x.1.key());
        let b = self.conf.as_ref().map(|x| x.key());
        let c = self.fin.as_ref().map(|x| x.key());
        a.max(b).max(c)
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Update {
        acc: usize,
        ver: Ver,
        commit: Commitment_,
        comp: u8,
    },
    Slot {
        slot: u64,
        parent: u64,
        commit: Commitment_,
    },
}

/// Commitment has no Debug upstream.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Commitment_(pub Commitment);
impl std::fmt::Debug for Commitment_ {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(cname(self.0))
    }
}

pub fn op_text(o: &Op) -> String {
    match o {
        Op::Update {
            acc, ver, commit, comp,
        } => format!(
            "update acc#{acc} {} at={commit:?} compression={comp}",
            ver.short()
        ),
        Op::Slot {
            slot,
            parent,
            commit,
        } => format!("slot {slot} parent={parent} {commit:?}"),
    }
}

pub fn compression(c: u8) -> CompressionMethod {
    match c % 3 {
        0 => CompressionMethod::None,
        1 => CompressionMethod::Lz4(1 + (c as i32 / 3) % 12),
        _ => CompressionMethod::Zstd(1 + (c as i32 / 3) % 10),
    }
}

#[derive(Clone)]
pub struct Model {
    pub cov: Coverage,
    pub accs: HashMap<Pubkey, MAcc>,
    pub slots: BTreeMap<u64, MSlot>,
    pub max_fin: Option<u64>,
}

#[derive(Clone, Debug, Default)]
pub struct UpdateOut {
    /// some view of the account changed
    pub changed: bool,
    /// this exact or an older write of the same slot was already held, nothing may change
    pub must_refuse: bool,
    pub reopened: bool,
}

impl Model {
    pub fn new(cov: Coverage) -> Self {
        Model {
            cov,
            accs: HashMap::new(),
            slots: BTreeMap::new(),
            max_fin: None,
        }
    }

    /// The history stays inside the assumptions listed in DESIGN.md.
    pub fn admissible(&self, pks: &[Pubkey], op: &Op) -> bool {
        match op {
            Op::Update { acc, ver, commit, .. } => {
                let pk = pks[*acc];
                if let Some(a) = self.accs.get(&pk) {
                    // an older write of a slot, delivered as finalized after that slot was left behind
                    // by finality: nothing says what a later notification of a descendant does
                    if commit.0 == Commitment::Finalized
                        && self.max_fin.map_or(false, |m| ver.slot < m)
                        && !self.slots.get(&ver.slot).map_or(false, |s| s.touched.contains(&pk))
                        && a.versions.get(&ver.slot).map_or(false, |v| v.wv > ver.wv)
                    {
                        return false;
                    }
                    // the store forgets closed accounts: writes older than a finalized closing
                    // are the known finding of C05, not part of random histories
                    if a.tomb.map_or(false, |t| ver.slot <= t) {
                        return false;
                    }
                    if a.maybe_removed {
                        let fin = a.fin.as_ref().unwrap();
                        if !(ver.live() && self.cov.covers(&pk, ver) && ver.slot > fin.slot) {
                            return false;
                        }
                    }
                }
                true
            }
            Op::Slot {
                slot,
                parent,
                commit,
            } => match self.slots.get(slot) {
                // a slot's parent is first reported no later than the slot's own commitment
                Some(s) => match s.parent {
                    None => commit.0 as u8 >= s.commit,
                    Some(p) => p == *parent,
                },
                None => true,
            },
        }
    }

    fn touch(&mut self, slot: u64, pk: Pubkey) -> u8 {
        let s = self.slots.entry(slot).or_default();
        s.touched.insert(pk);
        s.commit
    }

    fn raise(a: &mut MAcc, ver: &Ver, c: u8) {
        if c >= 1 && a.conf.as_ref().map_or(true, |x| x.key() < ver.key()) {
            a.conf = Some(ver.clone());
        }
        if c >= 2 && a.fin.as_ref().map_or(true, |x| x.key() < ver.key()) {
            a.fin = Some(ver.clone());
        }
    }

    fn settle(&mut self, pk: &Pubkey, prev_fin: Option<Ver>) {
        let Some(a) = self.accs.get_mut(pk) else {
            return;
        };
        let Some(fin) = a.fin.clone() else { return };
        if prev_fin.as_ref() == Some(&fin) {
            return;
        }
        let gone = !fin.live() || !self.cov.covers(pk, &fin);
        a.maybe_removed = gone && a.newest().unwrap() <= fin.key();
        if a.maybe_removed {
            // older versions, on whatever fork, are superseded
            a.versions.clear();
            a.versions.insert(fin.slot, fin.clone());
            a.tomb = a.tomb.max(Some(fin.slot));
            a.conf = Some(fin);
        }
    }

    pub fn update(&mut self, pk: Pubkey, ver: &Ver, c: Commitment) -> UpdateOut {
        let mut out = UpdateOut::default();
        let covered = self.cov.covers(&pk, ver);
        if !self.accs.contains_key(&pk) {
            if !covered {
                out.must_refuse = true;
                return out;
            }
            self.accs.insert(pk, MAcc::default());
        }
        let status = self.touch(ver.slot, pk);
        let c = status.max(c as u8);
        let a = self.accs.get_mut(&pk).unwrap();
        if a.maybe_removed {
            out.reopened = true;
        }
        let before: Vec<Option<Ver>> = COMMITMENTS.iter().map(|c| a.view(*c).cloned()).collect();
        let prev_fin = a.fin.clone();
        match a.versions.get_mut(&ver.slot) {
            Some(v) => {
                if v.wv < ver.wv {
                    *v = ver.clone();
                } else if a.fin.as_ref().map_or(true, |f| ver.slot >= f.slot) {
                    out.must_refuse = true; // unless a commitment view moves, below
                }
            }
            None => {
                a.versions.insert(ver.slot, ver.clone());
            }
        }
        Self::raise(a, ver, c);
        let after: Vec<Option<Ver>> = COMMITMENTS.iter().map(|c| a.view(*c).cloned()).collect();
        out.changed = before != after;
        if out.changed {
            out.must_refuse = false;
        }
        if a.maybe_removed {
            a.maybe_removed = false;
        }
        self.settle(&pk, prev_fin);
        out
    }

    /// Returns the versions that must be reported as newly reaching the commitment.
    pub fn notify(&mut self, slot: u64, parent: u64, c: Commitment) -> Vec<(Pubkey, Ver)> {
        let cc = c as u8;
        let mut cur = slot;
        let mut first = true;
        let mut touched: BTreeMap<Pubkey, u64> = BTreeMap::new();
        let mut seen = BTreeSet::new();
        loop {
            if !seen.insert(cur) {
                break;
            }
            let known = self.slots.contains_key(&cur);
            if !known && !first && c != Commitment::Confirmed {
                break;
            }
            let s = self.slots.entry(cur).or_default();
            let new_link = !known || (first && s.parent.is_none());
            if first {
                s.parent = Some(parent);
            }
            if known && s.commit >= cc && !new_link {
                break;
            }
            s.commit = s.commit.max(cc);
            for pk in &s.touched {
                touched.entry(*pk).or_insert(cur);
            }
            if cc == 0 {
                break;
            }
            match s.parent {
                Some(p) => cur = p,
                None => break,
            }
            first = false;
        }
        if c == Commitment::Finalized {
            self.slots.retain(|s, _| *s >= slot);
            self.max_fin = self.max_fin.max(Some(slot));
        }
        let mut out = vec![];
        for (pk, s) in touched {
            let Some(a) = self.accs.get_mut(&pk) else {
                continue;
            };
            let Some(v) = a.versions.get(&s).cloned() else {
                continue;
            };
            let prev_fin = a.fin.clone();
            let before = a.view(c).cloned();
            Self::raise(a, &v, cc);
            if cc > 0 && a.view(c).cloned() != before {
                out.push((pk, v));
            }
            self.settle(&pk, prev_fin);
        }
        out
    }

    /// What a lookup may return: (required or optional version)
    pub fn lookup(&self, pk: &Pubkey, c: Commitment) -> Expect {
        let Some(a) = self.accs.get(pk) else {
            return Expect::None;
        };
        match a.view(c) {
            Some(v) if v.live() => {
                // also if the coverage has grown since
                let forgettable = a.fin.as_ref() == Some(v) && (a.maybe_removed || !self.cov.covers(pk, v));
                if forgettable {
                    Expect::Maybe(v.clone())
                } else {
                    Expect::Some(v.clone())
                }
            }
            _ => Expect::None,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    None,
    Some(Ver),
    Maybe(Ver),
}

impl Expect {
    pub fn check(&self, got: &Option<Ver>) -> bool {
        match (self, got) {
            (Expect::None, None) => true,
            (Expect::Some(v), Some(g)) => v == g,
            (Expect::Maybe(_), None) => true,
            (Expect::Maybe(v), Some(g)) => v == g,
            _ => false,
        }
    }
    pub fn text(&self) -> String {
        match self {
            Expect::None => "nothing".into(),
            Expect::Some(v) => v.short(),
            Expect::Maybe(v) => format!("nothing or {}", v.short()),
        }
    }
}

pub fn get(
    store: &dyn AccountStorageInterface,
    pk: Pubkey,
    c: Commitment,
) -> Result<Option<Ver>, Violation> {
    let r = lib("get_account", || store.get_account(pk, c))?;
    match r {
        Ok(a) => {
            if let Some(a) = &a {
                if a.pubkey != pk {
                    return Err(viol!("lookup of {pk} returned an account with key {}", a.pubkey));
                }
            }
            Ok(match a {
                Some(a) => Some(lib("decoding account data", || Ver::of(&a))?),
                None => None,
            })
        }
        Err(e) => Err(viol!("lookup of {pk} at {} failed: {e:?}", cname(c))),
    }
}

pub fn slot_info(slot: u64, parent: u64) -> SlotInfo {
    SlotInfo {
        slot,
        parent,
        root: 0,
    }
}
