//! The token store: token accounts, mints and multisigs of the two token programs.
use crate::acct_model::*;
use crate::util::*;
use crate::viol;
use lite_account_manager_common::{
    account_data::{AccountData, CompressionMethod},
    account_filter::{AccountFilterType, MemcmpFilter, MemcmpFilterData},
    account_store_interface::{AccountLoadingError, AccountStorageInterface},
    commitment::Commitment,
    slot_info::SlotInfo,
};
use lite_token_account_storage::{
    account_types::{MintAccount, MultiSig, Program, TokenAccount, TokenProgramAccountState},
    token_account_storage_interface::TokenAccountStorageInterface,
    inmemory_token_account_storage::InmemoryTokenAccountStorage,
    inmemory_token_storage::TokenProgramAccountsStorage,
};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Arc;

pub fn programs() -> [Pubkey; 2] {
    [spl_token::id(), spl_token_2022::id()]
}
pub fn is_token_program(p: &Pubkey) -> bool {
    programs().contains(p)
}
pub fn new_token_store() -> Arc<TokenProgramAccountsStorage> {
    Arc::new(TokenProgramAccountsStorage::new(Arc::new(InmemoryTokenAccountStorage::default())))
}

// ------------------------------------------------------------------ contents, written by hand
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Token,
    Mint,
    Multisig,
}

fn copt(out: &mut Vec<u8>, v: Option<Vec<u8>>, len: usize, stale: Option<Vec<u8>>) {
    match v {
        Some(b) => {
            out.extend([1, 0, 0, 0]);
            out.extend(b);
        }
        None => {
            out.extend([0, 0, 0, 0]);
            out.extend(stale.unwrap_or_else(|| vec![0; len]));
        }
    }
}
fn some_or_stale(r: &mut Rng, some_pct: u64, stale_pct: u64, len: usize) -> (Option<Vec<u8>>, Option<Vec<u8>>) {
    if r.pct(some_pct) {
        (Some(r.bytes(len)), None)
    } else if r.pct(stale_pct) {
        // a program that clears an optional field leaves the old bytes behind the zero tag
        (None, Some(r.bytes(len)))
    } else {
        (None, None)
    }
}

pub fn token_bytes(r: &mut Rng, mint: &Pubkey, owner: &Pubkey, amount: u64, ext: Option<Vec<u8>>, stale_pct: u64) -> Vec<u8> {
    let mut d = vec![];
    d.extend(mint.to_bytes());
    d.extend(owner.to_bytes());
    d.extend(amount.to_le_bytes());
    let (delegate, stale) = some_or_stale(r, 30, stale_pct, 32);
    let has_delegate = delegate.is_some();
    copt(&mut d, delegate, 32, stale);
    d.push(*r.pick(&[1u8, 1, 1, 2, 0]));
    let (mut native, stale) = some_or_stale(r, 25, stale_pct, 8);
    if let Some(n) = native.as_mut().filter(|_| amount % 4 == 0) {
        n.fill(0);
    }
    copt(&mut d, native, 8, stale);
    d.extend(if has_delegate { r.next() >> r.below(60) } else { 0 }.to_le_bytes());
    let (close, stale) = some_or_stale(r, 25, stale_pct, 32);
    copt(&mut d, close, 32, stale);
    assert_eq!(d.len(), 165);
    if let Some(e) = ext {
        d.push(2);
        d.extend(e);
    }
    d
}
pub fn mint_bytes(r: &mut Rng, supply: u64, ext: Option<Vec<u8>>, stale_pct: u64) -> Vec<u8> {
    let mut d = vec![];
    let (a, stale) = some_or_stale(r, 70, stale_pct, 32);
    copt(&mut d, a, 32, stale);
    d.extend(supply.to_le_bytes());
    d.push(if r.pct(5) { r.next() as u8 } else { r.below(20) as u8 });
    d.push(u8::from(r.pct(95)));
    let (a, stale) = some_or_stale(r, 40, stale_pct, 32);
    copt(&mut d, a, 32, stale);
    assert_eq!(d.len(), 82);
    if let Some(e) = ext {
        d.resize(165, 0);
        d.push(1);
        d.extend(e);
    }
    d
}
pub fn multisig_bytes(r: &mut Rng) -> Vec<u8> {
    let n = 1 + r.below(11) as u8;
    let mut d = vec![1 + r.below(n as u64) as u8, n, 1];
    for i in 0..11u8 {
        // the default key is a valid signer, in any position
        d.extend(if i < n && !r.pct(10) { r.bytes(32) } else { vec![0; 32] });
    }
    assert_eq!(d.len(), 355);
    d
}
fn extension(r: &mut Rng) -> Vec<u8> {
    loop {
        let mut n = *r.pick(&[0usize, 1, 4, 5, 12, 83, 200, 300, 1000]);
        if r.below(250) == 0 {
            // metadata may be large
            n = *r.pick(&[10_000usize, 10_240, 33_000, 66_000, 140_000]);
        }
        let e = r.bytes(n);
        if 166 + e.len() != 355 {
            return e;
        }
    }
}

/// Which kind of account these bytes are, by the layout of the token programs.
pub fn kind_of(owner: &Pubkey, data: &[u8]) -> Option<Kind> {
    match data.len() {
        82 => Some(Kind::Mint),
        165 => Some(Kind::Token),
        355 => Some(Kind::Multisig),
        n if n > 165 && *owner == spl_token_2022::id() => match data[165] {
            1 => Some(Kind::Mint),
            2 => Some(Kind::Token),
            _ => None,
        },
        _ => None,
    }
}

/// Bytes behind a zero option tag mean nothing to the token programs: normalise them.
pub fn canonical(owner: &Pubkey, data: &[u8]) -> Vec<u8> {
    let mut d = data.to_vec();
    let opts: &[(usize, usize)] = match kind_of(owner, data) {
        Some(Kind::Token) => &[(72, 32), (109, 8), (129, 32)],
        Some(Kind::Mint) => &[(0, 32), (46, 32)],
        _ => &[],
    };
    for (o, n) in opts {
        if d[*o..o + 4] == [0, 0, 0, 0] {
            d[o + 4..o + 4 + n].fill(0);
        }
    }
    d
}

// ------------------------------------------------------------------ the specification
pub fn live(v: &Ver) -> bool {
    v.lamports > 0 && is_token_program(&v.owner)
}

#[derive(Default, Clone)]
pub struct SlotRec {
    pub accs: BTreeMap<Pubkey, Ver>,
    pub parent: Option<u64>,
}

/// What the store must show. Slots up to the last finalized one are folded into `fin`.
#[derive(Default, Clone)]
pub struct TModel {
    pub slots: BTreeMap<u64, SlotRec>,
    pub fin: BTreeMap<Pubkey, Ver>,
    pub confirmed: u64,
    pub finalized: u64,
}

#[derive(Clone, Debug)]
pub enum View<'a> {
    Absent,
    /// slot and write version are those of the update
    Pending(&'a Ver),
    /// kept without slot and write version
    Final(&'a Ver),
}
impl View<'_> {
    pub fn ver(&self) -> Option<&Ver> {
        match self {
            View::Absent => None,
            View::Pending(v) | View::Final(v) => live(v).then_some(*v),
        }
    }
}

impl TModel {
    pub fn held(&self, pk: &Pubkey) -> bool {
        self.fin.contains_key(pk) || self.slots.values().any(|s| s.accs.contains_key(pk))
    }
    fn chain(&self, from: u64) -> Vec<u64> {
        let mut out = vec![];
        let mut cur = Some(from);
        while let Some(s) = cur {
            let Some(rec) = self.slots.get(&s) else { break };
            out.push(s);
            cur = rec.parent.filter(|p| *p < s);
        }
        out
    }
    pub fn view(&self, pk: &Pubkey, c: Commitment) -> View<'_> {
        if c == Commitment::Processed {
            if let Some(v) = self
                .slots
                .range(self.confirmed + 1..)
                .rev()
                .find_map(|(_, s)| s.accs.get(pk))
            {
                return View::Pending(v);
            }
        }
        if c != Commitment::Finalized {
            if let Some(v) = self
                .chain(self.confirmed)
                .iter()
                .find_map(|s| self.slots[s].accs.get(pk))
            {
                return View::Pending(v);
            }
        }
        self.fin.get(pk).map_or(View::Absent, View::Final)
    }
    fn set_final(&mut self, pk: Pubkey, v: Ver) {
        if live(&v) {
            self.fin.insert(pk, v);
        } else {
            self.fin.remove(&pk);
        }
    }
    /// Does the store take the update? None: either answer is fine.
    pub fn update(&mut self, pk: Pubkey, v: &Ver, c: Commitment) -> Option<bool> {
        if !is_token_program(&v.owner) && !self.held(&pk) {
            return Some(false);
        }
        if v.lamports > 0 && is_token_program(&v.owner) && kind_of(&v.owner, &v.data).is_none() {
            return Some(false);
        }
        if c == Commitment::Finalized {
            self.set_final(pk, v.clone());
            return Some(true);
        }
        let rec = self.slots.entry(v.slot).or_default();
        match rec.accs.get(&pk) {
            Some(old) if old.wv >= v.wv => Some(false),
            _ => {
                rec.accs.insert(pk, v.clone());
                Some(true)
            }
        }
    }
    /// returns the versions that must be reported
    pub fn slot(&mut self, slot: u64, parent: u64, c: Commitment) -> BTreeMap<Pubkey, Ver> {
        match c {
            Commitment::Processed => {
                self.slots.entry(slot).or_default().parent = Some(parent);
                BTreeMap::new()
            }
            Commitment::Confirmed => {
                if self.confirmed < slot {
                    self.confirmed = slot;
                    self.slots.entry(slot).or_default().parent = Some(parent);
                }
                self.slots
                    .get(&slot)
                    .map(|s| s.accs.clone())
                    .unwrap_or_default()
                    .into_iter()
                    .filter(|(_, v)| live(v))
                    .collect()
            }
            Commitment::Finalized => {
                if self.finalized < slot {
                    self.finalized = slot;
                    self.slots.entry(slot).or_default().parent = Some(parent);
                }
                let mut newest: BTreeMap<Pubkey, Ver> = BTreeMap::new();
                for s in self.chain(slot) {
                    for (pk, v) in &self.slots[&s].accs {
                        newest.entry(*pk).or_insert_with(|| v.clone());
                    }
                }
                for (pk, v) in &newest {
                    self.set_final(*pk, v.clone());
                }
                self.slots = self.slots.split_off(&(slot + 1));
                newest.retain(|_, v| live(v));
                newest
            }
        }
    }
}

// ------------------------------------------------------------------ worlds
#[derive(Clone)]
pub enum TOp {
    Update { acc: usize, ver: Ver, commit: Commitment, comp: u8 },
    Init { acc: usize, ver: Ver },
    Slot { slot: u64, parent: u64, commit: Commitment },
}

#[derive(Clone)]
pub struct TProfile {
    pub accounts: usize,
    pub slots: usize,
    pub fork_pct: u64,
    pub writes: u64,
    pub close_pct: u64,
    pub owner_pct: u64,
    pub kind_change_pct: u64,
    pub prefix_pct: u64,
    pub late_pct: u64,
    pub dup_pct: u64,
    pub skip_pct: u64,
    pub init_pct: u64,
    pub stale_pct: u64,
    pub ext_pct: u64,
    pub unknown_mint_pct: u64,
    pub bad_pct: u64,
    /// how long finality may lag behind, in hundredths of a slot
    pub lag: u64,
    /// how many owners of token accounts there are at most
    pub owners: usize,
}
impl TProfile {
    pub fn random(r: &mut Rng) -> TProfile {
        let calm = |r: &mut Rng, hi: u64| if r.pct(35) { 0 } else { r.below(hi + 1) };
        if r.below(2000) == 0 {
            // a long chain whose finalization stalls
            let slots = if r.pct(15) { 1030 + r.usize(60) } else { 80 + r.usize(250) };
            return TProfile { slots, lag: slots as u64 * 100, ..TProfile::random(r) };
        }
        if r.below(700) == 0 {
            return TProfile::wide(r);
        }
        if r.below(600) == 0 {
            // a few accounts written over and over in a slot
            return TProfile { writes: 20 + r.below(150), slots: 3 + r.usize(3), ..TProfile::random(r) };
        }
        TProfile {
            accounts: 3 + r.usize(7),
            slots: 3 + r.usize(10),
            fork_pct: calm(r, 35),
            writes: 1 + r.below(5),
            close_pct: calm(r, 25),
            owner_pct: calm(r, 40),
            kind_change_pct: calm(r, 40),
            prefix_pct: calm(r, 60),
            late_pct: calm(r, 50),
            dup_pct: calm(r, 25),
            skip_pct: calm(r, 60),
            init_pct: calm(r, 60),
            stale_pct: calm(r, 30),
            ext_pct: calm(r, 60),
            unknown_mint_pct: calm(r, 25),
            bad_pct: calm(r, 10),
            lag: 500,
            owners: 4,
        }
    }
    /// many accounts, mints and owners
    pub fn wide(r: &mut Rng) -> TProfile {
        let accounts = if r.pct(10) { 1100 + r.usize(300) } else { 60 + r.usize(400) };
        TProfile { accounts, owners: 2 + r.usize(300), writes: 1 + r.below(100), init_pct: r.below(101), ..TProfile::random(r) }
    }
}

pub struct TWorld {
    pub pks: Vec<Pubkey>,
    pub owners: Vec<Pubkey>,
    pub mints: Vec<Pubkey>,
    pub ops: Vec<TOp>,
}

/// A key that is none of the others, but may look much like one of them.
fn key_near(r: &mut Rng, others: &[Pubkey], prefix_pct: u64) -> Pubkey {
    loop {
        let k = key_like(r, others, prefix_pct);
        if !others.contains(&k) {
            return k;
        }
    }
}
fn key_like(r: &mut Rng, others: &[Pubkey], prefix_pct: u64) -> Pubkey {
    let mut b: [u8; 32] = r.bytes(32).try_into().unwrap();
    if !others.is_empty() && r.pct(prefix_pct) {
        let o = r.pick(others).to_bytes();
        match r.below(6) {
            // the same but for one byte, or the same end
            0 => {
                let i = r.usize(32);
                let x = b[i];
                b = o;
                b[i] = b[i].wrapping_add(x | 1);
            }
            1 => {
                let n = *r.pick(&[1usize, 4, 28]);
                b[n..].copy_from_slice(&o[n..]);
            }
            _ => {
                let n = *r.pick(&[4usize, 5, 8, 31]);
                b[..n].copy_from_slice(&o[..n]);
            }
        }
    }
    Pubkey::new_from_array(b)
}

struct Maker<'a> {
    p: &'a TProfile,
    pks: Vec<Pubkey>,
    owners: Vec<Pubkey>,
    /// preferred kind and program of each account
    home: Vec<(Kind, usize)>,
    mint_ids: Vec<usize>,
    stray_mints: Vec<Pubkey>,
}
#[derive(Clone)]
struct St {
    kind: Kind,
    prog: usize,
    mint: Pubkey,
    owner: usize,
    live: bool,
}
impl Maker<'_> {
    fn fresh(&self, r: &mut Rng, acc: usize, change_kind: bool) -> St {
        let (mut kind, prog) = self.home[acc];
        let mut prog = prog;
        if change_kind {
            kind = *r.pick(&[Kind::Token, Kind::Mint, Kind::Multisig]);
            prog = r.usize(2);
        }
        let mint = if self.mint_ids.is_empty() || r.pct(self.p.unknown_mint_pct) {
            *r.pick(&self.stray_mints)
        } else {
            let own: Vec<usize> = self.mint_ids.iter().copied().filter(|m| self.home[*m].1 == prog).collect();
            if own.is_empty() { *r.pick(&self.stray_mints) } else { self.pks[*r.pick(&own)] }
        };
        St { kind, prog, mint, owner: r.usize(self.owners.len()), live: true }
    }
    fn version(&self, r: &mut Rng, st: &St, slot: u64, wv: u64) -> Ver {
        let ext = (st.prog == 1 && r.pct(self.p.ext_pct)).then(|| extension(r));
        let amount = match r.below(20) {
            0 | 1 => u64::MAX - wv,
            2 => r.below(2),
            _ => wv,
        };
        let mut data = match st.kind {
            Kind::Token => token_bytes(r, &st.mint, &self.owners[st.owner], amount, ext, self.p.stale_pct),
            Kind::Mint => mint_bytes(r, amount, ext, self.p.stale_pct),
            Kind::Multisig => multisig_bytes(r),
        };
        let owner = programs()[st.prog];
        if r.below(40) == 0 {
            // allocated, not initialised yet
            let base = if st.kind == Kind::Mint && data.len() == 82 { 82 } else { data.len().min(if st.kind == Kind::Multisig { 355 } else { 165 }) };
            data[..base].fill(0);
        }
        if r.pct(self.p.bad_pct) {
            // not an account the token programs know
            data = match r.below(3) {
                0 => vec![],
                1 => { let n = *r.pick(&[1usize, 81, 83, 164]); r.bytes(n) }
                _ => { let mut d = vec![0; 170]; d[165] = 9; d }
            };
        }
        Ver { slot, wv, lamports: if r.pct(5) { u64::MAX } else { 1 + r.below(1 << 40) }, owner, data, executable: false, rent_epoch: u64::MAX }
    }
    fn closing(&self, r: &mut Rng, st: &St, slot: u64, wv: u64) -> Ver {
        let mut v = Ver { slot, wv, lamports: 0, owner: Pubkey::default(), data: vec![], executable: false, rent_epoch: 0 };
        match r.below(10) {
            0 => v.owner = programs()[st.prog],
            1 => {
                v.owner = programs()[st.prog];
                v.data = vec![0; 165];
            }
            2 => {
                // handed to another program
                v.owner = Pubkey::new_from_array([9; 32]);
                v.lamports = 5;
                v.data = vec![1; 165];
            }
            _ => {}
        }
        v
    }
}

pub fn gen_token_world(r: &mut Rng, p: &TProfile) -> TWorld {
    let mut pks: Vec<Pubkey> = vec![];
    for _ in 0..p.accounts {
        let k = key_near(r, &pks, p.prefix_pct);
        pks.push(k);
    }
    let mut owners: Vec<Pubkey> = vec![];
    for _ in 0..1 + r.usize(p.owners) {
        let k = key_near(r, &owners, p.prefix_pct);
        owners.push(k);
    }
    let single_prog = r.pct(30).then(|| r.usize(2));
    let home: Vec<(Kind, usize)> = (0..p.accounts)
        .map(|i| {
            let k = if i < 1 + p.accounts / 4 { Kind::Mint } else { *r.pick(&[Kind::Token, Kind::Token, Kind::Token, Kind::Multisig]) };
            (k, single_prog.unwrap_or_else(|| r.usize(2)))
        })
        .collect();
    let mint_ids: Vec<usize> = (0..p.accounts).filter(|i| home[*i].0 == Kind::Mint).collect();
    let stray_mints: Vec<Pubkey> = (0..2).map(|_| key_near(r, &pks, p.prefix_pct)).collect();
    let m = Maker { p, pks, owners, home, mint_ids, stray_mints };
    let mut wv = if r.pct(10) { *r.pick(&[(1u64 << 32) - 5, 1 << 53, u64::MAX / 2]) } else { r.below(50) };
    let mut ops = vec![];

    // ---- what is there at the start
    let mut start: Vec<Option<St>> = vec![None; p.accounts];
    let mut init_order: Vec<usize> = (0..p.accounts).collect();
    r.shuffle(&mut init_order);
    for a in init_order {
        if r.pct(p.init_pct) {
            let st = m.fresh(r, a, false);
            wv += 1;
            let ver = m.version(r, &st, 0, wv);
            start[a] = Some(st);
            if r.pct(70) {
                ops.push(TOp::Init { acc: a, ver });
            } else {
                ops.push(TOp::Update { acc: a, ver, commit: Commitment::Finalized, comp: 0 });
            }
        }
    }

    // ---- fork tree
    let base = *r.pick(&[1u64, 2, 7, 100, 250, 65_530, (1 << 32) - 4, 1 << 33, (1 << 53) - 3, i64::MAX as u64 - 4, u64::MAX - 5000]);
    let mut parent: BTreeMap<u64, u64> = BTreeMap::from([(base, base - 1)]);
    let (mut all, mut main) = (vec![base], vec![base]);
    let mut next = base + 1;
    for _ in 1..p.slots {
        if r.pct(20) {
            next += 1 + r.below(3);
        }
        if r.pct(p.fork_pct) {
            parent.insert(next, all[all.len() - 1 - r.usize(all.len().min(3))]);
        } else {
            parent.insert(next, *main.last().unwrap());
            main.push(next);
        }
        all.push(next);
        next += 1;
    }

    // ---- writes along each branch
    let mut branch: BTreeMap<u64, Vec<Option<St>>> = BTreeMap::new();
    let mut writes: BTreeMap<u64, Vec<(usize, Ver)>> = BTreeMap::new();
    for s in &all {
        let mut st = branch.get(&parent[s]).cloned().unwrap_or_else(|| start.clone());
        for _ in 0..r.below(p.writes + 1) {
            let a = r.usize(p.accounts);
            wv += 1 + r.below(2);
            let ver = match st[a].clone() {
                Some(c) if c.live && r.pct(p.close_pct) => {
                    st[a].as_mut().unwrap().live = false;
                    m.closing(r, &c, *s, wv)
                }
                Some(mut c) if c.live => {
                    if r.pct(p.owner_pct) {
                        c.owner = r.usize(m.owners.len());
                    }
                    st[a] = Some(c.clone());
                    m.version(r, &c, *s, wv)
                }
                old => {
                    let change = old.is_some() && r.pct(p.kind_change_pct);
                    let c = m.fresh(r, a, change);
                    st[a] = Some(c.clone());
                    m.version(r, &c, *s, wv)
                }
            };
            writes.entry(*s).or_default().push((a, ver));
        }
        branch.insert(*s, st);
    }

    // ---- delivery: every item gets a time; constraints are restored by clamping
    let pos: BTreeMap<u64, u64> = all.iter().enumerate().map(|(i, s)| (*s, 100 * (i as u64 + 1))).collect();
    let lag_c = 40 + r.below(300);
    let lag_f = lag_c + r.below(p.lag);
    // (time, tie, op)
    let mut items: Vec<(u64, u64, TOp)> = vec![];
    let mut fin_time: BTreeMap<u64, u64> = BTreeMap::new();
    let (mut last_c, mut last_f) = (0, 0);
    let mut announce_at: BTreeMap<u64, u64> = BTreeMap::new();
    for s in &all {
        let t = pos[s] + if r.pct(50) { r.below(90) } else { 0 };
        announce_at.insert(*s, t);
    }
    // a slot is announced before a descendant is confirmed or finalized
    for s in &main {
        let anc = {
            let mut t = 0;
            let mut cur = Some(*s);
            while let Some(c) = cur {
                if let Some(a) = announce_at.get(&c) {
                    t = t.max(*a);
                }
                cur = parent.get(&c).copied();
            }
            t
        };
        if !r.pct(p.skip_pct) {
            last_c = (pos[s] + lag_c).max(last_c + 1).max(anc + 1);
            items.push((last_c, 0, TOp::Slot { slot: *s, parent: parent[s], commit: Commitment::Confirmed }));
            if r.pct(p.dup_pct) {
                items.push((last_c + r.below(400), 0, TOp::Slot { slot: *s, parent: parent[s], commit: Commitment::Confirmed }));
            }
        }
        if !r.pct(p.skip_pct) {
            last_f = (pos[s] + lag_f).max(last_f + 1).max(last_c + 1).max(anc + 1);
            fin_time.insert(*s, last_f);
            items.push((last_f, 0, TOp::Slot { slot: *s, parent: parent[s], commit: Commitment::Finalized }));
            if r.pct(p.dup_pct) {
                items.push((last_f + r.below(300), 0, TOp::Slot { slot: *s, parent: parent[s], commit: Commitment::Finalized }));
            }
        }
    }
    // a slot whose own notification comes before those of its descendants need not be announced
    let mut unannounced: BTreeSet<u64> = BTreeSet::new();
    if r.pct(60) {
        let mut first: BTreeMap<u64, u64> = BTreeMap::new();
        for (t, _, op) in &items {
            if let TOp::Slot { slot, .. } = op {
                let e = first.entry(*slot).or_insert(*t);
                *e = (*e).min(*t);
            }
        }
        for s in &main {
            let later = first.range(*s + 1..).map(|x| *x.1).min().unwrap_or(u64::MAX);
            if first.get(s).map_or(false, |t| *t < later) && r.pct(50) {
                unannounced.insert(*s);
            }
        }
    }
    for s in &all {
        if !unannounced.contains(s) {
            items.push((announce_at[s], 0, TOp::Slot { slot: *s, parent: parent[s], commit: Commitment::Processed }));
        }
        if r.pct(p.dup_pct) {
            items.push((announce_at[s] + r.below(300), 0, TOp::Slot { slot: *s, parent: parent[s], commit: Commitment::Processed }));
        }
        // updates come before any slot from theirs on is finalized
        let limit = fin_time.range(*s..).map(|x| *x.1).min().unwrap_or(u64::MAX);
        for (acc, ver) in writes.get(s).into_iter().flatten() {
            let mut t = pos[s] + r.below(30);
            if r.pct(p.late_pct) {
                t += r.below(400);
            }
            let t = t.min(limit - 1);
            let comp = *r.pick(&[0u8, 0, 1, 2]);
            let op = TOp::Update {
                acc: *acc,
                ver: ver.clone(),
                commit: if r.pct(10) { Commitment::Confirmed } else { Commitment::Processed },
                comp,
            };
            items.push((t, r.below(1000), op.clone()));
            if r.pct(p.dup_pct) {
                items.push(((t + r.below(200)).min(limit - 1), r.below(1000), op));
            }
        }
    }
    items.sort_by_key(|x| (x.0, x.1));
    ops.extend(items.into_iter().map(|x| x.2));
    let mut mints: Vec<Pubkey> = m.mint_ids.iter().map(|i| m.pks[*i]).collect();
    mints.extend(m.stray_mints.iter().copied());
    TWorld { pks: m.pks, owners: m.owners, mints, ops }
}

pub fn top_text(w: &TWorld, op: &TOp) -> String {
    let kind = |v: &Ver| if live(v) { format!("{:?}", kind_of(&v.owner, &v.data)) } else { "closing".into() };
    match op {
        TOp::Update { acc, ver, commit, .. } => format!("update {} account {acc} ({}) {} {}", cname(*commit), &w.pks[*acc].to_string()[..4], kind(ver), ver.short()),
        TOp::Init { acc, ver } => format!("initialize account {acc} {} {}", kind(ver), ver.short()),
        TOp::Slot { slot, parent, commit } => format!("slot {slot} (parent {parent}) {}", cname(*commit)),
    }
}

// ------------------------------------------------------------------ comparing
/// Is `got` what the store must show for version `v`?
pub fn same_content(got: &AccountData, v: &Ver) -> Result<(), String> {
    let g = Ver::of(got);
    if g.owner != v.owner {
        return Err(format!("owner {} instead of {}", g.owner, v.owner));
    }
    if g.executable != v.executable {
        return Err(format!("executable={} instead of {}", g.executable, v.executable));
    }
    let (a, b) = (canonical(&g.owner, &g.data), canonical(&v.owner, &v.data));
    if a != b {
        let at = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        return Err(format!("{} bytes of data instead of {}, first difference at byte {at}", a.len(), b.len()));
    }
    if g.lamports == 0 || (kind_of(&v.owner, &v.data) != Some(Kind::Token) && g.lamports != v.lamports) {
        return Err(format!("{} lamports instead of {}", g.lamports, v.lamports));
    }
    Ok(())
}
pub fn same_view(got: &Option<AccountData>, want: &View) -> Result<(), String> {
    match (got, want.ver()) {
        (None, None) => Ok(()),
        (Some(_), None) => Err("shown although it must be absent".into()),
        (None, Some(v)) => Err(format!("absent instead of {}", v.short())),
        (Some(g), Some(v)) => {
            same_content(g, v)?;
            if let View::Pending(_) = want {
                if (g.updated_slot, g.write_version) != v.key() {
                    return Err(format!("slot {} write version {} instead of {:?}", g.updated_slot, g.write_version, v.key()));
                }
            }
            Ok(())
        }
    }
}

#[derive(Clone, Copy, Default)]
pub struct TChecks {
    pub views: bool,
    pub gpa: bool,
    pub reports: bool,
    pub ret: bool,
    /// behind a router, next to an account store
    pub routed: bool,
}

pub fn slot_info(slot: u64, parent: u64) -> SlotInfo {
    SlotInfo { slot, parent, root: 0 }
}
fn mem(offset: u64, bytes: Vec<u8>) -> AccountFilterType {
    AccountFilterType::Memcmp(MemcmpFilter { offset, data: MemcmpFilterData::Bytes(bytes) })
}

/// A query and whether the store has to answer it.
pub fn gen_query(r: &mut Rng, w: &TWorld, model: &TModel) -> (Pubkey, Option<Vec<AccountFilterType>>, bool) {
    let prog = programs()[r.usize(2)];
    let mut f = vec![];
    let mut must = false;
    let owner = if r.pct(92) { *r.pick(&w.owners) } else { key_near(r, &w.owners, 80) };
    let mint = if r.pct(92) { *r.pick(&w.mints) } else { key_near(r, &w.mints, 80) };
    match r.below(12) {
        0..=6 => {
            // token accounts by owner and/or mint
            if prog == spl_token_2022::id() && r.pct(50) {
                f.push(mem(165, vec![2]));
                if r.pct(20) {
                    f.push(AccountFilterType::Datasize(*r.pick(&[166u64, 167, 170, 249])));
                }
            } else {
                f.push(AccountFilterType::Datasize(165));
            }
            match r.below(3) {
                0 => f.push(mem(32, owner.to_bytes().to_vec())),
                1 => f.push(mem(0, mint.to_bytes().to_vec())),
                _ => {
                    f.push(mem(32, owner.to_bytes().to_vec()));
                    f.push(mem(0, mint.to_bytes().to_vec()));
                }
            }
            must = f.iter().all(|x| !matches!(x, AccountFilterType::Datasize(n) if *n != 165));
        }
        7..=9 => {
            f.push(AccountFilterType::Datasize(82));
            must = true;
        }
        10 => f.push(mem(32, owner.to_bytes().to_vec())),
        _ => {
            if r.pct(50) {
                f.push(AccountFilterType::Datasize(*r.pick(&[165u64, 355, 0])));
            }
        }
    }
    // further conditions, mostly taken from an account that exists
    while r.pct(25) {
        let some: Vec<&Ver> = model.fin.values().chain(model.slots.values().flat_map(|s| s.accs.values())).filter(|v| live(v)).collect();
        let off = *r.pick(&[64u64, 108, 36, 44, 45]);
        let n = *r.pick(&[1usize, 1, 4, 8]);
        if some.is_empty() {
            break;
        }
        let v = *r.pick(&some);
        // only bytes that are part of a value
        let fixed = match (kind_of(&v.owner, &v.data), off) {
            (Some(Kind::Token), 64) => 8,
            (Some(Kind::Token), 108) => 1,
            (Some(Kind::Mint), 36) => 8,
            (Some(Kind::Mint), 44 | 45) => 1,
            _ => 0,
        };
        if n <= fixed {
            f.push(mem(off, v.data[off as usize..off as usize + n].to_vec()));
        }
    }
    r.shuffle(&mut f);
    let f = if f.is_empty() && r.pct(50) { None } else { Some(f) };
    (prog, f, must)
}

pub fn check_query(
    store: &dyn AccountStorageInterface,
    model: &TModel,
    w: &TWorld,
    prog: Pubkey,
    filters: &Option<Vec<AccountFilterType>>,
    must: bool,
    cm: Commitment,
    c: &mut Counters,
) -> Result<(), Violation> {
    let what = format!("query of {} at {} with {filters:?}", if prog == spl_token::id() { "the token program" } else { "token 2022" }, cname(cm));
    let got = match lib("get_program_accounts", || store.get_program_accounts(prog, filters.clone(), cm))? {
        Ok(g) => g,
        Err(e) if must => return Err(viol!("{what} refused with {e:?}")),
        Err(_) => {
            c.add("queries_refused", 1);
            return Ok(());
        }
    };
    c.add("queries_answered", 1);
    let mut want: BTreeMap<Pubkey, View> = BTreeMap::new();
    for pk in &w.pks {
        let v = model.view(pk, cm);
        if let Some(x) = v.ver() {
            if x.owner == prog && all_match(filters, &canonical(&x.owner, &x.data)) {
                want.insert(*pk, v);
            }
        }
    }
    c.add("query_accounts", want.len() as u64);
    for g in got {
        let Some(v) = want.remove(&g.pubkey) else {
            return Err(viol!("{what} returned {} twice or although it does not match: {}", g.pubkey, Ver::of(&g).short()));
        };
        same_view(&Some(g.clone()), &v).map_err(|e| viol!("{what}: account {}: {e}", g.pubkey))?;
    }
    if let Some((pk, v)) = want.into_iter().next() {
        return Err(viol!("{what} misses account {pk} ({:?})", v.ver().map(|x| x.short())));
    }
    Ok(())
}

pub fn check_views(store: &dyn AccountStorageInterface, model: &TModel, pks: &[Pubkey], c: &mut Counters) -> Result<(), Violation> {
    for pk in pks {
        for cm in COMMITMENTS {
            let got = lib("get_account", || store.get_account(*pk, cm))?.map_err(|e| viol!("lookup of {pk} refused: {e:?}"))?;
            c.add("lookups", 1);
            let want = model.view(pk, cm);
            same_view(&got, &want).map_err(|e| viol!("account {pk} at {}: {e}", cname(cm)))?;
        }
    }
    Ok(())
}

/// Executes one operation on the store and on the model.
pub fn tstep(store: &dyn AccountStorageInterface, model: &mut TModel, w: &TWorld, op: &TOp, ch: TChecks, c: &mut Counters) -> Result<(), Violation> {
    match op {
        TOp::Update { acc, ver, commit, comp } => {
            let pk = w.pks[*acc];
            let was = model.fin.get(&pk).cloned();
            let want = model.update(pk, ver, *commit);
            let ad = ver.to_account_data(pk, compression(*comp));
            let got = lib("update_account", || store.update_account(ad, *commit))?;
            if ch.ret {
                if let Some(wnt) = want {
                    if got != wnt {
                        return Err(viol!("the update was answered {got} instead of {wnt}"));
                    }
                }
            }
            if want == Some(false) {
                c.add("refused_updates", 1);
            } else if !live(ver) {
                c.add("closings", 1);
            } else {
                c.add("updates", 1);
                if let (Some(a), Some(k)) = (was.as_ref().and_then(|a| kind_of(&a.owner, &a.data)), kind_of(&ver.owner, &ver.data)) {
                    if a != k {
                        c.add("kind_changes", 1);
                    }
                    if k == Kind::Token && a == k && was.as_ref().unwrap().data[32..64] != ver.data[32..64] {
                        c.add("owner_changes", 1);
                    }
                }
                if ver.data.len() > 165 && ver.data.len() != 355 {
                    c.add("extensions", 1);
                }
            }
        }
        TOp::Init { acc, ver } => {
            let pk = w.pks[*acc];
            model.update(pk, ver, Commitment::Finalized);
            let ad = ver.to_account_data(pk, CompressionMethod::None);
            lib("initilize_or_update_account", || store.initilize_or_update_account(ad))?;
            c.add("initialized", 1);
        }
        TOp::Slot { slot, parent, commit } => {
            let repeated = match commit {
                Commitment::Confirmed => model.confirmed >= *slot,
                Commitment::Finalized => model.finalized >= *slot,
                _ => true,
            };
            let chain = model.chain(*slot).len();
            let want = model.slot(*slot, *parent, *commit);
            let got = lib("process_slot_data", || store.process_slot_data(slot_info(*slot, *parent), *commit))?;
            if *commit == Commitment::Finalized && !repeated {
                c.add("finalized_slots", 1);
                c.add("finalized_through_ancestors", u64::from(chain > 1));
            }
            if ch.reports {
                let n = got.len();
                let mut left = want.clone();
                for g in got {
                    let Some(v) = left.remove(&g.pubkey) else {
                        return Err(viol!("{} reports {} twice or without reason: {}", top_text(w, op), g.pubkey, Ver::of(&g).short()));
                    };
                    same_view(&Some(g.clone()), &View::Pending(&v)).map_err(|e| viol!("{} reports {}: {e}", top_text(w, op), g.pubkey))?;
                    c.add("reported", 1);
                }
                // a repeated notification may repeat the report or not
                if !left.is_empty() && !(repeated && n == 0) {
                    let (pk, v) = left.iter().next().unwrap();
                    return Err(viol!("{} does not report {pk} ({})", top_text(w, op), v.short()));
                }
            }
        }
    }
    Ok(())
}

pub fn trun(w: &TWorld, ops: &[TOp], ch: TChecks, seed: u64, c: &mut Counters, log: &mut Vec<String>) -> Result<(), Violation> {
    let store: crate::acct_seq::Store = if ch.routed { behind_router(seed) } else { new_token_store() };
    let mut model = TModel::default();
    let mut r = Rng::new(seed ^ 0x70CE);
    let wide = w.pks.len() > 40 || ops.len() > 1500;
    for (i, op) in ops.iter().enumerate() {
        log.push(top_text(w, op));
        tstep(&*store, &mut model, w, op, ch, c)?;
        // of many accounts a sample is looked at after each operation, and all of them from time to time
        let all = !wide || i + 1 == ops.len() || r.below(ops.len() as u64 / 6 + 1) == 0;
        if ch.views {
            if all {
                check_views(&*store, &model, &w.pks, c)?;
            } else {
                let mut some: Vec<Pubkey> = (0..6).map(|_| *r.pick(&w.pks)).collect();
                if let TOp::Update { acc, .. } | TOp::Init { acc, .. } = op {
                    some.push(w.pks[*acc]);
                }
                check_views(&*store, &model, &some, c)?;
            }
            c.add("wide_checks", u64::from(wide));
        }
        if ch.gpa && (!wide || r.below(w.pks.len().max(ops.len() / 8) as u64) < 20 || i + 1 == ops.len()) {
            c.add("wide_checks", u64::from(wide));
            for _ in 0..if i + 1 == ops.len() { 12 } else { 2 } {
                let (p, f, must) = gen_query(&mut r, w, &model);
                for cm in COMMITMENTS {
                    check_query(&*store, &model, w, p, &f, must, cm, c)?;
                }
            }
        }
    }
    Ok(())
}

/// The token store for both programs, or one for each, with an account store for another program
/// as default.
fn behind_router(seed: u64) -> crate::acct_seq::Store {
    let other = crate::acct_model::Coverage { programs: vec![(Pubkey::new_from_array([77; 32]), None)], ..Default::default() };
    let one = new_token_store();
    let mut map: std::collections::HashMap<Pubkey, crate::acct_seq::Store> = Default::default();
    map.insert(programs()[0], one.clone());
    map.insert(programs()[1], if seed % 3 == 0 { new_token_store() } else { one });
    Arc::new(lite_account_storage::storage_by_program_id::StorageByProgramId::new(map, crate::acct_seq::new_store(&other)))
}

pub fn routed(ctx: &Arc<Ctx>) {
    drive(ctx, "tokens behind a router", ctx.n(4_000, 100_000), ctx.n(30, 300), crate::acct_seq::THREADS, move |ctx, seed| {
        let ch = TChecks { views: true, gpa: true, reports: true, ret: false, routed: true };
        let ok = tcase(ctx, seed, TProfile::random, ch, |c| c.get("finalized_slots") > 0)?;
        let mut c = Counters::default();
        c.add("token_lookups", 1);
        ctx.merge(&c);
        Ok(ok)
    });
}

pub fn tcase(ctx: &Ctx, seed: u64, profile: fn(&mut Rng) -> TProfile, ch: TChecks, nontrivial: fn(&Counters) -> bool) -> CaseResult {
    let mut r = Rng::new(seed);
    let p = profile(&mut r);
    let w = gen_token_world(&mut r, &p);
    let mut c = Counters::default();
    let mut log = vec![];
    if let Err(v) = trun(&w, &w.ops, ch, seed, &mut c, &mut log) {
        let ops = shrink(&w.ops, std::time::Duration::from_secs(20), |o| {
            trun(&w, o, ch, seed, &mut Counters::default(), &mut vec![]).is_err()
        });
        let mut log = vec![];
        let v2 = trun(&w, &ops, ch, seed, &mut Counters::default(), &mut log).err().unwrap_or(v);
        return Err(Violation::with(v2.message, log));
    }
    ctx.merge(&c);
    let sample = ctx.wants_sample().then(|| format!("{} ops: {}", log.len(), log.join(" | ").chars().take(900).collect::<String>()));
    Ok(CaseOk { nontrivial: nontrivial(&c), fingerprint: hash_of(&log), sample })
}

// ------------------------------------------------------------------ C20: records
pub fn rand_record(r: &mut Rng, pk: Pubkey) -> TokenAccount {
    TokenAccount {
        program: if r.pct(50) { Program::TokenProgram } else { Program::Token2022Program },
        is_deleted: false,
        pubkey: pk,
        owner: Pubkey::new_from_array(r.bytes(32).try_into().unwrap()),
        mint: if r.pct(10) { u32::MAX } else { r.next() as u32 },
        amount: if r.pct(10) { u64::MAX } else { r.next() >> r.below(64) },
        state: *r.pick(&[
            TokenProgramAccountState::Uninitialized,
            TokenProgramAccountState::Initialized,
            TokenProgramAccountState::Frozen,
        ]),
        delegate: r.pct(50).then(|| (Pubkey::new_from_array(r.bytes(32).try_into().unwrap()), r.next() >> r.below(64))),
        is_native: r.pct(50).then(|| r.next() >> r.below(64)),
        close_authority: r.pct(50).then(|| Pubkey::new_from_array(r.bytes(32).try_into().unwrap())),
        additional_data: r.pct(40).then(|| {
            let mut n = *r.pick(&[0usize, 1, 2, 100, 255, 256, 5000]);
            if r.below(1000) == 0 {
                n = *r.pick(&[32_768usize, 65_535, 65_536, 66_000]);
                if r.below(100) == 0 {
                    n = *r.pick(&[200_000usize, 1 << 20, 10 << 20]);
                }
            }
            r.bytes(n)
        }),
    }
}

fn record_case(ctx: &Ctx, seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let mut c = Counters::default();
    // the packed form of one record
    for _ in 0..20 {
        let pk = key_near(&mut r, &[], 0);
        let mut rec = rand_record(&mut r, pk);
        rec.is_deleted = r.pct(30);
        let bytes = lib("to_bytes", || rec.to_bytes())?;
        let back = lib("from_bytes", || TokenAccount::from_bytes(&bytes))?;
        if back != rec {
            return Err(viol!("record {rec:?} is read back as {back:?}"));
        }
        let (a, b, m) = lib("record accessors", || {
            (TokenAccount::get_pubkey_from_binary(&bytes), TokenAccount::get_owner_from_binary(&bytes), TokenAccount::get_mint_index_from_binary(&bytes))
        })?;
        if a != rec.pubkey || b != rec.owner || m != rec.mint {
            return Err(viol!("fields read from the packed record differ: {a} {b} {m} for {rec:?}"));
        }
        // one changed field changes the packed form
        let mut other = rec.clone();
        match r.below(7) {
            0 => other.is_deleted = !other.is_deleted,
            1 => other.amount ^= 1 << r.below(64),
            2 => other.mint ^= 1 << r.below(32),
            3 => other.delegate = match other.delegate { Some((k, a)) if r.pct(50) => Some((k, a ^ 1)), Some(_) => None, None => Some((Pubkey::default(), 0)) },
            4 => other.is_native = match other.is_native { Some(_) => None, None => Some(0) },
            5 => other.close_authority = match other.close_authority { Some(_) => None, None => Some(Pubkey::default()) },
            _ => other.additional_data = match other.additional_data { Some(_) => None, None => Some(vec![]) },
        }
        let ob = lib("to_bytes", || other.to_bytes())?;
        if ob == bytes || lib("from_bytes", || TokenAccount::from_bytes(&ob))? != other {
            return Err(viol!("records {rec:?} and {other:?} are not told apart"));
        }
        c.add("records", 1);
    }
    // the record storage against a map
    let store = InmemoryTokenAccountStorage::default();
    let mut model: BTreeMap<Pubkey, TokenAccount> = BTreeMap::new();
    let mut index: BTreeMap<Pubkey, u32> = BTreeMap::new();
    let mut pks: Vec<Pubkey> = vec![];
    let many = r.below(60) == 0;
    let near = *r.pick(&[0, 70, 70, 100]);
    for _ in 0..if many { 250 + r.usize(350) } else { 2 + r.usize(6) } {
        let k = key_near(&mut r, &pks, near);
        pks.push(k);
    }
    pks.sort();
    pks.dedup();
    r.shuffle(&mut pks);
    c.add("large_record_stores", u64::from(many));
    let mut log = vec![];
    if many {
        for pk in &pks {
            let rec = rand_record(&mut r, *pk);
            let (i, added) = lib("save_or_update", || store.save_or_update(rec.clone()))?;
            if !added || index.values().any(|x| *x == i) {
                return Err(viol!("saving the new account {pk} answered added={added}, index {i}"));
            }
            index.insert(*pk, i);
            model.insert(*pk, rec);
        }
    }
    for _ in 0..30 {
        let pk = *r.pick(&pks);
        match r.below(10) {
            0..=5 => {
                let rec = rand_record(&mut r, pk);
                log.push(format!("save {pk} amount {}", rec.amount));
                let (i, added) = lib("save_or_update", || store.save_or_update(rec.clone()))?;
                if added == model.contains_key(&pk) {
                    return Err(Violation::with(format!("saving {pk} answered added={added}"), log));
                }
                if added {
                    if index.values().any(|x| *x == i) {
                        return Err(Violation::with(format!("the index {i} given to {pk} belongs to another account"), log));
                    }
                    index.insert(pk, i);
                } else if index[&pk] != i {
                    return Err(Violation::with(format!("the index of {pk} changed"), log));
                }
                model.insert(pk, rec);
            }
            6 | 7 => {
                log.push(format!("delete {pk}"));
                lib("delete", || store.delete(&pk))?;
                if model.remove(&pk).is_some() {
                    c.add("records_deleted", 1);
                }
                index.remove(&pk);
            }
            _ => {}
        }
        for k in &pks {
            let got = lib("get_by_pubkey", || store.get_by_pubkey(k))?;
            if got.as_ref() != model.get(k) {
                return Err(Violation::with(format!("{k} is stored as {got:?} instead of {:?}", model.get(k)), log));
            }
            if lib("contains", || store.contains(k))? != index.get(k).copied() {
                return Err(Violation::with(format!("contains({k}) is wrong"), log));
            }
        }
        let all: HashSet<u32> = index.values().copied().collect();
        let mut got = lib("get_by_index", || store.get_by_index(all))?.map_err(|e| viol!("get_by_index: {e:?}"))?;
        got.sort_by_key(|x| x.pubkey);
        if got != model.values().cloned().collect::<Vec<_>>() {
            return Err(Violation::with("the accounts read by index differ from the saved ones".to_string(), log));
        }
        for prog in [Program::TokenProgram, Program::Token2022Program] {
            let mut got: Vec<TokenAccount> = lib("create_snapshot", || store.create_snapshot(prog))?
                .map_err(|e| viol!("create_snapshot: {e:?}"))?
                .iter()
                .map(|b| TokenAccount::from_bytes(b))
                .collect();
            got.sort_by_key(|x| x.pubkey);
            let want: Vec<TokenAccount> = model.values().filter(|x| x.program == prog).cloned().collect();
            if got != want {
                return Err(Violation::with(format!("the records listed for {prog:?} differ from the saved ones"), log));
            }
        }
    }
    ctx.merge(&c);
    Ok(CaseOk { nontrivial: true, fingerprint: hash_of(&log), sample: ctx.wants_sample().then(|| log.join(" | ").chars().take(600).collect()) })
}

// ------------------------------------------------------------------ C25: snapshots
type RawSnapshot = (Vec<(u32, MintAccount)>, Vec<MultiSig>, Vec<Vec<u8>>);

fn unpack_snapshot(b: &[u8]) -> Option<RawSnapshot> {
    bincode::deserialize(&lz4::block::decompress(b, None).ok()?).ok()
}
fn pack_snapshot(s: &RawSnapshot) -> Vec<u8> {
    lz4::block::compress(&bincode::serialize(s).unwrap(), None, true).unwrap()
}

fn snapshot_case(ctx: &Ctx, seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let p = TProfile::random(&mut r);
    let w = gen_token_world(&mut r, &p);
    let mut c = Counters::default();
    let mut log = vec![];
    let res = snapshot_run(&mut r, &w, &mut c, &mut log);
    if let Err(mut v) = res {
        v.history = log;
        return Err(v);
    }
    ctx.merge(&c);
    Ok(CaseOk {
        nontrivial: c.get("snapshot_accounts") > 1,
        fingerprint: hash_of(&log),
        sample: ctx.wants_sample().then(|| log.join(" | ").chars().take(900).collect()),
    })
}

fn load(store: &dyn AccountStorageInterface, prog: Pubkey, b: &[u8]) -> Result<Result<(), AccountLoadingError>, Violation> {
    let b = b.to_vec();
    lib("load_from_snapshot", || store.load_from_snapshot(prog, b))
}

fn snapshot_run(r: &mut Rng, w: &TWorld, c: &mut Counters, log: &mut Vec<String>) -> Result<(), Violation> {
    let store = new_token_store();
    let mut model = TModel::default();
    let none = TChecks::default();
    let cut = r.usize(w.ops.len() + 1);
    for op in &w.ops[..cut] {
        log.push(top_text(w, op));
        tstep(&*store, &mut model, w, op, none, c)?;
    }
    let mut snaps = vec![];
    for prog in programs() {
        let b = lib("create_snapshot", || store.create_snapshot(prog))?.map_err(|e| viol!("create_snapshot refused: {e:?}"))?;
        snaps.push((prog, b));
    }
    if lib("create_snapshot", || store.create_snapshot(Pubkey::new_from_array([3; 32])))?.is_ok() {
        return Err(viol!("a snapshot of a program that is not a token program was created"));
    }
    // taking a snapshot changes nothing
    check_views(&*store, &model, &w.pks, c)?;
    // into a store that may already hold something
    let target = new_token_store();
    let mut tm = TModel::default();
    let style = r.below(4);
    if style > 0 {
        // other accounts, other order of mints; with style 2 also older versions of the same accounts
        let p2 = TProfile { init_pct: 100, bad_pct: 0, ..TProfile::random(r) };
        let m2 = gen_token_world(r, &p2);
        log.push("the target holds other accounts".into());
        for op in m2.ops.iter().filter(|o| matches!(o, TOp::Init { .. })) {
            if let TOp::Init { acc, ver } = op {
                let ad = ver.to_account_data(m2.pks[*acc], CompressionMethod::None);
                lib("initilize_or_update_account", || target.initilize_or_update_account(ad))?;
                tm.update(m2.pks[*acc], ver, Commitment::Finalized);
            }
        }
        if style == 2 {
            let mut inits: Vec<&TOp> = w.ops[..cut].iter().filter(|o| matches!(o, TOp::Init { .. })).collect();
            r.shuffle(&mut inits);
            log.push(format!("and {} of the accounts of the source", inits.len()));
            for op in inits {
                if let TOp::Init { acc, ver } = op {
                    let ad = ver.to_account_data(w.pks[*acc], CompressionMethod::None);
                    lib("initilize_or_update_account", || target.initilize_or_update_account(ad))?;
                    tm.update(w.pks[*acc], ver, Commitment::Finalized);
                }
            }
        }
    }
    let known: Vec<Pubkey> = tm.fin.keys().chain(w.pks.iter()).copied().collect();
    if r.pct(50) {
        snaps.reverse();
    }
    let n = 1 + r.usize(2);
    for (prog, b) in &snaps[..n] {
        log.push(format!("load the snapshot of {prog}"));
        load(&*target, *prog, b)?.map_err(|e| viol!("loading a snapshot failed: {e:?}"))?;
        if r.pct(30) {
            load(&*target, *prog, b)?.map_err(|e| viol!("loading a snapshot again failed: {e:?}"))?;
        }
        for (pk, v) in model.fin.iter().filter(|(_, v)| v.owner == *prog) {
            tm.fin.insert(*pk, v.clone());
            c.add("snapshot_accounts", 1);
        }
        check_views(&*target, &tm, &known, c)?;
    }
    let tw = TWorld { pks: known.clone(), owners: w.owners.clone(), mints: w.mints.clone(), ops: vec![] };
    for _ in 0..6 {
        let (p, f, must) = gen_query(r, &tw, &tm);
        check_query(&*target, &tm, &tw, p, &f, must, COMMITMENTS[r.usize(3)], c)?;
    }
    // life goes on, after the slots so far are announced again
    let announced: Vec<TOp> = w.ops[..cut]
        .iter()
        .filter_map(|o| match o {
            TOp::Slot { slot, parent, .. } => Some(TOp::Slot { slot: *slot, parent: *parent, commit: Commitment::Processed }),
            _ => None,
        })
        .collect();
    for op in announced.iter().chain(&w.ops[cut..]) {
        if matches!(op, TOp::Init { .. }) {
            continue;
        }
        log.push(top_text(w, op));
        tstep(&*target, &mut tm, w, op, TChecks { reports: true, ..none }, c)?;
        check_views(&*target, &tm, &w.pks, c)?;
    }

    // ---- malformed bytes: refused, without effect
    let (prog, b) = snaps[r.usize(2)].clone();
    let mut bad: Vec<(String, Vec<u8>)> = vec![];
    for _ in 0..3 {
        let n = r.usize(b.len());
        bad.push((format!("cut to {n} of {} bytes", b.len()), b[..n].to_vec()));
    }
    bad.push(("random bytes".into(), { let n = r.usize(60); let mut x = r.bytes(n); if n > 4 { x[2] = 0; x[3] = 0; } x }));
    // (the layout is the store's own business: without it there is nothing to damage)
    let raw = unpack_snapshot(&b).unwrap_or_default();
    let push = |what: &str, raw: RawSnapshot, bad: &mut Vec<(String, Vec<u8>)>| bad.push((what.to_string(), pack_snapshot(&raw)));
    if !raw.2.is_empty() {
        let i = r.usize(raw.2.len());
        let mut x = raw.clone();
        let n = r.usize(x.2[i].len());
        x.2[i].truncate(n);
        push("a token account record cut short", x, &mut bad);
        let mut x = raw.clone();
        x.2[i][1] = 7;
        push("a token account record with a bad flag", x, &mut bad);
        let mut x = raw.clone();
        x.2[i][0] |= 0b1100;
        push("a token account record with a bad state", x, &mut bad);
        let mut x = raw.clone();
        let mi = TokenAccount::get_mint_index_from_binary(&x.2[i]);
        x.0.retain(|m| m.0 != mi);
        push("a token account whose mint is not listed", x, &mut bad);
        let mut x = raw.clone();
        x.2[i] = { let mut rec = TokenAccount::from_bytes(&x.2[i]); rec.additional_data = Some(vec![1, 2, 3]); let mut b = rec.to_bytes(); let l = b.len(); b[l - 7..l - 3].copy_from_slice(&u32::MAX.to_le_bytes()); b };
        push("a token account record with an impossible length", x, &mut bad);
    }
    if !raw.1.is_empty() {
        let mut x = raw.clone();
        let i = r.usize(x.1.len());
        x.1[i].signers = vec![Pubkey::default(); 12 + r.usize(300)];
        push("a multisig with too many signers", x, &mut bad);
    }
    for (what, bytes) in bad {
        match load(&*target, prog, &bytes)? {
            Err(_) => c.add("malformed_rejected", 1),
            Ok(()) => return Err(viol!("malformed snapshot accepted: {what}")),
        }
        check_views(&*target, &tm, &known, c).map_err(|e| viol!("after a malformed snapshot ({what}): {}", e.message))?;
    }
    // flipped bits may go unnoticed, but must not make the store panic
    let victim = new_token_store();
    for _ in 0..4 {
        let mut x = b.clone();
        for _ in 0..1 + r.usize(3) {
            let i = if x.len() > 4 { 4 + r.usize(x.len() - 4) } else { 0 };
            if let Some(y) = x.get_mut(i) {
                *y ^= 1 << r.below(8);
            }
        }
        let _ = load(&*victim, prog, &x)?;
        for pk in &w.pks {
            let _ = lib("get_account", || victim.get_account(*pk, Commitment::Finalized))?;
        }
        let (p, f, _) = gen_query(r, &tw, &tm);
        let _ = lib("get_program_accounts", || victim.get_program_accounts(p, f, Commitment::Processed))?;
        c.add("bit_flips", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------ checks
const TCHAIN: &str = "a random fork tree of slots with writes to token accounts, mints and multisigs of both token programs, delivered late, repeated and out of order, with skipped and repeated notifications; distinct by hash of the operation list; ";
const TASSUME: &[&str] = &[
    "every slot is announced with its parent before it or a descendant is confirmed or finalized, and only slots of one chain are",
    "the updates of a slot arrive before it, or any later slot, is finalized; finalized updates of an account arrive in order",
    "lamports of token accounts are not kept by design (the rent-exempt minimum is shown); finalized content is shown without its own slot and write version",
    "bytes behind an unset optional field have no meaning",
];

fn tdrive(ctx: &Arc<Ctx>, quick: u64, ch: TChecks, profile: fn(&mut Rng) -> TProfile, nontrivial: fn(&Counters) -> bool) {
    drive(ctx, "history", ctx.n(quick, quick * 16), ctx.n(45, 700), crate::acct_seq::THREADS, move |ctx, seed| {
        tcase(ctx, seed, profile, ch, nontrivial)
    });
}
fn c20(ctx: &Arc<Ctx>) {
    drive(ctx, "records", ctx.n(20_000, 400_000), ctx.n(45, 600), 8, record_case);
    crate::many::records(ctx);
}
fn c21(ctx: &Arc<Ctx>) {
    tdrive(ctx, 50_000, TChecks { views: true, reports: true, ..Default::default() },
        |r| TProfile { ext_pct: 60, stale_pct: 20, kind_change_pct: 0, fork_pct: 0, late_pct: 0, unknown_mint_pct: 10, owner_pct: 30, ..TProfile::random(r) },
        |c| c.get("updates") + c.get("initialized") > 3);
}
fn c22(ctx: &Arc<Ctx>) {
    tdrive(ctx, 50_000, TChecks { views: true, ret: true, ..Default::default() },
        |r| {
            let p = TProfile::random(r);
            if r.pct(50) { p } else { TProfile { close_pct: 0, ..p } }
        },
        |c| c.get("updates") > 4 && c.get("finalized_slots") > 0);
    for (key, what) in [("stale-finalized-update", "an older version delivered at finalized commitment after a newer one was finalized replaces it (finalized content is kept without slot and write version)"),
        ("late-update-after-finalized", "an update delivered after its slot was finalized is taken but never shown")] {
        match late_scenario(key) {
            Ok(true) => {}
            Ok(false) if crate::known::listed("C22", key) => ctx.known_finding(what),
            Ok(false) => ctx.violate(key, 0, viol!("{what}")),
            Err(v) => ctx.violate(key, 0, v),
        }
    }
    crate::many::stores(ctx, true, crate::many::Judge { views: true, ..Default::default() });
    crate::chains::run(ctx, true, crate::many::Judge { views: true, ..Default::default() });
}
/// Does the store show the newest finalized version in the two listed histories?
fn late_scenario(key: &str) -> Result<bool, Violation> {
    let mut r = Rng::new(5);
    let (pk, mint, owner) = (key_near(&mut r, &[], 0), key_near(&mut r, &[], 0), key_near(&mut r, &[], 0));
    let mut ver = |slot, wv| Ver { slot, wv, lamports: 1, owner: spl_token::id(), data: token_bytes(&mut r, &mint, &owner, wv, None, 0), executable: false, rent_epoch: 0 };
    let (old, new) = (ver(5, 10), ver(7, 20));
    let store = new_token_store();
    let up = |v: &Ver, c| lib("update_account", || store.update_account(v.to_account_data(pk, CompressionMethod::None), c));
    let slot = |s, c| lib("process_slot_data", || store.process_slot_data(slot_info(s, s - 1), c));
    if key == "stale-finalized-update" {
        up(&new, Commitment::Finalized)?;
        up(&old, Commitment::Finalized)?;
    } else {
        up(&old, Commitment::Processed)?;
        for s in 5..8 {
            for c in COMMITMENTS {
                slot(s, c)?;
            }
        }
        up(&new, Commitment::Processed)?;
    }
    let got = lib("get_account", || store.get_account(pk, Commitment::Finalized))?.map_err(|e| viol!("{e:?}"))?;
    Ok(same_view(&got, &View::Final(&new)).is_ok())
}
fn c23(ctx: &Arc<Ctx>) {
    tdrive(ctx, 50_000, TChecks { gpa: true, ..Default::default() }, |r| {
        let p = TProfile::random(r);
        TProfile { accounts: p.accounts + 1, init_pct: 50, kind_change_pct: 10, ..p }
    },
        |c| c.get("query_accounts") > 10);
    crate::many::stores(ctx, true, crate::many::Judge { queries: true, ..Default::default() });
    crate::chains::run(ctx, true, crate::many::Judge { queries: true, ..Default::default() });
}
fn c24(ctx: &Arc<Ctx>) {
    tdrive(ctx, 50_000, TChecks { views: true, gpa: true, ret: true, ..Default::default() },
        |r| {
            let p = TProfile::random(r);
            TProfile { close_pct: 20 + r.below(30), kind_change_pct: 40, prefix_pct: 60, init_pct: 50, slots: p.slots + 2, ..p }
        },
        |c| c.get("closings") > 1 && c.get("finalized_slots") > 0);
}
fn c25(ctx: &Arc<Ctx>) {
    drive(ctx, "snapshots", ctx.n(40_000, 800_000), ctx.n(45, 700), 8, snapshot_case);
    crate::many::stores(ctx, true, crate::many::Judge { snapshots: true, ..Default::default() });
}
fn c26(ctx: &Arc<Ctx>) {
    tdrive(ctx, 80_000, TChecks { reports: true, ..Default::default() }, TProfile::random, |c| c.get("reported") > 2);
    crate::many::stores(ctx, true, crate::many::Judge { reports: true, ..Default::default() });
    crate::chains::run(ctx, true, crate::many::Judge { reports: true, ..Default::default() });
}

pub fn checks() -> Vec<crate::Check> {
    let mk = |id, run, rule: &str, min, must_see| crate::Check {
        id,
        run,
        rule: Box::leak(format!("{TCHAIN}{rule}").into_boxed_str()),
        min_nontrivial: min,
        must_see,
        assumptions: TASSUME,
    };
    vec![
        crate::Check { id: "C20", run: c20, rule: "20 random records packed and unpacked, and 30 operations on a record storage of keys that mostly share prefixes, compared with a map; distinct by hash of the operations", min_nontrivial: 300, must_see: &["records", "records_deleted", "large_record_stores", "records_among_many"], assumptions: &[] },
        mk("C21", c21, "every field of every kind of account varies; non-trivial if more than three contents were taken", 300, &["updates", "extensions", "initialized", "reported"]),
        mk("C22", c22, "non-trivial with more than four updates and a finalized slot", 300, &["lookups", "finalized_slots", "finalized_through_ancestors", "refused_updates", "lookups_among_many"]),
        mk("C23", c23, "non-trivial if the queries had more than ten accounts to return", 300, &["queries_answered", "query_accounts", "owner_changes", "queries_refused", "accounts_queried_among_many"]),
        mk("C24", c24, "many closings, reopenings as other kinds and shared prefixes; non-trivial with two closings and a finalized slot", 300, &["closings", "kind_changes", "queries_answered"]),
        mk("C25", c25, "snapshots of both programs at a random moment, loaded into an empty or filled store which then goes on, and malformed bytes; non-trivial if two accounts were restored", 300, &["snapshot_accounts", "malformed_rejected", "bit_flips", "restored_of_many"]),
        mk("C26", c26, "non-trivial if three accounts were reported", 300, &["reported", "finalized_through_ancestors", "reported_of_many"]),
    ]
}
