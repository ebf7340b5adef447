//! Random chains: a fork tree of slots with account writes, and a hostile delivery schedule.
use crate::acct_model::*;
use crate::util::*;
use lite_account_manager_common::{
    account_filter::{AccountFilterType, MemcmpFilter, MemcmpFilterData},
    commitment::Commitment,
};
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Profile {
    pub accounts: usize,
    pub slots: usize,
    pub fork_pct: u64,
    pub gap_pct: u64,
    pub writes_per_slot: u64,
    pub late_pct: u64,
    pub dup_pct: u64,
    pub skip_notif_pct: u64,
    pub regress_pct: u64,
    pub direct_pct: u64,
    pub close_pct: u64,
    pub owner_pct: u64,
    /// deliver updates only while no later slot has been finalized, and every notification in order
    pub orderly: bool,
    pub shrink_data: bool,
    /// how long finality may lag behind, in tenths of a slot
    pub fin_lag: u64,
}

impl Profile {
    pub fn random(r: &mut Rng) -> Profile {
        match r.below(1200) {
            0..=2 => Profile::long(r),
            3..=6 => Profile::wide(r),
            // a few accounts written over and over in a slot
            7..=9 => Profile { writes_per_slot: 20 + r.below(180), slots: 3 + r.usize(4), ..Profile::short(r) },
            _ => Profile::short(r),
        }
    }
    /// hundreds of accounts, many of them written in every slot
    pub fn wide(r: &mut Rng) -> Profile {
        Profile { accounts: 30 + r.usize(400), writes_per_slot: 10 + r.below(150), ..Profile::short(r) }
    }
    /// a long chain whose finalization stalls: hundreds of slots and versions are held at once
    pub fn long(r: &mut Rng) -> Profile {
        let slots = if r.pct(25) { 1030 + r.usize(200) } else { 80 + r.usize(320) };
        Profile { slots, fin_lag: slots as u64 * 10, accounts: 1 + r.usize(8), ..Profile::short(r) }
    }
    pub fn short(r: &mut Rng) -> Profile {
        let calm = |r: &mut Rng, hi: u64| if r.pct(35) { 0 } else { r.below(hi + 1) };
        Profile {
            accounts: 1 + r.usize(5),
            slots: 3 + r.usize(12),
            fork_pct: calm(r, 45),
            gap_pct: calm(r, 40),
            writes_per_slot: 1 + r.below(4),
            late_pct: calm(r, 60),
            dup_pct: calm(r, 30),
            skip_notif_pct: calm(r, 70),
            regress_pct: calm(r, 25),
            direct_pct: calm(r, 40),
            close_pct: calm(r, 25),
            owner_pct: calm(r, 25),
            orderly: false,
            shrink_data: true,
            fin_lag: 120,
        }
    }
}

#[derive(Clone)]
pub struct World {
    pub pks: Vec<Pubkey>,
    pub cov: Coverage,
    pub programs: Vec<Pubkey>,
    pub untracked: Pubkey,
    pub ops: Vec<Op>,
    /// slots on the main chain
    pub main: Vec<u64>,
    pub forks: Vec<u64>,
}

pub const MAGIC: [u8; 4] = [7, 1, 2, 3];

pub fn pubkey(r: &mut Rng) -> Pubkey {
    Pubkey::new_from_array(r.bytes(32).try_into().unwrap())
}

fn gen_data(r: &mut Rng, program_kind: usize, wv: u64, keep_matching: bool) -> Vec<u8> {
    let len = match program_kind {
        2 => {
            if keep_matching {
                64
            } else {
                *r.pick(&[63usize, 65, 0])
            }
        }
        _ if r.below(300) == 0 => *r.pick(&[1023usize, 1024, 4097, 10_240, 65_536, 70_001]),
        _ => *r.pick(&[0usize, 1, 4, 8, 16, 64, 165, 400]),
    };
    let mut d = if r.pct(50) {
        vec![r.below(3) as u8; len]
    } else {
        r.bytes(len)
    };
    // embed the write version so that every version is recognisable
    let tag = wv.to_le_bytes();
    for i in 0..len.min(8) {
        d[i] = tag[i];
    }
    if program_kind == 3 {
        d.resize(len.max(24), 0);
        d[16..20].copy_from_slice(if keep_matching { &MAGIC } else { &[9, 9, 9, 9] });
    } else if len >= 20 && r.pct(30) {
        d[16..20].copy_from_slice(&MAGIC);
    }
    d
}

pub fn gen_world(r: &mut Rng, p: &Profile) -> World {
    let pks: Vec<Pubkey> = (0..p.accounts).map(|_| pubkey(r)).collect();
    // program 0,1 whole; 2 by size; 3 by memcmp
    let programs: Vec<Pubkey> = (0..4).map(|_| pubkey(r)).collect();
    let untracked = pubkey(r);
    let mut cov = Coverage::default();
    cov.programs.push((programs[0], None));
    cov.programs.push((programs[1], None));
    cov.programs
        .push((programs[2], Some(vec![AccountFilterType::Datasize(64)])));
    cov.programs.push((
        programs[3],
        Some(vec![AccountFilterType::Memcmp(MemcmpFilter {
            offset: 16,
            data: MemcmpFilterData::Bytes(MAGIC.to_vec()),
        })]),
    ));
    if r.pct(40) {
        cov.accounts.insert(pks[0]);
    }

    // ---- fork tree
    let base = match r.below(16) {
        0..=3 => 0,
        4..=7 => 1,
        8..=11 => r.below(50),
        12..=14 => r.below(1 << 40),
        _ => *r.pick(&[255, 65_530, (1 << 31) - 5, (1 << 32) - 5, (1 << 63) - 5, u64::MAX - 3000]),
    };
    let mut main: Vec<u64> = vec![base];
    let mut forks = vec![];
    let mut parent: BTreeMap<u64, u64> = BTreeMap::new();
    parent.insert(base, base.saturating_sub(1));
    let mut all = vec![base];
    let mut next = base + 1;
    for _ in 1..p.slots {
        if r.pct(p.gap_pct) {
            next += 1 + r.below(3);
        }
        if r.pct(p.fork_pct) {
            // a dead fork, growing from a recent slot of any branch
            let from = all[all.len() - 1 - r.usize(all.len().min(3))];
            parent.insert(next, from);
            forks.push(next);
        } else {
            parent.insert(next, *main.last().unwrap());
            main.push(next);
        }
        all.push(next);
        next += 1;
    }

    // ---- writes: account state per branch
    #[derive(Clone)]
    struct St {
        owner_kind: usize, // 0..3 programs, 4 untracked, 5 closed
    }
    let mut branch: BTreeMap<u64, Vec<Option<St>>> = BTreeMap::new();
    let mut wv = match r.below(8) {
        0 => *r.pick(&[(1 << 31) - 9, (1 << 32) - 9, (1 << 53) - 9, (1 << 63) - 9, u64::MAX - 40_000]),
        1 => r.below(1 << 40),
        _ => r.below(1000),
    };
    // (slot, account, version)
    let mut writes: Vec<(u64, usize, Ver)> = vec![];
    let n_kinds = 1 + r.usize(4);
    for s in &all {
        let mut st = branch
            .get(&parent[s])
            .cloned()
            .unwrap_or_else(|| vec![None; p.accounts]);
        let n = r.below(p.writes_per_slot + 1);
        for _ in 0..n {
            let a = r.usize(p.accounts);
            wv += 1 + r.below(2);
            let cur = st[a].clone();
            let (kind, live) = match &cur {
                Some(c) if c.owner_kind < 5 => {
                    if r.pct(p.close_pct) {
                        (5, false)
                    } else if r.pct(p.owner_pct) {
                        (if r.pct(30) { 4 } else { r.usize(n_kinds) }, true)
                    } else {
                        (c.owner_kind, true)
                    }
                }
                _ => {
                    if r.pct(5) {
                        (4, true)
                    } else {
                        (r.usize(n_kinds), true)
                    }
                }
            };
            st[a] = Some(St { owner_kind: kind });
            let owner = match kind {
                0..=3 => programs[kind],
                4 => untracked,
                _ => {
                    // closing normally hands the account to the system program; some closures keep the owner
                    if r.pct(85) {
                        Pubkey::default()
                    } else {
                        programs[r.usize(n_kinds)]
                    }
                }
            };
            let matching = r.pct(80);
            let data = if live {
                gen_data(r, kind, wv, matching)
            } else if r.pct(90) {
                vec![]
            } else {
                gen_data(r, kind, wv, matching)
            };
            let ver = Ver {
                slot: *s,
                wv,
                lamports: match (live, r.below(16)) {
                    (false, _) => 0,
                    (true, 0) => *r.pick(&[1, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 63, u64::MAX]),
                    (true, _) => 1 + r.below(1 << 40),
                },
                owner,
                data,
                executable: r.pct(5),
                rent_epoch: if r.pct(50) { u64::MAX } else { r.below(400) },
            };
            writes.push((*s, a, ver));
        }
        branch.insert(*s, st);
    }

    // ---- delivery schedule: (time, op)
    let mut ev: Vec<(u64, Op)> = vec![];
    let idx: BTreeMap<u64, u64> = all.iter().enumerate().map(|(i, s)| (*s, i as u64)).collect();
    let conf_lag = 12 + r.below(40);
    let least = if p.slots >= 80 { p.fin_lag / 3 } else { 0 };
    let fin_lag = conf_lag + 5 + least + r.below(p.fin_lag - least);
    let is_main = |s: &u64| main.contains(s);
    for (i, (s, a, v)) in writes.iter().enumerate() {
        let t0 = idx[s] * 10 + r.below(9);
        let _ = i;
        let mut t = t0;
        if r.pct(p.late_pct) {
            t += r.below(fin_lag + 30);
        }
        let comp = r.below(36) as u8;
        let mut c = Commitment::Processed;
        if is_main(s) && r.pct(p.direct_pct) {
            c = if r.pct(70) {
                Commitment::Confirmed
            } else {
                Commitment::Finalized
            };
            if r.pct(70) {
                // delivered in addition to the processed one
                ev.push((t, Op::Update { acc: *a, ver: v.clone(), commit: Commitment_(Commitment::Processed), comp }));
                t += r.below(fin_lag);
            }
        }
        ev.push((t, Op::Update { acc: *a, ver: v.clone(), commit: Commitment_(c), comp }));
        if r.pct(p.dup_pct) {
            let t2 = t + r.below(fin_lag + 40);
            ev.push((t2, Op::Update { acc: *a, ver: v.clone(), commit: Commitment_(Commitment::Processed), comp }));
        }
    }
    for s in &all {
        let i = idx[s];
        let par = parent[s];
        let mk = |c: Commitment| Op::Slot {
            slot: *s,
            parent: par,
            commit: Commitment_(c),
        };
        let last_main = main.last() == Some(s);
        let skip = |r: &mut Rng| !last_main && r.pct(p.skip_notif_pct);
        if !r.pct(p.skip_notif_pct / 3) {
            ev.push((i * 10 + if r.pct(50) { 10 } else { 0 }, mk(Commitment::Processed)));
        }
        if is_main(s) {
            let jitter = r.below(25);
            if !skip(r) {
                ev.push((i * 10 + conf_lag + jitter, mk(Commitment::Confirmed)));
            }
            if !skip(r) {
                ev.push((i * 10 + fin_lag + jitter, mk(Commitment::Finalized)));
            }
            if r.pct(p.regress_pct) {
                let c = COMMITMENTS[r.usize(3)];
                let lag = match c {
                    Commitment::Processed => 0,
                    Commitment::Confirmed => conf_lag,
                    Commitment::Finalized => fin_lag,
                };
                ev.push((i * 10 + lag + 20 + r.below(fin_lag + 30), mk(c)));
            }
        }
    }
    ev.sort_by_key(|e| e.0);
    let ops = ev.into_iter().map(|e| e.1).collect();
    World {
        pks,
        cov,
        programs,
        untracked,
        ops,
        main,
        forks,
    }
}
