//! Hostile input: contents, slots, filters and bytes that no well behaved source would send.
use crate::acct_model::*;
use crate::acct_seq::{new_routed, new_store, Store};
use crate::token::{self, new_token_store};
use crate::util::*;
use crate::viol;
use lite_account_manager_common::{
    account_filter::{AccountFilterType, MemcmpFilter, MemcmpFilterData},
    account_store_interface::AccountStorageInterface,
    commitment::Commitment,
    slot_info::SlotInfo,
};
use lite_account_storage::storage_by_program_id::StorageByProgramId;
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::sync::Arc;

type Filters = Option<Vec<AccountFilterType>>;

#[derive(Clone)]
enum HOp {
    Update(usize, Ver, Commitment, u8),
    Init(usize, Ver),
    Slot(u64, u64, u64, Commitment),
    Query(Pubkey, Filters, Commitment),
    Snapshot(Pubkey),
    Load(Pubkey, Vec<u8>),
    /// load the snapshot just taken of the program with these bits flipped
    Mutated(Pubkey, Vec<u64>),
}

struct HWorld {
    pks: Vec<Pubkey>,
    progs: Vec<Pubkey>,
    cov: Coverage,
    ops: Vec<HOp>,
    /// slots and write versions stay small, so that life can go on afterwards
    moderate: bool,
    kind: u64,
    split: u64,
}

fn key(r: &mut Rng) -> Pubkey {
    Pubkey::new_from_array(r.bytes(32).try_into().unwrap())
}

fn weird_filter(r: &mut Rng) -> AccountFilterType {
    let num = |r: &mut Rng| match r.below(6) {
        0 => 0,
        1 => u64::MAX,
        2 => u64::MAX - r.below(40),
        3 => 1 << r.below(64),
        4 => *r.pick(&[32, 64, 82, 108, 165, 166, 355]),
        _ => r.below(200),
    };
    if r.pct(30) {
        return AccountFilterType::Datasize(num(r));
    }
    let n = *r.pick(&[0usize, 1, 4, 31, 32, 33, 64, 128, 129, 400]);
    let b = if r.pct(50) { vec![r.below(3) as u8; n] } else { r.bytes(n) };
    let data = match r.below(5) {
        0 | 1 => MemcmpFilterData::Bytes(b),
        2 => MemcmpFilterData::Base58(bs58::encode(&b).into_string()),
        3 => {
            use base64::Engine;
            MemcmpFilterData::Base64(base64::engine::general_purpose::STANDARD.encode(&b))
        }
        _ => {
            let s: String = (0..r.usize(60)).map(|_| *r.pick(&['0', 'O', 'l', 'I', 'a', 'Z', '=', '/', ' ', 'é', '\0'])).collect();
            if r.pct(50) { MemcmpFilterData::Base58(s) } else { MemcmpFilterData::Base64(s) }
        }
    };
    AccountFilterType::Memcmp(MemcmpFilter { offset: num(r), data })
}

fn weird_filters(r: &mut Rng) -> Filters {
    match r.below(6) {
        0 => None,
        1 => Some(vec![]),
        2 => Some((0..r.usize(40)).map(|_| weird_filter(r)).collect()),
        _ => Some((0..1 + r.usize(3)).map(|_| weird_filter(r)).collect()),
    }
}

fn weird_data(r: &mut Rng, keys: &[Pubkey]) -> Vec<u8> {
    let (a, b) = (*r.pick(keys), *r.pick(keys));
    let mut d = match r.below(8) {
        0 | 1 => {
            let n = r.next() >> 1;
            token::token_bytes(r, &a, &b, n, None, 50)
        }
        2 => token::mint_bytes(r, 5, None, 50),
        3 => token::multisig_bytes(r),
        4 => {
            let e = r.bytes(40);
            token::token_bytes(r, &a, &b, 3, Some(e), 50)
        }
        5 => vec![r.below(4) as u8; *r.pick(&[0usize, 1, 81, 82, 83, 164, 165, 166, 167, 170, 355, 356, 400])],
        6 => {
            let n = *r.pick(&[0usize, 1, 82, 165, 166, 170, 355, 10_000]);
            r.bytes(n)
        }
        _ => r.bytes(64),
    };
    if r.pct(40) {
        for _ in 0..1 + r.usize(4) {
            if !d.is_empty() {
                let i = if r.pct(50) { *r.pick(&[0usize, 32, 64, 72, 76, 108, 109, 113, 121, 129, 165, 166, 168]) } else { r.usize(d.len()) };
                let i = i.min(d.len() - 1);
                d[i] = *r.pick(&[0u8, 1, 2, 3, 4, 255, 128]);
            }
        }
    }
    if r.pct(15) {
        d.truncate(r.usize(d.len() + 1));
    }
    if r.pct(10) {
        let n = r.usize(30);
        d.extend(r.bytes(n));
    }
    d
}

fn gen(r: &mut Rng) -> HWorld {
    let moderate = r.pct(60);
    let first = key(r);
    // some addresses share a long prefix
    let mut pks = vec![first];
    for i in 1..6u8 {
        let mut k = key(r).to_bytes();
        if r.pct(50) {
            let n = *r.pick(&[1usize, 2, 4, 8, 31]);
            k[..n].copy_from_slice(&first.to_bytes()[..n]);
            k[31] = i;
        }
        pks.push(Pubkey::new_from_array(k));
    }
    let mut progs = token::programs().to_vec();
    progs.extend([key(r), key(r), key(r), Pubkey::default()]);
    let mut cov = Coverage::default();
    for p in &progs[2..4] {
        let f = if r.pct(30) { None } else { Some((0..r.usize(3)).map(|_| weird_filter(r)).collect()) };
        cov.programs.push((*p, f));
    }
    cov.programs.push((progs[4], None));
    if r.pct(50) {
        cov.accounts.insert(pks[0]);
    }
    let slot = |r: &mut Rng| {
        if moderate || r.pct(70) {
            r.below(12)
        } else {
            *r.pick(&[u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1, 1 << 32, 1 << 31, 0])
        }
    };
    let mut ops = vec![];
    for _ in 0..20 + r.usize(60) {
        let c = COMMITMENTS[r.usize(3)];
        let p = *r.pick(&progs);
        let ver = |r: &mut Rng| Ver {
            slot: slot(r),
            wv: if r.pct(80) { r.below(6) } else { *r.pick(&[0, u64::MAX, 1 << 63]) },
            lamports: *r.pick(&[0, 0, 1, 5, u64::MAX]),
            owner: *r.pick(&progs),
            data: weird_data(r, &pks),
            executable: r.pct(20),
            rent_epoch: if r.pct(50) { 0 } else { u64::MAX },
        };
        ops.push(match r.below(20) {
            0..=8 => {
                let c = if r.pct(70) { Commitment::Processed } else { c };
                HOp::Update(r.usize(pks.len()), ver(r), c, r.below(36) as u8)
            }
            9 => HOp::Init(r.usize(pks.len()), ver(r)),
            10..=15 => HOp::Slot(slot(r), slot(r), slot(r), c),
            16 | 17 => HOp::Query(p, weird_filters(r), c),
            18 => {
                if r.pct(50) {
                    HOp::Snapshot(p)
                } else {
                    let n = r.usize(80);
                    let mut b = r.bytes(n);
                    for i in 2..8.min(b.len()) {
                        b[i] = 0;
                    }
                    HOp::Load(p, b)
                }
            }
            _ => HOp::Mutated(p, (0..1 + r.usize(3)).map(|_| r.next()).collect()),
        });
    }
    let _ = &slot;
    HWorld { pks, progs, cov, ops, moderate, kind: r.below(4), split: r.next() }
}

fn text(w: &HWorld, op: &HOp) -> String {
    let pk = |i: &usize| w.pks[*i].to_string()[..4].to_string();
    match op {
        HOp::Update(a, v, c, _) => format!("update {} {} at {}", pk(a), v.short(), cname(*c)),
        HOp::Init(a, v) => format!("initialize {} {}", pk(a), v.short()),
        HOp::Slot(s, p, root, c) => format!("slot {s} parent {p} root {root} {}", cname(*c)),
        HOp::Query(p, f, c) => format!("query {} {f:?} at {}", &p.to_string()[..4], cname(*c)),
        HOp::Snapshot(p) => format!("snapshot of {}", &p.to_string()[..4]),
        HOp::Load(p, b) => format!("load {} bytes as snapshot of {}", b.len(), &p.to_string()[..4]),
        HOp::Mutated(p, m) => format!("load the snapshot of {} with {} bits flipped", &p.to_string()[..4], m.len()),
    }
}

/// What is left of mutated contents: no delegated amount without a delegate, no signers beyond their number,
/// nothing between a mint and its extensions.
fn meaning(owner: &Pubkey, data: &[u8]) -> Vec<u8> {
    let mut d = token::canonical(owner, data);
    match token::kind_of(owner, data) {
        Some(token::Kind::Token) if d[72..76] == [0; 4] => d[121..129].fill(0),
        Some(token::Kind::Mint) if d.len() > 165 => d[82..165].fill(0),
        Some(token::Kind::Multisig) => {
            let from = 3 + 32 * (d[1] as usize).min(11);
            d[from..].fill(0);
        }
        _ => {}
    }
    d
}

fn build(w: &HWorld) -> Store {
    match w.kind {
        0 => new_store(&w.cov),
        1 => new_token_store(),
        2 => new_routed(&w.cov, w.split),
        _ => {
            let t: Store = new_token_store();
            let map = token::programs().iter().map(|p| (*p, t.clone())).collect();
            Arc::new(StorageByProgramId::new(map, new_store(&w.cov)))
        }
    }
}

/// Every answer is an account that was asked for, and queries agree with lookups.
fn coherent(store: &Store, w: &HWorld, r: &mut Rng, known: &mut dyn FnMut(&Pubkey, &Ver) -> bool, c: &mut Counters) -> Result<(), Violation> {
    let cm = COMMITMENTS[r.usize(3)];
    let mut shown: BTreeMap<Pubkey, Ver> = BTreeMap::new();
    for pk in &w.pks {
        if let Some(v) = get(&**store, *pk, cm)? {
            if !v.live() {
                return Err(viol!("lookup at {} shows a closed account: {}", cname(cm), v.short()));
            }
            if !known(pk, &v) {
                return Err(viol!("lookup of {} at {} shows content that was never delivered: {}", &pk.to_string()[..4], cname(cm), v.short()));
            }
            shown.insert(*pk, v);
        }
    }
    let p = *r.pick(&w.progs);
    let f = if r.pct(40) { None } else { weird_filters(r) };
    let Ok(got) = lib("get_program_accounts", || store.get_program_accounts(p, f.clone(), cm))? else {
        c.add("queries_refused", 1);
        return Ok(());
    };
    c.add("queries_answered", 1);
    c.add("query_accounts", got.len() as u64);
    if w.kind >= 2 {
        // storages behind a router only agree about moved accounts if updates come in order
        return Ok(());
    }
    let mut want: BTreeMap<Pubkey, Ver> = shown.into_iter().filter(|(_, v)| v.owner == p && all_match(&f, &v.data)).collect();
    for a in got {
        let v = lib("decoding account data", || Ver::of(&a))?;
        // a corrupted snapshot may have brought other addresses
        if !w.pks.contains(&a.pubkey) && known(&a.pubkey, &v) {
            continue;
        }
        match want.remove(&a.pubkey) {
            Some(x) if x == v => {}
            Some(x) => return Err(viol!("query of {} at {} shows {} but the lookup {}", &p.to_string()[..4], cname(cm), v.short(), x.short())),
            None => return Err(viol!("query of {} {f:?} at {} returned {} twice or although the lookup does not match: {}", &p.to_string()[..4], cname(cm), &a.pubkey.to_string()[..4], v.short())),
        }
    }
    if let Some((pk, v)) = want.into_iter().next() {
        return Err(viol!("query of {} {f:?} at {} misses account {} {}", &p.to_string()[..4], cname(cm), &pk.to_string()[..4], v.short()));
    }
    Ok(())
}

fn run(w: &HWorld, ops: &[HOp], seed: u64, c: &mut Counters, log: &mut Vec<String>) -> Result<(), Violation> {
    let store = build(w);
    let mut r = Rng::new(seed ^ 0x4057);
    // contents delivered so far, by their data as the token store writes it
    let mut sent: std::collections::HashSet<(Pubkey, Pubkey, Vec<u8>)> = Default::default();
    let mut mutated = false;
    let token_store = w.kind == 1 || w.kind == 3;
    for op in ops {
        log.push(text(w, op));
        match op {
            HOp::Update(a, v, cm, comp) => {
                sent.insert((w.pks[*a], v.owner, meaning(&v.owner, &v.data)));
                sent.insert((w.pks[*a], v.owner, v.data.clone()));
                let ad = v.to_account_data(w.pks[*a], compression(*comp));
                lib("update_account", || store.update_account(ad, *cm))?;
                c.add("updates", 1);
            }
            HOp::Init(a, v) => {
                sent.insert((w.pks[*a], v.owner, meaning(&v.owner, &v.data)));
                sent.insert((w.pks[*a], v.owner, v.data.clone()));
                let ad = v.to_account_data(w.pks[*a], compression(0));
                lib("initilize_or_update_account", || store.initilize_or_update_account(ad))?;
                c.add("updates", 1);
            }
            HOp::Slot(s, p, root, cm) => {
                let got = lib("process_slot_data", || store.process_slot_data(SlotInfo { slot: *s, parent: *p, root: *root }, *cm))?;
                let mut seen = std::collections::HashSet::new();
                for a in &got {
                    lib("decoding account data", || Ver::of(a))?;
                    if !seen.insert(a.pubkey) {
                        return Err(viol!("account {} reported twice for one notification", a.pubkey));
                    }
                }
                c.add("notifications", 1);
                c.add("reported", got.len() as u64);
                if s == p {
                    c.add("own_parent", 1);
                }
            }
            HOp::Query(p, f, cm) => {
                let _ = lib("get_program_accounts", || store.get_program_accounts(*p, f.clone(), *cm))?;
            }
            HOp::Snapshot(p) => {
                let _ = lib("create_snapshot", || store.create_snapshot(*p))?;
            }
            HOp::Load(p, b) => {
                if lib("load_from_snapshot", || store.load_from_snapshot(*p, b.clone()))?.is_ok() {
                    mutated = true;
                } else {
                    c.add("malformed_rejected", 1);
                }
            }
            HOp::Mutated(p, bits) => {
                if let Ok(mut b) = lib("create_snapshot", || store.create_snapshot(*p))? {
                    // token snapshots start with the size of what follows, which is then allocated
                    let skip = if token_store { 4 } else { 8 };
                    for x in bits {
                        if b.len() > skip {
                            let i = skip + (*x as usize >> 3) % (b.len() - skip);
                            b[i] ^= 1 << (x & 7);
                        }
                    }
                    // into a store of its own half of the time, which must remain usable
                    if bits[0] % 2 == 0 {
                        let other = build(w);
                        let _ = lib("load_from_snapshot", || other.load_from_snapshot(*p, b.clone()))?;
                        for q in &w.progs {
                            for cm in COMMITMENTS {
                                if let Ok(l) = lib("get_program_accounts", || other.get_program_accounts(*q, None, cm))? {
                                    for a in l {
                                        lib("decoding a restored account", || Ver::of(&a))?;
                                    }
                                }
                                let f = weird_filters(&mut r);
                                let _ = lib("get_program_accounts", || other.get_program_accounts(*q, f, cm))?;
                            }
                        }
                        let _ = lib("create_snapshot", || other.create_snapshot(*p))?;
                    } else {
                        mutated |= lib("load_from_snapshot", || store.load_from_snapshot(*p, b))?.is_ok();
                    }
                    c.add("mutated_snapshots", 1);
                }
            }
        }
        let mut known = |pk: &Pubkey, v: &Ver| mutated || sent.contains(&(*pk, v.owner, v.data.clone()));
        coherent(&store, w, &mut r, &mut known, c)?;
    }
    if w.moderate {
        // an ordinary account afterwards
        let pk = key(&mut r);
        let mint = key(&mut r);
        let owner = if token_store { token::programs()[r.usize(2)] } else { w.progs[4] };
        let ver = |r: &mut Rng, slot, wv| {
            let data = if token_store { let k = key(r); token::token_bytes(r, &mint, &k, wv, None, 0) } else { r.bytes(50) };
            Ver { slot, wv, lamports: 7, owner, data, executable: false, rent_epoch: u64::MAX }
        };
        log.push("an ordinary account in slots 1000 and 1001".into());
        let same = |got: Option<Ver>, want: Option<&Ver>, cm: Commitment, when: &str| {
            let g = got.as_ref().map(|v| (v.owner, v.data.clone()));
            if g == want.map(|v| (v.owner, v.data.clone())) {
                return Ok(());
            }
            Err(viol!("after hostile input an ordinary account is shown wrong at {} {when}: {:?} instead of {:?}", cname(cm), got.map(|v| v.short()), want.map(|v| v.short())))
        };
        let (v1, v2) = (ver(&mut r, 1000, 1), ver(&mut r, 1001, 2));
        let slot = |s, p, cm| lib("process_slot_data", || store.process_slot_data(SlotInfo { slot: s, parent: p, root: 0 }, cm));
        let top = r.below(14);
        slot(1000, top, Commitment::Processed)?;
        for (v, prev) in [(&v1, None), (&v2, Some(&v1))] {
            if prev.is_some() {
                slot(v.slot, v.slot - 1, Commitment::Processed)?;
            }
            lib("update_account", || store.update_account(v.to_account_data(pk, compression(v.wv as u8)), Commitment::Processed))?;
            let mut want = [Some(v), prev, prev];
            for (i, cm) in COMMITMENTS.iter().enumerate() {
                if i > 0 {
                    let rep = slot(v.slot, v.slot - 1, *cm)?;
                    want[i] = Some(v);
                    if rep.iter().filter(|a| a.pubkey == pk).count() != 1 {
                        return Err(viol!("after hostile input the {} notification does not report an ordinary account once", cname(*cm)));
                    }
                }
                for (cm2, wnt) in COMMITMENTS.iter().zip(&want) {
                    same(get(&*store, pk, *cm2)?, *wnt, *cm2, &format!("when {}", cname(*cm)))?;
                    let got = lib("get_program_accounts", || store.get_program_accounts(owner, if token_store { Some(vec![AccountFilterType::Datasize(165), AccountFilterType::Memcmp(MemcmpFilter { offset: 0, data: MemcmpFilterData::Bytes(mint.to_bytes().to_vec()) })]) } else { None }, *cm2))?
                        .map_err(|e| viol!("query refused after hostile input: {e:?}"))?;
                    if got.iter().filter(|a| a.pubkey == pk).count() != usize::from(wnt.is_some()) {
                        return Err(viol!("after hostile input a query at {} does not show an ordinary account", cname(*cm2)));
                    }
                }
            }
        }
        c.add("ordinary_accounts_afterwards", 1);
    }
    Ok(())
}

fn case(ctx: &Ctx, seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let w = gen(&mut r);
    let mut c = Counters::default();
    let mut log = vec![];
    if let Err(v) = run(&w, &w.ops, seed, &mut c, &mut log) {
        let ops = shrink(&w.ops, std::time::Duration::from_secs(20), |o| run(&w, o, seed, &mut Counters::default(), &mut vec![]).is_err());
        let mut log = vec![format!("store kind {} coverage {:?}", w.kind, w.cov.programs)];
        let v2 = run(&w, &ops, seed, &mut Counters::default(), &mut log).err().unwrap_or(v);
        return Err(Violation::with(v2.message, log));
    }
    c.add(["account_stores", "token_stores", "routers", "token_routers"][w.kind as usize], 1);
    ctx.merge(&c);
    Ok(CaseOk {
        nontrivial: c.get("reported") > 0,
        fingerprint: hash_of(&log),
        sample: ctx.wants_sample().then(|| format!("{} ops: {}", log.len(), log.join(" | ").chars().take(900).collect::<String>())),
    })
}

fn c28(ctx: &Arc<Ctx>) {
    drive(ctx, "hostile", ctx.n(20_000, 1_000_000), ctx.n(60, 700), crate::acct_seq::THREADS, case);
}

pub fn checks() -> Vec<crate::Check> {
    vec![crate::Check {
        id: "C28",
        run: c28,
        rule: "20 to 80 hostile operations on an account store, a token store or a router over them: undecodable and mutated contents of all owners, slots that are their own parent or form cycles or lie at the ends of the number range, contradictory parents, undecodable and overflowing conditions, random and bit-flipped snapshots; every answer is checked for coherence, and an ordinary account must still work afterwards; non-trivial if a notification reported an account; distinct by hash of the operations",
        min_nontrivial: 500,
        must_see: &["own_parent", "malformed_rejected", "mutated_snapshots", "ordinary_accounts_afterwards", "query_accounts", "account_stores", "token_stores", "routers", "token_routers"],
        assumptions: &["compressed data handed over in memory was made by the library itself; only serialized snapshots are corrupted", "the size field that starts a token snapshot is not corrupted (it is what the decompressor allocates)"],
    }]
}
