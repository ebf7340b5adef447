//! Stores holding tens of thousands of accounts: what is small in the histories (indices, counters,
//! sets) is large here. One history per store, written down without the reference models.
use crate::acct_model::*;
use crate::acct_seq::{new_store, Store};
use crate::token::{mint_bytes, multisig_bytes, new_token_store, programs, rand_record, same_content, token_bytes};
use crate::util::*;
use crate::viol;
use lite_account_manager_common::{
    account_data::{AccountData, CompressionMethod},
    account_filter::{AccountFilterType, MemcmpFilter, MemcmpFilterData},
    account_store_interface::AccountStorageInterface,
    commitment::Commitment,
};
use lite_token_account_storage::{inmemory_token_account_storage::InmemoryTokenAccountStorage, token_account_storage_interface::TokenAccountStorageInterface};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;

const SLOTS: u64 = 40;

struct Acc {
    pk: Pubkey,
    first: Option<Ver>,
    second: Ver,
    /// the group a query asks for
    group: usize,
}

pub fn key(r: &mut Rng) -> Pubkey {
    Pubkey::new_from_array(r.bytes(32).try_into().unwrap())
}
pub fn mem(offset: u64, bytes: &[u8]) -> AccountFilterType {
    AccountFilterType::Memcmp(MemcmpFilter {
        offset,
        data: MemcmpFilterData::Bytes(bytes.to_vec()),
    })
}
pub fn same(tokens: bool, got: &AccountData, want: &Ver) -> Result<(), String> {
    if tokens {
        return same_content(got, want);
    }
    let g = Ver::of(got);
    if g == *want {
        Ok(())
    } else {
        Err(format!("{} instead of {}", g.short(), want.short()))
    }
}
pub fn shown(v: &Option<Ver>) -> Option<&Ver> {
    v.as_ref().filter(|v| v.lamports > 0)
}

fn look(store: &dyn AccountStorageInterface, tokens: bool, a: &Acc, cm: Commitment, want: Option<&Ver>) -> Result<(), Violation> {
    let got = lib("get_account", || store.get_account(a.pk, cm))?.map_err(|e| viol!("lookup of {} refused: {e:?}", a.pk))?;
    match (got, want) {
        (None, None) => Ok(()),
        (Some(g), Some(w)) => same(tokens, &g, w).map_err(|e| viol!("among many accounts, {} at {}: {e}", a.pk, cname(cm))),
        (g, w) => Err(viol!(
            "among many accounts, {} at {} is {:?} instead of {:?}",
            a.pk,
            cname(cm),
            g.map(|x| Ver::of(&x).short()),
            w.map(|x| x.short())
        )),
    }
}

/// Which guarantees one run judges.
#[derive(Clone, Copy, Default)]
pub struct Judge {
    pub views: bool,
    pub queries: bool,
    pub reports: bool,
    pub snapshots: bool,
}

/// One history over `n` accounts: initialized, updated over many slots, confirmed, finalized in two
/// steps, queried, and carried over by snapshots.
pub fn store_case(ctx: &Ctx, seed: u64, tokens: bool, n: usize, n_mints: usize, j: Judge) -> CaseResult {
    let mut r = Rng::new(seed);
    let mut c = Counters::default();
    let progs: Vec<Pubkey> = if tokens { programs().to_vec() } else { (0..5).map(|_| key(&mut r)).collect() };
    let groups: Vec<Pubkey> = (0..if tokens { 900 } else { 300 }).map(|_| key(&mut r)).collect();
    let mints: Vec<Pubkey> = (0..n_mints).map(|_| key(&mut r)).collect();
    let base = *r.pick(&[1u64, 300, 70_000, 1 << 40]);
    let mut accs: Vec<Acc> = vec![];
    for i in 0..n {
        let pk = if i < n_mints { mints[i] } else { key(&mut r) };
        // one group holds a third of the accounts
        let group = if r.pct(33) { 0 } else { r.usize(groups.len()) };
        let prog = if i < n_mints { progs[i % 2] } else { *r.pick(&progs) };
        let ver = |r: &mut Rng, slot: u64, wv: u64| {
            let data = if !tokens {
                let mut d = groups[group].to_bytes().to_vec();
                d.extend(wv.to_le_bytes());
                d.extend((i as u64).to_le_bytes());
                d
            } else if i < n_mints {
                mint_bytes(r, wv, None, 0)
            } else if i % 50 == 7 {
                multisig_bytes(r)
            } else {
                // a mint of the same program
                let m = if r.pct(25) { 0 } else { r.usize(n_mints / 2) * 2 } + usize::from(prog == progs[1]);
                let ext = (prog == progs[1] && r.pct(10)).then(|| r.bytes(20));
                token_bytes(r, &mints[m], &groups[group], wv, ext, 0)
            };
            Ver {
                slot,
                wv,
                lamports: 1 + r.below(1 << 40),
                owner: prog,
                data,
                executable: false,
                rent_epoch: u64::MAX,
            }
        };
        let first = (i < n_mints || r.pct(50)).then(|| ver(&mut r, 0, 1 + i as u64));
        let at = base + r.below(SLOTS);
        let mut second = ver(&mut r, at, (n + i) as u64);
        if first.is_some() && i >= n_mints && r.pct(6) {
            second = Ver {
                lamports: 0,
                owner: if tokens { Pubkey::default() } else { prog },
                data: vec![],
                ..second
            };
        }
        accs.push(Acc { pk, first, second, group });
    }
    let store: Store = if tokens {
        new_token_store()
    } else {
        new_store(&Coverage {
            programs: progs.iter().map(|p| (*p, None)).collect(),
            ..Default::default()
        })
    };
    let send = |a: &Acc, v: &Ver, cm: Commitment| -> Result<bool, Violation> { lib("update_account", || store.update_account(v.to_account_data(a.pk, CompressionMethod::None), cm)) };
    // some mints come after the token accounts that name them
    let mut arrival: Vec<usize> = (0..n).collect();
    if n_mints > 65_600 {
        r.shuffle(&mut arrival[65_600..]);
    }
    for a in arrival.iter().map(|i| &accs[*i]) {
        if let Some(v) = &a.first {
            if r.pct(50) {
                send(a, v, Commitment::Finalized)?;
            } else {
                lib("initilize_or_update_account", || store.initilize_or_update_account(v.to_account_data(a.pk, CompressionMethod::None)))?;
            }
        }
    }
    let slot = |s: u64, cm: Commitment| lib("process_slot_data", || store.process_slot_data(slot_info(s, s - 1), cm));
    for s in base..base + SLOTS {
        slot(s, Commitment::Processed)?;
    }
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    for i in &order {
        let a = &accs[*i];
        if !send(a, &a.second, Commitment::Processed)? && j.views {
            return Err(viol!("the update {} of {} was refused", a.second.short(), a.pk));
        }
        c.add("updates_of_many", 1);
    }
    let sample: Vec<usize> = (0..n).filter(|_| r.pct(20)).collect();
    let old: Vec<Option<Ver>> = accs.iter().map(|a| a.first.clone()).collect();
    let new: Vec<Option<Ver>> = accs.iter().map(|a| Some(a.second.clone())).collect();
    let check = |at: &[usize], cm: Commitment, want: &[Option<Ver>], c: &mut Counters| -> Result<(), Violation> {
        for i in at.iter().filter(|_| j.views) {
            look(&*store, tokens, &accs[*i], cm, shown(&want[*i]))?;
        }
        c.add("lookups_among_many", if j.views { at.len() as u64 } else { 0 });
        Ok(())
    };
    check(&sample, Commitment::Processed, &new, &mut c)?;
    check(&sample, Commitment::Confirmed, &old, &mut c)?;
    check(&sample, Commitment::Finalized, &old, &mut c)?;
    let last = base + SLOTS - 1;
    slot(last, Commitment::Confirmed)?;
    check(&sample, Commitment::Confirmed, &new, &mut c)?;
    check(&sample, Commitment::Finalized, &old, &mut c)?;
    let index: HashMap<Pubkey, usize> = accs.iter().enumerate().map(|(i, a)| (a.pk, i)).collect();
    let mut done = 0;
    for upto in [base + SLOTS / 2, last] {
        let got = slot(upto, Commitment::Finalized)?;
        let mut seen: HashSet<Pubkey> = HashSet::new();
        for g in got.iter().filter(|_| j.reports) {
            let Some(i) = index.get(&g.pubkey) else {
                return Err(viol!("an unknown account {} was reported", g.pubkey));
            };
            same(tokens, g, &accs[*i].second).map_err(|e| viol!("{} is reported as {e}", g.pubkey))?;
            if !seen.insert(g.pubkey) {
                return Err(viol!("{} is reported twice", g.pubkey));
            }
        }
        for a in accs.iter().filter(|_| j.reports) {
            let want = a.second.slot > done && a.second.slot <= upto;
            if (want && a.second.lamports > 0 && !seen.contains(&a.pk)) || (!want && seen.contains(&a.pk)) {
                return Err(viol!("{} of slot {}: reported={} when slot {upto} was finalized after slot {done}", a.pk, a.second.slot, !want));
            }
        }
        c.add("reported_of_many", seen.len() as u64);
        done = upto;
        let want: Vec<Option<Ver>> = accs.iter().map(|a| if a.second.slot <= done { Some(a.second.clone()) } else { a.first.clone() }).collect();
        check(&sample, Commitment::Finalized, &want, &mut c)?;
    }
    let all: Vec<usize> = (0..n).collect();
    for cm in COMMITMENTS {
        check(&all, cm, &new, &mut c)?;
    }
    // queries of whole programs (where allowed), of the large group and of some small ones
    let query = |store: &Store, r: &mut Rng, c: &mut Counters| -> Result<(), Violation> {
        for prog in &progs {
            let mut list: Vec<(Option<usize>, Vec<AccountFilterType>)> = vec![(None, if tokens { vec![AccountFilterType::Datasize(82)] } else { vec![] })];
            for k in 0..12 {
                let g = if k == 0 { 0 } else { r.usize(groups.len()) };
                list.push((
                    Some(g),
                    if tokens {
                        vec![AccountFilterType::Datasize(165), mem(32, &groups[g].to_bytes())]
                    } else {
                        vec![mem(0, &groups[g].to_bytes())]
                    },
                ));
            }
            // of the mint with a quarter of the accounts, and of others
            for k in 0..if tokens { 6 } else { 0 } {
                let m = if k == 0 { 0 } else { r.usize(n_mints / 2) * 2 } + usize::from(*prog == progs[1]);
                let g = if k < 2 || r.pct(50) { None } else { Some(if r.pct(60) { 0 } else { r.usize(groups.len()) }) };
                let mut f = vec![AccountFilterType::Datasize(165), mem(0, &mints[m].to_bytes())];
                if let Some(g) = g {
                    f.push(mem(32, &groups[g].to_bytes()));
                }
                list.push((g, f));
            }
            let cm = COMMITMENTS[r.usize(3)];
            for (g, f) in list {
                let fs = Some(f.clone());
                let mut want: BTreeMap<Pubkey, &Ver> = accs
                    .iter()
                    .filter(|a| a.second.lamports > 0 && a.second.owner == *prog && g.map_or(true, |g| a.group == g) && all_match(&fs, &a.second.data))
                    .map(|a| (a.pk, &a.second))
                    .collect();
                let total = want.len();
                let got = lib("get_program_accounts", || store.get_program_accounts(*prog, fs.clone(), cm))?.map_err(|e| viol!("query {f:?} refused: {e:?}"))?;
                for x in got {
                    let Some(v) = want.remove(&x.pubkey) else {
                        return Err(viol!("query {f:?} of {prog} returns {} twice or although it does not match", x.pubkey));
                    };
                    same(tokens, &x, v).map_err(|e| viol!("query {f:?}: {}: {e}", x.pubkey))?;
                }
                if let Some((pk, _)) = want.first_key_value() {
                    return Err(viol!("query {f:?} of {prog} misses {} of {total} accounts, for example {pk}", want.len()));
                }
                c.add("accounts_queried_among_many", total as u64);
            }
        }
        Ok(())
    };
    if j.queries {
        query(&store, &mut r, &mut c)?;
    }
    if j.snapshots {
        // all of it through snapshots
        let target: Store = if tokens {
            new_token_store()
        } else {
            new_store(&Coverage {
                programs: progs.iter().map(|p| (*p, None)).collect(),
                ..Default::default()
            })
        };
        for p in &progs {
            let b = lib("create_snapshot", || store.create_snapshot(*p))?.map_err(|e| viol!("create_snapshot: {e:?}"))?;
            lib("load_from_snapshot", || target.load_from_snapshot(*p, b))?.map_err(|e| viol!("load_from_snapshot: {e:?}"))?;
        }
        for a in &accs {
            look(&*target, tokens, a, Commitment::Finalized, (a.second.lamports > 0).then_some(&a.second))?;
        }
        query(&target, &mut r, &mut c)?;
        c.add("restored_of_many", n as u64);
    }
    ctx.merge(&c);
    Ok(CaseOk {
        nontrivial: true,
        fingerprint: hash_of(&seed),
        sample: None,
    })
}

/// The record storage with more than 65 536 records.
pub fn record_case(ctx: &Ctx, seed: u64, n: usize) -> CaseResult {
    let mut r = Rng::new(seed);
    let store = InmemoryTokenAccountStorage::default();
    let mut model: BTreeMap<Pubkey, (u32, lite_token_account_storage::account_types::TokenAccount)> = BTreeMap::new();
    let mut used: HashSet<u32> = HashSet::new();
    let mut pks: Vec<Pubkey> = vec![];
    for _ in 0..n {
        let pk = key(&mut r);
        let rec = rand_record(&mut r, pk);
        let (i, added) = lib("save_or_update", || store.save_or_update(rec.clone()))?;
        if !added || !used.insert(i) {
            return Err(viol!("the {}th record: added={added}, index {i}", pks.len()));
        }
        model.insert(pk, (i, rec));
        pks.push(pk);
        if pks.len() % 20 == 0 {
            let old = *r.pick(&pks);
            lib("delete", || store.delete(&old))?;
            if let Some((i, _)) = model.remove(&old) {
                used.remove(&i);
            }
        }
    }
    for pk in &pks {
        let want = model.get(pk);
        if lib("contains", || store.contains(pk))? != want.map(|x| x.0) {
            return Err(viol!("contains({pk}) is wrong among many records"));
        }
        if lib("get_by_pubkey", || store.get_by_pubkey(pk))?.as_ref() != want.map(|x| &x.1) {
            return Err(viol!("{pk} is read back differently among many records"));
        }
    }
    let mut got = lib("get_by_index", || store.get_by_index(used.clone()))?.map_err(|e| viol!("get_by_index: {e:?}"))?;
    got.sort_by_key(|x| x.pubkey);
    if got.iter().ne(model.values().map(|x| &x.1)) {
        return Err(viol!("the {} records read by index differ from the {} saved", got.len(), model.len()));
    }
    let mut c = Counters::default();
    c.add("records_among_many", n as u64);
    ctx.merge(&c);
    Ok(CaseOk {
        nontrivial: true,
        fingerprint: hash_of(&seed),
        sample: None,
    })
}

pub fn stores(ctx: &Arc<Ctx>, tokens: bool, j: Judge) {
    let n = if ctx.n(0, 1) == 0 { 70_000 } else { 200_000 };
    drive(ctx, "many accounts", ctx.n(1, 4), 120, 1, move |ctx, seed| store_case(ctx, seed, tokens, n, if tokens { 300 } else { 0 }, j));
    if tokens && (j.views || j.snapshots) {
        drive(ctx, "many mints", ctx.n(1, 4), 120, 1, move |ctx, seed| store_case(ctx, seed, tokens, 80_000, 67_000, j));
    }
}
pub fn records(ctx: &Arc<Ctx>) {
    let n = if ctx.n(0, 1) == 0 { 70_000 } else { 300_000 };
    drive(ctx, "many records", ctx.n(1, 4), 60, 1, move |ctx, seed| record_case(ctx, seed, n));
}
