//! Sequential histories against the reference model (C01-C09).
use crate::acct_model::*;
use crate::acct_world::*;
use crate::util::*;
use crate::viol;
use lite_account_manager_common::{
    account_data::{AccountData, CompressionMethod, Data},
    account_filter::{AccountFilterType, MemcmpFilter, MemcmpFilterData},
    account_store_interface::{AccountLoadingError, AccountStorageInterface},
    commitment::Commitment,
    simple_filter_store::SimpleFilterStore,
};
use lite_account_storage::{inmemory_account_store::InmemoryAccountStore, storage_by_program_id::StorageByProgramId};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

#[derive(Clone, Copy, Default)]
pub struct Checks {
    pub views: bool,
    pub mono: bool,
    pub ret: bool,
    pub gpa: bool,
    pub reports: bool,
    pub snapshot: bool,
    /// through a router over several stores, with updates in order
    pub routed: bool,
}

pub type Store = Arc<dyn AccountStorageInterface>;

/// One store per program, the rest in the default one, behind the router.
pub fn new_routed(cov: &Coverage, split: u64) -> Store {
    let n = 1 + (split % 3) as usize;
    let mut map: HashMap<Pubkey, Store> = HashMap::new();
    let mut rest = Coverage { accounts: cov.accounts.clone(), programs: vec![] };
    for (i, p) in cov.programs.iter().enumerate() {
        // which programs have a store of their own varies
        let own = (i + (split as usize >> 2)) % cov.programs.len() < n;
        if own {
            let c = Coverage { accounts: Default::default(), programs: vec![p.clone()] };
            map.insert(p.0, new_store(&c));
        } else {
            rest.programs.push(p.clone());
        }
    }
    Arc::new(StorageByProgramId::new(map, new_store(&rest)))
}

pub fn new_store(cov: &Coverage) -> Arc<InmemoryAccountStore> {
    let mut f = SimpleFilterStore::default();
    f.add_account_filters(&cov.to_filters());
    Arc::new(InmemoryAccountStore::new(Arc::new(f)))
}

/// What the run of one history showed.
#[derive(Default)]
pub struct Seen {
    pub c: Counters,
    pub log: Vec<String>,
}

struct Mono {
    last: HashMap<(Pubkey, u8), (u64, u64)>,
}

pub fn gpa_queries(r: &mut Rng, w: &World, model: &Model) -> Vec<(Pubkey, Option<Vec<AccountFilterType>>)> {
    let mut out = vec![];
    let size = AccountFilterType::Datasize(64);
    let magic = AccountFilterType::Memcmp(MemcmpFilter {
        offset: 16,
        data: MemcmpFilterData::Bytes(MAGIC.to_vec()),
    });
    for p in 0..2 {
        out.push((w.programs[p], None));
        out.push((w.programs[p], Some(vec![])));
        // a filter taken from some live version
        let vers: Vec<&Ver> = model
            .accs
            .values()
            .flat_map(|a| a.versions.values())
            .filter(|v| v.owner == w.programs[p])
            .collect();
        if !vers.is_empty() {
            let v = vers[r.usize(vers.len())];
            let mut fs = vec![];
            if r.pct(60) {
                fs.push(AccountFilterType::Datasize(v.data.len() as u64));
            }
            if r.pct(70) {
                let off = r.usize(v.data.len() + 2);
                let n = r.usize(6);
                let bytes: Vec<u8> = v.data.iter().skip(off).take(n).copied().collect();
                let data = match r.below(3) {
                    0 => MemcmpFilterData::Bytes(bytes),
                    1 => MemcmpFilterData::Base58(bs58::encode(bytes).into_string()),
                    _ => {
                        use base64::Engine;
                        MemcmpFilterData::Base64(
                            base64::engine::general_purpose::STANDARD.encode(bytes),
                        )
                    }
                };
                fs.push(AccountFilterType::Memcmp(MemcmpFilter {
                    offset: off as u64,
                    data,
                }));
            }
            if r.pct(50) {
                fs.reverse();
            }
            out.push((w.programs[p], Some(fs)));
        }
        out.push((w.programs[p], Some(vec![size.clone()])));
        out.push((w.programs[p], Some(vec![magic.clone()])));
    }
    out.push((w.programs[2], Some(vec![size.clone()])));
    out.push((w.programs[2], Some(vec![size.clone(), magic.clone()])));
    out.push((w.programs[3], Some(vec![magic.clone()])));
    out
}

pub fn check_gpa(
    store: &dyn AccountStorageInterface,
    model: &Model,
    q: &(Pubkey, Option<Vec<AccountFilterType>>),
    c: Commitment,
    cnt: &mut Counters,
) -> Result<(), Violation> {
    let res = lib("get_program_accounts", || {
        store.get_program_accounts(q.0, q.1.clone(), c)
    })?;
    let got = res.map_err(|e| {
        viol!(
            "query of covered program {} with {:?} at {} refused: {e:?}",
            q.0,
            q.1,
            cname(c)
        )
    })?;
    check_gpa_answer(&got, model, q, c, cnt)
}

pub fn check_gpa_answer(
    got: &[AccountData],
    model: &Model,
    q: &(Pubkey, Option<Vec<AccountFilterType>>),
    c: Commitment,
    cnt: &mut Counters,
) -> Result<(), Violation> {
    let mut by: BTreeMap<Pubkey, Ver> = BTreeMap::new();
    for a in got {
        let v = lib("decoding account data", || Ver::of(a))?;
        if by.insert(a.pubkey, v).is_some() {
            return Err(viol!(
                "program query returned account {} twice at {}",
                a.pubkey,
                cname(c)
            ));
        }
    }
    cnt.add("gpa_queries", 1);
    cnt.add("gpa_accounts_returned", by.len() as u64);
    for pk in model.accs.keys() {
        let e = match model.lookup(pk, c) {
            Expect::Some(v) if v.owner == q.0 && all_match(&q.1, &v.data) => Expect::Some(v),
            Expect::Maybe(v) if v.owner == q.0 && all_match(&q.1, &v.data) => Expect::Maybe(v),
            _ => Expect::None,
        };
        let g = by.remove(pk);
        if !e.check(&g) {
            return Err(viol!(
                "program query owner={} filters={:?} at {}: account {pk} should be {}, got {}",
                &q.0.to_string()[..4],
                q.1,
                cname(c),
                e.text(),
                g.map_or("nothing".into(), |v| v.short())
            ));
        }
    }
    if let Some((pk, _)) = by.into_iter().next() {
        return Err(viol!("program query returned unknown account {pk}"));
    }
    Ok(())
}

/// Executes a history on a fresh store and on the model; compares as asked.
pub fn run_history(w: &World, ops: &[Op], checks: Checks, seed: u64, seen: &mut Seen) -> Result<(), Violation> {
    let store: Store = if checks.routed { new_routed(&w.cov, seed) } else { new_store(&w.cov) };
    let mut model = Model::new(w.cov.clone());
    let mut mono = Mono {
        last: HashMap::new(),
    };
    let mut r = Rng::new(seed ^ 0x51);
    for op in ops {
        if !model.admissible(&w.pks, op) {
            seen.c.add("ops_outside_assumptions", 1);
            continue;
        }
        seen.log.push(op_text(op));
        step(&*store, &mut model, w, op, checks, seen)?;
        // views
        if checks.views || checks.mono {
            // of very many accounts: the one written, and a few others
            let all = w.pks.len() <= 24 || r.below(40) == 0 || std::ptr::eq(op, ops.last().unwrap());
            let some: Vec<Pubkey> = if all {
                w.pks.clone()
            } else {
                let written = match op {
                    Op::Update { acc, .. } => vec![w.pks[*acc]],
                    _ => vec![],
                };
                (0..8).map(|_| w.pks[r.usize(w.pks.len())]).chain(written).collect()
            };
            for pk in &some {
                let mut keys = [None; 3];
                for c in COMMITMENTS {
                    let got = get(&*store, *pk, c)?;
                    seen.c.add("lookups", 1);
                    if checks.views {
                        let e = model.lookup(pk, c);
                        if !e.check(&got) {
                            return Err(viol!(
                                "account {} at {} should be {}, got {}",
                                &pk.to_string()[..4],
                                cname(c),
                                e.text(),
                                got.map_or("nothing".into(), |v| v.short())
                            ));
                        }
                    }
                    keys[c as usize] = got.as_ref().map(|v| v.key());
                    if checks.mono {
                        if let Some(v) = &got {
                            if let Some(prev) = mono.last.insert((*pk, c as u8), v.key()) {
                                if prev > v.key() {
                                    return Err(viol!(
                                        "account {} at {} went back from (slot,write version) {:?} to {:?}",
                                        &pk.to_string()[..4], cname(c), prev, v.key()
                                    ));
                                }
                                if prev < v.key() {
                                    seen.c.add("view_advances", 1);
                                }
                            }
                        }
                    }
                }
                if checks.mono {
                    // a more committed view is never newer than a less committed one
                    for (lo, hi) in [(0usize, 1usize), (1, 2), (0, 2)] {
                        if let Some(h) = keys[hi] {
                            match keys[lo] {
                                Some(l) if l < h => {
                                    return Err(viol!(
                                        "account {}: {} shows {:?}, newer than {} {:?}",
                                        &pk.to_string()[..4],
                                        cname(COMMITMENTS[hi]), h,
                                        cname(COMMITMENTS[lo]), l
                                    ));
                                }
                                None => {
                                    // hidden by a newer closing write only
                                    let closed = model.accs.get(pk).and_then(|a| a.view(COMMITMENTS[lo])).map_or(false, |v| !v.live() && v.key() > h);
                                    if !closed {
                                        return Err(viol!(
                                            "account {}: visible at {} {:?} but not at {}",
                                            &pk.to_string()[..4],
                                            cname(COMMITMENTS[hi]), h, cname(COMMITMENTS[lo])
                                        ));
                                    }
                                }
                                _ => {}
                            }
                        }
                    }
                }
            }
        }
        if checks.gpa {
            let qs = gpa_queries(&mut r, w, &model);
            let k = if w.pks.len() > 24 { r.usize(8) / 6 } else { 1 + r.usize(3) };
            for _ in 0..k {
                let q = &qs[r.usize(qs.len())];
                check_gpa(&*store, &model, q, COMMITMENTS[r.usize(3)], &mut seen.c)?;
            }
        }
    }
    if checks.gpa {
        for q in gpa_queries(&mut r, w, &model) {
            for c in COMMITMENTS {
                check_gpa(&*store, &model, &q, c, &mut seen.c)?;
            }
        }
    }
    if checks.snapshot {
        // what a snapshot holds at the end
        for prog in &w.programs[..2] {
            let bytes = lib("create_snapshot", || store.create_snapshot(*prog))?.map_err(|e| viol!("snapshot of a covered program refused: {e:?}"))?;
            let fresh = new_store(&w.cov);
            lib("load_from_snapshot", || fresh.load_from_snapshot(*prog, bytes))?.map_err(|e| viol!("snapshot just created cannot be loaded: {e:?}"))?;
            for pk in &w.pks {
                let e = match model.lookup(pk, Commitment::Finalized) {
                    Expect::Some(v) if v.owner == *prog => Expect::Some(v),
                    Expect::Maybe(v) if v.owner == *prog => Expect::Maybe(v),
                    _ => Expect::None,
                };
                let got = get(&*fresh, *pk, Commitment::Finalized)?;
                if !e.check(&got) {
                    return Err(viol!(
                        "the snapshot of program {} should hold account {} as {}, and holds {}",
                        &prog.to_string()[..4],
                        &pk.to_string()[..4],
                        e.text(),
                        got.map_or("nothing".into(), |v| v.short())
                    ));
                }
                seen.c.add("snapshot_lookups", 1);
            }
        }
    }
    Ok(())
}

pub fn step(
    store: &dyn AccountStorageInterface,
    model: &mut Model,
    w: &World,
    op: &Op,
    checks: Checks,
    seen: &mut Seen,
) -> Result<(), Violation> {
    match op {
        Op::Update {
            acc,
            ver,
            commit,
            comp,
        } => {
            let pk = w.pks[*acc];
            let ad = ver.to_account_data(pk, compression(*comp));
            let known = model.accs.contains_key(&pk);
            let had_slot = model.slots.get(&ver.slot).map_or(0, |s| s.commit);
            let out = model.update(pk, ver, commit.0);
            let init = commit.0 == Commitment::Finalized && comp % 3 == 0;
            let got = lib("update_account", || {
                if init {
                    store.initilize_or_update_account(ad);
                    return out.changed;
                }
                store.update_account(ad, commit.0)
            })?;
            seen.c.add("updates", 1);
            if init {
                seen.c.add("initialized", 1);
            }
            if model.accs.get(&pk).map_or(false, |a| a.versions.values().any(|v| v.live() && v.owner != ver.owner)) {
                seen.c.add("updates_of_moved_accounts", 1);
            }
            if out.changed {
                seen.c.add("updates_changing_a_view", 1);
            }
            if had_slot > 0 {
                seen.c.add("updates_into_already_confirmed_slot", 1);
            }
            if out.reopened {
                seen.c.add("reopened", 1);
            }
            if !ver.live() && known {
                seen.c.add("closing_updates", 1);
            }
            if checks.ret {
                if out.changed && !got {
                    return Err(viol!(
                        "an update that takes effect was reported as not applied: {}",
                        op_text(op)
                    ));
                }
                if out.must_refuse && got {
                    return Err(viol!(
                        "an update that must not take effect was reported as applied: {}",
                        op_text(op)
                    ));
                }
                if out.must_refuse {
                    seen.c.add("refused_updates", 1);
                }
            }
        }
        Op::Slot {
            slot,
            parent,
            commit,
        } => {
            let want = model.notify(*slot, *parent, commit.0);
            let got: Vec<AccountData> = lib("process_slot_data", || {
                store.process_slot_data(slot_info(*slot, *parent), commit.0)
            })?;
            seen.c.add("slot_notifications", 1);
            seen.c.add("promotions", want.len() as u64);
            if want.iter().any(|(_, v)| v.slot < *slot) {
                seen.c.add("ancestor_promotions", 1);
            }
            if checks.reports {
                check_report(&want, &got, op)?;
            }
        }
    }
    Ok(())
}

pub fn check_report(want: &[(Pubkey, Ver)], got: &[AccountData], op: &Op) -> Result<(), Violation> {
    let mut g: BTreeMap<Pubkey, Ver> = BTreeMap::new();
    for a in got {
        let v = lib("decoding account data", || Ver::of(a))?;
        if g.insert(a.pubkey, v).is_some() {
            return Err(viol!("{}: reports account {} twice", op_text(op), a.pubkey));
        }
    }
    for (pk, v) in want {
        match g.remove(pk) {
            Some(x) if x == *v => {}
            Some(x) => {
                return Err(viol!(
                    "{}: reports account {} as {} instead of {}",
                    op_text(op),
                    &pk.to_string()[..4],
                    x.short(),
                    v.short()
                ))
            }
            None => {
                return Err(viol!(
                    "{}: account {} reached the commitment ({}) but is not reported",
                    op_text(op),
                    &pk.to_string()[..4],
                    v.short()
                ))
            }
        }
    }
    if let Some((pk, v)) = g.into_iter().next() {
        return Err(viol!(
            "{}: reports account {} ({}) which did not newly reach the commitment",
            op_text(op),
            &pk.to_string()[..4],
            v.short()
        ));
    }
    Ok(())
}

pub fn history_case(
    ctx: &Ctx,
    seed: u64,
    profile: impl Fn(&mut Rng) -> Profile,
    checks: Checks,
    nontrivial: impl Fn(&Counters) -> bool,
) -> CaseResult {
    let mut r = Rng::new(seed);
    let p = profile(&mut r);
    let mut w = gen_world(&mut r, &p);
    if checks.routed {
        in_order(&mut w);
    }
    let mut seen = Seen::default();
    if let Err(v) = run_history(&w, &w.ops, checks, seed, &mut seen) {
        let ops = shrink(&w.ops, std::time::Duration::from_secs(20), |o| {
            run_history(&w, o, checks, seed, &mut Seen::default()).is_err()
        });
        let mut s2 = Seen::default();
        let v2 = run_history(&w, &ops, checks, seed, &mut s2).err().unwrap_or(v);
        return Err(Violation::with(v2.message, s2.log));
    }
    ctx.merge(&seen.c);
    let sample = ctx
        .wants_sample()
        .then(|| format!("{} ops: {}", seen.log.len(), seen.log.join(" | ").chars().take(900).collect::<String>()));
    Ok(CaseOk {
        nontrivial: nontrivial(&seen.c),
        fingerprint: hash_of(&seen.log),
        sample,
    })
}

pub fn is_config_error<T>(r: &Result<T, AccountLoadingError>) -> bool {
    matches!(r, Err(AccountLoadingError::ConfigDoesnotContainRequiredFilters))
}

/// Each account's updates in ascending order of their versions, at the moments they had anyway.
fn in_order(w: &mut World) {
    for a in 0..w.pks.len() {
        let at: Vec<usize> = (0..w.ops.len()).filter(|i| matches!(&w.ops[*i], Op::Update { acc, .. } if *acc == a)).collect();
        let mut ups: Vec<Op> = at.iter().map(|i| w.ops[*i].clone()).collect();
        ups.sort_by_key(|o| match o {
            Op::Update { ver, .. } => ver.key(),
            _ => unreachable!(),
        });
        for (i, o) in at.into_iter().zip(ups) {
            w.ops[i] = o;
        }
    }
}

/// Updates in any order behind a router: still no report and no query names an account twice.
fn unordered(ctx: &Ctx, seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let p = Profile { owner_pct: 20 + r.below(50), close_pct: r.below(25), ..Profile::random(&mut r) };
    let w = gen_world(&mut r, &p);
    let store = new_routed(&w.cov, r.next());
    let mut c = Counters::default();
    let mut log = vec![];
    for op in &w.ops {
        log.push(op_text(op));
        match op {
            Op::Update { acc, ver, commit, comp } => {
                let ad = ver.to_account_data(w.pks[*acc], compression(*comp));
                lib("update_account", || store.update_account(ad, commit.0))?;
            }
            Op::Slot { slot, parent, commit } => {
                let rep = lib("process_slot_data", || store.process_slot_data(slot_info(*slot, *parent), commit.0))?;
                let mut pks: Vec<Pubkey> = rep.iter().map(|a| a.pubkey).collect();
                pks.sort();
                if let Some(p) = pks.windows(2).find(|p| p[0] == p[1]) {
                    return Err(Violation::with(format!("a slot report names {} twice", p[0]), log));
                }
                c.add("unordered_reports", pks.len() as u64);
            }
            _ => {}
        }
    }
    ctx.merge(&c);
    Ok(CaseOk { nontrivial: false, fingerprint: seed, sample: None })
}

pub fn c16(ctx: &Arc<Ctx>) {
    let k = Checks { views: true, gpa: true, ret: true, reports: true, routed: true, ..Default::default() };
    simple(ctx, ctx.n(18_000, 400_000), k, |r| Profile { owner_pct: 10 + r.below(50), close_pct: r.below(25), ..Profile::random(r) }, |c| {
        c.get("updates_of_moved_accounts") > 0 && c.get("promotions") > 0
    });
    snapshots(ctx, ctx.n(3_000, 100_000), true);
    drive(ctx, "unordered", ctx.n(6_000, 150_000), ctx.n(10, 100), THREADS, unordered);
    crate::token::routed(ctx);
}

// ------------------------------------------------------------------ checks
pub const THREADS: usize = 8;

const CHAIN: &str = "a random fork tree of slots with account writes, delivered with random lateness, duplication, reordering, skipped and repeated slot notifications, and direct confirmed/finalized updates; distinct by hash of the executed operation list; ";
const ASSUME: &[&str] = &[
    "the processed view follows the highest (slot, write version) received, on whatever fork",
    "a slot's parent link is first reported no later than the slot's own commitment, and never contradicted",
    "an update not newer than an already finalized closing of the same account is outside random histories (known finding of C05)",
];

pub fn checks() -> Vec<crate::Check> {
    let mk = |id, run, rule: &str, min, must_see| crate::Check {
        id,
        run,
        rule: Box::leak(format!("{CHAIN}{rule}").into_boxed_str()),
        min_nontrivial: min,
        must_see,
        assumptions: ASSUME,
    };
    vec![
        mk("C01", c01, "non-trivial if at least one slot notification promoted an account and three updates changed a view", 500, &["promotions", "ancestor_promotions", "updates_into_already_confirmed_slot", "lookups", "lookups_among_many"]),
        mk("C02", c02, "non-trivial if some view advanced at least three times", 500, &["view_advances", "promotions"]),
        mk("C03", c03, "non-trivial if at least one update had to be refused", 500, &["refused_updates", "updates_into_already_confirmed_slot"]),
        mk("C04", c04, "non-trivial if the program queries returned accounts and three updates changed a view", 500, &["gpa_queries", "gpa_accounts_returned", "accounts_queried_among_many"]),
        mk("C05", c05, "non-trivial if a tracked account was closed", 300, &["closing_updates", "reopened", "gpa_accounts_returned", "snapshot_lookups"]),
        mk("C06", c06, "non-trivial if at least one account had to be reported", 500, &["promotions", "ancestor_promotions", "reported_of_many"]),
        mk("C07", c07, "few notifications, many forks and gaps; non-trivial if a notification promoted an account through an ancestor slot", 300, &["ancestor_promotions"]),
        mk("C16", c16, "with each account's updates in order, sent to a router over two to four stores (and with token storage behind it); non-trivial if an account that changed owner was written and a notification promoted an account", 500, &["updates_of_moved_accounts", "ancestor_promotions", "initialized", "snapshot_accounts", "gpa_accounts_returned", "token_lookups", "unordered_reports"]),
        mk("C09", c09, "then a snapshot of each program is taken and loaded into an empty store; non-trivial if it carried accounts; plus mutated snapshots", 300, &["snapshot_accounts", "malformed_rejected", "operations_after_restoring", "snapshots_loaded_later", "snapshots_loaded_behind", "restored_of_many"]),
    ]
}

fn simple(
    ctx: &Arc<Ctx>,
    n: u64,
    checks: Checks,
    profile: fn(&mut Rng) -> Profile,
    nontrivial: fn(&Counters) -> bool,
) {
    drive(ctx, "history", n, ctx.n(45, 700), THREADS, move |ctx, seed| {
        history_case(ctx, seed, profile, checks, nontrivial)
    });
}

pub fn c01(ctx: &Arc<Ctx>) {
    let views = Checks { views: true, ..Default::default() };
    simple(
        ctx,
        ctx.n(18_000, 400_000),
        views,
        |r| if r.pct(50) { Profile { close_pct: 0, owner_pct: 0, ..Profile::random(r) } } else { Profile::random(r) },
        |c| c.get("promotions") > 0 && c.get("updates_changing_a_view") > 2,
    );
    crate::many::stores(ctx, false, crate::many::Judge { views: true, ..Default::default() });
}
pub fn c02(ctx: &Arc<Ctx>) {
    let mono = Checks { mono: true, ..Default::default() };
    simple(ctx, ctx.n(18_000, 400_000), mono, Profile::random, |c| {
        c.get("view_advances") > 2
    });
}
pub fn c03(ctx: &Arc<Ctx>) {
    let ret = Checks { ret: true, views: true, ..Default::default() };
    simple(
        ctx,
        ctx.n(18_000, 400_000),
        ret,
        |r| Profile { dup_pct: 20 + r.below(60), late_pct: r.below(90), ..Profile::random(r) },
        |c| c.get("refused_updates") > 0,
    );
}
pub fn c04(ctx: &Arc<Ctx>) {
    let gpa = Checks { gpa: true, ..Default::default() };
    simple(ctx, ctx.n(15_000, 600_000), gpa, Profile::random, |c| {
        c.get("gpa_accounts_returned") > 0 && c.get("updates_changing_a_view") > 2
    });
    crate::many::stores(ctx, false, crate::many::Judge { queries: true, ..Default::default() });
    crate::chains::run(ctx, false, crate::many::Judge { queries: true, ..Default::default() });
}
pub fn c06(ctx: &Arc<Ctx>) {
    let rep = Checks { reports: true, ..Default::default() };
    simple(ctx, ctx.n(25_000, 800_000), rep, Profile::random, |c| {
        c.get("promotions") > 0
    });
    crate::many::stores(ctx, false, crate::many::Judge { reports: true, ..Default::default() });
    crate::chains::run(ctx, false, crate::many::Judge { reports: true, ..Default::default() });
}
pub fn c07(ctx: &Arc<Ctx>) {
    let k = Checks { reports: true, views: true, gpa: true, ..Default::default() };
    simple(
        ctx,
        ctx.n(18_000, 400_000),
        k,
        |r| {
            if r.below(200) == 0 {
                // finalization stalls for a long time
                return Profile { skip_notif_pct: r.below(70), gap_pct: r.below(60), fork_pct: r.below(30), ..Profile::long(r) };
            }
            Profile {
                skip_notif_pct: 50 + r.below(50),
                fork_pct: 10 + r.below(60),
                gap_pct: r.below(60),
                slots: 5 + r.usize(14),
                writes_per_slot: 1 + r.below(2),
                ..Profile::short(r)
            }
        },
        |c| c.get("ancestor_promotions") > 0,
    );
    crate::chains::run(ctx, false, crate::many::Judge { views: true, ..Default::default() });
}

pub fn c05(ctx: &Arc<Ctx>) {
    let k = Checks { views: true, gpa: true, snapshot: true, ..Default::default() };
    simple(
        ctx,
        ctx.n(18_000, 600_000),
        k,
        |r| Profile {
            close_pct: 15 + r.below(40),
            owner_pct: r.below(50),
            accounts: 1 + r.usize(3),
            ..Profile::random(r)
        },
        |c| c.get("closing_updates") > 0,
    );
    c05_known(ctx);
}

/// Known finding: the store forgets an account whose closing was finalized, so a delayed write from
/// before the closing brings it back.
fn c05_known(ctx: &Arc<Ctx>) {
    let mut r = Rng::new(7);
    let (pk, prog) = (pubkey(&mut r), pubkey(&mut r));
    let cov = Coverage { programs: vec![(prog, None)], ..Default::default() };
    let ver = |slot, wv, lamports| Ver {
        slot,
        wv,
        lamports,
        owner: prog,
        data: vec![1, 2, 3],
        executable: false,
        rent_epoch: 0,
    };
    let store = new_store(&cov);
    let out = (|| {
        store.update_account(ver(10, 1, 5).to_account_data(pk, compression(0)), Commitment::Processed);
        store.process_slot_data(slot_info(10, 9), Commitment::Finalized);
        let mut close = ver(12, 3, 0);
        close.owner = Pubkey::default();
        store.update_account(close.to_account_data(pk, compression(0)), Commitment::Processed);
        store.process_slot_data(slot_info(12, 11), Commitment::Finalized);
        // the write of slot 11 arrives late
        store.update_account(ver(11, 2, 9).to_account_data(pk, compression(0)), Commitment::Processed);
        get(&*store, pk, Commitment::Processed)
    })();
    match out {
        Ok(Some(v)) if v.slot == 11 => {
            let what = "late-update-after-finalized-close: a write of slot 11 delivered after the closing in slot 12 was finalized makes the closed account visible again";
            if crate::known::listed(&ctx.id, "late-update-after-finalized-close") {
                ctx.known_finding(what);
            } else {
                ctx.violate("known", 0, viol!("{what}"));
            }
        }
        Ok(None) => {}
        Ok(Some(v)) => ctx.violate("known", 0, viol!("closed account shows {}", v.short())),
        Err(v) => ctx.violate("known", 0, v),
    }
}

// -------------------------------------------------------------- snapshots
pub fn c09(ctx: &Arc<Ctx>) {
    snapshots(ctx, ctx.n(12_000, 400_000), false);
    crate::many::stores(ctx, false, crate::many::Judge { snapshots: true, ..Default::default() });
}
fn snapshots(ctx: &Arc<Ctx>, n: u64, routed: bool) {
    drive(ctx, "snapshot", n, ctx.n(45, 700), THREADS, move |ctx, seed| {
        let mut r = Rng::new(seed);
        let p = Profile::random(&mut r);
        let mut w = gen_world(&mut r, &p);
        if routed {
            in_order(&mut w);
        }
        let mut seen = Seen::default();
        let split = r.next();
        let cov = w.cov.clone();
        let build = move || -> Store { if routed { new_routed(&cov, split) } else { new_store(&cov) } };
        let store = build();
        let mut model = Model::new(w.cov.clone());
        // snapshots are taken in the middle of the history as well as at its end
        let cut = r.usize(w.ops.len() + 1);
        let mut carried = 0;
        for (i, op) in w.ops.iter().enumerate() {
            if model.admissible(&w.pks, op) {
                seen.log.push(op_text(op));
                step(&*store, &mut model, &w, op, Checks { routed, ..Default::default() }, &mut seen)?;
            }
            if i + 1 == cut || i + 1 == w.ops.len() {
                let hist = |v: Violation| Violation::with(v.message, seen.log.clone());
                carried += snapshot_round(&mut r, &store, &build, &model, &w, &mut seen.c).map_err(hist)?;
                if i + 1 < w.ops.len() {
                    resume(&mut r, &store, &build, &model, &w, &w.ops[cut..], routed, &mut seen)?;
                }
            }
        }
        seen.c.add("snapshot_accounts", carried);
        ctx.merge(&seen.c);
        Ok(CaseOk {
            nontrivial: carried > 0,
            fingerprint: hash_of(&(&seen.log, cut)),
            sample: ctx.wants_sample().then(|| {
                format!("{} ops, snapshot after op {cut} and at the end, {carried} accounts carried", seen.log.len())
            }),
        })
    });
}

/// A store filled from snapshots of two programs follows the rest of the history like any other.
#[allow(clippy::too_many_arguments)]
fn resume(
    r: &mut Rng,
    store: &Store,
    build: &dyn Fn() -> Store,
    model: &Model,
    w: &World,
    rest: &[Op],
    routed: bool,
    seen: &mut Seen,
) -> Result<(), Violation> {
    let mut loaded: Vec<(Pubkey, Ver)> = vec![];
    for pk in &w.pks {
        if let Expect::Some(v) = model.lookup(pk, Commitment::Finalized) {
            if w.programs[..2].contains(&v.owner) {
                loaded.push((*pk, v));
            }
        }
    }
    let raise = |m: &mut Model| {
        loaded.iter().all(|(pk, v)| {
            let acc = w.pks.iter().position(|p| p == pk).unwrap();
            let ok = m.admissible(&w.pks, &Op::Update { acc, ver: v.clone(), commit: Commitment_(Commitment::Finalized), comp: 0 });
            m.update(*pk, v, Commitment::Finalized);
            ok
        })
    };
    let mut fresh = build();
    let mut m = Model::new(w.cov.clone());
    let mut s2 = Seen { log: seen.log.clone(), ..Default::default() };
    let mut done = "snapshots of two programs loaded into an empty store";
    if !routed && r.pct(40) {
        // a store that stopped somewhere on the way, and catches up with the snapshots
        let before = w.ops.len() - rest.len();
        for op in &w.ops[..r.usize(before + 1)] {
            if m.admissible(&w.pks, op) {
                step(&*fresh, &mut m, w, op, Checks::default(), &mut s2)?;
            }
        }
        let mut ahead = m.clone();
        if raise(&mut ahead) {
            m = ahead;
            done = "snapshots of two programs loaded into a store that followed a part of the history";
            s2.c.add("snapshots_loaded_behind", 1);
        } else {
            fresh = build();
            m = Model::new(w.cov.clone());
            raise(&mut m);
        }
    } else {
        raise(&mut m);
    }
    let mut snaps = vec![];
    for prog in &w.programs[..2] {
        let bytes = lib("create_snapshot", || store.create_snapshot(*prog))?.map_err(|e| viol!("snapshot of a covered program refused: {e:?}"))?;
        lib("load_from_snapshot", || fresh.load_from_snapshot(*prog, bytes.clone()))?.map_err(|e| viol!("snapshot just created cannot be loaded: {e:?}"))?;
        snaps.push((*prog, bytes));
    }
    s2.log.push(done.into());
    for pk in &w.pks {
        for c in COMMITMENTS {
            let (e, got) = (m.lookup(pk, c), get(&*fresh, *pk, c)?);
            if !e.check(&got) {
                return Err(Violation::with(format!("with the snapshots loaded account {} at {} should be {}, got {}", &pk.to_string()[..4], cname(c), e.text(), got.map_or("nothing".into(), |v| v.short())), s2.log));
            }
        }
    }
    let out = (|| {
        let again = r.usize(rest.len());
        for (i, op) in rest.iter().enumerate() {
            if i == again && !routed {
                // the same snapshots once more, in the middle
                let ok = loaded.iter().all(|(pk, v)| {
                    let acc = w.pks.iter().position(|p| p == pk).unwrap();
                    m.admissible(&w.pks, &Op::Update { acc, ver: v.clone(), commit: Commitment_(Commitment::Finalized), comp: 0 })
                });
                if ok {
                    for (prog, bytes) in &snaps {
                        lib("load_from_snapshot", || fresh.load_from_snapshot(*prog, bytes.clone()))?.map_err(|e| viol!("second load refused: {e:?}"))?;
                    }
                    for (pk, v) in &loaded {
                        m.update(*pk, v, Commitment::Finalized);
                    }
                    s2.log.push("the same snapshots loaded again".into());
                    s2.c.add("snapshots_loaded_later", 1);
                }
            }
            if !m.admissible(&w.pks, op) {
                continue;
            }
            s2.log.push(op_text(op));
            step(&*fresh, &mut m, w, op, Checks { reports: true, routed, ..Default::default() }, &mut s2)?;
            s2.c.add("operations_after_restoring", 1);
            for _ in 0..4 {
                let pk = w.pks[r.usize(w.pks.len())];
                let c = COMMITMENTS[r.usize(3)];
                let (e, got) = (m.lookup(&pk, c), get(&*fresh, pk, c)?);
                if !e.check(&got) {
                    return Err(viol!("in the restored store account {} at {} should be {}, got {}", &pk.to_string()[..4], cname(c), e.text(), got.map_or("nothing".into(), |v| v.short())));
                }
            }
        }
        for q in gpa_queries(r, w, &m) {
            check_gpa(&*fresh, &m, &q, COMMITMENTS[r.usize(3)], &mut s2.c)?;
        }
        Ok(())
    })();
    let names = ["operations_after_restoring", "snapshots_loaded_later", "snapshots_loaded_behind"];
    for n in names {
        seen.c.add(n, s2.c.get(n));
    }
    out.map_err(|v: Violation| Violation::with(v.message, s2.log))
}

fn snapshot_round(
    r: &mut Rng,
    store: &Store,
    build: &dyn Fn() -> Store,
    model: &Model,
    w: &World,
    c: &mut Counters,
) -> Result<u64, Violation> {
    let mut carried = 0;
    for p in 0..2 {
        let prog = w.programs[p];
        let bytes = lib("create_snapshot", || store.create_snapshot(prog))?
            .map_err(|e| viol!("snapshot of a covered program refused: {e:?}"))?;
        c.add("snapshots", 1);
        // what the snapshot must carry
        let mut want: BTreeMap<Pubkey, Expect> = BTreeMap::new();
        for pk in model.accs.keys() {
            match model.lookup(pk, Commitment::Finalized) {
                Expect::Some(v) if v.owner == prog => want.insert(*pk, Expect::Some(v)),
                Expect::Maybe(v) if v.owner == prog => want.insert(*pk, Expect::Maybe(v)),
                _ => None,
            };
        }
        let fresh = build();
        let target = if r.pct(30) { w.programs[p] } else { prog };
        lib("load_from_snapshot", || fresh.load_from_snapshot(target, bytes.clone()))?
            .map_err(|e| viol!("snapshot just created cannot be loaded: {e:?}"))?;
        for pk in w.pks.iter() {
            let e = want.get(pk).cloned().unwrap_or(Expect::None);
            for cm in COMMITMENTS {
                let got = get(&*fresh, *pk, cm)?;
                if !e.check(&got) {
                    return Err(viol!(
                        "after loading a snapshot of {} account {} at {} should be {}, got {}",
                        &prog.to_string()[..4],
                        &pk.to_string()[..4],
                        cname(cm),
                        e.text(),
                        got.map_or("nothing".into(), |v| v.short())
                    ));
                }
                if got.is_some() && cm == Commitment::Finalized {
                    carried += 1;
                }
            }
        }
        // program queries of the loaded store agree with its lookups
        for cm in COMMITMENTS {
            let got = lib("get_program_accounts", || fresh.get_program_accounts(prog, None, cm))?
                .map_err(|e| viol!("query after load refused: {e:?}"))?;
            for a in &got {
                let v = Ver::of(a);
                if !want.get(&a.pubkey).map_or(false, |e| e.check(&Some(v.clone()))) {
                    return Err(viol!("after loading a snapshot a program query shows {}", v.short()));
                }
            }
            let required = want.values().filter(|e| matches!(e, Expect::Some(_))).count();
            if got.len() < required || got.len() > want.len() {
                return Err(viol!(
                    "after loading a snapshot a program query at {} returns {} accounts instead of {}",
                    cname(cm), got.len(), required
                ));
            }
        }
        // updates newer than the snapshot still apply, older ones do not
        if let Some((pk, Expect::Some(v))) = want.iter().find(|x| matches!(x.1, Expect::Some(_))) {
            let mut newer = v.clone();
            newer.slot += 1;
            newer.wv += 1;
            newer.lamports = newer.lamports.wrapping_add(1).max(1);
            lib("update_account", || fresh.update_account(newer.to_account_data(*pk, compression(0)), Commitment::Processed))?;
            if get(&*fresh, *pk, Commitment::Processed)? != Some(newer) || get(&*fresh, *pk, Commitment::Finalized)?.as_ref() != Some(v) {
                return Err(viol!("an update after loading a snapshot is not applied as processed"));
            }
            // loading the same snapshot again neither loses the newer version nor duplicates accounts
            lib("load_from_snapshot", || fresh.load_from_snapshot(prog, bytes.clone()))?
                .map_err(|e| viol!("second load refused: {e:?}"))?;
            if get(&*fresh, *pk, Commitment::Finalized)?.as_ref() != Some(v) {
                return Err(viol!("loading a snapshot twice changes the finalized state"));
            }
            let n = lib("get_program_accounts", || fresh.get_program_accounts(prog, None, Commitment::Finalized))?.map_err(|e| viol!("{e:?}"))?;
            let distinct: std::collections::BTreeSet<Pubkey> = n.iter().map(|a| a.pubkey).collect();
            if distinct.len() != n.len() {
                return Err(viol!("loading a snapshot twice duplicates accounts"));
            }
            c.add("snapshot_reloads", 1);
        }
        // malformed input: never a panic; a proper prefix of a snapshot is an error
        let mut bad = bytes.clone();
        let truncated = match r.below(3) {
            0 => {
                bad.truncate(r.usize(bad.len().max(1)));
                true
            }
            1 => {
                for _ in 0..1 + r.below(4) {
                    let i = r.usize(bad.len().max(1));
                    if i < bad.len() {
                        bad[i] ^= 1 << r.below(8);
                    }
                }
                false
            }
            _ => {
                let n = r.usize(64);
                bad = r.bytes(n);
                false
            }
        };
        let victim = build();
        let res = lib("load_from_snapshot of malformed bytes", || victim.load_from_snapshot(prog, bad))?;
        if res.is_err() {
            c.add("malformed_rejected", 1);
            for pk in &w.pks {
                if get(&*victim, *pk, Commitment::Processed)?.is_some() {
                    return Err(viol!("a refused snapshot left accounts behind"));
                }
            }
        } else if truncated {
            return Err(viol!("a truncated snapshot was accepted"));
        } else {
            // flipped bits may go unnoticed, but what was taken can be read
            let all = lib("get_program_accounts", || victim.get_program_accounts(prog, None, Commitment::Finalized))?.map_err(|e| viol!("{e:?}"))?;
            for a in &all {
                lib("decoding a restored account", || Ver::of(a))?;
            }
        }
        // an account whose compressed data is damaged
        // (the layout of snapshots is the store's own business)
        let mut accounts: Vec<AccountData> = bincode::deserialize(&bytes).unwrap_or_default();
        if !accounts.is_empty() {
            let i = r.usize(accounts.len());
            let a = &mut accounts[i];
            let mut acc = (*a.account).clone();
            let plain = acc.data.data();
            let method = if r.pct(50) { CompressionMethod::Lz4(1) } else { CompressionMethod::Zstd(1) };
            acc.data = match Data::new(&plain, method) {
                Data::Lz4 { mut binary, len } => {
                    if r.pct(50) { binary.truncate(binary.len() / 2); Data::Lz4 { binary, len } } else { Data::Lz4 { binary, len: len + 1 } }
                }
                Data::Zstd { mut binary, len } => {
                    if r.pct(50) { binary.truncate(binary.len() / 2); Data::Zstd { binary, len } } else { Data::Zstd { binary, len: len + 1 } }
                }
                d => d,
            };
            a.account = Arc::new(acc);
            let b = bincode::serialize(&accounts).unwrap();
            let victim = build();
            match lib("load_from_snapshot of damaged data", || victim.load_from_snapshot(prog, b))? {
                Err(_) => c.add("malformed_rejected", 1),
                Ok(()) => return Err(viol!("a snapshot with data that cannot be decompressed was accepted")),
            }
            if accounts.iter().any(|a| victim.get_account(a.pubkey, Commitment::Processed).map_or(true, |x| x.is_some())) {
                return Err(viol!("a refused snapshot left accounts behind"));
            }
            c.add("damaged_data", 1);
        }
    }
    Ok(carried)
}
