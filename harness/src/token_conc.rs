//! Concurrent histories against the token store (C27).
use crate::acct_model::*;
use crate::acct_world::pubkey;
use crate::conc::*;
use crate::token::{slot_info, *};
use crate::util::*;
use crate::viol;
use lite_account_manager_common::{
    account_data::AccountData,
    account_filter::{AccountFilterType, MemcmpFilter, MemcmpFilterData},
    account_store_interface::{AccountLoadingError, AccountStorageInterface},
    commitment::Commitment,
};
use lite_token_account_storage::{
    account_types::{Program, TokenAccount, TokenAccountIndex},
    inmemory_token_account_storage::InmemoryTokenAccountStorage,
    inmemory_token_storage::TokenProgramAccountsStorage,
    token_account_storage_interface::TokenAccountStorageInterface,
};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::{Arc, Condvar, Mutex};

pub fn checks() -> Vec<crate::Check> {
    vec![crate::Check {
        id: "C27",
        run: c27,
        rule: "three to seven threads deliver token accounts, mints and multisigs (some on forks), slot notifications, lookups, program queries and snapshots to one token store with injected delays, then a quiescent comparison with the model; storms mix closings, kind, owner and mint changes; non-trivial if operations of different threads overlapped; distinct by order of calls and returns",
        min_nontrivial: 300,
        must_see: &["overlapping_pairs", "reads", "reports_required", "confirmed_reports_required", "reads_racing_a_finalization", "query_reads", "snapshot_reads", "two_notifiers", "storms", "closings", "crowd_writes", "crowd_queries"],
        assumptions: &[
            "updates of a slot are delivered before a notification finalizes it or a later slot; a slot is confirmed before it is finalized and announced before that",
            "stuck means: every unfinished thread of the case asleep without a context switch for 50 samples",
        ],
    }]
}

/// The record store with delays injected wherever the token store uses it.
#[derive(Default)]
struct JitterRecords(InmemoryTokenAccountStorage);
impl TokenAccountStorageInterface for JitterRecords {
    fn contains(&self, pubkey: &Pubkey) -> Option<TokenAccountIndex> {
        injected();
        self.0.contains(pubkey)
    }
    fn save_or_update(&self, token_account: TokenAccount) -> (TokenAccountIndex, bool) {
        injected();
        let r = self.0.save_or_update(token_account);
        injected();
        r
    }
    fn get_by_index(&self, indexes: HashSet<TokenAccountIndex>) -> Result<Vec<TokenAccount>, AccountLoadingError> {
        injected();
        let r = self.0.get_by_index(indexes);
        injected();
        r
    }
    fn get_by_pubkey(&self, pubkey: &Pubkey) -> Option<TokenAccount> {
        injected();
        let r = self.0.get_by_pubkey(pubkey);
        injected();
        r
    }
    fn delete(&self, pubkey: &Pubkey) {
        injected();
        self.0.delete(pubkey);
        injected();
    }
    fn create_snapshot(&self, program: Program) -> Result<Vec<Vec<u8>>, AccountLoadingError> {
        injected();
        let r = self.0.create_snapshot(program);
        injected();
        r
    }
}

type Key = (u64, u64);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum How {
    Lookup,
    Query,
    Restored,
}
#[derive(Clone, Debug)]
enum Ev {
    Update { acc: usize, key: Key, ok: bool },
    Notify { slot: u64, commit: u8, reported: Vec<(usize, Key)> },
    /// what one operation showed of one account
    Read { acc: usize, commit: u8, got: Option<Key>, how: How },
}

fn show(evs: &[Event<Ev>]) -> Vec<String> {
    evs.iter().map(|e| format!("[{}..{}] thread {}: {:?}", e.call, e.ret, e.thread, e.what)).collect()
}

/// Writers tell when everything of a slot is delivered; a notifier waits for that before it finalizes.
struct Gate {
    left: Mutex<BTreeMap<u64, usize>>,
    cv: Condvar,
}
impl Gate {
    fn done(&self, slot: u64) {
        *self.left.lock().unwrap().get_mut(&slot).unwrap() -= 1;
        self.cv.notify_all();
    }
    fn wait(&self, slot: u64) {
        let mut l = self.left.lock().unwrap();
        while l.range(..=slot).any(|x| *x.1 > 0) {
            l = self.cv.wait(l).unwrap();
        }
    }
}

struct Shared {
    store: Arc<TokenProgramAccountsStorage>,
    pks: Vec<Pubkey>,
    /// every version, by the number written into its contents
    written: HashMap<u64, (usize, Ver)>,
    clock: Clock,
    gate: Gate,
}

/// the unique number in the contents of a version
fn id_of(owner: &Pubkey, data: &[u8]) -> Option<u64> {
    let at = match kind_of(owner, data)? {
        Kind::Token => 64,
        Kind::Mint => 36,
        Kind::Multisig => 3,
    };
    Some(u64::from_le_bytes(data[at..at + 8].try_into().unwrap()))
}

impl Shared {
    /// exactly a version somebody delivered
    fn genuine(&self, a: &AccountData, what: &str, level: Option<Commitment>) -> Result<(usize, Key), Violation> {
        let g = Ver::of(a);
        let acc = self.pks.iter().position(|p| *p == a.pubkey).ok_or_else(|| viol!("{what} returned unknown account {}", a.pubkey))?;
        let Some((wacc, v)) = id_of(&g.owner, &g.data).and_then(|id| self.written.get(&id)) else {
            return Err(viol!("{what} returned account#{acc} {} which nobody wrote", g.short()));
        };
        if *wacc != acc {
            return Err(viol!("{what} returned account#{acc} with the contents of account#{wacc} {}", v.short()));
        }
        same_content(a, v).map_err(|e| viol!("{what} returned account#{acc} {} changed: {e}", v.short()))?;
        let as_final = a.write_version == 0;
        let ok = match level {
            // finalized views carry the finalized slot
            Some(Commitment::Finalized) => as_final,
            Some(_) => as_final || (a.updated_slot, a.write_version) == v.key(),
            None => (a.updated_slot, a.write_version) == v.key(),
        };
        if !ok {
            return Err(viol!("{what} returned account#{acc} {} with slot {} and write version {}", v.short(), a.updated_slot, a.write_version));
        }
        Ok((acc, v.key()))
    }
    fn update(&self, evs: &mut Vec<Event<Ev>>, t: usize, acc: usize, v: &Ver, c: Commitment, comp: u8) -> Result<(), Violation> {
        let ad = v.to_account_data(self.pks[acc], compression(comp));
        let call = self.clock.tick();
        let ok = lib("update_account", || self.store.update_account(ad, c))?;
        let ret = self.clock.tick();
        evs.push(Event { call, ret, thread: t, what: Ev::Update { acc, key: v.key(), ok } });
        Ok(())
    }
    fn notify(&self, evs: &mut Vec<Event<Ev>>, t: usize, slot: u64, parent: u64, c: Commitment) -> Result<(), Violation> {
        let call = self.clock.tick();
        let rep = lib("process_slot_data", || self.store.process_slot_data(slot_info(slot, parent), c))?;
        let ret = self.clock.tick();
        let mut reported = vec![];
        for a in &rep {
            reported.push(self.genuine(a, "a slot notification", None)?);
        }
        reported.sort();
        if reported.windows(2).any(|w| w[0].0 == w[1].0) {
            return Err(viol!("the notification of slot {slot} at {} reports an account twice: {reported:?}", cname(c)));
        }
        evs.push(Event { call, ret, thread: t, what: Ev::Notify { slot, commit: c as u8, reported } });
        Ok(())
    }
    fn read(&self, evs: &mut Vec<Event<Ev>>, t: usize, acc: usize, c: Commitment) -> Result<(), Violation> {
        let call = self.clock.tick();
        let r = lib("get_account", || self.store.get_account(self.pks[acc], c))?.map_err(|e| viol!("lookup failed: {e:?}"))?;
        let ret = self.clock.tick();
        let got = match &r {
            Some(a) => {
                let (i, k) = self.genuine(a, "a lookup", Some(ccopy(&c)))?;
                if i != acc {
                    return Err(viol!("lookup of account#{acc} returned account#{i}"));
                }
                Some(k)
            }
            None => None,
        };
        evs.push(Event { call, ret, thread: t, what: Ev::Read { acc, commit: c as u8, got, how: How::Lookup } });
        Ok(())
    }
    /// `selects`: the accounts that every version of which matches the query
    fn query(&self, evs: &mut Vec<Event<Ev>>, t: usize, prog: Pubkey, f: Vec<AccountFilterType>, selects: &[usize], c: Commitment) -> Result<(), Violation> {
        let filters = Some(f);
        let call = self.clock.tick();
        let r = lib("get_program_accounts", || self.store.get_program_accounts(prog, filters.clone(), c))?
            .map_err(|e| viol!("program query failed: {e:?}"))?;
        let ret = self.clock.tick();
        let mut got: BTreeMap<usize, Key> = BTreeMap::new();
        for a in &r {
            let (i, k) = self.genuine(a, "a program query", Some(ccopy(&c)))?;
            if a.account.owner != prog || !all_match(&filters, &a.account.data.data()) {
                return Err(viol!("query {filters:?} returned account#{i} {} which does not match", Ver::of(a).short()));
            }
            if got.insert(i, k).is_some() {
                return Err(viol!("query {filters:?} returned account#{i} twice"));
            }
        }
        for acc in selects {
            evs.push(Event { call, ret, thread: t, what: Ev::Read { acc: *acc, commit: c as u8, got: got.get(acc).copied(), how: How::Query } });
        }
        Ok(())
    }
    /// takes a snapshot and looks at the accounts it restores
    fn snapshot(&self, evs: &mut Vec<Event<Ev>>, t: usize, prog: Pubkey, of_program: &[usize]) -> Result<(), Violation> {
        let call = self.clock.tick();
        let b = lib("create_snapshot", || self.store.create_snapshot(prog))?.map_err(|e| viol!("snapshot refused: {e:?}"))?;
        let ret = self.clock.tick();
        let fresh = new_token_store();
        lib("load_from_snapshot", || fresh.load_from_snapshot(prog, b))?.map_err(|e| viol!("a snapshot taken during updates cannot be loaded: {e:?}"))?;
        for (acc, pk) in self.pks.iter().enumerate() {
            let r = lib("get_account", || fresh.get_account(*pk, Commitment::Finalized))?.map_err(|e| viol!("lookup failed: {e:?}"))?;
            let got = match &r {
                Some(a) => Some(self.genuine(a, "a snapshot", Some(Commitment::Finalized))?.1),
                None => None,
            };
            if of_program.contains(&acc) {
                evs.push(Event { call, ret, thread: t, what: Ev::Read { acc, commit: 2, got, how: How::Restored } });
            } else if got.is_some() && r.unwrap().account.owner != prog {
                return Err(viol!("a snapshot restored account#{acc} of another program"));
            }
        }
        Ok(())
    }
}

fn mem(offset: u64, bytes: &Pubkey) -> AccountFilterType {
    AccountFilterType::Memcmp(MemcmpFilter { offset, data: MemcmpFilterData::Bytes(bytes.to_bytes().to_vec()) })
}

struct Acct {
    kind: Kind,
    prog: Pubkey,
    owner: Pubkey,
    mint: Pubkey,
}

fn contents(r: &mut Rng, a: &Acct, id: u64) -> Vec<u8> {
    match a.kind {
        Kind::Token => token_bytes(r, &a.mint, &a.owner, id, None, 0),
        Kind::Mint => mint_bytes(r, id, None, 0),
        Kind::Multisig => {
            let mut d = multisig_bytes(r);
            d[3..11].copy_from_slice(&id.to_le_bytes());
            d
        }
    }
}

fn ver(r: &mut Rng, a: &Acct, slot: u64, id: u64, live: bool, owner: Pubkey) -> Ver {
    Ver {
        slot,
        wv: id,
        lamports: if live { 1_000_000 + r.below(1 << 30) } else { 0 },
        owner,
        data: if live { contents(r, a, id) } else { vec![] },
        executable: false,
        rent_epoch: 0,
    }
}

struct Plan {
    sh: Arc<Shared>,
    accts: Vec<Acct>,
    inits: Vec<(usize, Ver)>,
    main: Vec<(u64, u64)>,
    forks: Vec<(u64, u64)>,
    writes: Vec<(usize, Ver)>,
    owners: Vec<Pubkey>,
    mints: Vec<Pubkey>,
}

fn queries(p: &Plan, r: &mut Rng) -> (Pubkey, Vec<AccountFilterType>, Vec<usize>) {
    let prog = programs()[r.usize(2)];
    let (o, m) = (*r.pick(&p.owners), *r.pick(&p.mints));
    let f = match r.below(4) {
        0 => vec![AccountFilterType::Datasize(165), mem(32, &o)],
        1 => vec![AccountFilterType::Datasize(165), mem(0, &m)],
        2 => vec![mem(0, &m), AccountFilterType::Datasize(165), mem(32, &o)],
        _ => vec![AccountFilterType::Datasize(82)],
    };
    let kind = if f.len() == 1 { Kind::Mint } else { Kind::Token };
    let sel = p
        .accts
        .iter()
        .enumerate()
        .filter(|(_, a)| {
            a.kind == kind
                && a.prog == prog
                && (kind == Kind::Mint
                    || f.iter().all(|x| match x {
                        AccountFilterType::Memcmp(MemcmpFilter { offset: 32, .. }) => a.owner == o,
                        AccountFilterType::Memcmp(_) => a.mint == m,
                        _ => true,
                    }))
        })
        .map(|x| x.0)
        .collect();
    (prog, f, sel)
}

fn new_plan(r: &mut Rng) -> Plan {
    let n_acc = 2 + r.usize(4);
    let mut pks: Vec<Pubkey> = vec![];
    for i in 0..n_acc {
        let mut k = pubkey(r).to_bytes();
        if i > 0 && r.pct(30) {
            // the same prefix as another address
            k[..8].copy_from_slice(&pks[r.usize(i)].to_bytes()[..8]);
        }
        pks.push(Pubkey::new_from_array(k));
    }
    let owners: Vec<Pubkey> = (0..1 + r.usize(2)).map(|_| pubkey(r)).collect();
    let kinds: Vec<Kind> = (0..n_acc).map(|_| if r.pct(70) { Kind::Token } else if r.pct(60) { Kind::Mint } else { Kind::Multisig }).collect();
    let mut mints: Vec<Pubkey> = (0..1 + r.usize(2)).map(|_| pubkey(r)).collect();
    mints.extend(kinds.iter().zip(&pks).filter(|x| *x.0 == Kind::Mint).map(|x| *x.1));
    let accts: Vec<Acct> = kinds
        .into_iter()
        .map(|kind| Acct { kind, prog: programs()[r.usize(2)], owner: *r.pick(&owners), mint: *r.pick(&mints) })
        .collect();
    let base = 100;
    let (mut main, mut forks, mut at) = (vec![], vec![], base);
    for _ in 0..2 + r.below(5) {
        let parent = main.last().map_or(base - 1, |x: &(u64, u64)| x.0);
        if r.pct(20) {
            forks.push((at, parent));
            at += 1;
        }
        at += u64::from(r.pct(20));
        main.push((at, parent));
        at += 1;
    }
    let mut id = 1 << 20;
    let mut written = HashMap::new();
    let (mut inits, mut writes) = (vec![], vec![]);
    let mut foreign_ok = vec![false; n_acc];
    for a in 0..n_acc {
        if r.pct(60) {
            id += 1;
            let v = ver(r, &accts[a], base - 1, id, true, accts[a].prog);
            written.insert(id, (a, v.clone()));
            inits.push((a, v));
            foreign_ok[a] = true;
        }
    }
    let closes = r.below(40);
    let mut slots: Vec<u64> = main.iter().chain(&forks).map(|x| x.0).collect();
    slots.sort();
    for s in slots {
        for _ in 0..r.below(5) {
            let a = r.usize(n_acc);
            id += 1;
            let live = !r.pct(closes);
            let mut owner = accts[a].prog;
            if !live && foreign_ok[a] && r.pct(60) && main.iter().any(|m| m.0 == s) {
                // handed back to the system program: known to be ours because it is held
                owner = Pubkey::default();
            }
            // from then on it may not be held any more
            foreign_ok[a] &= live;
            let v = ver(r, &accts[a], s, id, live, owner);
            written.insert(id, (a, v.clone()));
            writes.push((a, v));
        }
    }
    Plan {
        sh: Arc::new(Shared {
            store: Arc::new(TokenProgramAccountsStorage::new(Arc::new(JitterRecords::default()))),
            pks,
            written,
            clock: Clock::default(),
            gate: Gate { left: Mutex::default(), cv: Condvar::new() },
        }),
        accts,
        inits,
        main,
        forks,
        writes,
        owners,
        mints,
    }
}

/// notifications in the order one source sends them
fn notes(p: &Plan, r: &mut Rng) -> Vec<(u64, u64, Commitment)> {
    let (mut ev, conf, fin) = (vec![], 5 + r.below(25), 20 + r.below(40));
    let all: BTreeSet<(u64, u64)> = p.main.iter().chain(&p.forks).copied().collect();
    for (i, s) in all.iter().enumerate() {
        ev.push((i as u64 * 10, *s, Commitment::Processed));
    }
    let (mut confirmed, last) = (vec![], *p.main.last().unwrap());
    for s in &p.main {
        let i = all.iter().position(|x| x == s).unwrap() as u64;
        if *s == last || r.pct(70) {
            ev.push((i * 10 + conf, *s, Commitment::Confirmed));
            confirmed.push(s.0);
        }
        if *s == last || r.pct(60) {
            // confirmed before, itself or through a later slot
            let c = p.main.iter().find(|m| m.0 >= s.0 && (confirmed.contains(&m.0) || *m == s)).unwrap();
            if !confirmed.contains(&c.0) {
                ev.push((i * 10 + conf, *s, Commitment::Confirmed));
                confirmed.push(s.0);
            }
            ev.push((i * 10 + conf + fin, *s, Commitment::Finalized));
        }
    }
    ev.sort_by_key(|e| e.0);
    ev.into_iter().map(|e| (e.1 .0, e.1 .1, e.2)).collect()
}

fn quiescent(p: &Plan, order: &[(u64, u64, Commitment)], cnt: &mut Counters, r: &mut Rng) -> Result<(), Violation> {
    let mut model = TModel::default();
    for (a, v) in &p.inits {
        model.update(p.sh.pks[*a], v, Commitment::Finalized);
    }
    for (a, v) in &p.writes {
        model.update(p.sh.pks[*a], v, Commitment::Processed);
    }
    for (s, par, c) in order {
        model.slot(*s, *par, *c);
    }
    check_views(&*p.sh.store, &model, &p.sh.pks, cnt)?;
    let w = TWorld { pks: p.sh.pks.clone(), owners: p.owners.clone(), mints: p.mints.clone(), ops: vec![] };
    for _ in 0..6 {
        let c = COMMITMENTS[r.usize(3)];
        let (prog, f, must) = gen_query(r, &w, &model);
        check_query(&*p.sh.store, &model, &w, prog, &f, must, c, cnt)?;
    }
    Ok(())
}

fn history(ctx: &Ctx, seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let p = Arc::new(new_plan(&mut r));
    let mut cnt = Counters::default();
    for (a, v) in &p.inits {
        let ad = v.to_account_data(p.sh.pks[*a], compression(0));
        lib("initilize_or_update_account", || p.sh.store.initilize_or_update_account(ad))?;
    }
    let order = notes(&p, &mut r);
    let n_upd = 1 + r.usize(3);
    let mut parts: Vec<Vec<(usize, Ver)>> = vec![vec![]; n_upd];
    {
        let mut left = p.sh.gate.left.lock().unwrap();
        for w in &p.writes {
            for _ in 0..if r.pct(20) { 2 } else { 1 } {
                parts[r.usize(n_upd)].push(w.clone());
                *left.entry(w.1.slot).or_default() += 1;
            }
        }
    }
    let mut jobs: Vec<Job<Ev>> = vec![];
    for mut part in parts {
        let (sh, s) = (p.sh.clone(), r.next());
        // a little out of order
        let mut keyed: Vec<(u64, (usize, Ver))> = part.drain(..).map(|x| (x.1.slot * 10 + r.below(20), x)).collect();
        keyed.sort_by_key(|x| x.0);
        jobs.push(Box::new(move |t, evs| {
            let mut r = Rng::new(s);
            for (_, (acc, v)) in keyed {
                jitter(&mut r);
                let c = if r.pct(20) { Commitment::Confirmed } else { Commitment::Processed };
                let res = sh.update(evs, t, acc, &v, c, r.below(36) as u8);
                sh.gate.done(v.slot);
                res?;
            }
            Ok(())
        }));
    }
    let two = r.pct(40);
    for _ in 0..if two { 2 } else { 1 } {
        let (sh, s, order) = (p.sh.clone(), r.next(), order.clone());
        jobs.push(Box::new(move |t, evs| {
            let mut r = Rng::new(s);
            for (slot, parent, c) in order {
                jitter(&mut r);
                if c == Commitment::Finalized {
                    sh.gate.wait(slot);
                }
                sh.notify(evs, t, slot, parent, c)?;
            }
            Ok(())
        }));
    }
    for _ in 0..1 + r.usize(2) {
        let (p, s) = (p.clone(), r.next());
        jobs.push(Box::new(move |t, evs| {
            let mut r = Rng::new(s);
            let pct_token = 20 + r.below(60);
            for _ in 0..10 + r.below(25) {
                jitter(&mut r);
                let c = COMMITMENTS[r.usize(3)];
                if r.pct(pct_token) {
                    p.sh.read(evs, t, r.usize(p.sh.pks.len()), c)?;
                } else if r.pct(90) {
                    let (prog, f, sel) = queries(&p, &mut r);
                    p.sh.query(evs, t, prog, f, &sel, c)?;
                } else {
                    let prog = programs()[r.usize(2)];
                    let of: Vec<usize> = p.accts.iter().enumerate().filter(|a| a.1.prog == prog).map(|a| a.0).collect();
                    p.sh.snapshot(evs, t, prog, &of)?;
                }
            }
            Ok(())
        }));
    }
    cnt.add("two_notifiers", u64::from(two));
    let evs = run_threads(seed, jobs, false)?;
    let bad = |m: String| Violation::with(m, describe(&p, &evs));
    check_history(&p, &evs, &order, &mut cnt).map_err(bad)?;
    quiescent(&p, &order, &mut cnt, &mut r).map_err(|v| bad(format!("after all threads finished: {}", v.message)))?;
    let ov = overlaps(&evs);
    cnt.add("overlapping_pairs", ov);
    ctx.merge(&cnt);
    Ok(CaseOk {
        nontrivial: ov > 0,
        fingerprint: interleaving(&evs),
        sample: ctx.wants_sample().then(|| show(&evs).join(" | ").chars().take(1200).collect()),
    })
}

fn describe(p: &Plan, evs: &[Event<Ev>]) -> Vec<String> {
    let mut d = vec![format!("main chain {:?} forks {:?} (slot, parent)", p.main, p.forks)];
    for (i, a) in p.accts.iter().enumerate() {
        d.push(format!("account#{i} {:?} of {}", a.kind, if a.prog == spl_token::id() { "token" } else { "token 2022" }));
    }
    for (a, v) in &p.inits {
        d.push(format!("initialized account#{a} {:?}", v.key()));
    }
    d.extend(show(evs));
    d
}

struct W {
    key: Key,
    live: bool,
    fork: bool,
    /// first call and first return of a delivery
    call: u64,
    ret: u64,
}

/// Offline checks over the recorded history.
fn check_history(p: &Plan, evs: &[Event<Ev>], order: &[(u64, u64, Commitment)], cnt: &mut Counters) -> Result<(), String> {
    let fork = |s: u64| p.forks.iter().any(|f| f.0 == s);
    let mut vers: Vec<Vec<W>> = p.accts.iter().map(|_| vec![]).collect();
    for (a, v) in &p.inits {
        vers[*a].push(W { key: v.key(), live: true, fork: false, call: 0, ret: 0 });
    }
    for (a, v) in &p.writes {
        let of = |e: &&Event<Ev>| matches!(&e.what, Ev::Update { acc, key, .. } if acc == a && *key == v.key());
        let call = evs.iter().filter(of).map(|e| e.call).min().unwrap_or(u64::MAX);
        let ret = evs.iter().filter(of).map(|e| e.ret).min().unwrap_or(u64::MAX);
        vers[*a].push(W { key: v.key(), live: live(v), fork: fork(v.slot), call, ret });
        cnt.add("closings", u64::from(!live(v)));
    }
    let notifies: Vec<(&Event<Ev>, u64, u8)> = evs
        .iter()
        .filter_map(|e| match &e.what {
            Ev::Notify { slot, commit, .. } => Some((e, *slot, *commit)),
            _ => None,
        })
        .collect();
    // the slot that had certainly / could at most have reached a level at a moment
    let reached = |commit: u8, t: u64| notifies.iter().filter(|n| n.2 >= commit && n.0.ret < t).map(|n| n.1).max().unwrap_or(0).max(99);
    let at_most = |commit: u8, t: u64| notifies.iter().filter(|n| n.2 >= commit && n.0.call < t).map(|n| n.1).max().unwrap_or(0).max(99);
    let mut last: HashMap<(usize, usize, u8, How), Key> = HashMap::new();
    for e in evs {
        let Ev::Read { acc, commit, got, how } = &e.what else { continue };
        let (acc, c) = (*acc, *commit);
        cnt.add("reads", 1);
        cnt.add(match how { How::Lookup => "lookup_reads", How::Query => "query_reads", How::Restored => "snapshot_reads" }, 1);
        if notifies.iter().any(|n| n.2 == 2 && n.0.call < e.ret && e.call < n.0.ret) {
            cnt.add("reads_racing_a_finalization", 1);
        }
        let (lo, hi) = if c == 0 { (u64::MAX, u64::MAX) } else { (reached(c, e.call), at_most(c, e.ret)) };
        let must = vers[acc].iter().filter(|w| !w.fork && w.ret < e.call && w.key.0 <= lo).max_by_key(|w| w.key);
        let may = |w: &&W| w.call < e.ret && w.key.0 <= hi && (c == 0 || !w.fork) && must.map_or(true, |m| w.key >= m.key);
        let what = format!("{how:?} [{}..{}] of account#{acc} at {}", e.call, e.ret, cname(COMMITMENTS[c as usize]));
        let id = (e.thread, acc, c, *how);
        let before = last.get(&id).copied();
        match got {
            Some(g) => {
                let Some(w) = vers[acc].iter().filter(may).find(|w| w.key == *g) else {
                    return Err(format!("{what} shows {g:?}, but it must be at least {:?} and of a slot up to {hi}", must.map(|m| m.key)));
                };
                if !w.fork {
                    if before.map_or(false, |b| *g < b) {
                        return Err(format!("{what} shows {g:?} after the same thread saw {before:?}"));
                    }
                    last.insert(id, *g);
                }
            }
            None => {
                // nothing yet, or a closing
                let closing = vers[acc].iter().filter(may).filter(|w| !w.live && before.map_or(true, |b| w.key > b)).count() > 0;
                let nothing = must.is_none() && before.is_none();
                if !closing && !nothing {
                    return Err(format!("{what} shows nothing although {:?} was there (seen before: {before:?}) and nothing closed the account", must.map(|m| m.key)));
                }
            }
        }
    }
    // finalized reports: exactly the newest live version of every account in each newly finalized part of the chain
    let mut want: BTreeMap<(usize, Key), u64> = BTreeMap::new();
    let mut from = 99;
    for (s, _, c) in order {
        if *c != Commitment::Finalized || *s <= from {
            continue;
        }
        for (acc, ws) in vers.iter().enumerate() {
            if let Some(w) = ws.iter().filter(|w| !w.fork && w.key.0 > from && w.key.0 <= *s).max_by_key(|w| w.key) {
                if w.live {
                    want.insert((acc, w.key), *s);
                    cnt.add("reports_required", 1);
                }
            }
        }
        from = *s;
    }
    let mut seen: BTreeMap<(usize, Key), u64> = BTreeMap::new();
    for e in evs {
        let Ev::Notify { slot, commit, reported } = &e.what else { continue };
        for (acc, key) in reported {
            match commit {
                2 => {
                    if let Some(b) = seen.insert((*acc, *key), e.call) {
                        return Err(format!("account#{acc} {key:?} is reported as finalized twice, at {b} and {}", e.call));
                    }
                    if !want.contains_key(&(*acc, *key)) || key.0 > *slot {
                        return Err(format!("account#{acc} {key:?} is reported by the finalization of slot {slot}, which does not bring it"));
                    }
                }
                1 if key.0 == *slot => {}
                _ => return Err(format!("account#{acc} {key:?} is reported by slot {slot} at {}", cname(COMMITMENTS[*commit as usize]))),
            }
            if !vers[*acc].iter().any(|w| w.key == *key && w.live && w.call < e.ret) {
                return Err(format!("account#{acc} {key:?} is reported before it was written"));
            }
        }
        // a confirmed report is complete, unless the slot is finalized already
        if *commit == 1 && !notifies.iter().any(|n| n.2 == 2 && n.1 >= *slot && n.0.call < e.ret) {
            for (acc, ws) in vers.iter().enumerate() {
                let there = ws.iter().filter(|w| w.key.0 == *slot && w.ret < e.call).max_by_key(|w| w.key);
                let Some(b) = there else { continue };
                cnt.add("confirmed_reports_required", 1);
                let overtaken_by_closing = ws.iter().any(|w| w.key.0 == *slot && w.key >= b.key && !w.live && w.call < e.ret);
                let got = reported.iter().find(|x| x.0 == acc);
                match got {
                    Some(g) if g.1 < b.key => return Err(format!("the confirmed report [{}..{}] of slot {slot} has account#{acc} {:?} instead of {:?}", e.call, e.ret, g.1, b.key)),
                    None if !overtaken_by_closing => return Err(format!("the confirmed report [{}..{}] of slot {slot} misses account#{acc} {:?}", e.call, e.ret, b.key)),
                    _ => {}
                }
            }
        }
    }
    if let Some(((acc, key), s)) = want.iter().find(|w| !seen.contains_key(w.0)) {
        return Err(format!("account#{acc} {key:?} was finalized with slot {s} but never reported"));
    }
    Ok(())
}

// ------------------------------------------------------------------ storms
fn storm(ctx: &Ctx, seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let mut p = new_plan(&mut r);
    let mut cnt = Counters::default();
    // every version may be of another kind, program, owner and mint
    let mut written = HashMap::new();
    let (pks, n) = (p.sh.pks.clone(), p.accts.len());
    let anything = |r: &mut Rng, v: &mut Ver, close: u64| {
        let live = !r.pct(close);
        let a = Acct {
            kind: if r.pct(60) { Kind::Token } else if r.pct(60) { Kind::Mint } else { Kind::Multisig },
            prog: programs()[r.usize(2)],
            owner: *r.pick(&p.owners),
            mint: if r.pct(70) { *r.pick(&p.mints) } else { *r.pick(&pks) },
        };
        let owner = if live || r.pct(40) { a.prog } else { Pubkey::default() };
        *v = ver(r, &a, v.slot, v.wv, live, owner);
    };
    let close = 10 + r.below(40);
    for (a, v) in p.inits.iter_mut().chain(p.writes.iter_mut()) {
        anything(&mut r, v, close);
        written.insert(v.wv, (*a, v.clone()));
    }
    p.inits.retain(|x| live(&x.1));
    // the last word on every account, in the slot that is finalized after the storm
    let last = p.main.last().unwrap().0 + 1;
    let mut finals = vec![];
    for a in 0..n {
        let mut v = Ver { slot: last, wv: (1 << 24) + a as u64, lamports: 1, owner: programs()[0], data: vec![], executable: false, rent_epoch: 0 };
        anything(&mut r, &mut v, 20);
        if !live(&v) {
            // closings of what may not be held are refused: keep the program as owner
            v.owner = programs()[0];
        }
        written.insert(v.wv, (a, v.clone()));
        finals.push((a, v));
    }
    Arc::get_mut(&mut p.sh).unwrap().written = written;
    for (a, v) in &p.inits {
        let ad = v.to_account_data(p.sh.pks[*a], compression(0));
        lib("initilize_or_update_account", || p.sh.store.initilize_or_update_account(ad))?;
    }
    let order = notes(&p, &mut r);
    let p = Arc::new(p);
    let n_upd = 2 + r.usize(2);
    let mut jobs: Vec<Job<Ev>> = vec![];
    let mut parts: Vec<Vec<(usize, Ver)>> = vec![vec![]; n_upd];
    for w in &p.writes {
        parts[r.usize(n_upd)].push(w.clone());
    }
    for part in parts {
        let (sh, s) = (p.sh.clone(), r.next());
        jobs.push(Box::new(move |t, evs| {
            let mut r = Rng::new(s);
            for (acc, v) in part {
                jitter(&mut r);
                // straight to the finalized records now and then
                let c = if r.pct(25) { Commitment::Finalized } else { Commitment::Processed };
                sh.update(evs, t, acc, &v, c, 0)?;
            }
            Ok(())
        }));
    }
    for _ in 0..1 + r.usize(2) {
        let (sh, s, order) = (p.sh.clone(), r.next(), order.clone());
        jobs.push(Box::new(move |t, evs| {
            let mut r = Rng::new(s);
            for (slot, parent, c) in order {
                jitter(&mut r);
                sh.notify(evs, t, slot, parent, c)?;
            }
            Ok(())
        }));
    }
    for _ in 0..1 + r.usize(2) {
        let (p, s) = (p.clone(), r.next());
        jobs.push(Box::new(move |t, evs| {
            let mut r = Rng::new(s);
            for _ in 0..8 + r.below(15) {
                jitter(&mut r);
                let c = COMMITMENTS[r.usize(3)];
                match r.below(10) {
                    0..=2 => p.sh.read(evs, t, r.usize(p.sh.pks.len()), c)?,
                    3..=7 => {
                        let (prog, f, _) = queries(&p, &mut r);
                        p.sh.query(evs, t, prog, f, &[], c)?;
                    }
                    _ => {
                        let prog = programs()[r.usize(2)];
                        if r.pct(50) {
                            p.sh.snapshot(evs, t, prog, &[])?;
                        } else {
                            let b = lib("create_snapshot", || p.sh.store.create_snapshot(prog))?.map_err(|e| viol!("snapshot refused: {e:?}"))?;
                            lib("load_from_snapshot", || p.sh.store.load_from_snapshot(prog, b))?.map_err(|e| viol!("a snapshot taken in a storm cannot be loaded: {e:?}"))?;
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    cnt.add("storms", 1);
    let mut evs = run_threads(seed, jobs, false)?;
    let t = 900;
    let mut tail = vec![];
    let prev = p.main.last().unwrap().0;
    for (a, v) in &finals {
        p.sh.update(&mut tail, t, *a, v, Commitment::Processed, 0)?;
    }
    p.sh.notify(&mut tail, t, last, prev, Commitment::Processed)?;
    if r.pct(50) {
        p.sh.notify(&mut tail, t, last, prev, Commitment::Confirmed)?;
    }
    p.sh.notify(&mut tail, t, last, prev, Commitment::Finalized)?;
    evs.extend(tail);
    let mut model = TModel::default();
    for (a, v) in &finals {
        model.update(pks[*a], v, Commitment::Processed);
    }
    model.slot(last, prev, Commitment::Finalized);
    let res = check_views(&*p.sh.store, &model, &pks, &mut cnt).and_then(|_| {
        let w = TWorld { pks: pks.clone(), owners: p.owners.clone(), mints: p.mints.clone(), ops: vec![] };
        for _ in 0..8 {
            let c = COMMITMENTS[r.usize(3)];
            let (prog, f, must) = gen_query(&mut r, &w, &model);
            check_query(&*p.sh.store, &model, &w, prog, &f, must, c, &mut cnt)?;
        }
        Ok(())
    });
    res.map_err(|v| Violation::with(format!("after the storm every account was written once more and finalized: {}", v.message), describe(&p, &evs)))?;
    let ov = overlaps(&evs);
    cnt.add("overlapping_pairs", ov);
    ctx.merge(&cnt);
    Ok(CaseOk { nontrivial: ov > 0, fingerprint: interleaving(&evs), sample: None })
}

/// Finalized content delivered by several threads at the same moment: in every step either the first
/// accounts of a new owner and a new mint, or versions of one address as different kinds of accounts.
fn crowd(ctx: &Ctx, seed: u64) -> CaseResult {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let mut r = Rng::new(seed);
    let mut cnt = Counters::default();
    let (n, steps) = (2 + r.usize(3), 6 + r.usize(10));
    let store = if r.pct(50) {
        Arc::new(TokenProgramAccountsStorage::new(Arc::new(JitterRecords::default())))
    } else {
        new_token_store()
    };
    let level = if r.pct(50) { Commitment::Finalized } else { Commitment::Processed };
    let mut plans: Vec<Vec<(Pubkey, Ver)>> = vec![vec![]; n];
    // what may be shown of an address, and the owners, mints and programs it was ever written with
    let mut may: BTreeMap<Pubkey, Vec<Ver>> = BTreeMap::new();
    let mut conds: BTreeMap<Pubkey, Vec<(Pubkey, Vec<AccountFilterType>)>> = BTreeMap::new();
    let mut id = 100;
    for _ in 0..steps {
        let (owner, mint, prog) = (pubkey(&mut r), pubkey(&mut r), programs()[r.usize(2)]);
        let same = r.pct(50);
        let one = pubkey(&mut r);
        for (t, plan) in plans.iter_mut().enumerate() {
            id += 1;
            let pk = if same { one } else { pubkey(&mut r) };
            let kind = match (same, r.below(4)) {
                (true, 0) => Kind::Mint,
                (true, 1) => Kind::Multisig,
                _ => Kind::Token,
            };
            // the addresses written by all differ in owner or mint too
            let a = Acct {
                kind,
                prog: if same { programs()[r.usize(2)] } else { prog },
                owner: if same && r.pct(40) { pubkey(&mut r) } else { owner },
                mint: if same && r.pct(40) { pubkey(&mut r) } else { mint },
            };
            // at processed, every thread has a slot of its own; they are finalized at once later
            let slot = if level == Commitment::Finalized { 50 } else { 50 + t as u64 };
            let v = ver(&mut r, &a, slot, id, true, a.prog);
            let c = conds.entry(pk).or_default();
            for p in programs() {
                c.push((p, vec![AccountFilterType::Datasize(165), mem(32, &a.owner)]));
                c.push((p, vec![AccountFilterType::Datasize(165), mem(0, &a.mint)]));
                c.push((p, vec![mem(0, &a.mint), AccountFilterType::Datasize(165), mem(32, &a.owner)]));
            }
            may.entry(pk).or_default().push(v.clone());
            plan.push((pk, v));
        }
    }
    let at = Arc::new(AtomicUsize::new(0));
    let mut jobs: Vec<Job<Ev>> = vec![];
    for plan in plans {
        let (store, at) = (store.clone(), at.clone());
        let initialize = r.pct(30);
        jobs.push(Box::new(move |_, _| {
            for (step, (pk, v)) in plan.into_iter().enumerate() {
                at.fetch_add(1, Ordering::SeqCst);
                let mut spins = 0u32;
                while at.load(Ordering::SeqCst) < (step + 1) * n && spins < 20_000_000 {
                    spins += 1;
                    if spins % 64 == 0 {
                        std::thread::yield_now();
                    } else {
                        std::hint::spin_loop();
                    }
                }
                let ad = v.to_account_data(pk, compression(0));
                if initialize && level == Commitment::Finalized {
                    lib("initilize_or_update_account", || store.initilize_or_update_account(ad))?;
                } else if !lib("update_account", || store.update_account(ad, level))? {
                    return Err(viol!("an update of a new account was refused"));
                }
            }
            Ok(())
        }));
    }
    run_threads(seed, jobs, false)?;
    if level == Commitment::Processed {
        // then the newest slot is finalized, with all the others as its ancestors
        for t in 0..n as u64 {
            lib("process_slot_data", || store.process_slot_data(slot_info(50 + t, 49 + t), Commitment::Processed))?;
            lib("process_slot_data", || store.process_slot_data(slot_info(50 + t, 49 + t), Commitment::Confirmed))?;
        }
        let top = 49 + n as u64;
        lib("process_slot_data", || store.process_slot_data(slot_info(top, top - 1), Commitment::Finalized))?;
        for v in may.values_mut() {
            // the newest slot wins
            let last = v.iter().max_by_key(|v| v.key()).unwrap().clone();
            *v = vec![last];
        }
    }
    let mut shown: BTreeMap<Pubkey, AccountData> = BTreeMap::new();
    for (pk, vers) in &may {
        let got = lib("get_account", || store.get_account(*pk, Commitment::Finalized))?.map_err(|e| viol!("lookup failed: {e:?}"))?;
        let Some(got) = got else { return Err(viol!("account {pk}, written by several threads at once, is not shown")) };
        if !vers.iter().any(|v| same_content(&got, v).is_ok()) {
            return Err(viol!("account {pk}, written by several threads at once, shows {} which is none of the {} versions", Ver::of(&got).short(), vers.len()));
        }
        shown.insert(*pk, got);
    }
    for (pk, conds) in &conds {
        for (prog, f) in conds {
            let res = lib("get_program_accounts", || store.get_program_accounts(*prog, Some(f.clone()), Commitment::Finalized))?
                .map_err(|e| viol!("query refused: {e:?}"))?;
            let want = shown.values().filter(|a| a.account.owner == *prog && f.iter().all(|x| x.allows(&a.account.data.data()))).count();
            let mut keys: Vec<Pubkey> = res.iter().map(|a| a.pubkey).collect();
            keys.sort();
            keys.dedup();
            let wrong = res.iter().any(|a| shown.get(&a.pubkey).map_or(true, |s| Ver::of(s).data != Ver::of(a).data));
            if res.len() != want || keys.len() != want || wrong {
                return Err(viol!("after several threads wrote {pk} and others at once, a query returns {} accounts ({} different) while the lookups show {want}", res.len(), keys.len()));
            }
            cnt.add("crowd_queries", 1);
        }
    }
    for prog in programs() {
        let res = lib("get_program_accounts", || store.get_program_accounts(prog, Some(vec![AccountFilterType::Datasize(82)]), Commitment::Finalized))?
            .map_err(|e| viol!("query refused: {e:?}"))?;
        let want = shown.values().filter(|a| a.account.owner == prog && a.account.data.len() == 82).count();
        if res.len() != want {
            return Err(viol!("after the crowd, {} mints are returned while the lookups show {want}", res.len()));
        }
        let b = lib("create_snapshot", || store.create_snapshot(prog))?.map_err(|e| viol!("snapshot refused: {e:?}"))?;
        let fresh = new_token_store();
        lib("load_from_snapshot", || fresh.load_from_snapshot(prog, b))?.map_err(|e| viol!("snapshot cannot be loaded: {e:?}"))?;
        for (pk, a) in &shown {
            let got = lib("get_account", || fresh.get_account(*pk, Commitment::Finalized))?.map_err(|e| viol!("lookup failed: {e:?}"))?;
            let want = (a.account.owner == prog).then(|| a.account.data.data());
            if got.map(|x| x.account.data.data()) != want {
                return Err(viol!("after the crowd, the snapshot of a program does not restore {pk} as it is shown"));
            }
        }
    }
    cnt.add("crowd_writes", (n * steps) as u64);
    ctx.merge(&cnt);
    Ok(CaseOk { nontrivial: true, fingerprint: seed, sample: None })
}

fn c27(ctx: &Arc<Ctx>) {
    set_cases_single_threaded(false);
    drive(ctx, "histories", ctx.n(16_000, 600_000), ctx.n(40, 500), 3, history);
    drive(ctx, "storm", ctx.n(8_000, 300_000), ctx.n(25, 300), 3, storm);
    let n = ctx.stats.lock().unwrap().nontrivial.len() as u64;
    ctx.count("distinct_interleavings", n);
    drive(ctx, "crowd", ctx.n(3_000, 80_000), ctx.n(20, 150), 3, crowd);
}
