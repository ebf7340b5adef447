//! Loading on demand (C17-C19): a mock source with delays and failures, requests from several
//! threads, a live chain behind it, and interval rules over the recorded history.
use crate::acct_model::*;
use crate::acct_seq::{Checks, Seen};
use crate::acct_world::*;
use crate::conc::*;
use crate::util::*;
use crate::viol;
use lite_account_manager_common::{
    account_data::AccountData,
    account_filter::{AccountFilterType, AccountFilters, MemcmpFilter, MemcmpFilterData},
    account_store_interface::{AccountLoadingError, AccountStorageInterface},
    accounts_source_interface::AccountsSourceInterface,
    commitment::Commitment,
    mutable_filter_store::MutableFilterStore,
    slot_info::SlotInfo,
};
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use lite_accounts_on_demand::accounts_on_demand::AccountsOnDemand;
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, Weak};
use std::time::Duration;

pub fn checks() -> Vec<crate::Check> {
    vec![
        crate::Check {
            id: "C17",
            run: c17,
            rule: "three to six threads ask for few accounts (present, absent, created meanwhile) while the chain behind the source goes on changing and the source is delayed at random; plus histories through the wrapper compared with a plain twin store; non-trivial if requests for one account overlapped or the history held updates; distinct by interleaving or history",
            min_nontrivial: 300,
            must_see: &["overlapping_requests", "loads", "absent_answers", "created_after_absent", "live_updates_delivered", "twin_operations", "loads_in_histories", "lookups_after_loading"],
            assumptions: &["the source delivers every write of what is subscribed, and its snapshots are read after the call starts; both may be delivered late and in either order", "accounts are not closed while they are being loaded"],
        },
        crate::Check {
            id: "C18",
            run: c18,
            rule: "as C17 and C19 with subscriptions and snapshots failing at random (before, in the middle of, and after delivering accounts), and sources blocked until every other request has returned; non-trivial if a source call failed; distinct by interleaving",
            min_nontrivial: 200,
            must_see: &["failed_subscriptions", "failed_snapshots", "errors_returned", "recovered_after_failure", "timeouts_returned", "answers_while_source_blocked"],
            assumptions: &["a failing source returns an error, it does not panic"],
        },
        crate::Check {
            id: "C19",
            run: c19,
            rule: "three to six threads query few programs with identical, narrower and unrelated filters (and accounts of them) while loads are in progress; non-trivial if queries that one load covers overlapped; distinct by interleaving",
            min_nontrivial: 300,
            must_see: &["overlapping_covered_queries", "program_loads", "queries_served_without_load", "live_updates_delivered", "accounts_returned", "loads_in_histories"],
            assumptions: &["as C17; accounts keep their owner and their selected bytes while they are being loaded"],
        },
    ]
}

type Filters = Option<Vec<AccountFilterType>>;

struct Chain {
    accs: BTreeMap<Pubkey, Ver>,
    slot: u64,
    subs: HashSet<Pubkey>,
    psubs: Vec<(Pubkey, Filters)>,
    /// (account, version, call, return) of every write
    writes: Vec<(Pubkey, Ver, u64, u64)>,
    delivered: u64,
}

#[derive(Clone, Debug, PartialEq)]
enum Key {
    Acc(Pubkey),
    Prog(Pubkey, Filters),
}
impl Key {
    /// everything `other` asks for is part of what self loads
    fn covers(&self, other: &Key) -> bool {
        match (self, other) {
            (Key::Acc(a), Key::Acc(b)) => a == b,
            (Key::Prog(p, f), Key::Prog(q, g)) => {
                p == q
                    && match (f, g) {
                        (None, _) => true,
                        (Some(f), Some(g)) => f.iter().all(|x| g.iter().any(|y| same_filter(x, y))),
                        (Some(_), None) => false,
                    }
            }
            _ => false,
        }
    }
}
fn decoded(d: &MemcmpFilterData) -> Vec<u8> {
    match d {
        MemcmpFilterData::Bytes(b) => b.clone(),
        MemcmpFilterData::Base58(s) => bs58::decode(s).into_vec().unwrap(),
        MemcmpFilterData::Base64(s) => {
            use base64::Engine;
            base64::engine::general_purpose::STANDARD.decode(s).unwrap()
        }
    }
}
fn same_filter(a: &AccountFilterType, b: &AccountFilterType) -> bool {
    match (a, b) {
        (AccountFilterType::Datasize(x), AccountFilterType::Datasize(y)) => x == y,
        (AccountFilterType::Memcmp(x), AccountFilterType::Memcmp(y)) => {
            x.offset == y.offset && decoded(&x.data) == decoded(&y.data)
        }
        _ => false,
    }
}

#[derive(Clone, Debug)]
struct SrcCall {
    key: Key,
    at: u64,
    ret: u64,
    subscribe: bool,
    failed: bool,
}

struct Source {
    clock: Arc<Clock>,
    chain: Mutex<Chain>,
    target: Mutex<Option<Weak<AccountsOnDemand>>>,
    fail_pct: AtomicU64,
    rng: Mutex<Rng>,
    calls: Mutex<Vec<SrcCall>>,
    /// snapshots of these keys wait until released
    gate: Mutex<Option<Key>>,
    gate_cv: Condvar,
    gate_hit: AtomicBool,
    /// 0: the snapshot waits before anything is delivered, 1: after everything has been delivered,
    /// 2: the subscription waits
    gate_mode: AtomicU64,
}

impl Source {
    fn roll(&self, pct: u64) -> bool {
        self.rng.lock().unwrap().pct(pct)
    }
    fn key_of(f: &AccountFilters) -> Option<Key> {
        match &f[..] {
            [one] => match (&one.accounts[..], one.program_id) {
                ([a], None) => Some(Key::Acc(*a)),
                ([], Some(p)) => Some(Key::Prog(p, one.filters.clone())),
                _ => None,
            },
            _ => None,
        }
    }
    fn wait_gate(&self, key: &Key) {
        let mut g = self.gate.lock().unwrap();
        if g.as_ref() == Some(key) {
            self.gate_hit.store(true, Ordering::SeqCst);
        }
        while g.as_ref() == Some(key) {
            g = self.gate_cv.wait(g).unwrap();
        }
    }
    fn release(&self) {
        *self.gate.lock().unwrap() = None;
        self.gate_cv.notify_all();
    }
    /// a write on the chain, delivered at once if subscribed
    fn write(&self, pk: Pubkey, f: impl FnOnce(Option<&Ver>, u64) -> Ver) -> Result<(), Violation> {
        let call = self.clock.tick();
        let mut ch = self.chain.lock().unwrap();
        ch.slot += 1;
        let v = f(ch.accs.get(&pk), ch.slot);
        ch.accs.insert(pk, v.clone());
        let subscribed = ch.subs.contains(&pk)
            || ch.psubs.iter().any(|(p, f)| *p == v.owner && all_match(f, &v.data));
        if subscribed {
            let t = self.target.lock().unwrap().as_ref().and_then(|t| t.upgrade());
            if let Some(t) = t {
                ch.delivered += 1;
                lib("update_account", || t.update_account(v.to_account_data(pk, compression(v.wv as u8)), Commitment::Finalized))?;
            }
        }
        let ret = self.clock.tick();
        ch.writes.push((pk, v, call, ret));
        Ok(())
    }
}

impl AccountsSourceInterface for Source {
    fn subscribe_accounts(&self, account: HashSet<Pubkey>) -> anyhow::Result<()> {
        let at = self.clock.tick();
        injected();
        if self.gate_mode.load(Ordering::SeqCst) == 2 {
            for a in &account {
                self.wait_gate(&Key::Acc(*a));
            }
        }
        let failed = self.roll(self.fail_pct.load(Ordering::SeqCst));
        if !failed {
            let mut ch = self.chain.lock().unwrap();
            ch.subs.extend(account.iter().copied());
        }
        injected();
        let ret = self.clock.tick();
        let mut c = self.calls.lock().unwrap();
        for a in account {
            c.push(SrcCall { key: Key::Acc(a), at, ret, subscribe: true, failed });
        }
        if failed {
            anyhow::bail!("injected: cannot subscribe")
        }
        Ok(())
    }
    fn subscribe_program_accounts(&self, program_id: Pubkey, filters: Filters) -> anyhow::Result<()> {
        let at = self.clock.tick();
        injected();
        if self.gate_mode.load(Ordering::SeqCst) == 2 {
            self.wait_gate(&Key::Prog(program_id, filters.clone()));
        }
        let failed = self.roll(self.fail_pct.load(Ordering::SeqCst));
        if !failed {
            self.chain.lock().unwrap().psubs.push((program_id, filters.clone()));
        }
        injected();
        let ret = self.clock.tick();
        self.calls.lock().unwrap().push(SrcCall { key: Key::Prog(program_id, filters), at, ret, subscribe: true, failed });
        if failed {
            anyhow::bail!("injected: cannot subscribe")
        }
        Ok(())
    }
    fn save_snapshot(&self, storage: Arc<dyn AccountStorageInterface>, account_filters: AccountFilters) -> anyhow::Result<()> {
        let at = self.clock.tick();
        injected();
        let key = Self::key_of(&account_filters);
        let mode = self.gate_mode.load(Ordering::SeqCst);
        if let (Some(k), 0) = (&key, mode) {
            self.wait_gate(k);
        }
        let mut all: Vec<(Pubkey, Ver)> = {
            let ch = self.chain.lock().unwrap();
            ch.accs
                .iter()
                .filter(|(pk, v)| {
                    v.live()
                        && account_filters.iter().any(|f| {
                            f.accounts.contains(pk)
                                || f.program_id.map_or(false, |p| p == v.owner && all_match(&f.filters, &v.data))
                        })
                })
                .map(|(a, b)| (*a, b.clone()))
                .collect()
        };
        let failed = self.roll(self.fail_pct.load(Ordering::SeqCst));
        {
            let mut r = self.rng.lock().unwrap();
            r.shuffle(&mut all);
            if failed {
                let n = r.usize(all.len() + 1);
                all.truncate(n);
            }
        }
        for (pk, v) in all {
            injected();
            storage.initilize_or_update_account(v.to_account_data(pk, compression(v.wv as u8)));
        }
        if let (Some(k), 1) = (&key, mode) {
            self.wait_gate(k);
        }
        injected();
        let ret = self.clock.tick();
        if let Some(key) = key {
            self.calls.lock().unwrap().push(SrcCall { key, at, ret, subscribe: false, failed });
        }
        if failed {
            anyhow::bail!("injected: snapshot broke off")
        }
        Ok(())
    }
}

type Answer = Result<Vec<(Pubkey, Ver)>, AccountLoadingError>;
#[derive(Clone, Debug)]
enum Ev {
    Ask { key: Key, commit: u8, got: Answer },
    Write,
}

struct Setup {
    src: Arc<Source>,
    od: Arc<AccountsOnDemand>,
    clock: Arc<Clock>,
    pks: Vec<Pubkey>,
    keys: Vec<Key>,
    filters: Arc<MutableFilterStore>,
    preloaded: Vec<Key>,
    wide: bool,
    /// requests that took too long: begin, end, milliseconds
    stuck: Mutex<Vec<(u64, u64, u64)>>,
}

/// bytes 0..4 select the account, byte 8.. carries the version
fn body(tag: u8, size: usize, wv: u64) -> Vec<u8> {
    let mut d = vec![0u8; size];
    d[0] = tag;
    d[1] = 7;
    d[8..16].copy_from_slice(&wv.to_le_bytes());
    d
}
fn tagged(r: &mut Rng, tag: u8) -> AccountFilterType {
    let b = vec![tag, 7];
    AccountFilterType::Memcmp(MemcmpFilter {
        offset: 0,
        data: match r.below(3) {
            0 => MemcmpFilterData::Bytes(b),
            1 => MemcmpFilterData::Base58(bs58::encode(b).into_string()),
            _ => {
                use base64::Engine;
                MemcmpFilterData::Base64(base64::engine::general_purpose::STANDARD.encode(b))
            }
        },
    })
}

fn setup(r: &mut Rng, gpa: bool, accounts: bool, fail_pct: u64) -> Setup {
    let progs: Vec<Pubkey> = (0..2).map(|_| pubkey(r)).collect();
    // now and then many accounts and many different requests
    let wide = r.pct(12);
    let n = if wide { 12 + r.usize(24) } else { 2 + r.usize(5) };
    let tags = if wide { 12 } else { 3 };
    let sizes: &[usize] = if wide { &[16, 24, 32, 40, 48, 56] } else { &[16, 24, 40] };
    let asks = if wide { 16 } else { 3 };
    let pks: Vec<Pubkey> = (0..n + 2).map(|_| pubkey(r)).collect();
    let mut accs = BTreeMap::new();
    let mut writes = vec![];
    for (i, pk) in pks[..n].iter().enumerate() {
        let wv = i as u64 + 1;
        let v = Ver {
            slot: 1 + r.below(8),
            wv,
            lamports: 10 + r.below(100),
            owner: progs[r.usize(2)],
            data: body(r.below(tags) as u8, *r.pick(sizes), wv),
            executable: false,
            rent_epoch: 0,
        };
        writes.push((*pk, v.clone(), 0, 0));
        accs.insert(*pk, v);
    }
    let mut keys = vec![];
    if accounts {
        for _ in 0..1 + r.usize(asks) {
            keys.push(Key::Acc(*r.pick(&pks)));
        }
    }
    if gpa {
        for _ in 0..1 + r.usize(asks) {
            let p = *r.pick(&progs);
            let t = r.below(tags) as u8;
            let sz = AccountFilterType::Datasize(*r.pick(sizes) as u64);
            let f = match r.below(if wide { 40 } else { 6 }) {
                0 | 1 => None,
                2 => Some(vec![]),
                3 | 6..=15 => Some(vec![sz]),
                4 | 16..=27 => Some(vec![tagged(r, t)]),
                _ => Some(vec![tagged(r, t), sz]),
            };
            keys.push(Key::Prog(p, f.clone()));
            if r.pct(40) {
                // something the previous one covers
                let mut g = f.unwrap_or_default();
                g.push(tagged(r, t));
                if r.pct(50) {
                    g.reverse();
                }
                keys.push(Key::Prog(p, Some(g)));
            }
        }
    }
    let clock = Arc::new(Clock::default());
    clock.tick();
    let src = Arc::new(Source {
        clock: clock.clone(),
        chain: Mutex::new(Chain { accs, slot: 10, subs: HashSet::new(), psubs: vec![], writes, delivered: 0 }),
        target: Mutex::new(None),
        fail_pct: AtomicU64::new(fail_pct),
        rng: Mutex::new(Rng::new(r.next())),
        calls: Mutex::new(vec![]),
        gate: Mutex::new(None),
        gate_cv: Condvar::new(),
        gate_hit: AtomicBool::new(false),
        gate_mode: AtomicU64::new(0),
    });
    let filters = Arc::new(MutableFilterStore::default());
    let store = Arc::new(InmemoryAccountStore::new(filters.clone()));
    let od = Arc::new(AccountsOnDemand::new(src.clone(), filters.clone(), store));
    *src.target.lock().unwrap() = Some(Arc::downgrade(&od));
    Setup { src, od, clock, pks, keys, filters, preloaded: vec![], wide, stuck: Mutex::new(vec![]) }
}

/// Times at which this machine was found not to run a thread that was ready.
static STALLS: AtomicU64 = AtomicU64::new(0);
/// Cases in which a request waited for nothing, although the machine was responsive.
static STUCK_CASES: AtomicU64 = AtomicU64::new(0);
const STUCK: Duration = Duration::from_secs(4);
fn watch_stalls() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        std::thread::spawn(|| loop {
            let t = std::time::Instant::now();
            std::thread::sleep(Duration::from_millis(20));
            if t.elapsed() > Duration::from_millis(300) {
                STALLS.fetch_add(1, Ordering::SeqCst);
            }
        });
    });
}

impl Setup {
    fn ask(&self, evs: &mut Vec<Event<Ev>>, t: usize, key: &Key, c: Commitment) -> Result<(), Violation> {
        let call = self.clock.tick();
        let (began, stalls) = (std::time::Instant::now(), STALLS.load(Ordering::SeqCst));
        let got: Answer = match key {
            Key::Acc(pk) => lib("get_account", || self.od.get_account(*pk, c))?.map(|o| o.into_iter().collect::<Vec<AccountData>>()),
            Key::Prog(p, f) => lib("get_program_accounts", || self.od.get_program_accounts(*p, f.clone(), c))?,
        }
        .map(|v| v.iter().map(|a| (a.pubkey, Ver::of(a))).collect());
        let ret = self.clock.tick();
        if began.elapsed() > STUCK && STALLS.load(Ordering::SeqCst) == stalls {
            self.stuck.lock().unwrap().push((call, ret, began.elapsed().as_millis() as u64));
        }
        evs.push(Event { call, ret, thread: t, what: Ev::Ask { key: key.clone(), commit: c as u8, got } });
        Ok(())
    }
}

fn show(s: &Setup, evs: &[Event<Ev>]) -> Vec<String> {
    let name = |pk: &Pubkey| s.pks.iter().position(|p| p == pk).map_or(pk.to_string()[..4].to_string(), |i| format!("account#{i}"));
    let kn = |k: &Key| match k {
        Key::Acc(a) => name(a),
        Key::Prog(p, f) => format!("program {} with {f:?}", &p.to_string()[..4]),
    };
    let mut v: Vec<(u64, String)> = vec![];
    for e in evs {
        if let Ev::Ask { key, commit, got } = &e.what {
            let g = match got {
                Ok(x) => x.iter().map(|(pk, v)| format!("{} {}", name(pk), v.short())).collect::<Vec<_>>().join(", "),
                Err(e) => format!("{e:?}"),
            };
            v.push((e.call, format!("[{}..{}] thread {} asks for {} at {} -> [{g}]", e.call, e.ret, e.thread, kn(key), cname(COMMITMENTS[*commit as usize]))));
        }
    }
    for c in s.src.calls.lock().unwrap().iter() {
        v.push((c.at, format!("[{}..{}] source: {} {}{}", c.at, c.ret, if c.subscribe { "subscribe" } else { "load" }, kn(&c.key), if c.failed { " FAILS" } else { "" })));
    }
    for (pk, w, call, ret) in &s.src.chain.lock().unwrap().writes {
        v.push((*call, format!("[{call}..{ret}] chain: {} {}", name(pk), w.short())));
    }
    v.sort();
    v.into_iter().map(|x| x.1).collect()
}

/// The oracle.
fn judge(s: &Setup, evs: &[Event<Ev>], cnt: &mut Counters) -> Result<(), Violation> {
    let bad = |m: String| Violation::with(m, show(s, evs));
    let calls = s.src.calls.lock().unwrap().clone();
    let writes = s.src.chain.lock().unwrap().writes.clone();
    let asks: Vec<(&Event<Ev>, &Key, &Answer)> = evs
        .iter()
        .filter_map(|e| match &e.what {
            Ev::Ask { key, got, .. } => Some((e, key, got)),
            _ => None,
        })
        .collect();
    // 1. every answer is exact
    for (e, key, got) in &asks {
        let failure_near = |sub: bool| {
            // a failing call of a load this request made or waited for
            calls.iter().any(|c| c.failed && c.subscribe == sub && c.at < e.ret && c.key.covers(key) && c.ret > e.call)
        };
        match got {
            Err(AccountLoadingError::ErrorSubscribingAccount) if failure_near(true) => cnt.add("errors_returned", 1),
            Err(AccountLoadingError::ErrorCreatingSnapshot) if failure_near(false) => cnt.add("errors_returned", 1),
            Err(AccountLoadingError::OperationTimeOut) if s.src.gate_hit.load(Ordering::SeqCst) => cnt.add("timeouts_returned", 1),
            Err(x) => return Err(bad(format!("the request at [{}..{}] got {x:?} although the source did not fail for it", e.call, e.ret))),
            Ok(list) => {
                let mut seen = BTreeSet::new();
                for (pk, v) in list {
                    if !seen.insert(*pk) {
                        return Err(bad(format!("the request at [{}..{}] returned an account twice", e.call, e.ret)));
                    }
                    let w = writes.iter().find(|w| w.0 == *pk && w.1 == *v);
                    let Some(w) = w else {
                        return Err(bad(format!("the request at [{}..{}] returned {} which is not on the chain", e.call, e.ret, v.short())));
                    };
                    if w.2 >= e.ret && w.2 > 0 {
                        return Err(bad(format!("the request at [{}..{}] returned a version from the future", e.call, e.ret)));
                    }
                    let wanted = match key {
                        Key::Acc(a) => a == pk,
                        Key::Prog(p, f) => *p == v.owner && all_match(f, &v.data),
                    };
                    if !wanted {
                        return Err(bad(format!("the request at [{}..{}] returned an account it did not ask for", e.call, e.ret)));
                    }
                    // a newer version that was on the chain, and delivered, before the request began
                    if let Some(n) = writes.iter().find(|n| n.0 == *pk && n.1.key() > v.key() && n.3 < e.call) {
                        return Err(bad(format!("the request at [{}..{}] returned {}, older than {} written at [{}..{}]", e.call, e.ret, v.short(), n.1.short(), n.2, n.3)));
                    }
                }
                // nothing missing
                for pk in &s.pks {
                    let first = writes.iter().filter(|w| w.0 == *pk).min_by_key(|w| w.3);
                    let Some(f) = first else { continue };
                    let wanted = match key {
                        Key::Acc(a) => a == pk,
                        Key::Prog(p, fl) => *p == f.1.owner && all_match(fl, &f.1.data),
                    };
                    let before = f.3 < e.call;
                    if wanted && before && !seen.contains(pk) {
                        return Err(bad(format!("the request at [{}..{}] does not return {} although it exists and no error was reported", e.call, e.ret, f.1.short())));
                    }
                }
                match key {
                    Key::Acc(_) if list.is_empty() => cnt.add("absent_answers", 1),
                    Key::Acc(a) => {
                        if asks.iter().any(|(x, k, g)| x.ret < e.call && **k == Key::Acc(*a) && matches!(g, Ok(l) if l.is_empty())) {
                            cnt.add("created_after_absent", 1);
                        }
                    }
                    _ => cnt.add("accounts_returned", list.len() as u64),
                }
            }
        }
    }
    // 2. the source is asked only for what was requested, once
    for c in calls.iter().filter(|c| c.subscribe) {
        let open: Vec<_> = asks.iter().filter(|(e, k, _)| **k == c.key && e.call < c.at && c.at < e.ret).collect();
        if open.is_empty() {
            return Err(bad(format!("the source was asked at [{}..{}] for something nobody requested", c.at, c.ret)));
        }
        let began = open.iter().map(|(e, _, _)| e.call).max().unwrap();
        if s.preloaded.iter().any(|k| k.covers(&c.key)) {
            return Err(bad(format!("the source was asked at [{}..{}] for something covered from the start", c.at, c.ret)));
        }
        if let Some((e, _, _)) = asks.iter().find(|(e, k, g)| k.covers(&c.key) && g.is_ok() && e.ret < open.iter().map(|(e, _, _)| e.call).min().unwrap()) {
            return Err(bad(format!("the source was asked at [{}..{}] again for what the request at [{}..{}] had loaded", c.at, c.ret, e.call, e.ret)));
        }
        let _ = began;
        // an account that the store already showed
        if let Key::Acc(pk) = &c.key {
            let first = open.iter().map(|(e, _, _)| e.call).min().unwrap();
            if let Some((e, _, _)) = asks.iter().find(|(e, _, g)| e.ret < first && matches!(g, Ok(l) if l.iter().any(|x| x.0 == *pk))) {
                return Err(bad(format!("the source was asked at [{}..{}] for an account that the request at [{}..{}] already showed", c.at, c.ret, e.call, e.ret)));
            }
        }
    }
    let mut done: Vec<&Key> = vec![];
    for c in calls.iter().filter(|c| c.subscribe) {
        if done.contains(&&c.key) {
            continue;
        }
        done.push(&c.key);
        let subs = calls.iter().filter(|x| x.subscribe && x.key == c.key).count();
        let fails = calls.iter().filter(|x| x.failed && x.key == c.key).count();
        if subs > 1 + fails {
            return Err(bad(format!("{subs} subscriptions for one thing with {fails} failures")));
        }
    }
    // 3. loads follow a successful subscription, one load of a key at a time
    for c in calls.iter().filter(|c| !c.subscribe) {
        if !calls.iter().any(|x| x.subscribe && !x.failed && x.key == c.key && x.ret < c.at) && !s.preloaded.iter().any(|k| k.covers(&c.key)) {
            return Err(bad(format!("loaded at [{}..{}] without having subscribed first: writes in between are lost", c.at, c.ret)));
        }
        if calls.iter().any(|x| !x.subscribe && x.key == c.key && x.at != c.at && x.at < c.ret && c.at < x.ret) {
            return Err(bad(format!("two loads of the same thing at a time, at [{}..{}]", c.at, c.ret)));
        }
    }
    cnt.add("loads", calls.iter().filter(|c| !c.subscribe && matches!(c.key, Key::Acc(_))).count() as u64);
    cnt.add("program_loads", calls.iter().filter(|c| !c.subscribe && matches!(c.key, Key::Prog(..))).count() as u64);
    cnt.add("failed_subscriptions", calls.iter().filter(|c| c.subscribe && c.failed).count() as u64);
    cnt.add("failed_snapshots", calls.iter().filter(|c| !c.subscribe && c.failed).count() as u64);
    for (e, k, g) in &asks {
        if g.is_ok() && matches!(k, Key::Prog(..)) && !calls.iter().any(|c| c.key == **k) {
            cnt.add("queries_served_without_load", 1);
        }
        for (f, l, _) in &asks {
            if e.call < f.call && f.call < e.ret && e.thread != f.thread {
                if k == l && matches!(k, Key::Acc(_)) {
                    cnt.add("overlapping_requests", 1);
                }
                if matches!(k, Key::Prog(..)) && k.covers(l) {
                    cnt.add("overlapping_covered_queries", 1);
                }
            }
        }
    }
    cnt.add("live_updates_delivered", s.src.chain.lock().unwrap().delivered);
    Ok(())
}

fn bump(r: &mut Rng, s: &Setup) -> Result<(), Violation> {
    let pk = *r.pick(&s.pks);
    let owner = match &s.keys[0] {
        Key::Prog(p, _) => *p,
        _ => s.src.chain.lock().unwrap().accs.values().next().unwrap().owner,
    };
    let tag = r.below(3) as u8;
    let size = *r.pick(&[16usize, 24, 40]);
    s.src.write(pk, |old, slot| match old {
        Some(v) => {
            let mut v = v.clone();
            v.slot = slot;
            v.wv = slot * 10;
            v.lamports += 1;
            let n = v.data.len();
            v.data[8..n.min(16)].copy_from_slice(&v.wv.to_le_bytes()[..n.min(16) - 8]);
            v
        }
        None => Ver { slot, wv: slot * 10, lamports: 5, owner, data: body(tag, size, slot * 10), executable: false, rent_epoch: 0 },
    })
}

fn load_case(ctx: &Ctx, seed: u64, gpa: bool, accounts: bool, fail_pct: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let mut s = setup(&mut r, gpa, accounts, fail_pct);
    if fail_pct == 0 && gpa && r.pct(20) {
        // covered and filled before anything is asked
        let k = s.keys[0].clone();
        if let Key::Prog(p, f) = &k {
            let fs = vec![lite_account_manager_common::account_filter::AccountFilter { accounts: vec![], program_id: Some(*p), filters: f.clone() }];
            s.filters.add_account_filters(&fs);
            s.src.chain.lock().unwrap().psubs.push((*p, f.clone()));
            let init: Vec<(Pubkey, Ver)> = s.src.chain.lock().unwrap().accs.iter().filter(|(_, v)| v.owner == *p && all_match(f, &v.data)).map(|(a, b)| (*a, b.clone())).collect();
            for (pk, v) in init {
                lib("initilize_or_update_account", || s.od.initilize_or_update_account(v.to_account_data(pk, compression(0))))?;
            }
            s.preloaded.push(k);
        }
    }
    let s = Arc::new(s);
    let n = 3 + r.usize(4);
    let live = r.pct(60);
    let mut jobs: Vec<Job<Ev>> = vec![];
    for i in 0..n {
        let (s, mut r) = (s.clone(), Rng::new(r.next()));
        if live && i == 0 {
            jobs.push(Box::new(move |t, evs| {
                for _ in 0..2 + r.below(6) {
                    jitter(&mut r);
                    bump(&mut r, &s)?;
                    let at = s.clock.tick();
                    evs.push(Event { call: at, ret: at, thread: t, what: Ev::Write });
                }
                Ok(())
            }));
        } else {
            jobs.push(Box::new(move |t, evs| {
                for _ in 0..1 + r.below(if s.wide { 10 } else { 4 }) {
                    jitter(&mut r);
                    let k = r.pick(&s.keys).clone();
                    s.ask(evs, t, &k, COMMITMENTS[r.usize(3)])?;
                }
                Ok(())
            }));
        }
    }
    let mut evs = run_threads(seed, jobs, true).map_err(|mut v| {
        v.history.extend(show(&s, &[]));
        v
    })?;
    let mut cnt = Counters::default();
    if s.wide {
        cnt.add("worlds_with_many_requests", 1);
    }
    let had_failures = s.src.calls.lock().unwrap().iter().any(|c| c.failed);
    // the faults stop: every request succeeds, and then again without another load
    s.src.fail_pct.store(0, Ordering::SeqCst);
    for _ in 0..2 {
        for k in &s.keys {
            let n0 = s.src.calls.lock().unwrap().len();
            s.ask(&mut evs, 99, k, COMMITMENTS[r.usize(3)])?;
            if let Ev::Ask { got: Err(e), .. } = &evs.last().unwrap().what {
                let m = format!("the source works again, but a request still fails with {e:?}");
                return Err(Violation::with(m, show(&s, &evs)));
            }
            let _ = n0;
        }
        for _ in 0..if !live { 0 } else if s.wide { 12 } else { 1 } {
            bump(&mut r, &s)?;
        }
        if had_failures {
            cnt.add("recovered_after_failure", 1);
        }
    }
    judge(&s, &evs, &mut cnt)?;
    // no source call takes that long here: somebody was not woken up
    let stuck = s.stuck.lock().unwrap().clone();
    if let Some((call, ret, ms)) = stuck.first().filter(|_| ctx.id == "C18") {
        if STUCK_CASES.fetch_add(1, Ordering::SeqCst) >= 1 || ctx.replay.is_some() {
            return Err(Violation::with(format!("the request at [{call}..{ret}] was answered after {ms} ms although no source call was slow"), show(&s, &evs)));
        }
    }
    let nontrivial = if fail_pct > 0 {
        had_failures
    } else if gpa {
        cnt.0.contains_key("overlapping_covered_queries")
    } else {
        cnt.0.contains_key("overlapping_requests")
    };
    ctx.merge(&cnt);
    Ok(CaseOk {
        nontrivial,
        fingerprint: interleaving(&evs),
        sample: ctx.wants_sample().then(|| show(&s, &evs).join(" | ").chars().take(1500).collect()),
    })
}

/// The source blocks inside one load until everybody else has got an answer.
fn blocked_case(ctx: &Ctx, seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let gpa = r.pct(50);
    let mut s = setup(&mut r, gpa, !gpa, 0);
    // something that exists
    let (pk0, v0) = { let c = s.src.chain.lock().unwrap(); let (a, b) = c.accs.iter().next().unwrap(); (*a, b.clone()) };
    let (pk1, v1) = { let c = s.src.chain.lock().unwrap(); let (a, b) = c.accs.iter().nth(1).unwrap(); (*a, b.clone()) };
    let slow = if gpa { Key::Prog(v0.owner, Some(vec![AccountFilterType::Datasize(v0.data.len() as u64)])) } else { Key::Acc(pk0) };
    let narrow = if gpa { Key::Prog(v0.owner, Some(vec![AccountFilterType::Datasize(v0.data.len() as u64), tagged(&mut r, v0.data[0])])) } else { slow.clone() };
    let other = if gpa { Key::Prog(v1.owner, Some(vec![tagged(&mut r, v1.data[0])])) } else { Key::Acc(pk1) };
    // and something of the other kind
    let cross = if gpa { Key::Acc(*s.pks.last().unwrap()) } else { Key::Prog(v1.owner, Some(vec![tagged(&mut r, v1.data[0])])) };
    s.keys = vec![slow.clone(), other.clone(), cross.clone()];
    *s.src.gate.lock().unwrap() = Some(slow.clone());
    // the account is held while its load goes on: delivered by it, or by a live update
    let mode = (seed % 3) as u64;
    let late = mode == 1;
    s.src.gate_mode.store(mode, Ordering::SeqCst);
    let live = r.pct(60);
    let s = Arc::new(s);
    let left = Arc::new(AtomicU64::new(6));
    let held = Arc::new(AtomicU64::new(0));
    let mut jobs: Vec<Job<Ev>> = vec![];
    {
        let (s, slow) = (s.clone(), slow.clone());
        jobs.push(Box::new(move |t, evs| s.ask(evs, t, &slow, Commitment::Finalized)));
    }
    for k in [slow.clone(), narrow, other.clone(), cross, slow.clone()] {
        let (s, left) = (s.clone(), left.clone());
        jobs.push(Box::new(move |t, evs| {
            while !s.src.gate_hit.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(5));
            }
            let r = s.ask(evs, t, &k, Commitment::Confirmed);
            if left.fetch_sub(1, Ordering::SeqCst) == 1 {
                s.src.release();
            }
            r
        }));
    }
    {
        let (s, left, held) = (s.clone(), left.clone(), held.clone());
        jobs.push(Box::new(move |t, evs| {
            while !s.src.gate_hit.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(5));
            }
            let r = (|| {
                if live {
                    let call = s.clock.tick();
                    s.src.write(pk0, |old, slot| Ver { slot, wv: slot + 1000, lamports: 77, ..old.cloned().unwrap() })?;
                    evs.push(Event { call, ret: s.clock.tick(), thread: t, what: Ev::Write });
                    lib("process_slot_data", || s.od.process_slot_data(SlotInfo { slot: 5, parent: 4, root: 0 }, Commitment::Confirmed))?;
                }
                // while the subscription waits nothing of it is held
                if late || (live && mode == 0) {
                    s.ask(evs, t, &Key::Acc(pk0), Commitment::Finalized)?;
                    if let Ev::Ask { got: Err(e), .. } = &evs.last().unwrap().what {
                        return Err(Violation::with(format!("a request for an account that is held fails with {e:?} while a load hangs"), show(&s, evs)));
                    }
                    held.fetch_add(1, Ordering::SeqCst);
                }
                Ok(())
            })();
            if left.fetch_sub(1, Ordering::SeqCst) == 1 {
                s.src.release();
            }
            r
        }));
    }
    let mut evs = run_threads(seed, jobs, true).map_err(|mut v| {
        v.message = format!("while the source blocks in one load: {}", v.message);
        v.history.extend(show(&s, &[]));
        v
    })?;
    let mut cnt = Counters::default();
    for k in &s.keys {
        s.ask(&mut evs, 99, k, Commitment::Processed)?;
        if let Ev::Ask { got: Err(e), .. } = &evs.last().unwrap().what {
            return Err(Violation::with(format!("after a slow load a request fails with {e:?}"), show(&s, &evs)));
        }
    }
    judge(&s, &evs, &mut cnt)?;
    cnt.add("answers_while_source_blocked", evs.iter().filter(|e| matches!(&e.what, Ev::Ask { key, got: Ok(_), .. } if *key == other)).count() as u64);
    cnt.add("held_accounts_answered_during_their_load", held.load(Ordering::SeqCst));
    ctx.merge(&cnt);
    Ok(CaseOk { nontrivial: true, fingerprint: interleaving(&evs), sample: None })
}

fn finish(ctx: &Arc<Ctx>) {
    let n = ctx.stats.lock().unwrap().nontrivial.len() as u64;
    ctx.count("distinct_interleavings", n);
}

fn c17(ctx: &Arc<Ctx>) {
    set_cases_single_threaded(false);
    drive(ctx, "accounts", ctx.n(6_000, 300_000), ctx.n(40, 500), 4, |ctx, seed| load_case(ctx, seed, false, true, 0));
    set_cases_single_threaded(true);
    drive(ctx, "twin", ctx.n(1_500, 60_000), ctx.n(40, 200), 8, twin_case);
    drive(ctx, "life", ctx.n(3_000, 120_000), ctx.n(40, 200), 8, |ctx, seed| life_case(ctx, seed, false));
    finish(ctx);
}
fn c18(ctx: &Arc<Ctx>) {
    watch_stalls();
    set_cases_single_threaded(false);
    drive(ctx, "blocked", ctx.n(12, 96), ctx.n(60, 300), 8, blocked_case);
    drive(ctx, "faults", ctx.n(6_000, 300_000), ctx.n(40, 500), 4, |ctx, seed| {
        let mut r = Rng::new(seed ^ 0xFA);
        let pct = *r.pick(&[10u64, 30, 60]);
        let kind = r.below(3);
        load_case(ctx, seed, kind != 0, kind != 1, pct)
    });
    finish(ctx);
}
fn c19(ctx: &Arc<Ctx>) {
    set_cases_single_threaded(false);
    drive(ctx, "queries", ctx.n(6_000, 300_000), ctx.n(40, 700), 4, |ctx, seed| {
        let acc = seed & 1 == 1;
        load_case(ctx, seed, true, acc, 0)
    });
    set_cases_single_threaded(true);
    drive(ctx, "life", ctx.n(3_000, 120_000), ctx.n(40, 200), 8, |ctx, seed| life_case(ctx, seed, true));
    finish(ctx);
}

/// Everything but a missing account or query behaves exactly as the storage underneath.
fn twin_case(ctx: &Ctx, seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let prof = Profile::random(&mut r);
    let w = gen_world(&mut r, &prof);
    let plain = crate::acct_seq::new_store(&w.cov);
    let filters = Arc::new(MutableFilterStore::default());
    filters.add_account_filters(&w.cov.to_filters());
    let inner = Arc::new(InmemoryAccountStore::new(filters.clone()));
    let s = setup(&mut r, false, true, 0);
    // the source knows nothing: the chain is what the history delivers
    s.src.chain.lock().unwrap().accs.clear();
    let od = AccountsOnDemand::new(s.src.clone(), filters.clone(), inner.clone());
    let mut c = Counters::default();
    let mut log = vec![];
    // content of lists is compared as a multiset
    let norm = |v: &[AccountData]| -> Vec<String> {
        let mut x: Vec<String> = v.iter().map(|a| format!("{} {:?}", a.pubkey, Ver::of(a))).collect();
        x.sort();
        x
    };
    let diff = |what: &str, a: String, b: String, log: &Vec<String>| {
        if a != b {
            let mut h = log.clone();
            h.push(format!("{what}: through the on-demand store {a}, on the storage itself {b}"));
            Err(Violation::with(format!("{what} differs from the storage underneath"), h))
        } else {
            Ok(())
        }
    };
    for op in &w.ops {
        log.push(op_text(op));
        match op {
            Op::Update { acc, ver, commit, comp } => {
                let ad = ver.to_account_data(w.pks[*acc], compression(*comp));
                if commit.0 == Commitment::Finalized && r.pct(50) {
                    lib("initilize_or_update_account", || od.initilize_or_update_account(ad.clone()))?;
                    lib("initilize_or_update_account", || plain.initilize_or_update_account(ad))?;
                } else {
                    let a = lib("update_account", || od.update_account(ad.clone(), commit.0))?;
                    let b = lib("update_account", || plain.update_account(ad, commit.0))?;
                    diff("the answer to an update", a.to_string(), b.to_string(), &log)?;
                }
            }
            Op::Slot { slot, parent, commit } => {
                let a = lib("process_slot_data", || od.process_slot_data(slot_info(*slot, *parent), commit.0))?;
                let b = lib("process_slot_data", || plain.process_slot_data(slot_info(*slot, *parent), commit.0))?;
                diff("a slot report", format!("{:?}", norm(&a)), format!("{:?}", norm(&b)), &log)?;
            }
        }
        c.add("twin_operations", 1);
        let cm = COMMITMENTS[r.usize(3)];
        let pk = *r.pick(&w.pks);
        let b = get(&*plain, pk, cm)?;
        if b.is_some() {
            let a = get(&od, pk, cm)?;
            diff("a lookup", format!("{a:?}"), format!("{b:?}"), &log)?;
        }
        let p = w.programs[r.usize(2)];
        let a = lib("get_program_accounts", || od.get_program_accounts(p, None, cm))?;
        let b = lib("get_program_accounts", || plain.get_program_accounts(p, None, cm))?;
        diff("a program query", format!("{:?}", a.map(|x| norm(&x))), format!("{:?}", b.map(|x| norm(&x))), &log)?;
    }
    if s.src.calls.lock().unwrap().len() > 0 {
        return Err(Violation::with("the source was asked for something the storage already had", log));
    }
    for p in &w.programs[..2] {
        let a = lib("create_snapshot", || od.create_snapshot(*p))?.map_err(|e| viol!("snapshot refused: {e:?}"))?;
        let fa = crate::acct_seq::new_store(&w.cov);
        let fb = MutableFilterStore::default();
        fb.add_account_filters(&w.cov.to_filters());
        let fb = Arc::new(fb);
        let od2 = AccountsOnDemand::new(s.src.clone(), fb.clone(), Arc::new(InmemoryAccountStore::new(fb)));
        let b = lib("create_snapshot", || plain.create_snapshot(*p))?.map_err(|e| viol!("snapshot refused: {e:?}"))?;
        lib("load_from_snapshot", || fa.load_from_snapshot(*p, b.clone()))?.map_err(|e| viol!("load refused: {e:?}"))?;
        lib("load_from_snapshot", || od2.load_from_snapshot(*p, a))?.map_err(|e| viol!("load refused: {e:?}"))?;
        for cm in COMMITMENTS {
            let x = lib("get_program_accounts", || fa.get_program_accounts(*p, None, cm))?;
            let y = lib("get_program_accounts", || od2.get_program_accounts(*p, None, cm))?;
            diff("a restored snapshot", format!("{:?}", y.map(|x| norm(&x))), format!("{:?}", x.map(|x| norm(&x))), &log)?;
        }
    }
    let fp = hash_of(&log);
    ctx.merge(&c);
    Ok(CaseOk { nontrivial: !w.ops.is_empty(), fingerprint: fp, sample: None })
}

// ---------------------------------------------------------------- life after loading

/// A source that knows the finalized state of the chain and delivers it at once.
struct LifeSource {
    st: Mutex<LifeState>,
}
struct LifeState {
    truth: Model,
    model: Model,
    pks: Vec<Pubkey>,
    calls: Vec<String>,
    subscribed: Vec<Key>,
    order: Rng,
}
impl LifeState {
    /// what the chain has finalized of what the filters select
    fn finalized(&self, key: &Key) -> Vec<(Pubkey, Ver)> {
        self.pks
            .iter()
            .filter_map(|pk| match self.truth.lookup(pk, Commitment::Finalized) {
                Expect::Some(v) | Expect::Maybe(v) => Some((*pk, v)),
                Expect::None => None,
            })
            .filter(|(pk, v)| match key {
                Key::Acc(a) => a == pk,
                Key::Prog(p, f) => *p == v.owner && all_match(f, &v.data),
            })
            .collect()
    }
    /// the same version of an account that the store was free to forget
    fn again(&self, pk: &Pubkey, v: &Ver) -> bool {
        self.model.accs.get(pk).map_or(false, |a| a.maybe_removed && a.fin.as_ref() == Some(v))
    }
    /// loading it now stays inside the assumptions
    fn loadable(&self, key: &Key) -> bool {
        self.finalized(key).iter().all(|(pk, v)| {
            let acc = self.pks.iter().position(|p| p == pk).unwrap();
            let op = Op::Update { acc, ver: v.clone(), commit: Commitment_(Commitment::Finalized), comp: 0 };
            self.again(pk, v) || self.model.admissible(&self.pks, &op)
        })
    }
    fn cover(&mut self, key: &Key) {
        match key {
            Key::Acc(a) => {
                self.model.cov.accounts.insert(*a);
            }
            Key::Prog(p, f) => self.model.cov.programs.push((*p, f.clone())),
        }
    }
}
impl AccountsSourceInterface for LifeSource {
    fn subscribe_accounts(&self, account: HashSet<Pubkey>) -> anyhow::Result<()> {
        let mut s = self.st.lock().unwrap();
        for a in account {
            s.calls.push(format!("subscribe to account {}", &a.to_string()[..4]));
            s.subscribed.push(Key::Acc(a));
        }
        Ok(())
    }
    fn subscribe_program_accounts(&self, program_id: Pubkey, filters: Filters) -> anyhow::Result<()> {
        let mut s = self.st.lock().unwrap();
        s.calls.push(format!("subscribe to program {} {filters:?}", &program_id.to_string()[..4]));
        s.subscribed.push(Key::Prog(program_id, filters));
        Ok(())
    }
    fn save_snapshot(&self, storage: Arc<dyn AccountStorageInterface>, account_filters: AccountFilters) -> anyhow::Result<()> {
        let key = Source::key_of(&account_filters).ok_or_else(|| anyhow::anyhow!("unexpected filters"))?;
        let list = {
            let mut s = self.st.lock().unwrap();
            s.calls.push(format!("load {}", match &key { Key::Acc(a) => format!("account {}", &a.to_string()[..4]), Key::Prog(p, f) => format!("program {} {f:?}", &p.to_string()[..4]) }));
            s.cover(&key);
            let mut list = s.finalized(&key);
            s.order.shuffle(&mut list);
            for (pk, v) in &list {
                if s.again(pk, v) {
                    s.model.accs.get_mut(pk).unwrap().maybe_removed = false;
                } else {
                    s.model.update(*pk, v, Commitment::Finalized);
                }
            }
            list
        };
        for (pk, v) in list {
            storage.initilize_or_update_account(v.to_account_data(pk, compression(v.wv as u8)));
        }
        Ok(())
    }
}

/// A whole history of updates and slots in which accounts and programs are asked for on the way;
/// what was loaded then follows the chain like in any store that covers it.
fn life_case(ctx: &Ctx, seed: u64, gpa: bool) -> CaseResult {
    let mut r = Rng::new(seed);
    let prof = Profile::random(&mut r);
    let w = gen_world(&mut r, &prof);
    let ask_pct = *r.pick(&[3, 10, 30]);
    let mut seen = Seen::default();
    match life(&w, &w.ops, gpa, ask_pct, seed, &mut seen) {
        Ok(()) => {}
        Err(v) => {
            let ops = shrink(&w.ops, Duration::from_secs(20), |o| life(&w, o, gpa, ask_pct, seed, &mut Seen::default()).is_err());
            let mut s2 = Seen::default();
            let v2 = life(&w, &ops, gpa, ask_pct, seed, &mut s2).err().unwrap_or(v);
            return Err(Violation::with(v2.message, s2.log));
        }
    }
    ctx.merge(&seen.c);
    Ok(CaseOk {
        nontrivial: seen.c.0.contains_key("loads_in_histories"),
        fingerprint: hash_of(&seen.log),
        sample: None,
    })
}

fn life(w: &World, ops: &[Op], gpa: bool, ask_pct: u64, seed: u64, seen: &mut Seen) -> Result<(), Violation> {
    let mut r = Rng::new(seed ^ 0x11FE);
    let everything = Coverage { accounts: w.pks.iter().copied().collect(), programs: vec![] };
    // nothing, or one program, is covered from the start
    let start = Coverage { accounts: Default::default(), programs: if r.pct(30) { vec![w.cov.programs[r.usize(4)].clone()] } else { vec![] } };
    let filters = Arc::new(MutableFilterStore::default());
    filters.add_account_filters(&start.to_filters());
    let inner = Arc::new(InmemoryAccountStore::new(filters.clone()));
    let first: Vec<Key> = start.programs.iter().map(|(p, f)| Key::Prog(*p, f.clone())).collect();
    let src = Arc::new(LifeSource {
        st: Mutex::new(LifeState {
            truth: Model::new(everything),
            model: Model::new(start),
            pks: w.pks.clone(),
            calls: vec![],
            subscribed: first,
            order: Rng::new(r.next()),
        }),
    });
    let od = AccountsOnDemand::new(src.clone(), filters, inner.clone());
    let magic = AccountFilterType::Memcmp(MemcmpFilter { offset: 16, data: MemcmpFilterData::Base58(bs58::encode(MAGIC).into_string()) });
    let queries: Vec<(Pubkey, Filters)> = vec![
        (w.programs[0], None),
        (w.programs[0], Some(vec![AccountFilterType::Datasize(64)])),
        (w.programs[0], Some(vec![AccountFilterType::Datasize(64), magic.clone()])),
        (w.programs[1], Some(vec![])),
        (w.programs[1], Some(vec![magic.clone()])),
        (w.programs[1], None),
        (w.programs[2], Some(vec![AccountFilterType::Datasize(64)])),
        (w.programs[2], Some(vec![magic.clone(), AccountFilterType::Datasize(64)])),
        (w.programs[2], None),
        (w.programs[3], Some(vec![magic])),
        (w.programs[3], None),
        (w.untracked, None),
    ];
    let checks = Checks { reports: true, ret: true, ..Default::default() };
    for (i, op) in ops.iter().enumerate() {
        {
            let mut g = src.st.lock().unwrap();
            let s = &mut *g;
            if !s.truth.admissible(&w.pks, op) || !s.model.admissible(&w.pks, op) {
                continue;
            }
            match op {
                Op::Update { acc, ver, commit, .. } => {
                    s.truth.update(w.pks[*acc], ver, commit.0);
                }
                Op::Slot { slot, parent, commit } => {
                    s.truth.notify(*slot, *parent, commit.0);
                }
            }
            seen.log.push(op_text(op));
            // the model is not locked while the code under test runs
            let mut m = std::mem::replace(&mut s.model, Model::new(Coverage::default()));
            drop(g);
            let r = crate::acct_seq::step(&od, &mut m, w, op, checks, seen);
            src.st.lock().unwrap().model = m;
            r?;
        }
        // the choice depends on the position only, so that shrinking keeps it stable
        if r.pct(ask_pct) || i + 1 == ops.len() {
            let c = COMMITMENTS[r.usize(3)];
            let (key, q) = if gpa && r.pct(70) {
                let q = r.pick(&queries).clone();
                (Key::Prog(q.0, q.1.clone()), Some(q))
            } else {
                (Key::Acc(*r.pick(&w.pks)), None)
            };
            let (loaded, ok) = {
                let s = src.st.lock().unwrap();
                (s.subscribed.iter().any(|k| k.covers(&key)), s.loadable(&key))
            };
            if !ok && !loaded {
                seen.c.add("asks_outside_assumptions", 1);
                continue;
            }
            let n = src.st.lock().unwrap().calls.len();
            match (&key, q) {
                (Key::Acc(pk), _) => {
                    let held = get(&*inner, *pk, c)?.is_some();
                    let got = get(&od, *pk, c)?;
                    let s = src.st.lock().unwrap();
                    seen.log.push(format!("ask for account {} at {} -> {}", &pk.to_string()[..4], cname(c), got.as_ref().map_or("nothing".into(), |v| v.short())));
                    let e = s.model.lookup(pk, c);
                    if !e.check(&got) {
                        return Err(viol!("account {} asked for on demand at {} should be {}, got {}", &pk.to_string()[..4], cname(c), e.text(), got.map_or("nothing".into(), |v| v.short())));
                    }
                    if held && s.calls.len() != n {
                        return Err(viol!("the source was asked for an account that is held ({})", s.calls[n..].join(", ")));
                    }
                    if !held && !loaded && s.calls.len() == n && got.is_none() && !matches!(e, Expect::Some(_)) && s.truth.lookup(pk, Commitment::Finalized) != Expect::None {
                        return Err(viol!("account {} is reported absent without having been loaded", &pk.to_string()[..4]));
                    }
                }
                (Key::Prog(..), Some(q)) => {
                    let got = lib("get_program_accounts", || od.get_program_accounts(q.0, q.1.clone(), c))?;
                    seen.log.push(format!("ask for program {} {:?} at {} -> {:?}", &q.0.to_string()[..4], q.1, cname(c), got.as_ref().map(|x| x.len())));
                    let got = got.map_err(|e| viol!("a program query on demand fails with {e:?} although the source works"))?;
                    let s = src.st.lock().unwrap();
                    crate::acct_seq::check_gpa_answer(&got, &s.model, &q, c, &mut seen.c)?;
                }
                _ => {}
            }
            let s = src.st.lock().unwrap();
            let asked = s.calls.len() - n;
            if loaded && asked > 0 {
                return Err(viol!("the source was asked again for what is loaded ({})", s.calls[n..].join(", ")));
            }
            if asked > 0 {
                seen.c.add("loads_in_histories", 1);
            }
        }
        // what is held, at every level, without asking for anything new
        let written = match op {
            Op::Update { acc, .. } => Some(w.pks[*acc]),
            _ => None,
        };
        let n = if w.pks.len() <= 6 { w.pks.len() } else { 4 };
        let s = src.st.lock().unwrap();
        for pk in written.into_iter().chain((0..n).map(|k| w.pks[if n == w.pks.len() { k } else { r.usize(w.pks.len()) }])) {
            for c in COMMITMENTS {
                let e = s.model.lookup(&pk, c);
                let got = get(&*inner, pk, c)?;
                if !e.check(&got) {
                    return Err(viol!("after loading on demand, account {} at {} should be {}, got {}", &pk.to_string()[..4], cname(c), e.text(), got.map_or("nothing".into(), |v| v.short())));
                }
                seen.c.add("lookups_after_loading", 1);
            }
        }
    }
    for q in &queries {
        if !src.st.lock().unwrap().subscribed.iter().any(|k| k.covers(&Key::Prog(q.0, q.1.clone()))) {
            continue;
        }
        for c in COMMITMENTS {
            let n = src.st.lock().unwrap().calls.len();
            let got = lib("get_program_accounts", || od.get_program_accounts(q.0, q.1.clone(), c))?;
            let got = got.map_err(|e| viol!("a query that is loaded fails with {e:?}"))?;
            let s = src.st.lock().unwrap();
            crate::acct_seq::check_gpa_answer(&got, &s.model, q, c, &mut seen.c)?;
            if s.calls.len() > n {
                return Err(viol!("the source was asked again for a query that is loaded ({})", s.calls[n..].join(", ")));
            }
        }
    }
    let s = src.st.lock().unwrap();
    for x in &s.calls {
        seen.log.push(x.clone());
    }
    Ok(())
}
