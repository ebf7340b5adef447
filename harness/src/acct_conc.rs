//! Concurrent histories against the account store (C10, C11).
use crate::acct_model::*;
use crate::acct_world::pubkey;
use crate::conc::*;
use crate::util::*;
use crate::viol;
use lite_account_manager_common::{
    account_data::AccountData, account_filter::AccountFilter,
    account_filters_interface::AccountFiltersStoreInterface,
    account_store_interface::AccountStorageInterface, commitment::Commitment,
    simple_filter_store::SimpleFilterStore,
};
use lite_account_storage::inmemory_account_store::InmemoryAccountStore;
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

pub fn checks() -> Vec<crate::Check> {
    vec![
        crate::Check {
            id: "C10",
            run: c10,
            rule: "three to six threads deliver unique account versions (with duplicates), slot notifications and reads to one store with injected delays; non-trivial if operations of different threads overlapped; distinct by order of calls and returns",
            min_nontrivial: 300,
            must_see: &["overlapping_pairs", "reports", "reports_required", "reads", "updates_racing_a_notification", "first_writes_racing"],
            assumptions: &["the workloads are confluent: the final state does not depend on the order in which concurrent operations take effect (re-checked on the model with random orders)"],
        },
        crate::Check {
            id: "C11",
            run: c11,
            rule: "four to seven threads mix writes, closings, reopenings, owner changes, notifications at every commitment, lookups, program queries and snapshots on few accounts with injected delays; then a quiescent flush; non-trivial if operations of different threads overlapped; distinct by order of calls and returns",
            min_nontrivial: 300,
            must_see: &["overlapping_pairs", "closings", "finalizations", "queries", "snapshots", "crowd_writes"],
            assumptions: &["stuck means: every unfinished thread of the case asleep without a context switch for 50 samples"],
        },
    ]
}

/// Coverage with delays injected wherever the store consults it.
pub struct JitterFilter(pub SimpleFilterStore);
impl AccountFiltersStoreInterface for JitterFilter {
    fn satisfies(&self, a: &AccountData) -> bool {
        injected();
        let r = self.0.satisfies(a);
        injected();
        r
    }
    fn contains_filter(&self, f: &AccountFilter) -> bool {
        injected();
        self.0.contains_filter(f)
    }
}

fn jitter_store(cov: &Coverage) -> Arc<InmemoryAccountStore> {
    let mut f = SimpleFilterStore::default();
    f.add_account_filters(&cov.to_filters());
    Arc::new(InmemoryAccountStore::new(Arc::new(JitterFilter(f))))
}

#[derive(Clone, Debug)]
enum Ev {
    Update { acc: usize, key: (u64, u64), commit: u8, ok: bool },
    Notify { slot: u64, parent: u64, commit: u8, reported: Vec<(usize, (u64, u64))> },
    Read { acc: usize, commit: u8, got: Option<(u64, u64)> },
    Query { prog: usize, commit: u8, got: Vec<(usize, (u64, u64))> },
}

fn show(evs: &[Event<Ev>]) -> Vec<String> {
    evs.iter()
        .map(|e| format!("[{}..{}] thread {}: {:?}", e.call, e.ret, e.thread, e.what))
        .collect()
}

struct Shared {
    store: Arc<InmemoryAccountStore>,
    pks: Vec<Pubkey>,
    progs: Vec<Pubkey>,
    /// every version ever written, by account and key
    written: HashMap<(usize, (u64, u64)), Ver>,
    clock: Clock,
}

impl Shared {
    fn acc(&self, pk: &Pubkey) -> Result<usize, Violation> {
        self.pks
            .iter()
            .position(|p| p == pk)
            .ok_or_else(|| viol!("unknown account {pk} returned"))
    }
    /// the returned account is exactly a version somebody wrote
    fn genuine(&self, a: &AccountData, what: &str) -> Result<(usize, (u64, u64)), Violation> {
        let i = self.acc(&a.pubkey)?;
        let v = Ver::of(a);
        match self.written.get(&(i, v.key())) {
            Some(w) if *w == v => Ok((i, v.key())),
            _ => Err(viol!("{what} returned account#{i} {} which nobody wrote", v.short())),
        }
    }
    fn update(&self, evs: &mut Vec<Event<Ev>>, t: usize, acc: usize, v: &Ver, c: Commitment, comp: u8) -> Result<(), Violation> {
        let ad = v.to_account_data(self.pks[acc], compression(comp));
        let call = self.clock.tick();
        let ok = lib("update_account", || self.store.update_account(ad, c))?;
        let ret = self.clock.tick();
        evs.push(Event { call, ret, thread: t, what: Ev::Update { acc, key: v.key(), commit: c as u8, ok } });
        Ok(())
    }
    fn notify(&self, evs: &mut Vec<Event<Ev>>, t: usize, slot: u64, parent: u64, c: Commitment) -> Result<(), Violation> {
        let call = self.clock.tick();
        let rep = lib("process_slot_data", || self.store.process_slot_data(slot_info(slot, parent), c))?;
        let ret = self.clock.tick();
        let mut reported = vec![];
        for a in &rep {
            reported.push(self.genuine(a, "a slot notification")?);
        }
        evs.push(Event { call, ret, thread: t, what: Ev::Notify { slot, parent, commit: c as u8, reported } });
        Ok(())
    }
    fn read(&self, evs: &mut Vec<Event<Ev>>, t: usize, acc: usize, c: Commitment) -> Result<(), Violation> {
        let call = self.clock.tick();
        let r = lib("get_account", || self.store.get_account(self.pks[acc], c))?
            .map_err(|e| viol!("lookup failed: {e:?}"))?;
        let ret = self.clock.tick();
        let got = match &r {
            Some(a) => {
                let (i, k) = self.genuine(a, "a lookup")?;
                if i != acc {
                    return Err(viol!("lookup of account#{acc} returned account#{i}"));
                }
                Some(k)
            }
            None => None,
        };
        evs.push(Event { call, ret, thread: t, what: Ev::Read { acc, commit: c as u8, got } });
        Ok(())
    }
    fn query(&self, evs: &mut Vec<Event<Ev>>, t: usize, prog: usize, c: Commitment) -> Result<(), Violation> {
        let call = self.clock.tick();
        let r = lib("get_program_accounts", || self.store.get_program_accounts(self.progs[prog], None, c))?
            .map_err(|e| viol!("program query failed: {e:?}"))?;
        let ret = self.clock.tick();
        let mut got = vec![];
        for a in &r {
            let k = self.genuine(a, "a program query")?;
            if a.account.owner != self.progs[prog] || a.account.lamports == 0 {
                return Err(viol!("query of program#{prog} returned {}", Ver::of(a).short()));
            }
            got.push(k);
        }
        got.sort();
        if got.windows(2).any(|w| w[0].0 == w[1].0) {
            return Err(viol!("a program query returned an account twice: {got:?}"));
        }
        evs.push(Event { call, ret, thread: t, what: Ev::Query { prog, commit: c as u8, got } });
        Ok(())
    }
}

fn version(r: &mut Rng, slot: u64, wv: u64, owner: Pubkey, live: bool) -> Ver {
    Ver {
        slot,
        wv,
        lamports: if live { 1 + r.below(1 << 30) } else { 0 },
        owner,
        data: if live { r.bytes(8) } else { vec![] },
        executable: false,
        rent_epoch: 0,
    }
}

const NPHASE: usize = 2;

fn c10_case(ctx: &Ctx, seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let n_acc = 1 + r.usize(3);
    let pks: Vec<Pubkey> = (0..n_acc).map(|_| pubkey(&mut r)).collect();
    let progs = vec![pubkey(&mut r)];
    let cov = Coverage { programs: vec![(progs[0], None)], ..Default::default() };
    let base = 100;
    let k = 1 + r.below(4);
    // phase 0: slots base..base+k, confirmed while being written. phase 1: slot base+k, finalized
    // while being written
    let mut writes: Vec<Vec<(usize, Ver, Commitment)>> = vec![vec![], vec![]];
    let mut written = HashMap::new();
    let mut wv = 0;
    let direct = if r.pct(40) { r.below(50) } else { 0 };
    for phase in 0..NPHASE {
        for _ in 0..2 + r.below(8) {
            let acc = r.usize(n_acc);
            let slot = if phase == 0 { base + r.below(k) } else { base + k };
            wv += 1;
            let v = version(&mut r, slot, wv, progs[0], true);
            written.insert((acc, v.key()), v.clone());
            let c = if r.pct(direct) { COMMITMENTS[1 + r.usize(2)] } else { Commitment::Processed };
            writes[phase].push((acc, v.clone(), c));
            if r.pct(25) {
                writes[phase].push((acc, v, Commitment::Processed)); // duplicate
            }
        }
        r.shuffle(&mut writes[phase]);
    }
    let sh = Arc::new(Shared { store: jitter_store(&cov), pks, progs, written, clock: Clock::default() });
    let mut evs: Vec<Event<Ev>> = vec![];
    let n_upd = 1 + r.usize(3);
    let n_read = 1 + r.usize(2);
    let two_notifiers = r.pct(30);
    let mut canonical: Vec<Op> = vec![];
    let mut cnt = Counters::default();
    for phase in 0..NPHASE {
        let mut jobs: Vec<Job<Ev>> = vec![];
        let mut parts: Vec<Vec<(usize, Ver, Commitment)>> = vec![vec![]; n_upd];
        for w in &writes[phase] {
            parts[r.usize(n_upd)].push(w.clone());
            canonical.push(Op::Update { acc: w.0, ver: w.1.clone(), commit: Commitment_(w.2), comp: 0 });
        }
        for part in parts {
            let sh = sh.clone();
            let s = r.next();
            jobs.push(Box::new(move |t, evs| {
                let mut r = Rng::new(s);
                for (acc, v, c) in part {
                    jitter(&mut r);
                    sh.update(evs, t, acc, &v, c, r.below(36) as u8)?;
                }
                Ok(())
            }));
        }
        // notifications
        let slots: Vec<u64> = if phase == 0 { (base..base + k).collect() } else { vec![base + k] };
        let mut notes = vec![];
        for s in &slots {
            notes.push((*s, Commitment::Processed));
            if phase == 0 && r.pct(60) || phase == 1 {
                notes.push((*s, Commitment::Confirmed));
            }
        }
        if phase == 0 {
            notes.push((base + k - 1, Commitment::Confirmed));
        } else {
            notes.push((base + k, Commitment::Finalized));
        }
        for _ in 0..if two_notifiers { 2 } else { 1 } {
            let (sh, notes, s) = (sh.clone(), notes.clone(), r.next());
            jobs.push(Box::new(move |t, evs| {
                let mut r = Rng::new(s);
                for (slot, c) in notes {
                    jitter(&mut r);
                    sh.notify(evs, t, slot, slot - 1, c)?;
                }
                Ok(())
            }));
        }
        for (slot, c) in &notes {
            canonical.push(Op::Slot { slot: *slot, parent: slot - 1, commit: Commitment_(*c) });
        }
        for _ in 0..n_read {
            let (sh, s) = (sh.clone(), r.next());
            jobs.push(Box::new(move |t, evs| {
                let mut r = Rng::new(s);
                for _ in 0..6 + r.below(12) {
                    jitter(&mut r);
                    let c = COMMITMENTS[r.usize(3)];
                    if r.pct(75) {
                        sh.read(evs, t, r.usize(sh.pks.len()), c)?;
                    } else {
                        sh.query(evs, t, 0, c)?;
                    }
                }
                Ok(())
            }));
        }
        let tid_base = phase * 100;
        let mut e = run_threads(seed, jobs, false)?;
        e.iter_mut().for_each(|x| x.thread += tid_base);
        evs.extend(e);
        let bad = |m: String| Violation::with(m, show(&evs));
        // ---- quiescent: the state is the one every order of these operations leads to
        let mut model = Model::new(cov.clone());
        for op in &canonical {
            match op {
                Op::Update { acc, ver, commit, .. } => {
                    model.update(sh.pks[*acc], ver, commit.0);
                }
                Op::Slot { slot, parent, commit } => {
                    model.notify(*slot, *parent, commit.0);
                }
            }
        }
        // re-check confluence on the model with another order of this phase's operations
        let mut other = Model::new(cov.clone());
        let mut rest: Vec<&Event<Ev>> = evs.iter().collect();
        rest.sort_by_key(|e| e.ret);
        for e in rest {
            match &e.what {
                Ev::Update { acc, key, commit, .. } => {
                    other.update(sh.pks[*acc], &sh.written[&(*acc, *key)], COMMITMENTS[*commit as usize]);
                }
                Ev::Notify { slot, parent, commit, .. } => {
                    other.notify(*slot, *parent, COMMITMENTS[*commit as usize]);
                }
                _ => {}
            }
        }
        for (i, pk) in sh.pks.iter().enumerate() {
            for c in COMMITMENTS {
                let e = model.lookup(pk, c);
                if other.lookup(pk, c) != e {
                    panic!("harness: workload not confluent");
                }
                let got = get(&*sh.store, *pk, c)?;
                if !e.check(&got) {
                    return Err(bad(format!(
                        "after all threads finished account#{i} at {} should be {}, got {}",
                        cname(c),
                        e.text(),
                        got.map_or("nothing".into(), |v| v.short())
                    )));
                }
            }
        }
        for c in COMMITMENTS {
            crate::acct_seq::check_gpa(&*sh.store, &model, &(sh.progs[0], None), c, &mut cnt).map_err(|v| bad(v.message))?;
        }
    }
    check_history(&sh, &evs, &mut cnt).map_err(|m| Violation::with(m, show(&evs)))?;
    let ov = overlaps(&evs);
    cnt.add("overlapping_pairs", ov);
    ctx.merge(&cnt);
    Ok(CaseOk {
        nontrivial: ov > 0,
        fingerprint: interleaving(&evs),
        sample: ctx.wants_sample().then(|| show(&evs).join(" | ").chars().take(1200).collect()),
    })
}

/// Offline checks over the recorded history.
fn check_history(sh: &Shared, evs: &[Event<Ev>], cnt: &mut Counters) -> Result<(), String> {
    // per thread: a view never goes back; a more committed read is never newer than a later read of a less committed view
    let mut last: HashMap<(usize, usize, u8), (u64, u64)> = HashMap::new();
    for e in evs {
        let reads: Vec<(usize, u8, Option<(u64, u64)>)> = match &e.what {
            Ev::Read { acc, commit, got } => vec![(*acc, *commit, *got)],
            Ev::Query { commit, got, .. } => (0..sh.pks.len())
                .map(|a| (a, *commit, got.iter().find(|g| g.0 == a).map(|g| g.1)))
                .collect(),
            _ => continue,
        };
        for (acc, commit, got) in reads {
            cnt.add("reads", 1);
            for c in commit..3 {
                if let Some(prev) = last.get(&(e.thread % 100, acc, c)) {
                    if got.map_or(true, |g| g < *prev) {
                        return Err(format!(
                            "thread {} saw account#{acc} at {:?} ({}) and afterwards at {got:?} ({})",
                            e.thread, prev, cname(COMMITMENTS[c as usize]), cname(COMMITMENTS[commit as usize])
                        ));
                    }
                }
            }
            if let Some(g) = got {
                last.insert((e.thread % 100, acc, commit), g);
            }
        }
    }
    let updates: Vec<(&Event<Ev>, usize, (u64, u64), u8)> = evs
        .iter()
        .filter_map(|e| match &e.what {
            Ev::Update { acc, key, commit, .. } => Some((e, *acc, *key, *commit)),
            _ => None,
        })
        .collect();
    // freshness: what was written before the read started is visible; nothing from the future is
    for e in evs {
        let reads: Vec<(usize, u8, Option<(u64, u64)>)> = match &e.what {
            Ev::Read { acc, commit, got } => vec![(*acc, *commit, *got)],
            Ev::Query { commit, got, .. } => (0..sh.pks.len())
                .map(|a| (a, *commit, got.iter().find(|g| g.0 == a).map(|g| g.1)))
                .collect(),
            _ => continue,
        };
        for (acc, commit, got) in reads {
            let must = updates
                .iter()
                .filter(|u| u.1 == acc && u.3 >= commit && u.0.ret < e.call)
                .map(|u| u.2)
                .max();
            if must > got {
                return Err(format!(
                    "read [{}..{}] of account#{acc} at {} shows {got:?} although {must:?} had been written before",
                    e.call, e.ret, cname(COMMITMENTS[commit as usize])
                ));
            }
            if let Some(g) = got {
                if !updates.iter().any(|u| u.1 == acc && u.2 == g && u.0.call < e.ret) {
                    return Err(format!("read [{}..{}] of account#{acc} shows {g:?} before it was written", e.call, e.ret));
                }
            }
        }
    }
    // reports: at most once per version and commitment
    let mut seen: HashMap<(usize, (u64, u64), u8), u64> = HashMap::new();
    let mut first: BTreeMap<usize, Vec<&Event<Ev>>> = BTreeMap::new();
    for u in &updates {
        first.entry(u.1).or_default().push(u.0);
    }
    for us in first.values() {
        if us.len() > 1 && us[1].call < us[0].ret {
            cnt.add("first_writes_racing", 1);
        }
    }
    for e in evs {
        if let Ev::Notify { slot, commit, reported, .. } = &e.what {
            for (acc, key) in reported {
                cnt.add("reports", 1);
                if let Some(p) = seen.insert((*acc, *key, *commit), e.call) {
                    return Err(format!("account#{acc} {key:?} was reported twice at {} (notifications at {p} and {})", cname(COMMITMENTS[*commit as usize]), e.call));
                }
                if !updates.iter().any(|u| u.1 == *acc && u.2 == *key && u.0.call < e.ret) {
                    return Err(format!("account#{acc} {key:?} reported before it was written"));
                }
            }
            for u in &updates {
                if u.2 .0 == *slot && u.0.call < e.ret && e.call < u.0.ret {
                    cnt.add("updates_racing_a_notification", 1);
                }
            }
        }
    }
    // what was in before a notification of its own slot and is the newest of the account up to that slot has been reported by then
    for e in evs {
        let Ev::Notify { slot, commit, .. } = &e.what else { continue };
        if *commit == 0 {
            continue;
        }
        // another notification still at work may be the one that reports
        if evs.iter().any(|n| matches!(n.what, Ev::Notify { .. }) && n.call < e.ret && n.ret > e.ret) {
            continue;
        }
        for acc in 0..sh.pks.len() {
            // no direct delivery of this or a higher commitment for the account, which would make it known already
            if updates.iter().any(|u| u.1 == acc && u.3 >= 1 && u.0.call < e.ret) {
                continue;
            }
            let before = updates.iter().filter(|u| u.1 == acc && u.2 .0 <= *slot && u.0.ret < e.call).map(|u| u.2).max();
            let racing = updates.iter().any(|u| u.1 == acc && u.2 .0 <= *slot && u.0.ret > e.call && u.0.call < e.ret);
            let Some(b) = before else { continue };
            // a newer version may take effect by itself first
            let overtaken = updates.iter().any(|u| u.1 == acc && u.2 > b && u.0.call < e.ret);
            if racing || overtaken || b.0 != *slot {
                continue;
            }
            cnt.add("reports_required", 1);
            let reported = evs.iter().any(|n| matches!(&n.what, Ev::Notify { commit: c, reported, .. } if c >= commit && n.call < e.ret && reported.iter().any(|x| x.0 == acc && x.1 >= b)));
            // an update arriving after an earlier notification of the slot takes effect by itself
            let by_itself = evs.iter().any(|n| matches!(&n.what, Ev::Notify { slot: s, commit: c, .. } if s >= slot && *c >= *commit && n.call < updates.iter().filter(|u| u.1 == acc && u.2 == b).map(|u| u.0.ret).max().unwrap()));
            if !reported && !by_itself {
                return Err(format!("account#{acc} {b:?} reached {} by the notification [{}..{}] of slot {slot} but no notification reported it", cname(COMMITMENTS[*commit as usize]), e.call, e.ret));
            }
        }
    }
    Ok(())
}

fn c10(ctx: &Arc<Ctx>) {
    set_cases_single_threaded(false);
    drive(ctx, "histories", ctx.n(6_000, 300_000), ctx.n(30, 600), 3, c10_case);
    let n = ctx.stats.lock().unwrap().nontrivial.len() as u64;
    ctx.count("distinct_interleavings", n);
}

// ------------------------------------------------------------------ C11
fn c11_case(ctx: &Ctx, seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let n_acc = 1 + r.usize(3);
    let pks: Vec<Pubkey> = (0..n_acc).map(|_| pubkey(&mut r)).collect();
    let progs: Vec<Pubkey> = (0..2).map(|_| pubkey(&mut r)).collect();
    let mut cov = Coverage { programs: progs.iter().map(|p| (*p, None)).collect(), ..Default::default() };
    if r.pct(20) {
        cov.accounts.insert(pks[0]);
    }
    let untracked = pubkey(&mut r);
    let base = 100u64;
    let k = 3 + r.below(6);
    let mut written = HashMap::new();
    let mut wv = 0;
    let mut cnt = Counters::default();
    let n_upd = 2 + r.usize(2);
    // per slot, one write or a few per account
    let mut plans: Vec<Vec<(usize, Ver, Commitment)>> = vec![vec![]; n_upd];
    let close = 20 + r.below(50);
    let moved = *r.pick(&[10u64, 10, 40]);
    for s in 0..k {
        for _ in 0..1 + r.below(4) {
            let acc = r.usize(n_acc);
            wv += 1;
            let live = !r.pct(close);
            let owner = if live {
                if r.pct(moved) { untracked } else { *r.pick(&progs) }
            } else if r.pct(70) {
                Pubkey::default()
            } else {
                *r.pick(&progs)
            };
            let v = version(&mut r, base + s, wv, owner, live);
            if !live {
                cnt.add("closings", 1);
            }
            written.insert((acc, v.key()), v.clone());
            let c = if r.pct(25) { COMMITMENTS[1 + r.usize(2)] } else { Commitment::Processed };
            let t = r.usize(n_upd);
            plans[t].push((acc, v, c));
        }
    }
    let newest: Vec<Option<Ver>> = (0..n_acc)
        .map(|a| plans.iter().flatten().filter(|p| p.0 == a).map(|p| p.1.clone()).max_by_key(|v| v.key()))
        .collect();
    // the final writes, delivered after the storm
    let mut finals = vec![];
    for a in 0..n_acc {
        wv += 1;
        let live = !r.pct(25);
        let owner = if live { *r.pick(&progs) } else { Pubkey::default() };
        let v = version(&mut r, base + k + 1, wv, owner, live);
        written.insert((a, v.key()), v.clone());
        finals.push(v);
    }
    let sh = Arc::new(Shared { store: jitter_store(&cov), pks, progs, written, clock: Clock::default() });
    let mut jobs: Vec<Job<Ev>> = vec![];
    for part in plans {
        let (sh, s) = (sh.clone(), r.next());
        jobs.push(Box::new(move |t, evs| {
            let mut r = Rng::new(s);
            for (acc, v, c) in part {
                jitter(&mut r);
                sh.update(evs, t, acc, &v, c, 0)?;
            }
            Ok(())
        }));
    }
    for _ in 0..1 + r.usize(2) {
        let (sh, s) = (sh.clone(), r.next());
        jobs.push(Box::new(move |t, evs| {
            let mut r = Rng::new(s);
            for i in 0..k {
                for c in COMMITMENTS {
                    if r.pct(70) {
                        jitter(&mut r);
                        sh.notify(evs, t, base + i, base + i - 1, c)?;
                    }
                }
            }
            Ok(())
        }));
    }
    for _ in 0..1 + r.usize(2) {
        let (sh, s) = (sh.clone(), r.next());
        jobs.push(Box::new(move |t, evs| {
            let mut r = Rng::new(s);
            for _ in 0..5 + r.below(12) {
                jitter(&mut r);
                let c = COMMITMENTS[r.usize(3)];
                match r.below(10) {
                    0..=3 => sh.read(evs, t, r.usize(sh.pks.len()), c)?,
                    4..=8 => sh.query(evs, t, r.usize(2), c)?,
                    _ => {
                        let p = sh.progs[r.usize(2)];
                        let b = lib("create_snapshot", || sh.store.create_snapshot(p))?
                            .map_err(|e| viol!("snapshot refused: {e:?}"))?;
                        if r.pct(50) {
                            lib("load_from_snapshot", || sh.store.load_from_snapshot(p, b))?
                                .map_err(|e| viol!("snapshot cannot be loaded: {e:?}"))?;
                        }
                    }
                }
            }
            Ok(())
        }));
    }
    cnt.add("snapshots", 1);
    let mut evs = run_threads(seed, jobs, false)?;
    let bad = |m: String, evs: &Vec<Event<Ev>>| Violation::with(m, show(evs));
    // the newest version of an account has not been lost on the way
    for a in 0..n_acc {
        let newest = newest[a].as_ref();
        let Some(v) = newest.filter(|v| v.live() && v.owner != untracked) else { continue };
        let got = get(&*sh.store, sh.pks[a], Commitment::Processed)?;
        if got.as_ref() != Some(v) {
            return Err(bad(format!("after the storm, account#{a} at processed shows {} instead of its newest version {}", got.map_or("nothing".into(), |v| v.short()), v.short()), &evs));
        }
        let res = lib("get_program_accounts", || sh.store.get_program_accounts(v.owner, None, Commitment::Processed))?.map_err(|e| viol!("query refused: {e:?}"))?;
        if res.iter().filter(|x| x.pubkey == sh.pks[a]).count() != 1 {
            return Err(bad(format!("after the storm, the query of its program does not return account#{a} ({}) once", v.short()), &evs));
        }
        cnt.add("newest_versions_kept", 1);
    }
    // flush: a last write of every account in a new slot, finalized; then every view is exactly that
    let (slot, mut tail) = (base + k + 1, vec![]);
    let t = 900;
    sh.notify(&mut tail, t, slot, base + k, Commitment::Processed)?;
    for (a, v) in finals.iter().enumerate() {
        sh.update(&mut tail, t, a, v, Commitment::Processed, 0)?;
    }
    if r.pct(50) {
        sh.notify(&mut tail, t, slot, base + k, Commitment::Confirmed)?;
    }
    sh.notify(&mut tail, t, slot, base + k, Commitment::Finalized)?;
    evs.extend(tail);
    for (a, v) in finals.iter().enumerate() {
        for c in COMMITMENTS {
            let got = get(&*sh.store, sh.pks[a], c)?;
            let want = v.live().then(|| v.clone());
            if got != want {
                return Err(bad(format!(
                    "after the storm, account#{a} was written last in slot {slot} and finalized, but at {} it shows {} instead of {}",
                    cname(c), got.map_or("nothing".into(), |v| v.short()), want.map_or("nothing".into(), |v| v.short())
                ), &evs));
            }
            for (i, p) in sh.progs.iter().enumerate() {
                let res = lib("get_program_accounts", || sh.store.get_program_accounts(*p, None, c))?
                    .map_err(|e| viol!("query refused: {e:?}"))?;
                let n = res.iter().filter(|x| x.pubkey == sh.pks[a]).count();
                let want = usize::from(v.live() && v.owner == *p);
                if n != want {
                    return Err(bad(format!(
                        "after the storm, the query of program#{i} at {} returns account#{a} {n} times instead of {want}", cname(c)
                    ), &evs));
                }
            }
        }
    }
    for e in &evs {
        match &e.what {
            Ev::Notify { commit: 2, .. } => cnt.add("finalizations", 1),
            Ev::Query { .. } => cnt.add("queries", 1),
            Ev::Update { ok: true, .. } => cnt.add("updates_applied", 1),
            _ => {}
        }
    }
    let ov = overlaps(&evs);
    cnt.add("overlapping_pairs", ov);
    ctx.merge(&cnt);
    Ok(CaseOk {
        nontrivial: ov > 0,
        fingerprint: interleaving(&evs),
        sample: ctx.wants_sample().then(|| show(&evs).join(" | ").chars().take(1200).collect()),
    })
}

/// Many accounts written at the same moment: in every step each thread writes another account of one
/// program that the store has not seen yet, then all of them move, then half of them are closed.
fn crowd_case(ctx: &Ctx, seed: u64) -> CaseResult {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let mut r = Rng::new(seed);
    let (n, steps) = (2 + r.usize(4), 6 + r.usize(14));
    let pks: Vec<Pubkey> = (0..n * steps).map(|_| pubkey(&mut r)).collect();
    let progs: Vec<Pubkey> = (0..2 * steps).map(|_| pubkey(&mut r)).collect();
    let cov = Coverage { programs: progs.iter().map(|p| (*p, None)).collect(), ..Default::default() };
    let store: Arc<InmemoryAccountStore> = if r.pct(30) {
        jitter_store(&cov)
    } else {
        let mut f = SimpleFilterStore::default();
        f.add_account_filters(&cov.to_filters());
        Arc::new(InmemoryAccountStore::new(Arc::new(f)))
    };
    let mut cnt = Counters::default();
    let mut now: Vec<Option<Ver>> = vec![None; pks.len()];
    let mut wv = 0;
    for wave in 0..3u64 {
        let slot = 50 + wave;
        let directly = r.pct(30);
        let mut plans: Vec<Vec<Option<(Pubkey, Ver)>>> = vec![vec![]; n];
        for step in 0..steps {
            for (t, plan) in plans.iter_mut().enumerate() {
                let a = t * steps + step;
                wv += 1;
                let v = match wave {
                    0 => version(&mut r, slot, wv, progs[step], true),
                    1 => version(&mut r, slot, wv, progs[steps + step], true),
                    _ if a % 2 == 0 => version(&mut r, slot, wv, Pubkey::default(), false),
                    _ => {
                        plan.push(None);
                        continue;
                    }
                };
                now[a] = Some(v.clone());
                plan.push(Some((pks[a], v)));
            }
        }
        let at = Arc::new(AtomicUsize::new(0));
        let mut jobs: Vec<Job<Ev>> = vec![];
        for plan in plans {
            let (store, at) = (store.clone(), at.clone());
            jobs.push(Box::new(move |_, _| {
                for (step, write) in plan.into_iter().enumerate() {
                    // all threads at once
                    at.fetch_add(1, Ordering::SeqCst);
                    let mut spins = 0u32;
                    while at.load(Ordering::SeqCst) < (step + 1) * n && spins < 20_000_000 {
                        spins += 1;
                        if spins % 64 == 0 {
                            std::thread::yield_now();
                        } else {
                            std::hint::spin_loop();
                        }
                    }
                    let Some((pk, v)) = write else { continue };
                    let c = if directly { Commitment::Finalized } else { Commitment::Processed };
                    lib("update_account", || store.update_account(v.to_account_data(pk, compression(0)), c))?;
                }
                Ok(())
            }));
        }
        run_threads(seed ^ wave, jobs, false)?;
        let check = |levels: &[Commitment], when: &str| -> Result<(), Violation> {
            for c in levels {
                for (a, want) in now.iter().enumerate() {
                    let want = want.as_ref().filter(|v| v.live());
                    let got = get(&*store, pks[a], *c)?;
                    if got.as_ref() != want {
                        return Err(viol!("{when}, account#{a} of {} written at once shows {} at {} instead of {}", pks.len(), got.map_or("nothing".into(), |v| v.short()), cname(*c), want.map_or("nothing".into(), |v| v.short())));
                    }
                }
                for p in &progs {
                    let res = lib("get_program_accounts", || store.get_program_accounts(*p, None, *c))?.map_err(|e| viol!("query refused: {e:?}"))?;
                    let mut got: Vec<Pubkey> = res.iter().map(|x| x.pubkey).collect();
                    got.sort();
                    let mut want: Vec<Pubkey> = now.iter().enumerate().filter(|(_, v)| v.as_ref().is_some_and(|v| v.live() && v.owner == *p)).map(|(a, _)| pks[a]).collect();
                    want.sort();
                    if got != want {
                        return Err(viol!("{when}, the query of a program at {} returns {} accounts instead of {} (accounts of the program were written by {n} threads at once)", cname(*c), got.len(), want.len()));
                    }
                }
            }
            Ok(())
        };
        check(&[Commitment::Processed], &format!("after wave {wave}"))?;
        lib("process_slot_data", || store.process_slot_data(slot_info(slot, slot - 1), Commitment::Finalized))?;
        check(&COMMITMENTS, &format!("after wave {wave} was finalized"))?;
        cnt.add("crowd_writes", (n * steps) as u64);
    }
    ctx.merge(&cnt);
    Ok(CaseOk { nontrivial: true, fingerprint: seed, sample: None })
}

fn c11(ctx: &Arc<Ctx>) {
    set_cases_single_threaded(false);
    drive(ctx, "storm", ctx.n(20_000, 600_000), ctx.n(40, 600), 3, c11_case);
    let n = ctx.stats.lock().unwrap().nontrivial.len() as u64;
    ctx.count("distinct_interleavings", n);
    drive(ctx, "crowd", ctx.n(1_500, 40_000), ctx.n(20, 200), 3, crowd_case);
}
