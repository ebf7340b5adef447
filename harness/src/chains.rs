//! Chains of hundreds to thousands of slots between two confirmations or finalizations, with small
//! and huge gaps between slot numbers and abandoned forks: what is a handful of slots in the
//! histories is deep here. Written down without the reference models.
use crate::acct_model::*;
use crate::acct_seq::{new_store, Store};
use crate::many::{key, mem, same, shown, Judge};
use crate::token::{new_token_store, programs, token_bytes};
use crate::util::*;
use crate::viol;
use lite_account_manager_common::{
    account_data::{AccountData, CompressionMethod},
    account_filter::AccountFilterType,
    commitment::Commitment,
};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

struct Node {
    slot: u64,
    parent: u64,
    main: bool,
}

enum Event {
    Announce(usize),
    Write(usize, Ver),
}

struct Chain {
    pks: Vec<Pubkey>,
    first: Vec<Option<Ver>>,
    /// by account and slot
    writes: Vec<BTreeMap<u64, (Ver, bool)>>,
}

impl Chain {
    /// the newest version at processed, whatever the fork; token stores leave out abandoned forks up
    /// to the confirmed slot
    fn processed(&self, a: usize, confirmed: Option<u64>) -> Option<&Ver> {
        let from = confirmed.map_or(0, |c| c + 1);
        let newest = self.writes[a].range(from..).next_back().map(|(_, (v, _))| v);
        newest.or_else(|| self.at(a, confirmed.unwrap_or(0)))
    }
    /// the newest version on the main chain up to a slot
    fn at(&self, a: usize, upto: u64) -> Option<&Ver> {
        self.writes[a]
            .range(..=upto)
            .rev()
            .find(|(_, (_, main))| *main)
            .map(|(_, (v, _))| v)
            .or(self.first[a].as_ref())
    }
}

pub fn case(ctx: &Ctx, seed: u64, tokens: bool, j: Judge) -> CaseResult {
    let mut r = Rng::new(seed);
    let mut c = Counters::default();
    let prog = if tokens { *r.pick(&programs()) } else { key(&mut r) };
    let (mint, owner) = (key(&mut r), key(&mut r));
    let len = match r.below(20) {
        0..=9 => 20 + r.usize(100),
        10..=14 => 300 + r.usize(400),
        15..=18 => 1030 + r.usize(800),
        _ => 2500 + r.usize(4000),
    };
    let (gap_pct, huge_pct) = *r.pick(&[(0, 0), (10, 0), (30, 0), (30, 1), (50, 20)]);
    let fork_pct = r.below(60);
    let mut nodes = vec![];
    let mut main: Vec<usize> = vec![];
    let mut tip = *r.pick(&[0u64, 5, 70_000, 1 << 33, 1 << 50]);
    for _ in 0..len {
        let gap = if r.pct(huge_pct) {
            *r.pick(&[433, 5_000, 100_000, 432_001, 1 << 33, 1 << 41])
        } else if r.pct(gap_pct) {
            2 + r.below(12)
        } else {
            1
        };
        let slot = tip + gap;
        if gap > 1 && r.pct(fork_pct) {
            nodes.push(Node {
                slot: tip + 1 + r.below(gap - 1),
                parent: tip,
                main: false,
            });
        }
        main.push(nodes.len());
        nodes.push(Node { slot, parent: tip, main: true });
        tip = slot;
    }
    let accounts = 4 + r.usize(40);
    let mut chain = Chain {
        pks: (0..accounts).map(|_| key(&mut r)).collect(),
        first: vec![],
        writes: vec![BTreeMap::new(); accounts],
    };
    let mut wv = 1 + r.below(1 << 40);
    let mut ver = |r: &mut Rng, slot: u64, a: usize| {
        wv += 1 + r.below(3);
        Ver {
            slot,
            wv,
            lamports: 1 + r.below(1 << 40),
            owner: prog,
            data: if tokens {
                token_bytes(r, &mint, &owner, wv, None, 0)
            } else {
                [owner.to_bytes().as_slice(), &wv.to_le_bytes(), &(a as u64).to_le_bytes()].concat()
            },
            executable: false,
            rent_epoch: u64::MAX,
        }
    };
    for a in 0..accounts {
        let first = r.pct(60).then(|| ver(&mut r, 0, a));
        let mut at: BTreeSet<usize> = BTreeSet::new();
        match r.below(10) {
            // only far down the chain
            0..=3 => {
                at.insert(r.usize(1 + len / 20));
            }
            // over and over
            4 if r.pct(30) => at.extend(0..nodes.len()),
            _ => at.extend((0..1 + r.usize(6)).map(|_| r.usize(nodes.len()))),
        }
        for n in at {
            let v = ver(&mut r, nodes[n].slot, a);
            chain.writes[a].insert(nodes[n].slot, (v, nodes[n].main));
        }
        if first.is_some() && r.pct(10) {
            // closed for good
            let (_, (v, _)) = chain.writes[a].iter_mut().next_back().unwrap();
            *v = Ver {
                lamports: 0,
                owner: if tokens { Pubkey::default() } else { prog },
                data: vec![],
                ..v.clone()
            };
        }
        chain.first.push(first);
    }
    let store: Store = if tokens {
        new_token_store()
    } else {
        new_store(&Coverage {
            programs: vec![(prog, None)],
            ..Default::default()
        })
    };
    let update = |a: usize, v: &Ver, cm: Commitment| -> Result<bool, Violation> { lib("update_account", || store.update_account(v.to_account_data(chain.pks[a], CompressionMethod::None), cm)) };
    for (a, v) in chain.first.iter().enumerate() {
        if let Some(v) = v {
            if r.pct(50) {
                update(a, v, Commitment::Finalized)?;
            } else {
                lib("initilize_or_update_account", || store.initilize_or_update_account(v.to_account_data(chain.pks[a], CompressionMethod::None)))?;
            }
        }
    }
    let notify = |slot: u64, parent: u64, cm: Commitment| -> Result<Vec<AccountData>, Violation> { lib("process_slot_data", || store.process_slot_data(slot_info(slot, parent), cm)) };
    let index: HashMap<Pubkey, usize> = chain.pks.iter().enumerate().map(|(i, p)| (*p, i)).collect();
    let views = |cm: Commitment, upto: u64, c: &mut Counters| -> Result<(), Violation> {
        for a in (0..accounts).filter(|_| j.views) {
            let want = match cm {
                Commitment::Processed => chain.processed(a, Some(upto).filter(|_| tokens)),
                _ => chain.at(a, upto),
            }
            .filter(|v| v.lamports > 0);
            let got = lib("get_account", || store.get_account(chain.pks[a], cm))?.map_err(|e| viol!("lookup refused: {e:?}"))?;
            match (got, want) {
                (None, None) => {}
                (Some(g), Some(w)) => same(tokens, &g, w).map_err(|e| viol!("with {} slots up to {upto}, an account at {} is {e}", nodes.len(), cname(cm)))?,
                (g, w) => {
                    return Err(viol!(
                        "with {} slots up to {upto}, an account written in {:?} is at {} {:?} instead of {:?}",
                        nodes.len(),
                        chain.writes[a].keys().take(5).collect::<Vec<_>>(),
                        cname(cm),
                        g.map(|x| Ver::of(&x).short()),
                        w.map(|x| x.short())
                    ))
                }
            }
            c.add("deep_lookups", 1);
        }
        if j.queries {
            let f = Some(if tokens { vec![AccountFilterType::Datasize(165), mem(32, &owner.to_bytes())] } else { vec![mem(0, &owner.to_bytes())] });
            let mut want: BTreeMap<Pubkey, &Ver> = (0..accounts)
                .filter_map(|a| {
                    let v = match cm {
                        Commitment::Processed => chain.processed(a, Some(upto).filter(|_| tokens)),
                        _ => chain.at(a, upto),
                    };
                    v.filter(|v| v.lamports > 0).map(|v| (chain.pks[a], v))
                })
                .collect();
            for g in lib("get_program_accounts", || store.get_program_accounts(prog, f.clone(), cm))?.map_err(|e| viol!("query refused: {e:?}"))? {
                let Some(w) = want.remove(&g.pubkey) else {
                    return Err(viol!("with {} slots up to {upto}, a query at {} returns {} twice or wrongly", nodes.len(), cname(cm), g.pubkey));
                };
                same(tokens, &g, w).map_err(|e| viol!("with {} slots up to {upto}, a query at {}: {e}", nodes.len(), cname(cm)))?;
            }
            if let Some((pk, w)) = want.pop_first() {
                return Err(viol!("with {} slots up to {upto}, a query at {} misses {pk}: {}", nodes.len(), cname(cm), w.short()));
            }
            c.add("deep_queries", 1);
        }
        Ok(())
    };
    // what a notification that moves a level from one slot to another has to report
    let reports = |cm: Commitment, got: Vec<AccountData>, from: Option<u64>, upto: u64, c: &mut Counters| -> Result<(), Violation> {
        if !j.reports || (tokens && cm != Commitment::Finalized) {
            return Ok(());
        }
        let mut want: BTreeMap<Pubkey, &Ver> = (0..accounts)
            .filter_map(|a| {
                let (_, (v, _)) = chain.writes[a].range(from.map_or(0, |f| f + 1)..=upto).rev().find(|(_, (_, main))| *main)?;
                Some((chain.pks[a], v)).filter(|(_, v)| !tokens || v.lamports > 0)
            })
            .collect();
        for g in got {
            let Some(w) = want.remove(&g.pubkey) else {
                return Err(viol!(
                    "slot {upto} at {} reports account {:?} twice or without a new version: {}",
                    cname(cm),
                    index.get(&g.pubkey),
                    Ver::of(&g).short()
                ));
            };
            same(tokens, &g, w).map_err(|e| viol!("slot {upto} at {} after {from:?} reports {e}", cname(cm)))?;
            c.add("deep_reports", 1);
        }
        match want.pop_first() {
            Some((pk, w)) => Err(viol!("slot {upto} at {} after {from:?} (of {} slots) does not report {pk}: {}", cname(cm), nodes.len(), w.short())),
            None => Ok(()),
        }
    };
    // one to four stretches; everything of a stretch is delivered before it is confirmed
    let mut cuts: BTreeSet<usize> = (0..r.usize(4)).map(|_| r.usize(len)).collect();
    cuts.insert(len - 1);
    let order = r.below(3);
    let (mut next, mut confirmed, mut finalized) = (0, None, None);
    for cut in &cuts {
        let upto = main[*cut];
        let mut events = vec![];
        let confirm = r.pct(80);
        for n in next..=upto {
            // the notification of a commitment tells the parent, too
            if n != upto || !(confirm && r.pct(10)) {
                events.push(Event::Announce(n));
            }
            for a in 0..accounts {
                if let Some((v, _)) = chain.writes[a].get(&nodes[n].slot) {
                    events.push(Event::Write(a, v.clone()));
                }
            }
        }
        next = upto + 1;
        match order {
            0 => {}
            1 => r.shuffle(&mut events),
            _ => events.reverse(),
        }
        for e in events {
            match e {
                Event::Announce(n) => {
                    let got = notify(nodes[n].slot, nodes[n].parent, Commitment::Processed)?;
                    if j.reports && !got.is_empty() {
                        return Err(viol!("an announced slot reports {} accounts", got.len()));
                    }
                }
                Event::Write(a, v) => {
                    if !update(a, &v, Commitment::Processed)? && j.views {
                        return Err(viol!("the update {} was refused", v.short()));
                    }
                }
            }
        }
        if *cut == len - 1 && finalized.is_none() {
            // told where the confirmed slot is
            views(Commitment::Processed, confirmed.unwrap_or(0), &mut c)?;
        }
        let (slot, parent) = (nodes[upto].slot, nodes[upto].parent);
        c.add("slots_of_deep_chains", nodes.len() as u64);
        if confirm {
            let got = notify(slot, parent, Commitment::Confirmed)?;
            reports(Commitment::Confirmed, got, confirmed, slot, &mut c)?;
            confirmed = Some(slot);
            views(Commitment::Confirmed, slot, &mut c)?;
            if finalized.is_none() {
                views(Commitment::Finalized, 0, &mut c)?;
            }
        }
        if confirmed == Some(slot) && r.pct(60) {
            // up to here or to somewhere before
            let back = if r.pct(50) { 0 } else { r.usize(upto + 1) };
            let at = (0..=upto).rev().filter(|n| nodes[*n].main).nth(back).filter(|n| finalized.map_or(true, |f| nodes[*n].slot > f)).unwrap_or(upto);
            let got = notify(nodes[at].slot, nodes[at].parent, Commitment::Finalized)?;
            reports(Commitment::Finalized, got, finalized, nodes[at].slot, &mut c)?;
            finalized = Some(nodes[at].slot);
            views(Commitment::Finalized, nodes[at].slot, &mut c)?;
            views(Commitment::Confirmed, slot, &mut c)?;
        }
    }
    if finalized != Some(tip) {
        let last = nodes.last().unwrap();
        let got = notify(tip, last.parent, Commitment::Finalized)?;
        reports(Commitment::Finalized, got, finalized, tip, &mut c)?;
        views(Commitment::Finalized, tip, &mut c)?;
    }
    c.add("deep_chains", 1);
    let mut shown_at_end = 0;
    for a in 0..accounts {
        shown_at_end += usize::from(shown(&chain.at(a, tip).cloned()).is_some());
    }
    ctx.merge(&c);
    Ok(CaseOk {
        nontrivial: shown_at_end > 0,
        fingerprint: hash_of(&seed),
        sample: None,
    })
}

pub fn run(ctx: &Arc<Ctx>, tokens: bool, j: Judge) {
    drive(ctx, "deep chains", ctx.n(300, 8_000), 90, 8, move |ctx, seed| case(ctx, seed, tokens, j));
}
