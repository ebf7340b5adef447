//! Filters, coverage and codecs (C08, C12-C15).
use crate::acct_model::*;
use crate::acct_seq::{is_config_error, THREADS};
use crate::acct_world::pubkey;
use crate::util::*;
use crate::viol;
use base64::Engine;
use lite_account_manager_common::{
    account_data::{Account, AccountData, CompressionMethod, Data},
    account_filter::{AccountFilter, AccountFilterType, AccountFilters, MemcmpFilter, MemcmpFilterData},
    account_filters_interface::AccountFiltersStoreInterface,
    account_store_interface::AccountStorageInterface,
    commitment::Commitment,
    except_filter_store::ExceptFilterStore,
    mutable_filter_store::MutableFilterStore,
    simple_filter_store::SimpleFilterStore,
};
use solana_rpc_client_api::filter::{Memcmp as RpcMemcmp, MemcmpEncodedBytes, RpcFilterType};
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn checks() -> Vec<crate::Check> {
    vec![
        crate::Check {
            id: "C08",
            run: c08,
            rule: "random coverage (accounts, whole programs, size and memcmp conditions in three encodings, several entries per program) and random account versions crossing it, delivered with slot notifications; non-trivial if some versions were admitted and some refused",
            min_nontrivial: 300,
            must_see: &["admitted", "refused", "queries_refused", "queries_answered", "covered_by_account_only"],
            assumptions: &["a query implied by the coverage only semantically (not by containing all conditions of one entry) may be answered or refused"],
        },
        crate::Check {
            id: "C12",
            run: c12,
            rule: "random contents (empty to beyond 10 MiB; constant, periodic, random, mixed), every compression method over its level range, through data(), account conversion and serialisation; non-trivial if compressed and not empty; distinct by method, level, size and content hash",
            min_nontrivial: 300,
            must_see: &["lz4", "zstd", "uncompressed", "empty", "larger_than_1MiB", "larger_than_10MiB"],
            assumptions: &[],
        },
        crate::Check {
            id: "C13",
            run: c13,
            rule: "random data and conditions taken from it or off by one at every boundary, in every encoding, well formed or not; non-trivial if the condition is a byte comparison that either matches or misses by one byte",
            min_nontrivial: 1000,
            must_see: &["matching", "not_matching", "malformed", "past_the_end", "rpc_conversions"],
            assumptions: &["the RPC filter kind TokenAccountState is documented as unimplemented and left out"],
        },
        crate::Check {
            id: "C14",
            run: c14,
            rule: "random coverage in all three filter stores (growing one at a time in the mutable one), random accounts and random query filters related to it; non-trivial if the store both accepts and refuses something",
            min_nontrivial: 300,
            must_see: &["satisfied", "not_satisfied", "contained", "not_contained", "except_contained"],
            assumptions: &["exclusion stores are only used with whole-program exclusions"],
        },
        crate::Check {
            id: "C15",
            run: c15,
            rule: "random filter configurations written as JSON by an independent writer, and mutated or hand-broken documents; non-trivial if the configuration has conditions or the document is malformed",
            min_nontrivial: 300,
            must_see: &["round_trips", "malformed_rejected", "mutations", "mutations_still_valid", "mutations_malformed"],
            assumptions: &["unknown members are ignored and null stands for an absent member", "undecodable data of a byte condition is kept and matches nothing (C13)"],
        },
    ]
}

// ------------------------------------------------------------------ generators
fn encode(r: &mut Rng, bytes: Vec<u8>) -> MemcmpFilterData {
    match r.below(3) {
        0 => MemcmpFilterData::Bytes(bytes),
        1 => MemcmpFilterData::Base58(bs58::encode(bytes).into_string()),
        _ => MemcmpFilterData::Base64(base64::engine::general_purpose::STANDARD.encode(bytes)),
    }
}

/// Small alphabet so that unrelated conditions overlap.
fn cond(r: &mut Rng) -> AccountFilterType {
    if r.pct(6) {
        // unusual sizes, offsets and lengths
        return if r.pct(50) {
            AccountFilterType::Datasize(*r.pick(&[1, 17, 255, 256, 260, 300, 264, 1000]))
        } else {
            let off = *r.pick(&[0u64, 1, 2, 255, 256, 258, 290, 65_536, 65_538, 1 << 32, (1 << 32) + 2, u64::MAX]);
            let n = *r.pick(&[1usize, 8, 9, 16, 32, 33, 40, 128, 129, 200]);
            let b = r.below(2) as u8;
            let d = encode(r, vec![b; n]);
            AccountFilterType::Memcmp(MemcmpFilter { offset: off, data: d })
        };
    }
    if r.pct(35) {
        AccountFilterType::Datasize(*r.pick(&[0, 4, 8, 16]))
    } else {
        let off = *r.pick(&[0u64, 2, 4, 12]);
        let n = r.usize(4);
        let b = r.below(2) as u8;
        let d = encode(r, (0..n).map(|i| b + (i as u8 & 1)).collect());
        AccountFilterType::Memcmp(MemcmpFilter { offset: off, data: d })
    }
}

fn small_data(r: &mut Rng) -> Vec<u8> {
    if r.pct(5) {
        let n = *r.pick(&[1usize, 255, 256, 260, 264, 300, 1000]);
        let b = r.below(2) as u8;
        let mut d = vec![b; n];
        if r.pct(50) {
            let i = r.usize(n);
            d[i] = 2;
        }
        return d;
    }
    let n = *r.pick(&[0usize, 4, 8, 16, 17]);
    (0..n).map(|_| r.below(3) as u8).collect()
}

fn decoded(f: &AccountFilterType) -> AccountFilterType {
    match f {
        AccountFilterType::Datasize(_) => f.clone(),
        AccountFilterType::Memcmp(m) => AccountFilterType::Memcmp(MemcmpFilter {
            offset: m.offset,
            data: MemcmpFilterData::Bytes(match &m.data {
                MemcmpFilterData::Bytes(b) => b.clone(),
                MemcmpFilterData::Base58(s) => bs58::decode(s).into_vec().unwrap(),
                MemcmpFilterData::Base64(s) => {
                    base64::engine::general_purpose::STANDARD.decode(s).unwrap()
                }
            }),
        }),
    }
}

fn gen_coverage(r: &mut Rng, programs: &[Pubkey], pks: &[Pubkey]) -> (Coverage, AccountFilters) {
    let mut cov = Coverage::default();
    let mut filters = vec![];
    // now and then many entries with many conditions
    let (entries, conds) = if r.pct(4) { (3 + r.below(20), 3 + r.below(10)) } else { (3, 3) };
    for p in programs {
        if filters.len() > 60 {
            break;
        }
        for _ in 0..r.below(entries) {
            let f = match r.below(6 * entries / 3) {
                0 => None,
                1 => Some(vec![]),
                _ => Some((0..1 + r.below(conds)).map(|_| cond(r)).collect::<Vec<_>>()),
            };
            cov.programs.push((*p, f.clone()));
            let mut accounts = vec![];
            if r.pct(20) {
                accounts.push(*r.pick(pks));
            }
            cov.accounts.extend(accounts.iter());
            filters.push(AccountFilter { accounts, program_id: Some(*p), filters: f });
        }
    }
    if r.pct(60) {
        let a: Vec<Pubkey> = pks.iter().filter(|_| r.pct(40)).copied().collect();
        cov.accounts.extend(a.iter());
        filters.push(AccountFilter { accounts: a, program_id: None, filters: None });
    }
    r.shuffle(&mut filters);
    (cov, filters)
}

/// a query filter related to the coverage
fn gen_query(r: &mut Rng, programs: &[Pubkey], cov: &Coverage) -> (Pubkey, Option<Vec<AccountFilterType>>) {
    if !cov.programs.is_empty() && r.pct(60) {
        let (p, f) = r.pick(&cov.programs).clone();
        let mut f = match f {
            None => match r.below(3) {
                0 => return (p, None),
                1 => vec![],
                _ => vec![cond(r)],
            },
            Some(f) => f,
        };
        // same conditions in other encodings, maybe extended, reordered or cut
        f = f
            .iter()
            .map(|x| match decoded(x) {
                AccountFilterType::Memcmp(m) => {
                    let MemcmpFilterData::Bytes(b) = m.data else { unreachable!() };
                    AccountFilterType::Memcmp(MemcmpFilter { offset: m.offset, data: encode(r, b) })
                }
                d => d,
            })
            .collect();
        if r.pct(40) {
            f.push(cond(r));
        }
        if r.pct(30) {
            r.shuffle(&mut f);
        }
        if r.pct(25) && !f.is_empty() {
            let i = r.usize(f.len());
            f.remove(i);
        }
        (p, Some(f))
    } else {
        let p = *r.pick(programs);
        let f = match r.below(4) {
            0 => None,
            1 => Some(vec![]),
            _ => Some((0..1 + r.below(3)).map(|_| cond(r)).collect()),
        };
        (p, f)
    }
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Implied {
    /// some entry's conditions are all part of the query
    Yes,
    /// an account exists that matches the query and is not covered
    No,
    Unclear,
}

fn implied(r: &mut Rng, cov: &Coverage, p: &Pubkey, q: &Option<Vec<AccountFilterType>>) -> Implied {
    let qd: Option<Vec<AccountFilterType>> = q.as_ref().map(|f| f.iter().map(decoded).collect());
    for (cp, cf) in &cov.programs {
        if cp != p {
            continue;
        }
        match (cf, &qd) {
            (None, _) => return Implied::Yes,
            (Some(cf), Some(qd)) if cf.iter().map(decoded).all(|c| qd.contains(&c)) => {
                return Implied::Yes
            }
            _ => {}
        }
    }
    // search for a witness
    let empty = vec![];
    let qd = qd.as_ref().unwrap_or(&empty);
    for _ in 0..40 {
        let mut len = r.usize(24);
        for c in qd {
            if let AccountFilterType::Datasize(n) = c {
                len = *n as usize;
            }
        }
        let mut d = r.bytes(len);
        if r.pct(50) {
            d.iter_mut().for_each(|b| *b %= 3);
        }
        for c in qd {
            if let AccountFilterType::Memcmp(m) = c {
                let MemcmpFilterData::Bytes(b) = &m.data else { unreachable!() };
                if let Some(end) = (m.offset as usize).checked_add(b.len()).filter(|e| *e <= d.len()) {
                    d[m.offset as usize..end].copy_from_slice(b);
                }
            }
        }
        if all_match(&Some(qd.clone()), &d)
            && !cov.programs.iter().any(|(cp, cf)| cp == p && all_match(cf, &d))
        {
            return Implied::No;
        }
    }
    Implied::Unclear
}

/// keys, now and then many and alike
fn some_keys(r: &mut Rng, n: usize) -> Vec<Pubkey> {
    let n = if r.pct(2) { n + r.usize(100) } else { n };
    let mut out: Vec<Pubkey> = vec![];
    let alike = r.pct(20);
    while out.len() < n {
        let mut k = pubkey(r).to_bytes();
        if alike && !out.is_empty() {
            let o = r.pick(&out).to_bytes();
            let x = r.usize(32);
            let b = k[x];
            k = o;
            k[x] = k[x].wrapping_add(b | 1);
        }
        let k = Pubkey::new_from_array(k);
        if !out.contains(&k) {
            out.push(k);
        }
    }
    out
}

fn acct(pk: Pubkey, owner: Pubkey, data: &[u8], slot: u64, wv: u64, comp: u8) -> AccountData {
    Ver { slot, wv, lamports: 1 + wv, owner, data: data.to_vec(), executable: false, rent_epoch: 0 }
        .to_account_data(pk, compression(comp))
}

// ------------------------------------------------------------------ C08
fn c08(ctx: &Arc<Ctx>) {
    drive(ctx, "coverage", ctx.n(12_000, 500_000), ctx.n(45, 600), THREADS, |ctx, seed| {
        let mut r = Rng::new(seed);
        let programs = some_keys(&mut r, 3);
        let pks = some_keys(&mut r, 5);
        let outsider = pubkey(&mut r);
        let (cov, filters) = gen_coverage(&mut r, &programs, &pks);
        let mut fs = SimpleFilterStore::default();
        fs.add_account_filters(&filters);
        let store = Arc::new(lite_account_storage::inmemory_account_store::InmemoryAccountStore::new(Arc::new(fs)));
        let mut cnt = Counters::default();
        let mut log = vec![format!("coverage {cov:?}")];
        let bad = |m: String, log: &Vec<String>| Violation::with(m, log.clone());
        let mut ever: BTreeMap<Pubkey, bool> = BTreeMap::new();
        let mut finals: BTreeMap<Pubkey, Ver> = BTreeMap::new();
        let (mut slot, mut finalized) = (10, 0);
        for wv in 0..8 + r.below(12) {
            slot += r.below(3);
            let pk = *r.pick(&pks);
            let home = programs[hash_of(&(pk, seed)) as usize % 3];
            let owner = match r.below(10) {
                0 => *r.pick(&programs),
                1 => outsider,
                _ => home,
            };
            let closing = r.pct(6);
            let v = Ver {
                slot,
                wv,
                lamports: if closing { 0 } else { 1 + r.below(1000) },
                owner: if closing && r.pct(50) { Pubkey::default() } else { owner },
                data: small_data(&mut r),
                executable: false,
                rent_epoch: 0,
            };
            let c = COMMITMENTS[r.usize(3)];
            let covered = cov.covers(&pk, &v);
            let known = ever.get(&pk).copied().unwrap_or(false);
            let held = get(&*store, pk, Commitment::Processed)?.is_some();
            if c == Commitment::Finalized {
                finalized = slot;
            }
            log.push(format!("update {} {} data={:?} at {}", &pk.to_string()[..4], v.short(), v.data, cname(c)));
            let comp = r.below(36) as u8;
            let took = lib("update_account", || store.update_account(v.to_account_data(pk, compression(comp)), c))?;
            if covered {
                if !took {
                    return Err(bad(format!("update of a covered account was refused: {}", log.last().unwrap()), &log));
                }
                cnt.add("admitted", 1);
                if cov.accounts.contains(&pk) && !cov.programs.iter().any(|(p, f)| *p == v.owner && all_match(f, &v.data)) {
                    cnt.add("covered_by_account_only", 1);
                }
                if !known {
                    let got = get(&*store, pk, Commitment::Processed)?;
                    if got.as_ref() != Some(&v).filter(|v| v.lamports > 0) {
                        return Err(bad(format!("a covered account is not visible after its first update: {}", log.last().unwrap()), &log));
                    }
                }
                ever.insert(pk, true);
                finals.insert(pk, v);
            } else if held {
                // a later version of what is held is taken whatever it looks like now
                cnt.add("held_account_left_the_coverage", 1);
                if !took {
                    return Err(bad(format!("a newer version of a held account was refused: {}", log.last().unwrap()), &log));
                }
                let got = get(&*store, pk, Commitment::Processed)?;
                let want = Some(&v).filter(|v| v.lamports > 0);
                // a finalized version outside the coverage may be let go
                if got.as_ref() != want && !(got.is_none() && slot <= finalized) {
                    return Err(bad(format!("a newer version of a held account is not shown: {}", log.last().unwrap()), &log));
                }
                finals.insert(pk, v);
            } else if !known {
                cnt.add("refused", 1);
                if took {
                    return Err(bad(format!("an account outside the coverage was admitted: {}", log.last().unwrap()), &log));
                }
                for c in COMMITMENTS {
                    if get(&*store, pk, c)?.is_some() {
                        return Err(bad(format!("an account outside the coverage is visible: {}", log.last().unwrap()), &log));
                    }
                }
            } else {
                finals.insert(pk, v);
            }
            if r.pct(30) {
                let c = COMMITMENTS[r.usize(3)];
                if c == Commitment::Finalized {
                    finalized = slot;
                }
                let rep = lib("process_slot_data", || store.process_slot_data(slot_info(slot, slot.saturating_sub(1)), c))?;
                for a in rep {
                    if !ever.get(&a.pubkey).copied().unwrap_or(false) {
                        return Err(bad(format!("a notification reports {} which is outside the coverage", a.pubkey), &log));
                    }
                }
            }
        }
        // program queries: refused exactly when the coverage does not imply them, complete otherwise
        for _ in 0..10 {
            let (p, q) = gen_query(&mut r, &programs, &cov);
            let im = implied(&mut r, &cov, &p, &q);
            let res = lib("get_program_accounts", || store.get_program_accounts(p, q.clone(), Commitment::Processed))?;
            let qt = format!("query program#{} filters={q:?}", programs.iter().position(|x| *x == p).unwrap());
            match (&res, im) {
                (Err(_), Implied::Yes) => return Err(bad(format!("{qt} is covered but was refused: {:?}", res.as_ref().err()), &log)),
                (Ok(_), Implied::No) => return Err(bad(format!("{qt} was answered although accounts matching it are not covered"), &log)),
                (Err(_), _) if !is_config_error(&res) => return Err(bad(format!("{qt} fails with {:?}", res.as_ref().err()), &log)),
                _ => {}
            }
            if let Ok(got) = res {
                cnt.add("queries_answered", 1);
                // every account whose newest version is covered and matches must be there, nothing that does not match
                for a in &got {
                    let v = Ver::of(a);
                    if v.owner != p || !all_match(&q, &v.data) {
                        return Err(bad(format!("{qt} returned an account that does not match: {}", v.short()), &log));
                    }
                }
                for (pk, v) in &finals {
                    let newest = get(&*store, *pk, Commitment::Processed)?;
                    if newest.as_ref() == Some(v) && v.owner == p && all_match(&q, &v.data) && cov.covers(pk, v)
                        && !got.iter().any(|a| a.pubkey == *pk)
                    {
                        return Err(bad(format!("{qt} misses {}", v.short()), &log));
                    }
                }
            } else {
                cnt.add("queries_refused", 1);
            }
        }
        let nt = cnt.get("admitted") > 0 && cnt.get("refused") > 0;
        ctx.merge(&cnt);
        Ok(CaseOk {
            nontrivial: nt,
            fingerprint: hash_of(&log),
            sample: ctx.wants_sample().then(|| log.join(" | ").chars().take(900).collect()),
        })
    });
}

// ------------------------------------------------------------------ C12
fn c12(ctx: &Arc<Ctx>) {
    let case = |ctx: &Ctx, seed: u64, len: usize, methods: &[CompressionMethod]| -> CaseResult {
        let mut r = Rng::new(seed);
        let data: Vec<u8> = match r.below(5) {
            0 => vec![r.below(256) as u8; len],
            1 => {
                let p = 1 + r.usize(40);
                let pat = r.bytes(p);
                (0..len).map(|i| pat[i % p]).collect()
            }
            2 => r.bytes(len),
            3 => {
                let mut d = r.bytes(len);
                let cut = r.usize(len + 1);
                d[cut..].fill(0);
                d
            }
            _ => {
                let alphabet = 1 + r.below(4);
                (0..len).map(|_| r.below(alphabet) as u8).collect()
            }
        };
        let mut c = Counters::default();
        let owner = pubkey(&mut r);
        for m in methods {
            let name = match m {
                CompressionMethod::None => "uncompressed",
                CompressionMethod::Lz4(_) => "lz4",
                CompressionMethod::Zstd(_) => "zstd",
            };
            c.add(name, 1);
            let sol = solana_sdk::account::Account {
                lamports: r.next(),
                data: data.clone(),
                owner,
                executable: r.pct(50),
                rent_epoch: r.next(),
            };
            let what = format!("{m:?} on {len} bytes (content hash {:x})", hash_of(&data));
            let d = lib(&format!("storing {what}"), || Data::new(&data, m.clone()))?;
            if d.len() != data.len() || d.is_empty() != data.is_empty() {
                return Err(viol!("{what}: reported length {} empty {}", d.len(), d.is_empty()));
            }
            if lib(&format!("reading back {what}"), || d.data())? != data {
                return Err(viol!("{what}: content read back differs"));
            }
            let a = lib(&format!("converting {what}"), || Account::from_solana_account(sol.clone(), m.clone()))?;
            if lib(&format!("converting back {what}"), || a.to_solana_account())? != sol {
                return Err(viol!("{what}: account converted back differs"));
            }
            if len < (1 << 20) {
                let ad = AccountData {
                    pubkey: owner,
                    account: Arc::new(a),
                    updated_slot: r.next(),
                    write_version: r.next(),
                };
                let bytes = lib("serialising", || bincode::serialize(&ad).unwrap())?;
                let back: AccountData = lib("deserialising", || bincode::deserialize(&bytes).unwrap())?;
                if back != ad || back.write_version != ad.write_version || lib("reading back", || back.account.to_solana_account())? != sol {
                    return Err(viol!("{what}: account differs after serialisation"));
                }
            }
        }
        if len == 0 {
            c.add("empty", 1);
        }
        if len > 1 << 20 {
            c.add("larger_than_1MiB", 1);
        }
        if len > 10 << 20 {
            c.add("larger_than_10MiB", 1);
        }
        ctx.merge(&c);
        Ok(CaseOk {
            nontrivial: len > 0 && methods.iter().any(|m| *m != CompressionMethod::None),
            fingerprint: hash_of(&(hash_of(&data), format!("{methods:?}"))),
            sample: Some(format!("{len} bytes, {methods:?}, content hash {:x}", hash_of(&data))),
        })
    };
    drive(ctx, "small", ctx.n(8_000, 300_000), ctx.n(40, 500), THREADS, move |ctx, seed| {
        let mut r = Rng::new(seed ^ 1);
        let len = match r.below(10) {
            0 => 0,
            1 => 1 + r.usize(16),
            2..=6 => r.usize(4096),
            7 => *r.pick(&[165usize, 255, 256, 4095, 4096, 65535, 65536, 65537, 131072]),
            8 => r.usize(100_000),
            _ => *r.pick(&[12usize, 13, 64, 82, 355]),
        };
        let m = vec![
            CompressionMethod::None,
            CompressionMethod::Lz4(*r.pick(&[0, 1, 2, 3, 8, 9, 12, 100, 65537, -1])),
            CompressionMethod::Zstd(*r.pick(&[-7, -1, 0, 1, 3, 6, 9, 19])),
        ];
        case(ctx, seed, len, &m)
    });
    drive(ctx, "large", ctx.n(24, 400), ctx.n(60, 400), THREADS, move |ctx, seed| {
        let mut r = Rng::new(seed ^ 2);
        let len = *r.pick(&[1usize << 20, (1 << 20) + 1, 3_500_000, 10 << 20, (10 << 20) + 4096, 16 << 20]) + r.usize(3);
        let m = vec![CompressionMethod::Lz4(1 + r.below(9) as i32), CompressionMethod::Zstd(1 + r.below(5) as i32)];
        case(ctx, seed, len, &m)
    });
}

// ------------------------------------------------------------------ C13
fn malformed(r: &mut Rng) -> MemcmpFilterData {
    match r.below(4) {
        0 => MemcmpFilterData::Base58(r.pick(&["0", "l1", "abcO", "not base58!", "I"]).to_string()),
        1 => MemcmpFilterData::Base64(r.pick(&["*", "abc", "====", "YQ=", "not base64!"]).to_string()),
        2 => MemcmpFilterData::Base58(format!("{}0", bs58::encode(r.bytes(5)).into_string())),
        _ => MemcmpFilterData::Base64(format!("{}!", base64::engine::general_purpose::STANDARD.encode(r.bytes(3)))),
    }
}

fn c13(ctx: &Arc<Ctx>) {
    drive(ctx, "filters", ctx.n(40_000, 2_000_000), ctx.n(40, 500), THREADS, |ctx, seed| {
        let mut r = Rng::new(seed);
        let mut c = Counters::default();
        let n = if r.below(200) == 0 { *r.pick(&[65_535usize, 65_536, 66_000, 70_000]) } else { *r.pick(&[0usize, 1, 2, 7, 8, 32, 33, 165, 255, 256, 300]) };
        let data: Vec<u8> = if r.pct(30) { vec![r.below(2) as u8; n] } else { r.bytes(n) };
        let owner = pubkey(&mut r);
        let mut nontrivial = false;
        let mut sample = String::new();
        for _ in 0..6 {
            let comp = r.below(36) as u8;
            let ad = acct(owner, owner, &data, 1, 1, comp);
            if r.pct(15) {
                let s = *r.pick(&[n as u64, n as u64 + 1, (n as u64).wrapping_sub(1), 0, u64::MAX, n as u64 + (1 << 8), n as u64 + (1 << 16), n as u64 + (1 << 32)]);
                let f = AccountFilterType::Datasize(s);
                let want = s == n as u64;
                let got = lib("size condition", || f.allows(&data))?;
                let rpc = lib("rpc size condition", || ad.allows(&RpcFilterType::DataSize(s)))?;
                if got != want || rpc != want || AccountFilterType::from(&RpcFilterType::DataSize(s)) != f {
                    return Err(viol!("size condition {s} on {n} bytes: {got}, rpc {rpc}"));
                }
                continue;
            }
            let bad = r.pct(12);
            let offset: u64 = match r.below(8) {
                0 => n as u64,
                1 => n as u64 + 1,
                2 => *r.pick(&[u64::MAX, u64::MAX - 1, 1 << 32, (1 << 32) + 1, 1 << 63]),
                // the same place after a narrower number has wrapped
                3 => *r.pick(&[1u64 << 8, 1 << 16, 1 << 31, 1 << 32, 3 << 32, 1 << 48, 1 << 63]) + r.below(n as u64 + 2),
                _ => r.below(n as u64 + 2),
            };
            let avail = (n as u64).saturating_sub(offset) as usize;
            let len = match r.below(4) {
                0 => avail,
                1 => avail + 1,
                2 => r.usize(avail + 1),
                _ => r.usize(6),
            }
            .min(if r.pct(3) { 3000 } else { 300 });
            let mut bytes: Vec<u8> = data.iter().skip(offset.min(1 << 20) as usize).take(len).copied().collect();
            while bytes.len() < len {
                bytes.push(r.below(2) as u8);
            }
            if r.pct(40) && !bytes.is_empty() {
                // miss by one byte
                let i = *r.pick(&[0, bytes.len() - 1, bytes.len() / 2]);
                bytes[i] = bytes[i].wrapping_add(1);
            }
            // independent oracle
            let end = (offset as u128) + bytes.len() as u128;
            let want = !bad && end <= n as u128 && data[offset as usize..end as usize] == bytes[..];
            let forms = if bad {
                vec![malformed(&mut r)]
            } else {
                vec![
                    MemcmpFilterData::Bytes(bytes.clone()),
                    MemcmpFilterData::Base58(bs58::encode(&bytes).into_string()),
                    MemcmpFilterData::Base64(base64::engine::general_purpose::STANDARD.encode(&bytes)),
                ]
            };
            for d in forms {
                let m = MemcmpFilter { offset, data: d.clone() };
                let what = format!("condition offset={offset} data={d:?} on {n} bytes {:?}", &data[..n.min(300)]);
                let got = lib(&what, || m.bytes_match(&data))?;
                let got2 = lib(&what, || AccountFilterType::Memcmp(m.clone()).allows(&data))?;
                if got != want || got2 != want {
                    return Err(viol!("{what}: expected {want}, got {got}/{got2}"));
                }
                // through the RPC representation and back
                let enc = match d.clone() {
                    MemcmpFilterData::Bytes(b) => MemcmpEncodedBytes::Bytes(b),
                    MemcmpFilterData::Base58(s) => MemcmpEncodedBytes::Base58(s),
                    MemcmpFilterData::Base64(s) => MemcmpEncodedBytes::Base64(s),
                };
                let rpc = RpcFilterType::Memcmp(RpcMemcmp::new(offset as usize, enc));
                let af = AccountFilter { accounts: vec![], program_id: None, filters: Some(vec![AccountFilterType::Memcmp(m.clone())]) };
                if lib("get_rpc_filter", || af.get_rpc_filter())? != Some(vec![rpc.clone()]) {
                    return Err(viol!("{what}: converted to a different RPC filter"));
                }
                let back = lib("converting an RPC filter", || AccountFilterType::from(&rpc))?;
                if lib(&what, || back.allows(&data))? != want {
                    return Err(viol!("{what}: converted from RPC it answers {} instead of {want}", !want));
                }
                if lib(&what, || ad.allows(&rpc))? != want {
                    return Err(viol!("{what}: account test of the RPC filter answers {} instead of {want}", !want));
                }
                c.add("rpc_conversions", 1);
            }
            c.add(if bad { "malformed" } else if end > n as u128 { "past_the_end" } else if want { "matching" } else { "not_matching" }, 1);
            nontrivial |= !bytes.is_empty() && end <= n as u128;
            sample = format!("{n} bytes {:?} offset={offset} compare={bytes:?} malformed={bad} -> {want}", &data[..n.min(300)]);
        }
        ctx.merge(&c);
        Ok(CaseOk { nontrivial, fingerprint: seed, sample: Some(sample) })
    });
}

// ------------------------------------------------------------------ C14
fn c14(ctx: &Arc<Ctx>) {
    drive(ctx, "stores", ctx.n(12_000, 500_000), ctx.n(40, 500), THREADS, |ctx, seed| {
        let mut r = Rng::new(seed);
        let mut c = Counters::default();
        let programs = some_keys(&mut r, 3);
        let pks = some_keys(&mut r, 4);
        let (cov, filters) = gen_coverage(&mut r, &programs, &pks);
        let mut simple = SimpleFilterStore::default();
        let mutable = MutableFilterStore::default();
        let log = vec![format!("filters {filters:?}")];
        let bad = |m: String| Violation::with(m, log.clone());
        let mut part = Coverage::default();
        let probe: Vec<(Pubkey, Pubkey, Vec<u8>, u8)> = (0..10)
            .map(|_| (*r.pick(&pks), *r.pick(&programs), small_data(&mut r), r.below(36) as u8))
            .collect();
        for (i, f) in filters.iter().enumerate() {
            lib("adding a filter", || simple.add_account_filter(f))?;
            if r.pct(50) {
                lib("adding a filter", || mutable.add_account_filters(&vec![f.clone()]))?;
            } else {
                // adding again what is already there changes nothing
                lib("adding a filter", || mutable.add_account_filters(&filters[..=i].to_vec()))?;
            }
            part.accounts.extend(f.accounts.iter());
            if let Some(p) = f.program_id {
                part.programs.push((p, f.filters.clone()));
            }
            for (pk, owner, data, comp) in &probe {
                let ad = acct(*pk, *owner, data, 1, 1, *comp);
                let want = part.covers(pk, &Ver::of(&ad));
                let s = lib("satisfies", || simple.satisfies(&ad))?;
                let m = lib("satisfies", || mutable.satisfies(&ad))?;
                if s != want || m != want {
                    return Err(bad(format!("after {} entries account {} owner {} data {data:?}: covered={want}, fixed store says {s}, growing store says {m}", i + 1, &pk.to_string()[..4], &owner.to_string()[..4])));
                }
                c.add(if want { "satisfied" } else { "not_satisfied" }, 1);
            }
            for pk in &pks {
                let want = part.accounts.contains(pk);
                if simple.contains_account(*pk) != want || mutable.contains_account(*pk) != want {
                    return Err(bad(format!("after {} entries account {pk} listed={want} but the stores disagree", i + 1)));
                }
            }
            // what has been configured is contained
            for g in &filters[..=i] {
                if !lib("contains_filter", || simple.contains_filter(g))? || !mutable.contains_filter(g) {
                    return Err(bad(format!("a configured entry is not contained after {} entries: {g:?}", i + 1)));
                }
            }
        }
        for _ in 0..8 {
            let (p, q) = gen_query(&mut r, &programs, &cov);
            let accounts: Vec<Pubkey> = if r.pct(25) { vec![*r.pick(&pks)] } else { vec![] };
            let listed = accounts.iter().all(|a| cov.accounts.contains(a));
            let f = AccountFilter { accounts, program_id: Some(p), filters: q.clone() };
            let im = implied(&mut r, &cov, &p, &q);
            let s = lib("contains_filter", || simple.contains_filter(&f))?;
            let m = lib("contains_filter", || mutable.contains_filter(&f))?;
            if s != m || (s && (im == Implied::No || !listed)) || (!s && im == Implied::Yes && listed) {
                return Err(bad(format!("{f:?}: implied={im:?} accounts listed={listed}, fixed store says {s}, growing store says {m}")));
            }
            c.add(if s { "contained" } else { "not_contained" }, 1);
        }
        // exclusion store: everything but the excluded programs
        let excluded: Vec<Pubkey> = programs.iter().filter(|_| r.pct(50)).copied().collect();
        let mut except = ExceptFilterStore::default();
        except.add_account_filters(
            &excluded.iter().map(|p| AccountFilter { accounts: vec![], program_id: Some(*p), filters: None }).collect(),
        );
        for (pk, owner, data, comp) in &probe {
            let ad = acct(*pk, *owner, data, 1, 1, *comp);
            let want = !excluded.contains(owner);
            if lib("satisfies", || except.satisfies(&ad))? != want {
                return Err(bad(format!("exclusion store (excludes {}) should say {want} for owner {owner}", excluded.len())));
            }
        }
        for _ in 0..4 {
            let (p, q) = gen_query(&mut r, &programs, &cov);
            let want = !excluded.contains(&p);
            let f = AccountFilter { accounts: vec![], program_id: Some(p), filters: q };
            if lib("contains_filter", || except.contains_filter(&f))? != want {
                return Err(bad(format!("exclusion store should answer {want} for {f:?}")));
            }
            if want {
                c.add("except_contained", 1);
            }
        }
        let nt = c.get("satisfied") > 0 && c.get("not_satisfied") > 0;
        ctx.merge(&c);
        Ok(CaseOk { nontrivial: nt, fingerprint: hash_of(&log), sample: Some(log[0].chars().take(700).collect()) })
    });
}

// ------------------------------------------------------------------ C15
fn json_of(f: &AccountFilter) -> serde_json::Value {
    let mut o = serde_json::Map::new();
    if !f.accounts.is_empty() {
        o.insert("accounts".into(), f.accounts.iter().map(|x| x.to_string()).collect::<Vec<_>>().into());
    }
    if let Some(p) = f.program_id {
        o.insert("programId".into(), p.to_string().into());
    }
    if let Some(fs) = &f.filters {
        let v: Vec<serde_json::Value> = fs
            .iter()
            .map(|f| match f {
                AccountFilterType::Datasize(n) => serde_json::json!({ "datasize": n }),
                AccountFilterType::Memcmp(m) => {
                    let d = match &m.data {
                        MemcmpFilterData::Bytes(b) => serde_json::json!({ "bytes": b }),
                        MemcmpFilterData::Base58(s) => serde_json::json!({ "base58": s }),
                        MemcmpFilterData::Base64(s) => serde_json::json!({ "base64": s }),
                    };
                    serde_json::json!({ "memcmp": { "offset": m.offset, "data": d } })
                }
            })
            .collect();
        o.insert("filters".into(), v.into());
    }
    o.into()
}

/// the RPC condition that selects the same accounts
fn rpc_of(f: &AccountFilterType) -> (Option<u64>, Option<(u64, Vec<u8>)>) {
    match f {
        AccountFilterType::Datasize(n) => (Some(*n), None),
        AccountFilterType::Memcmp(m) => (None, Some((m.offset, plain_bytes(&m.data).unwrap_or_default()))),
    }
}

#[allow(deprecated)]
fn rpc_same(got: Option<&[RpcFilterType]>, want: Option<&[(Option<u64>, Option<(u64, Vec<u8>)>)]>) -> bool {
    let (Some(got), Some(want)) = (got, want) else { return got.is_none() && want.is_none() };
    got.len() == want.len()
        && got.iter().zip(want).all(|(g, w)| match g {
            RpcFilterType::DataSize(n) => *w == (Some(*n), None),
            RpcFilterType::Memcmp(m) => {
                let b = match &m.bytes {
                    MemcmpEncodedBytes::Bytes(b) => Some(b.clone()),
                    MemcmpEncodedBytes::Base58(s) | MemcmpEncodedBytes::Binary(s) => bs58::decode(s).into_vec().ok(),
                    MemcmpEncodedBytes::Base64(s) => base64::engine::general_purpose::STANDARD.decode(s).ok(),
                };
                b.map_or(false, |b| *w == (None, Some((m.offset as u64, b))))
            }
            _ => false,
        })
}

fn plain_bytes(d: &MemcmpFilterData) -> Option<Vec<u8>> {
    match d {
        MemcmpFilterData::Bytes(b) => Some(b.clone()),
        MemcmpFilterData::Base58(s) => bs58::decode(s).into_vec().ok(),
        MemcmpFilterData::Base64(s) => base64::engine::general_purpose::STANDARD.decode(s).ok(),
    }
}

/// what an independent reader makes of a document
enum Read {
    Is(AccountFilters),
    Malformed,
    Undecided,
}

fn read_config(v: &serde_json::Value) -> Read {
    use serde_json::Value;
    enum E {
        Bad,
        Odd,
    }
    fn key(v: &Value) -> Result<Pubkey, E> {
        let b = bs58::decode(v.as_str().ok_or(E::Bad)?).into_vec().map_err(|_| E::Bad)?;
        Ok(Pubkey::new_from_array(b.try_into().map_err(|_| E::Bad)?))
    }
    fn one(v: &Value) -> Result<(&String, &Value), E> {
        let o = v.as_object().ok_or(if v.is_string() { E::Odd } else { E::Bad })?;
        if o.len() != 1 {
            return Err(E::Bad);
        }
        Ok(o.iter().next().unwrap())
    }
    fn cond(v: &Value) -> Result<AccountFilterType, E> {
        match one(v)? {
            (k, n) if k == "datasize" => n.as_u64().map(AccountFilterType::Datasize).ok_or(E::Bad),
            (k, m) if k == "memcmp" => {
                let m = m.as_object().ok_or(if m.is_array() { E::Odd } else { E::Bad })?;
                let offset = m.get("offset").and_then(|x| x.as_u64()).ok_or(E::Bad)?;
                let data = match one(m.get("data").ok_or(E::Bad)?)? {
                    (k, b) if k == "bytes" => {
                        let b = b.as_array().ok_or(if b.is_string() { E::Odd } else { E::Bad })?;
                        let b: Option<Vec<u8>> = b.iter().map(|x| x.as_u64().and_then(|x| u8::try_from(x).ok())).collect();
                        MemcmpFilterData::Bytes(b.ok_or(E::Bad)?)
                    }
                    (k, s) if k == "base58" => MemcmpFilterData::Base58(s.as_str().ok_or(E::Bad)?.into()),
                    (k, s) if k == "base64" => MemcmpFilterData::Base64(s.as_str().ok_or(E::Bad)?.into()),
                    _ => return Err(E::Bad),
                };
                Ok(AccountFilterType::Memcmp(MemcmpFilter { offset, data }))
            }
            _ => Err(E::Bad),
        }
    }
    fn filter(v: &Value) -> Result<AccountFilter, E> {
        let o = v.as_object().ok_or(E::Bad)?;
        let accounts = match o.get("accounts") {
            None | Some(Value::Null) => vec![],
            Some(a) => a.as_array().ok_or(E::Bad)?.iter().map(key).collect::<Result<_, _>>()?,
        };
        let program_id = match o.get("programId") {
            None => None,
            Some(Value::Null) => return Err(E::Odd),
            Some(p) => Some(key(p)?),
        };
        let filters = match o.get("filters") {
            None | Some(Value::Null) => None,
            Some(f) => Some(f.as_array().ok_or(E::Bad)?.iter().map(cond).collect::<Result<_, _>>()?),
        };
        Ok(AccountFilter { accounts, program_id, filters })
    }
    let Some(a) = v.as_array() else { return Read::Malformed };
    let mut res = vec![];
    let mut odd = false;
    for f in a {
        match filter(f) {
            Ok(f) => res.push(f),
            Err(E::Bad) => return Read::Malformed,
            Err(E::Odd) => odd = true,
        }
    }
    if odd {
        Read::Undecided
    } else {
        Read::Is(res)
    }
}

fn c15(ctx: &Arc<Ctx>) {
    drive(ctx, "config", ctx.n(60_000, 2_000_000), ctx.n(40, 500), THREADS, |ctx, seed| {
        let mut r = Rng::new(seed);
        let mut c = Counters::default();
        let programs = some_keys(&mut r, 3);
        let pks = some_keys(&mut r, 4);
        let (_, mut filters) = gen_coverage(&mut r, &programs, &pks);
        for f in filters.iter_mut() {
            if let Some(fs) = &mut f.filters {
                if r.pct(20) {
                    fs.push(AccountFilterType::Datasize(r.next()));
                }
                if r.pct(20) {
                    let n = r.usize(80);
                    let b = r.bytes(n);
                    let d = encode(&mut r, b);
                    fs.push(AccountFilterType::Memcmp(MemcmpFilter { offset: r.next(), data: d }));
                }
            }
        }
        // repetitions, in any order, and sizes beyond the usual
        for f in filters.iter_mut() {
            if r.pct(10) {
                let many = if r.pct(10) { 300 } else { 4 };
                let n = 1 + r.usize(many);
                for _ in 0..n {
                    let k = if r.pct(50) { *r.pick(&pks) } else { some_keys(&mut r, 1)[0] };
                    f.accounts.push(k);
                }
            }
            if let Some(fs) = f.filters.as_mut().filter(|fs| !fs.is_empty() && r.pct(10)) {
                let again = r.pick(fs).clone();
                fs.push(again);
            }
            if f.filters.is_none() && r.pct(5) {
                f.filters = Some(vec![]);
            }
        }
        if r.pct(5) && !filters.is_empty() {
            let again = r.pick(&filters).clone();
            filters.push(again);
        }
        let doc = serde_json::Value::Array(filters.iter().map(json_of).collect());
        let text = doc.to_string();
        let bad = |m: String| Violation::with(m, vec![text.clone()]);
        let parsed = lib("parsing a configuration", || serde_json::from_str::<AccountFilters>(&text))?
            .map_err(|e| bad(format!("a valid configuration was rejected: {e}")))?;
        if parsed != filters {
            return Err(bad(format!("configuration read as {parsed:?}")));
        }
        let written = lib("writing a configuration", || serde_json::to_string(&filters))?
            .map_err(|e| bad(format!("a configuration could not be written: {e}")))?;
        let value: serde_json::Value = serde_json::from_str(&written).map_err(|e| bad(format!("written configuration is not JSON: {e}")))?;
        if value != doc {
            return Err(bad(format!("configuration written as {written}")));
        }
        if serde_json::from_str::<AccountFilters>(&written).ok().as_ref() != Some(&filters) {
            return Err(bad("a configuration does not survive writing and reading back".into()));
        }
        for f in &filters {
            let one = json_of(f);
            let t = one.to_string();
            let back = lib(&format!("parsing {t}"), || serde_json::from_str::<AccountFilter>(&t))?;
            if back.ok().as_ref() != Some(f) {
                return Err(bad(format!("a single filter {t} is not read back")));
            }
            if serde_json::to_value(f).ok() != Some(one) {
                return Err(bad(format!("a single filter is written as {:?}", serde_json::to_string(f))));
            }
            let got = lib("get_rpc_filter", || parsed[filters.iter().position(|x| x == f).unwrap()].get_rpc_filter())?;
            let want = f.filters.as_ref().map(|fs| fs.iter().map(rpc_of).collect::<Vec<_>>());
            let got_t = got.as_ref().map(|g| g.iter().map(|x| serde_json::to_value(x).unwrap()).collect::<Vec<_>>());
            if !rpc_same(got.as_deref(), want.as_deref()) {
                return Err(bad(format!("RPC filters of {t} are {got_t:?}")));
            }
        }
        c.add("round_trips", 1);
        // documents that must be rejected
        let p = programs[0].to_string();
        let broken = match r.below(13) {
            0 => serde_json::json!([{ "programId": p[..p.len() - 1 - r.usize(20)].to_string() + "0" }]),
            1 => serde_json::json!([{ "programId": r.below(100) }]),
            2 => serde_json::json!([{ "accounts": [p, "not a key"] }]),
            3 => serde_json::json!([{ "accounts": [r.next()] }]),
            4 => serde_json::json!([{ "programId": p, "filters": [{ "datasize": "big" }] }]),
            5 => serde_json::json!([{ "programId": p, "filters": [{ "memcmp": { "offset": -1, "data": { "bytes": [1] } } }] }]),
            6 => serde_json::json!([{ "programId": p, "filters": [{ "memcmp": { "offset": 1, "data": { "bytes": [256 + r.below(10)] } } }] }]),
            7 => serde_json::json!([{ "programId": p, "filters": [{ "unknown": 1 }] }]),
            8 => serde_json::json!([{ "programId": p, "filters": { "datasize": 1 } }]),
            9 => serde_json::json!([{ "accounts": p }]),
            10 => serde_json::json!([{ "accounts": { "0": p } }, { "programId": p }]),
            11 => match r.below(4) {
                0 => serde_json::json!([p]),
                1 => serde_json::json!([[{ "programId": p }]]),
                2 => serde_json::json!([null]),
                _ => serde_json::json!({ "programId": p }),
            },
            _ => serde_json::json!([{ "programId": p, "filters": [{ "memcmp": { "data": { "base58": "a" } } }] }]),
        };
        let t = broken.to_string();
        if lib(&format!("parsing {t}"), || serde_json::from_str::<AccountFilters>(&t))?.is_ok() {
            return Err(viol!("malformed configuration accepted: {t}"));
        }
        c.add("malformed_rejected", 1);
        // arbitrary damage: an error or a value, never a panic
        let mut t: Vec<u8> = text.clone().into_bytes();
        for _ in 0..1 + r.below(4) {
            if t.is_empty() {
                break;
            }
            let i = r.usize(t.len());
            match r.below(3) {
                0 => {
                    t.remove(i);
                }
                1 => t[i] = *r.pick(b"{}[]\":,0129azA -"),
                _ => t.insert(i, *r.pick(b"{}[]\":,0129azA -")),
            }
        }
        let t = String::from_utf8_lossy(&t).into_owned();
        let res = lib(&format!("parsing {t}"), || serde_json::from_str::<AccountFilters>(&t))?;
        let reader = serde_json::from_str::<serde_json::Value>(&t).map_or(Read::Malformed, |v| read_config(&v));
        match (&res, &reader) {
            (Ok(fs), Read::Malformed) => return Err(viol!("malformed configuration {t} was read as {fs:?}")),
            (Ok(fs), Read::Is(want)) if fs != want => return Err(viol!("configuration {t} was read as {fs:?}")),
            (Err(e), Read::Is(_)) => return Err(viol!("configuration {t} was rejected: {e}")),
            (_, Read::Is(_)) => c.add("mutations_still_valid", 1),
            (_, Read::Malformed) => c.add("mutations_malformed", 1),
            _ => c.add("mutations_undecided", 1),
        }
        if let Ok(fs) = res {
            // what was accepted can be used
            let mut s = SimpleFilterStore::default();
            lib(&format!("using filters {t}"), || {
                s.add_account_filters(&fs);
                s.satisfies(&acct(pks[0], programs[0], &[0, 1, 0, 1], 1, 1, 0))
            })?;
        }
        c.add("mutations", 1);
        ctx.merge(&c);
        Ok(CaseOk {
            nontrivial: filters.iter().any(|f| f.filters.as_ref().map_or(false, |x| !x.is_empty())),
            fingerprint: hash_of(&text),
            sample: Some(text.chars().take(500).collect()),
        })
    });
}
