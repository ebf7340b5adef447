//! The snapshot simulator as a whole: the real program (with stand-ins for the crates that cannot be had
//! offline, see /verif/sim) is started on generated snapshot archives, fed over its stream and asked over its
//! RPC interface. C29 loading, C30 RPC answers, C31 following the stream.
use crate::acct_model::*;
use crate::token::*;
use crate::util::*;
use crate::viol;
use base64::Engine;
use lite_account_manager_common::account_filter::{AccountFilterType, MemcmpFilterData};
use lite_account_manager_common::commitment::Commitment;
use quic_geyser_common::compression::CompressionType;
use quic_geyser_common::message::Message;
use quic_geyser_common::types::{account as qa, slot_status::SlotMeta};
use serde_json::{json, Value};
use solana_sdk::commitment_config::CommitmentConfig;
use solana_sdk::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ archives
#[derive(Clone, Debug)]
struct Rec {
    pk: Pubkey,
    ver: Ver,
    /// bytes that do not belong to the account
    version: u64,
    hash: [u8; 32],
}
#[derive(Clone, Debug)]
struct Vecs {
    slot: u64,
    id: u64,
    recs: Vec<Rec>,
    /// unused bytes behind the records
    spare: usize,
}
/// Where a record lies in its file.
struct At {
    start: usize,
    data: usize,
}

fn vec_bytes(v: &Vecs) -> (Vec<u8>, usize, Vec<At>) {
    let (mut b, mut at, mut len) = (vec![], vec![], 0);
    for r in &v.recs {
        let start = b.len();
        b.extend(r.version.to_le_bytes());
        b.extend((r.ver.data.len() as u64).to_le_bytes());
        b.extend(r.pk.to_bytes());
        b.extend(r.ver.lamports.to_le_bytes());
        b.extend(r.ver.rent_epoch.to_le_bytes());
        b.extend(r.ver.owner.to_bytes());
        b.push(u8::from(r.ver.executable));
        b.extend([0; 7]);
        b.extend(r.hash);
        at.push(At { start, data: b.len() });
        b.extend(&r.ver.data);
        len = b.len();
        b.resize((len + 7) / 8 * 8, 0);
    }
    b.resize(len.max(1) + v.spare, 0);
    (b, len, at)
}

fn manifest(entries: &BTreeMap<u64, Vec<(u64, u64)>>, slot: u64, with_roots: bool) -> Vec<u8> {
    use solana_sdk::{epoch_schedule::EpochSchedule, fee_calculator::*, hard_forks::HardForks, hash::Hash, inflation::Inflation};
    let h = Hash::default();
    let bank = (
        (1u64, 2u64, h, h, slot - 1, HardForks::default()),
        (5u64, 6u64, 7u64, 8u64, 9u64, Some(10u64), 64u64, 400_000_000u128, 1i64, 78892314.98f64, 11u64),
        (slot, 1u64, slot, Pubkey::default(), 0u64, FeeCalculator::default(), FeeRateGovernor::default(), 3u64),
        (4u64, EpochSchedule::default(), Inflation::default(), 0u64, 0u64, 0u64, 0u64, 0u64, false),
    );
    let entries: std::collections::HashMap<u64, Vec<(u64, u64)>> = entries.iter().map(|(a, b)| (*a, b.clone())).collect();
    let db = (entries, 12u64, slot, (h, h, 0u64));
    let mut b = bincode::serialize(&bank).unwrap();
    b.extend(bincode::serialize(&db).unwrap());
    if with_roots {
        b.extend(bincode::serialize(&(vec![slot], vec![(slot, h)])).unwrap());
    }
    b
}

fn tar_entry(out: &mut Vec<u8>, name: &str, content: &[u8]) {
    let mut h = [0u8; 512];
    h[..name.len()].copy_from_slice(name.as_bytes());
    h[100..107].copy_from_slice(b"0000644");
    h[124..135].copy_from_slice(format!("{:011o}", content.len()).as_bytes());
    h[156] = b'0';
    h[257..263].copy_from_slice(b"ustar\0");
    h[148..156].fill(b' ');
    let sum: u64 = h.iter().map(|b| *b as u64).sum();
    h[148..155].copy_from_slice(format!("{sum:06o}\0").as_bytes());
    out.extend(h);
    out.extend(content);
    out.resize((out.len() + 511) / 512 * 512, 0);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Damage {
    None,
    ShortFile,
    LengthTooLong,
    LengthTooShort,
    RecordTooLong,
    Executable,
    NotListed,
    NoManifest,
    ManifestLast,
    ManifestCut,
    Truncated,
    NotAnArchive,
}
const DAMAGES: [Damage; 11] = [
    Damage::ShortFile,
    Damage::LengthTooLong,
    Damage::LengthTooShort,
    Damage::RecordTooLong,
    Damage::Executable,
    Damage::NotListed,
    Damage::NoManifest,
    Damage::ManifestLast,
    Damage::ManifestCut,
    Damage::Truncated,
    Damage::NotAnArchive,
];

/// The files of a snapshot, manifest first.
fn contents(r: &mut Rng, vecs: &[Vecs], slot: u64, damage: Damage) -> Vec<(String, Vec<u8>)> {
    let hurt = r.usize(vecs.len().max(1));
    let mut entries: BTreeMap<u64, Vec<(u64, u64)>> = BTreeMap::new();
    let mut files = vec![];
    for (i, v) in vecs.iter().enumerate() {
        let (mut b, mut len, at) = vec_bytes(v);
        let mut listed = true;
        if i == hurt {
            let a = r.pick(&at);
            match damage {
                Damage::ShortFile => b.truncate(len - 1 - r.usize(len - at.last().unwrap().start)),
                Damage::LengthTooLong => {
                    // the header of one more record, and then nothing
                    len = b.len() + 8 + r.usize(2000);
                }
                Damage::LengthTooShort => len = a.start + 1 + r.usize(len - a.start - 1).min(a.data - a.start - 2),
                Damage::RecordTooLong => {
                    let n = *r.pick(&[b.len() as u64, 1 << 20, 1 << 40, u64::MAX, u64::MAX - 7]);
                    b[a.start + 8..a.start + 16].copy_from_slice(&n.to_le_bytes());
                }
                Damage::Executable => b[a.start + 48 + 48] = 2 + r.below(254) as u8,
                Damage::NotListed => listed = false,
                _ => {}
            }
        }
        entries.entry(v.slot).or_default().push((if listed { v.id } else { v.id + 1000 }, len as u64));
        files.push((format!("accounts/{}.{}", v.slot, v.id), b));
        if r.pct(10) {
            files.push((format!("accounts/{}", r.pick(&["readme", "7", "7.x", ".5", "7.8.9"])), b"not accounts".to_vec()));
        }
    }
    let mut m = manifest(&entries, slot, r.pct(70));
    if damage == Damage::ManifestCut {
        m.truncate(r.usize(m.len() / 2));
    }
    let name = if damage == Damage::NoManifest { format!("snapshots/{slot}x/{slot}x") } else { format!("snapshots/{slot}/{slot}") };
    if damage == Damage::ManifestLast {
        files.push((name, m));
    } else {
        files.insert(0, (name, m));
    }
    files
}

fn archive(r: &mut Rng, vecs: &[Vecs], slot: u64, damage: Damage) -> Vec<u8> {
    let mut t = vec![];
    tar_entry(&mut t, "version", b"1.2.0");
    tar_entry(&mut t, "snapshots/status_cache", &[0; 8]);
    for (n, b) in contents(r, vecs, slot, damage) {
        tar_entry(&mut t, &n, &b);
    }
    t.resize(t.len() + 1024, 0);
    if damage == Damage::NotAnArchive {
        return t;
    }
    let mut e = zstd::stream::write::Encoder::new(vec![], 1 + r.below(3) as i32).unwrap();
    e.include_checksum(true).unwrap();
    e.write_all(&t).unwrap();
    let mut z = e.finish().unwrap();
    if damage == Damage::Truncated {
        z.truncate(r.usize(z.len() * 9 / 10));
    }
    z
}

/// The same as files in a directory.
fn unpacked(r: &mut Rng, dir: &Path, vecs: &[Vecs], slot: u64, damage: Damage) {
    let status = "snapshots/status_cache".to_string();
    for (n, b) in contents(r, vecs, slot, damage).into_iter().chain([(status, vec![0; 8])]) {
        let p = dir.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).expect("scratch");
        std::fs::write(p, b).expect("scratch");
    }
    std::fs::create_dir_all(dir.join("accounts")).expect("scratch");
}

// ------------------------------------------------------------------ the running program
struct Sim {
    dir: PathBuf,
    child: Child,
    rpc: Option<BufReader<UnixStream>>,
    stream: Option<UnixStream>,
    sentinel: Pubkey,
    beat: u64,
}
impl Drop for Sim {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
static NEXT: AtomicU64 = AtomicU64::new(0);
fn scratch() -> PathBuf {
    let root = std::env::var("TMPDIR").unwrap_or_else(|_| "/tmp".into());
    let dir = Path::new(&root).join(format!("sim{}.{}", std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&dir).expect("scratch");
    dir
}
const PATIENCE: Duration = Duration::from_secs(100);

impl Sim {
    /// Err: the program refused the archive, and how
    fn start(archive: &[u8], stream: bool) -> Result<Sim, (bool, String)> {
        let bin = std::env::var("SIM_BIN").expect("SIM_BIN");
        let dir = scratch();
        std::fs::write(dir.join("a.tar.zst"), archive).expect("scratch");
        let mut c = Command::new(bin);
        c.arg("--snapshot-archive-path").arg(dir.join("a.tar.zst")).env("SIM_SOCKET", dir.join("rpc")).env("RUST_LOG", "off");
        let l = stream.then(|| UnixListener::bind(dir.join("stream")).expect("socket"));
        if stream {
            c.arg("--quic-url").arg(dir.join("stream"));
        }
        let err = std::fs::File::create(dir.join("stderr")).unwrap();
        let child = c.current_dir(&dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(err).spawn().expect("start the program");
        let mut s = Sim { dir, child, rpc: None, stream: None, sentinel: Pubkey::new_from_array([0x5e; 32]), beat: 0 };
        let start = Instant::now();
        loop {
            if let Some(st) = s.child.try_wait().expect("wait") {
                let e = std::fs::read_to_string(s.dir.join("stderr")).unwrap_or_default();
                use std::os::unix::process::ExitStatusExt;
                return Err((st.signal().is_some() || st.success(), format!("{st}: {}", e.lines().take(2).collect::<Vec<_>>().join(" "))));
            }
            if let Ok(u) = UnixStream::connect(s.dir.join("rpc")) {
                u.set_read_timeout(Some(PATIENCE)).unwrap();
                s.rpc = Some(BufReader::new(u));
                break;
            }
            if start.elapsed() > PATIENCE {
                panic!("the program neither started serving nor ended");
            }
            std::thread::sleep(Duration::from_micros(500));
        }
        if let Some(l) = l {
            let (mut u, _) = l.accept().expect("stream");
            u.set_read_timeout(Some(PATIENCE)).unwrap();
            let mut n = [0; 4];
            u.read_exact(&mut n).expect("subscription");
            let mut b = vec![0; u32::from_le_bytes(n) as usize];
            u.read_exact(&mut b).expect("subscription");
            s.stream = Some(u);
        }
        Ok(s)
    }
    fn call(&mut self, method: &str, params: Value) -> Result<Value, Violation> {
        let rpc = self.rpc.as_mut().unwrap();
        let q = json!({ "method": method, "params": params });
        let mut line = serde_json::to_vec(&q).unwrap();
        line.push(b'\n');
        let mut got = String::new();
        if rpc.get_mut().write_all(&line).is_err() || !matches!(rpc.read_line(&mut got), Ok(n) if n > 0) {
            if let Ok(Some(st)) = self.child.try_wait() {
                return Err(viol!("the program ended ({st}) on {q}"));
            }
            panic!("no answer to {q}");
        }
        let v: Value = serde_json::from_str(&got).expect("answer");
        if v.get("panic").is_some() {
            let e = std::fs::read_to_string(self.dir.join("stderr")).unwrap_or_default();
            return Err(viol!("{q} panicked: {}", e.lines().take(2).collect::<Vec<_>>().join(" ")));
        }
        Ok(v)
    }
    fn send(&mut self, m: &Message) {
        let b = bincode::serialize(m).unwrap();
        let s = self.stream.as_mut().unwrap();
        let mut f = (b.len() as u32).to_le_bytes().to_vec();
        f.extend(b);
        s.write_all(&f).expect("stream");
    }
    fn account(&mut self, pk: Pubkey, v: &Ver) {
        self.send(&Message::AccountMsg(qa::Account {
            slot_identifier: qa::SlotIdentifier { slot: v.slot },
            pubkey: pk,
            owner: v.owner,
            lamports: v.lamports,
            executable: v.executable,
            rent_epoch: v.rent_epoch,
            write_version: v.wv,
            data: v.data.clone(),
            compression_type: CompressionType::None,
            data_length: v.data.len() as u64,
        }));
    }
    /// Returns when everything sent before has been taken.
    fn flush(&mut self) -> Result<(), Violation> {
        self.beat += 1;
        let mut d = vec![0u8; 165];
        d[64..72].copy_from_slice(&self.beat.to_le_bytes());
        d[108] = 1;
        let pk = self.sentinel;
        let v = Ver { slot: SENTINEL_SLOT, wv: self.beat, lamports: 1, owner: programs()[0], data: d, executable: false, rent_epoch: 0 };
        self.account(pk, &v);
        let start = Instant::now();
        loop {
            let a = self.call("getAccountInfo", json!([pk.to_string(), { "commitment": "processed", "encoding": "base64", "dataSlice": { "offset": 64, "length": 8 } }]))?;
            if let Some(s) = a["result"]["value"]["data"][0].as_str() {
                if base64::engine::general_purpose::STANDARD.decode(s).unwrap() == self.beat.to_le_bytes() {
                    return Ok(());
                }
            }
            if start.elapsed() > Duration::from_secs(20) {
                let e = std::fs::read_to_string(self.dir.join("stderr")).unwrap_or_default();
                return Err(viol!("a streamed update of an ordinary token account is still not shown at processed after 20 s and {} answers; {}", self.beat, e.lines().take(2).collect::<Vec<_>>().join(" ")));
            }
            std::thread::sleep(Duration::from_micros(100));
        }
    }
}
/// Newer than every slot of the histories, so what is written there is always shown as processed.
const SENTINEL_SLOT: u64 = u64::MAX - 1;

fn rpc_commitment(c: Commitment) -> &'static str {
    match c {
        Commitment::Processed => "processed",
        Commitment::Confirmed => "confirmed",
        Commitment::Finalized => "finalized",
    }
}

/// An account as the RPC interface shows it: everything but its pubkey and versions.
#[derive(Debug)]
struct Shown {
    lamports: u64,
    owner: Pubkey,
    executable: bool,
    rent_epoch: u64,
    space: u64,
    /// None: shown in a form that does not carry the bytes
    data: Option<Vec<u8>>,
}
fn shown(v: &Value) -> Result<Shown, Violation> {
    let bad = || viol!("not an account: {v}");
    let b64 = base64::engine::general_purpose::STANDARD;
    let data = match &v["data"] {
        Value::Array(a) => {
            let s = a[0].as_str().ok_or_else(bad)?;
            match a[1].as_str().ok_or_else(bad)? {
                "base64" => Some(b64.decode(s).map_err(|_| bad())?),
                "base58" if s.starts_with("error") => None,
                "base58" => Some(bs58::decode(s).into_vec().map_err(|_| bad())?),
                "base64+zstd" => Some(zstd::stream::decode_all(&b64.decode(s).map_err(|_| bad())?[..]).map_err(|_| bad())?),
                _ => return Err(bad()),
            }
        }
        _ => None,
    };
    Ok(Shown {
        lamports: v["lamports"].as_u64().ok_or_else(bad)?,
        owner: v["owner"].as_str().and_then(|x| x.parse().ok()).ok_or_else(bad)?,
        executable: v["executable"].as_bool().ok_or_else(bad)?,
        rent_epoch: v["rentEpoch"].as_u64().ok_or_else(bad)?,
        space: v["space"].as_u64().ok_or_else(bad)?,
        data,
    })
}

/// How the data is asked for.
#[derive(Clone, Debug)]
struct Form {
    encoding: Option<&'static str>,
    slice: Option<(usize, usize)>,
}
impl Form {
    const PLAIN: Form = Form { encoding: Some("base64"), slice: None };
    fn random(r: &mut Rng) -> Form {
        Form {
            encoding: *r.pick(&[None, Some("base64"), Some("base64"), Some("base58"), Some("base64+zstd"), Some("jsonParsed")]),
            slice: r.pct(40).then(|| (*r.pick(&[0usize, 0, 1, 32, 64, 100, 164, 165, 166, 5000]), *r.pick(&[0usize, 1, 8, 32, 100, 128, 129, 5000]))),
        }
    }
    fn put(&self, cfg: &mut Value) {
        if let Some(e) = self.encoding {
            cfg["encoding"] = json!(e);
        }
        if let Some((o, l)) = self.slice {
            cfg["dataSlice"] = json!({ "offset": o, "length": l });
        }
    }
    fn check(&self, got: &Value, v: &Ver) -> Result<(), Violation> {
        let g = shown(got)?;
        let full = canonical(&v.owner, &v.data);
        if g.owner != v.owner || g.executable != v.executable || g.space != full.len() as u64 {
            return Err(viol!("owner, executable flag or size differ: {got}, expected {}", v.short()));
        }
        if g.lamports == 0 || (kind_of(&v.owner, &v.data) != Some(Kind::Token) && g.lamports != v.lamports) {
            return Err(viol!("{} lamports instead of {}", g.lamports, v.lamports));
        }
        let part = |d: &[u8]| match self.slice {
            // a parsed account is shown whole
            Some((o, l)) => d[o.min(d.len())..o.saturating_add(l).min(d.len())].to_vec(),
            None => d.to_vec(),
        };
        match &g.data {
            Some(d) => {
                let want = part(&full);
                if *d != want {
                    return Err(viol!("{} bytes of data instead of {} ({self:?}); {d:?} {want:?}", d.len(), want.len()));
                }
                let form = got["data"][1].as_str().unwrap();
                if self.encoding.unwrap_or("base64") != form && self.encoding != Some("jsonParsed") {
                    return Err(viol!("data shown as {form} instead of {self:?}"));
                }
            }
            None if self.encoding == Some("base58") => {
                // what the public encoder refuses depends on the whole size
                if full.len() <= 128 {
                    return Err(viol!("data of {} bytes refused as base58", part(&full).len()));
                }
            }
            None if self.encoding == Some("jsonParsed") => {
                // parsed by the public decoder: the type must be right
                let t = got["data"]["parsed"]["type"].as_str().unwrap_or("");
                let want = match kind_of(&v.owner, &v.data) {
                    Some(Kind::Mint) => "mint",
                    Some(Kind::Token) => "account",
                    _ => "multisig",
                };
                if t != want {
                    return Err(viol!("parsed as '{t}' instead of '{want}'"));
                }
            }
            None => return Err(viol!("no data shown: {got}")),
        }
        Ok(())
    }
}

fn rpc_filters(r: &mut Rng, fs: &[AccountFilterType]) -> Value {
    json!(fs
        .iter()
        .map(|f| match f {
            AccountFilterType::Datasize(n) => json!({ "dataSize": n }),
            AccountFilterType::Memcmp(m) => {
                let b = match &m.data {
                    MemcmpFilterData::Bytes(b) => b.clone(),
                    _ => unreachable!(),
                };
                match r.below(3) {
                    0 => json!({ "memcmp": { "offset": m.offset, "bytes": b } }),
                    1 => json!({ "memcmp": { "offset": m.offset, "bytes": bs58::encode(b).into_string(), "encoding": "base58" } }),
                    _ => json!({ "memcmp": { "offset": m.offset, "bytes": base64::engine::general_purpose::STANDARD.encode(b), "encoding": "base64" } }),
                }
            }
        })
        .collect::<Vec<_>>())
}

// ------------------------------------------------------------------ looking at everything
fn look(sim: &mut Sim, model: &TModel, pk: &Pubkey, cm: Commitment, form: &Form, c: &mut Counters) -> Result<(), Violation> {
    let mut cfg = json!({});
    form.put(&mut cfg);
    if cm != Commitment::Finalized || pk.to_bytes()[0] & 1 == 0 {
        cfg["commitment"] = json!(rpc_commitment(cm));
    }
    let what = format!("getAccountInfo of {pk} with {cfg}");
    let a = sim.call("getAccountInfo", json!([pk.to_string(), cfg]))?;
    let Some(res) = a.get("result") else { return Err(viol!("{what} refused: {a}")) };
    let view = model.view(pk, cm);
    c.add("lookups", 1);
    match (res["value"].is_null(), view.ver()) {
        (true, None) => {}
        (true, Some(v)) => return Err(viol!("{what}: absent instead of {}", v.short())),
        (false, None) => return Err(viol!("{what}: shown although it must be absent: {}", res["value"])),
        (false, Some(v)) => {
            form.check(&res["value"], v).map_err(|e| viol!("{what}: {}", e.message))?;
            c.add("accounts_shown", 1);
            if let View::Pending(v) = view {
                if res["context"]["slot"].as_u64() != Some(v.slot) {
                    return Err(viol!("{what}: slot {} instead of {}", res["context"]["slot"], v.slot));
                }
            }
        }
    }
    Ok(())
}

fn query(sim: &mut Sim, model: &TModel, pks: &[Pubkey], prog: Pubkey, filters: &Option<Vec<AccountFilterType>>, must: bool, cm: Commitment, form: &Form, r: &mut Rng, c: &mut Counters) -> Result<(), Violation> {
    let mut cfg = json!({});
    form.put(&mut cfg);
    if cm != Commitment::Finalized || r.pct(50) {
        cfg["commitment"] = json!(rpc_commitment(cm));
    }
    if let Some(f) = filters {
        cfg["filters"] = rpc_filters(r, f);
    }
    let ctx = *r.pick(&[None, Some(true), Some(false)]);
    if let Some(x) = ctx {
        cfg["withContext"] = json!(x);
    }
    let bare = cfg == json!({});
    let what = format!("getProgramAccounts of {prog} with {cfg}");
    let a = sim.call("getProgramAccounts", if bare && r.pct(50) { json!([prog.to_string()]) } else { json!([prog.to_string(), cfg]) })?;
    let Some(res) = a.get("result") else {
        if must {
            return Err(viol!("{what} refused: {a}"));
        }
        c.add("queries_refused", 1);
        return Ok(());
    };
    let list = if ctx == Some(true) { &res["value"] } else { res };
    let Some(list) = list.as_array() else { return Err(viol!("{what}: not a list: {a}")) };
    c.add("queries_answered", 1);
    let mut want: BTreeMap<Pubkey, &Ver> = BTreeMap::new();
    let views: Vec<(Pubkey, View)> = pks.iter().map(|pk| (*pk, model.view(pk, cm))).collect();
    for (pk, v) in &views {
        if let Some(x) = v.ver() {
            if x.owner == prog && all_match(filters, &canonical(&x.owner, &x.data)) {
                want.insert(*pk, x);
            }
        }
    }
    c.add("query_accounts", want.len() as u64);
    for g in list {
        let pk: Pubkey = g["pubkey"].as_str().and_then(|x| x.parse().ok()).ok_or_else(|| viol!("{what}: no pubkey: {g}"))?;
        if pk == sim.sentinel {
            continue;
        }
        let Some(v) = want.remove(&pk) else { return Err(viol!("{what} returned {pk} twice or although it does not match: {g}")) };
        form.check(&g["account"], v).map_err(|e| viol!("{what}: account {pk}: {}", e.message))?;
    }
    if let Some((pk, v)) = want.into_iter().next() {
        return Err(viol!("{what} misses {pk} ({})", v.short()));
    }
    Ok(())
}

// ------------------------------------------------------------------ worlds
struct Start {
    vecs: Vec<Vecs>,
    slot: u64,
    pks: Vec<Pubkey>,
    model: TModel,
    superseded: u64,
    closed: u64,
}

/// A snapshot in which `newest` (or something made up) is the newest version of every account.
fn gen_snapshot(r: &mut Rng, w: &TWorld, below: u64, tidy: bool) -> Start {
    let nslots = 1 + r.below(6);
    let slots: Vec<u64> = (0..nslots).map(|i| below.saturating_sub(2 * nslots) + 2 * i + 1).collect();
    let mut by_slot: BTreeMap<u64, Vec<Rec>> = BTreeMap::new();
    let mut pool: Vec<(Pubkey, Vec<Ver>)> = vec![];
    for (i, pk) in w.pks.iter().enumerate() {
        let vs: Vec<Ver> = w
            .ops
            .iter()
            .filter_map(|o| match o {
                TOp::Init { acc, ver } | TOp::Update { acc, ver, .. } if *acc == i => Some(ver.clone()),
                _ => None,
            })
            .filter(|v| v.lamports > 0 && v.owner == programs()[0] && kind_of(&v.owner, &v.data).is_some())
            .collect();
        if !vs.is_empty() && r.pct(80) {
            pool.push((*pk, vs));
        }
    }
    let (mut model, mut superseded, mut closed) = (TModel::default(), 0, 0);
    let mut pks = w.pks.clone();
    let rec = |r: &mut Rng, pk: Pubkey, ver: Ver| Rec { pk, ver, version: if r.pct(50) { 0 } else { r.next() }, hash: r.bytes(32).try_into().unwrap() };
    for (pk, vs) in pool {
        let n = if tidy { 1 } else { 1 + r.usize(3).min(slots.len() - 1) };
        let mut at = slots.clone();
        r.shuffle(&mut at);
        at.truncate(n);
        at.sort();
        for (k, s) in at.iter().enumerate() {
            let mut v = r.pick(&vs).clone();
            v.slot = *s;
            if k + 1 == n && n > 1 && r.pct(20) {
                // closed: what remains is an empty account
                v = Ver { slot: *s, wv: 0, lamports: 0, owner: Pubkey::default(), data: vec![], executable: false, rent_epoch: 0 };
                closed += 1;
            }
            if k + 1 == n && live(&v) && kind_of(&v.owner, &v.data).is_some() {
                model.fin.insert(pk, v.clone());
            }
            superseded += u64::from(k + 1 < n);
            let x = rec(r, pk, v);
            by_slot.entry(*s).or_default().push(x);
        }
    }
    // accounts that are none of the program's business
    for _ in 0..r.below(6) {
        let pk = Pubkey::new_from_array(r.bytes(32).try_into().unwrap());
        let s = *r.pick(&slots);
        let n = r.usize(200);
        let v = Ver { slot: s, wv: 0, lamports: 1 + r.below(5), owner: Pubkey::new_from_array([3; 32]), data: r.bytes(n), executable: r.pct(30), rent_epoch: r.next() };
        pks.push(pk);
        let x = rec(r, pk, v);
        by_slot.entry(s).or_default().push(x);
    }
    let mut vecs = vec![];
    let mut id = r.below(50);
    for (slot, mut recs) in by_slot {
        r.shuffle(&mut recs);
        while !recs.is_empty() {
            let k = if r.pct(60) { recs.len() } else { 1 + r.usize(recs.len()) };
            id += 1 + r.below(3);
            vecs.push(Vecs { slot, id, recs: recs.drain(..k).collect(), spare: *r.pick(&[0usize, 0, 8, 100, 4096]) });
        }
    }
    r.shuffle(&mut vecs);
    Start { vecs, slot: below.max(1), pks, model, superseded, closed }
}

fn snapshot_text(s: &Start) -> Vec<String> {
    s.vecs
        .iter()
        .map(|v| format!("accounts/{}.{}: {}", v.slot, v.id, v.recs.iter().map(|r| format!("{} ({})", r.pk, r.ver.short())).collect::<Vec<_>>().join(", ")))
        .collect()
}

fn world(r: &mut Rng, f: impl Fn(&mut TProfile)) -> TWorld {
    loop {
        let mut p = TProfile::random(r);
        p.slots = p.slots.min(20);
        p.lag = p.lag.min(2000);
        // every slot of the chain is notified, and no bytes without meaning
        p.skip_pct = 0;
        p.stale_pct = 0;
        f(&mut p);
        let w = gen_token_world(r, &p);
        if w.ops.iter().any(|o| matches!(o, TOp::Slot { slot, .. } if *slot >= 100)) && w.ops.iter().all(|o| !matches!(o, TOp::Slot { slot, .. } if *slot < 100)) {
            return w;
        }
    }
}
fn first_slot(w: &TWorld) -> u64 {
    w.ops.iter().filter_map(|o| match o { TOp::Slot { slot, .. } => Some(*slot), TOp::Update { ver, .. } if ver.slot > 0 => Some(ver.slot), _ => None }).min().unwrap()
}

// ------------------------------------------------------------------ C29
fn c29_case(ctx: &Ctx, seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let w = world(&mut r, |p| {
        p.accounts += 8;
        p.writes += 6;
        p.close_pct = p.close_pct.min(10);
    });
    let s = gen_snapshot(&mut r, &w, first_slot(&w) - 1, false);
    let damage = if r.pct(45) && s.vecs.iter().any(|v| !v.recs.is_empty()) { *r.pick(&DAMAGES) } else { Damage::None };
    let a = archive(&mut r, &s.vecs, s.slot, damage);
    let mut log = snapshot_text(&s);
    log.push(format!("damage: {damage:?}"));
    let mut c = Counters::default();
    match Sim::start(&a, false) {
        Err((true, m)) => return Err(Violation::with(format!("loading an archive ({damage:?}) killed the program or made it end without a word: {m}"), log)),
        Err((false, m)) if damage == Damage::None => return Err(Violation::with(format!("an intact archive is refused: {m}"), log)),
        Err(_) => c.add("damaged_archives_refused", 1),
        Ok(mut sim) => {
            if damage == Damage::None {
                c.add("archives_loaded", 1);
                c.add("superseded_versions", s.superseded);
                c.add("closed_accounts", s.closed);
            } else {
                c.add("harmless_damage", 1);
            }
            (|| {
                for pk in &s.pks {
                    look(&mut sim, &s.model, pk, COMMITMENTS[r.usize(3)], &Form::PLAIN, &mut c)?;
                }
                let cm = COMMITMENTS[r.usize(3)];
                query(&mut sim, &s.model, &s.pks, programs()[0], &Some(vec![AccountFilterType::Datasize(82)]), true, cm, &Form::PLAIN, &mut r, &mut c)
            })()
            .map_err(|v| Violation::with(if damage == Damage::None { v.message } else { format!("an archive with damage ({damage:?}) is served as if it were intact: {}", v.message) }, log.clone()))?;
        }
    }
    ctx.merge(&c);
    let sample = ctx.wants_sample().then(|| log.join(" | ").chars().take(900).collect());
    Ok(CaseOk { nontrivial: c.get("accounts_shown") > 0 || c.get("damaged_archives_refused") > 0, fingerprint: hash_of(&log), sample })
}

/// Every record of a snapshot, whoever owns it, through each of the readers.
fn records_case(ctx: &Ctx, seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let w = world(&mut r, |p| p.accounts += 4);
    let s = gen_snapshot(&mut r, &w, first_slot(&w) - 1, false);
    let is_archive = r.pct(50);
    let mut damage = if r.pct(45) && !s.vecs.is_empty() { *r.pick(&DAMAGES) } else { Damage::None };
    if !is_archive && matches!(damage, Damage::ManifestLast | Damage::Truncated | Damage::NotAnArchive) {
        damage = Damage::None;
    }
    let dir = scratch();
    struct Gone(PathBuf);
    impl Drop for Gone {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    let _gone = Gone(dir.clone());
    let path = if is_archive {
        std::fs::write(dir.join("a.tar.zst"), archive(&mut r, &s.vecs, s.slot, damage)).expect("scratch");
        dir.join("a.tar.zst")
    } else {
        unpacked(&mut r, &dir, &s.vecs, s.slot, damage);
        dir.clone()
    };
    let mut cmd = Command::new(std::env::var("SIM_BIN").expect("SIM_BIN").replace("lam-sim", "lam-probe"));
    cmd.arg(if is_archive { "archive" } else { "unpacked" }).arg(&path);
    let tasks = r.pct(40).then(|| 1 + r.below(5));
    if let Some(n) = tasks {
        cmd.arg(n.to_string());
    }
    let out = cmd.current_dir(&dir).stdin(Stdio::null()).output().expect("run the reader");
    let mut log = snapshot_text(&s);
    log.push(format!("{cmd:?}, damage: {damage:?}"));
    let err = String::from_utf8_lossy(&out.stderr).lines().take(2).collect::<Vec<_>>().join(" ");
    let mut c = Counters::default();
    match out.status.code() {
        Some(0) => {
            let mut want: Vec<String> = s
                .vecs
                .iter()
                .flat_map(|v| v.recs.iter().map(move |x| (v.slot, x)))
                .map(|(slot, x)| {
                    let hex: String = x.ver.data.iter().map(|b| format!("{b:02x}")).collect();
                    format!(
                        "{slot} {} {} {} {} {} {} {} {hex}",
                        x.pk, x.version, x.ver.lamports, x.ver.rent_epoch, x.ver.owner, u8::from(x.ver.executable), solana_sdk::hash::Hash::new_from_array(x.hash)
                    )
                })
                .collect();
            let mut got: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(|x| x.to_string()).collect();
            want.sort();
            got.sort();
            if want != got {
                let a: Vec<&String> = want.iter().filter(|x| !got.contains(x)).collect();
                let b: Vec<&String> = got.iter().filter(|x| !want.contains(x)).collect();
                let m = format!("{} records are read from a snapshot ({damage:?}) that holds {}; missing {:?}, made up {:?}", got.len(), want.len(), a.first(), b.first());
                return Err(Violation::with(m, log));
            }
            c.add(if damage == Damage::None { "snapshots_read" } else { "harmless_damage" }, 1);
            c.add("records_read", got.len() as u64);
            c.add(if is_archive { "from_archives" } else { "from_directories" }, 1);
            c.add("read_in_parallel", u64::from(tasks.is_some()));
        }
        Some(1) if damage != Damage::None => c.add("damaged_snapshots_refused", 1),
        _ => return Err(Violation::with(format!("reading a snapshot ({damage:?}) ends with {}: {err}", out.status), log)),
    }
    ctx.merge(&c);
    let sample = ctx.wants_sample().then(|| log.join(" | ").chars().take(900).collect());
    Ok(CaseOk { nontrivial: c.get("records_read") > 0 || c.get("damaged_snapshots_refused") > 0, fingerprint: hash_of(&log), sample })
}

// ------------------------------------------------------------------ C34
const ASAN_EXIT: i32 = 99;
fn asan_probe() -> Command {
    let mut cmd = Command::new(std::env::var("ASAN_BIN").expect("ASAN_BIN"));
    cmd.env("ASAN_OPTIONS", format!("exitcode={ASAN_EXIT}:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:symbolize=0")).stdin(Stdio::null());
    cmd
}

/// Any bytes at all in the account files and any lengths in the list of files, read under the address sanitizer.
fn memory_case(ctx: &Ctx, seed: u64) -> CaseResult {
    let mut r = Rng::new(seed);
    let w = world(&mut r, |p| p.accounts += 4);
    let mut s = gen_snapshot(&mut r, &w, first_slot(&w) - 1, false);
    s.vecs.truncate(1 + r.usize(6));
    let is_archive = r.pct(50);
    let mut edits = vec![];
    let hostile = |r: &mut Rng, len: usize| {
        let len = len as u64;
        *r.pick(&[0u64, 1, 7, 8, 47, 95, 96, 135, 136, 137, len, len + 1, len + 8, len.wrapping_sub(1), len.wrapping_sub(136), len.wrapping_sub(96), 1 << 20, 1 << 31, 1 << 32, 1 << 63, u64::MAX, u64::MAX - 7, u64::MAX - 136])
    };
    let mut entries: BTreeMap<u64, Vec<(u64, u64)>> = BTreeMap::new();
    let mut files = vec![];
    for v in &s.vecs {
        let (mut b, mut len, at) = vec_bytes(v);
        for _ in 0..r.below(5) {
            if b.is_empty() {
                break;
            }
            match r.below(7) {
                0 | 1 if !at.is_empty() => {
                    // the length of a record
                    let a = r.pick(&at).start;
                    if a + 16 <= b.len() {
                        let left = len.saturating_sub(a + 136);
                        let n = hostile(&mut r, left);
                        b[a + 8..a + 16].copy_from_slice(&n.to_le_bytes());
                        edits.push(format!("{}.{}: the data length at {a} is {n}", v.slot, v.id));
                    }
                }
                2 => {
                    let i = r.usize(b.len());
                    b[i] = r.next() as u8;
                    edits.push(format!("{}.{}: byte {i} is {}", v.slot, v.id, b[i]));
                }
                3 => {
                    b.truncate(r.usize(b.len() + 1));
                    edits.push(format!("{}.{}: cut to {}", v.slot, v.id, b.len()));
                }
                4 => {
                    let i = r.usize(b.len());
                    let n = 1 + r.usize(200).min(b.len() - i - 1);
                    for x in &mut b[i..i + n] {
                        *x = r.next() as u8;
                    }
                    edits.push(format!("{}.{}: noise at {i}..{}", v.slot, v.id, i + n));
                }
                5 => {
                    len = hostile(&mut r, b.len()) as usize;
                    edits.push(format!("{}.{}: listed with {len} bytes", v.slot, v.id));
                }
                _ => {
                    len = r.usize(b.len() + 200);
                    edits.push(format!("{}.{}: listed with {len} bytes", v.slot, v.id));
                }
            }
        }
        entries.entry(v.slot).or_default().push((v.id, len as u64));
        files.push((format!("accounts/{}.{}", v.slot, v.id), b));
    }
    let mut m = manifest(&entries, s.slot, r.pct(70));
    if r.pct(10) {
        for _ in 0..1 + r.below(3) {
            let i = r.usize(m.len());
            let any = r.next() as u8;
            m[i] = *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, any]);
            edits.push(format!("manifest: byte {i} is {}", m[i]));
        }
    }
    files.insert(0, (format!("snapshots/{0}/{0}", s.slot), m));
    files.insert(0, ("snapshots/status_cache".into(), vec![0; 8]));
    let dir = scratch();
    struct Gone(PathBuf);
    impl Drop for Gone {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    let _gone = Gone(dir.clone());
    let path = if is_archive {
        let mut t = vec![];
        for (n, b) in &files {
            tar_entry(&mut t, n, b);
        }
        t.resize(t.len() + 1024, 0);
        std::fs::write(dir.join("a.tar.zst"), zstd::stream::encode_all(&t[..], 1).unwrap()).expect("scratch");
        dir.join("a.tar.zst")
    } else {
        std::fs::create_dir_all(dir.join("accounts")).expect("scratch");
        for (n, b) in &files {
            let p = dir.join(n);
            std::fs::create_dir_all(p.parent().unwrap()).expect("scratch");
            std::fs::write(p, b).expect("scratch");
        }
        dir.clone()
    };
    let mut cmd = asan_probe();
    cmd.arg(if is_archive { "archive" } else { "unpacked" }).arg(&path);
    let tasks = r.pct(30).then(|| 1 + r.below(5));
    if let Some(n) = tasks {
        cmd.arg(n.to_string());
    }
    let out = cmd.current_dir(&dir).output().expect("run the reader");
    let mut log = snapshot_text(&s);
    log.extend(edits.clone());
    log.push(format!("{}{}", if is_archive { "archive" } else { "directory" }, tasks.map_or(String::new(), |n| format!(" read by {n} tasks"))));
    let err = String::from_utf8_lossy(&out.stderr).lines().filter(|l| !l.trim().is_empty() && !l.starts_with("====")).take(3).collect::<Vec<_>>().join(" ");
    let mut c = Counters::default();
    let lines: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().map(|x| x.to_string()).collect();
    match out.status.code() {
        Some(0) => {
            // a boolean made of any other byte is undefined behaviour as well
            if let Some(l) = lines.iter().find(|l| !matches!(l.split(' ').nth(6), Some("0" | "1"))) {
                return Err(Violation::with(format!("a record with an impossible boolean is handed out: {}", l.chars().take(200).collect::<String>()), log));
            }
            c.add(if edits.is_empty() { "intact_read" } else { "damaged_read" }, 1);
            c.add("records_read", lines.len() as u64);
        }
        Some(1) if !edits.is_empty() => c.add("damaged_refused", 1),
        Some(ASAN_EXIT) => return Err(Violation::with(format!("the address sanitizer reports: {err}"), log)),
        _ => return Err(Violation::with(format!("reading a snapshot ends with {}: {err}", out.status), log)),
    }
    c.add(if is_archive { "from_archives" } else { "from_directories" }, 1);
    c.add("read_in_parallel", u64::from(tasks.is_some()));
    c.add("edits", edits.len() as u64);
    ctx.merge(&c);
    let sample = ctx.wants_sample().then(|| log.join(" | ").chars().take(900).collect());
    Ok(CaseOk { nontrivial: true, fingerprint: hash_of(&log), sample })
}

/// The sanitizer must see a read just outside a map, or the check would be blind.
fn sanitizer_is_awake(ctx: &Ctx) {
    let out = asan_probe().arg("selftest").arg("-").output().expect("run the reader");
    if out.status.code() == Some(ASAN_EXIT) {
        let mut c = Counters::default();
        c.add("sanitizer_selftest", 1);
        ctx.merge(&c);
    }
}

// ------------------------------------------------------------------ C30, C31
fn follow_case(ctx: &Ctx, seed: u64, queries: bool) -> CaseResult {
    let mut r = Rng::new(seed);
    let w = world(&mut r, |_| ());
    let s = gen_snapshot(&mut r, &w, first_slot(&w) - 1, true);
    let mut log = snapshot_text(&s);
    let a = archive(&mut r, &s.vecs, s.slot, Damage::None);
    let mut c = Counters::default();
    let mut model = s.model.clone();
    let mut sim = Sim::start(&a, true).map_err(|(_, m)| Violation::with(format!("an intact archive is refused: {m}"), log.clone()))?;
    let run = (|| -> Result<(), Violation> {
        for op in &w.ops {
            match op {
                TOp::Init { .. } => continue,
                TOp::Update { ver, .. } if ver.slot == 0 => continue,
                TOp::Update { acc, ver, .. } => {
                    model.update(w.pks[*acc], ver, Commitment::Processed);
                    sim.account(w.pks[*acc], ver);
                    c.add("updates_streamed", 1);
                }
                TOp::Slot { slot, parent, commit } => {
                    let cfg = match commit {
                        Commitment::Processed => CommitmentConfig::processed(),
                        Commitment::Confirmed => CommitmentConfig::confirmed(),
                        Commitment::Finalized => CommitmentConfig::finalized(),
                    };
                    if *commit != Commitment::Processed {
                        model.slot(*slot, *parent, *commit);
                    }
                    sim.send(&Message::SlotMsg(SlotMeta { slot: *slot, parent: *parent, commitment_config: cfg }));
                    c.add("slots_streamed", 1);
                }
            }
            log.push(top_text(&w, op));
            if r.pct(if queries { 25 } else { 60 }) {
                sim.flush()?;
                if queries {
                    for _ in 0..3 {
                        rpc_request(&mut sim, &model, &w, &s.pks, &mut r, &mut c)?;
                    }
                } else {
                    for pk in &w.pks {
                        look(&mut sim, &model, pk, COMMITMENTS[r.usize(3)], &Form::PLAIN, &mut c)?;
                    }
                }
            }
        }
        sim.flush()?;
        for pk in &s.pks {
            for cm in COMMITMENTS {
                look(&mut sim, &model, pk, cm, &Form::PLAIN, &mut c)?;
            }
        }
        Ok(())
    })();
    run.map_err(|v| Violation::with(v.message, log.clone()))?;
    ctx.merge(&c);
    let sample = ctx.wants_sample().then(|| log.join(" | ").chars().take(900).collect());
    Ok(CaseOk { nontrivial: c.get("accounts_shown") > 0 && c.get("updates_streamed") > 0, fingerprint: hash_of(&log), sample })
}

fn rpc_request(sim: &mut Sim, model: &TModel, w: &TWorld, pks: &[Pubkey], r: &mut Rng, c: &mut Counters) -> Result<(), Violation> {
    let cm = COMMITMENTS[r.usize(3)];
    match r.below(10) {
        0..=3 => {
            let (p, f, must) = gen_query(r, w, model);
            let form = Form::random(r);
            query(sim, model, pks, p, &f, must, cm, &form, r, c)
        }
        4..=7 => {
            let form = Form::random(r);
            look(sim, model, r.pick(pks), cm, &form, c)
        }
        8 => {
            // requests that name no account
            let key = r.pick(&["", "x", "0OIl", "11111111111111111111111111111111111111111111111", "Tokenkeg"]).to_string();
            let m = *r.pick(&["getAccountInfo", "getProgramAccounts", "getSnapshot"]);
            let a = sim.call(m, json!([key]))?;
            if a.get("error").is_none() {
                return Err(viol!("{m} of '{key}' is answered: {a}"));
            }
            c.add("malformed_refused", 1);
            // conditions that cannot be decoded match nothing
            let bad = json!({ "filters": [{ "dataSize": 165 }, { "memcmp": { "offset": 0, "bytes": r.pick(&["0OIl", "*", "a b"]).to_string(), "encoding": r.pick(&["base58", "base64"]).to_string() } }] });
            let a = sim.call("getProgramAccounts", json!([programs()[0].to_string(), bad]))?;
            if a["result"].as_array().map_or(false, |x| !x.is_empty()) {
                return Err(viol!("an undecodable condition selects accounts: {bad} {a}"));
            }
            Ok(())
        }
        _ => {
            // a snapshot is a snapshot of the finalized accounts
            let prog = programs()[r.usize(2)];
            let a = sim.call("getSnapshot", json!([prog.to_string()]))?;
            let Some(b) = a["result"].as_str() else { return Err(viol!("getSnapshot refused: {a}")) };
            let b = base64::engine::general_purpose::STANDARD.decode(b).map_err(|_| viol!("getSnapshot: not base64"))?;
            let store = new_token_store();
            use lite_account_manager_common::account_store_interface::AccountStorageInterface;
            lib("load_from_snapshot", || store.load_from_snapshot(prog, b))?.map_err(|e| viol!("the snapshot cannot be loaded: {e:?}"))?;
            let mut fin = TModel { fin: model.fin.clone(), ..Default::default() };
            fin.fin.retain(|_, v| v.owner == prog);
            for pk in pks {
                let got = lib("get_account", || store.get_account(*pk, Commitment::Finalized))?.map_err(|e| viol!("lookup refused: {e:?}"))?;
                if got.as_ref().map_or(false, |g| g.account.owner != prog) {
                    continue;
                }
                same_view(&got, &fin.view(pk, Commitment::Finalized)).map_err(|e| viol!("snapshot: account {pk}: {e}"))?;
            }
            c.add("snapshots_restored", 1);
            Ok(())
        }
    }
}

pub fn checks() -> Vec<crate::Check> {
    vec![
        crate::Check {
            id: "C29",
            run: |ctx| {
                set_cases_single_threaded(false);
                drive(ctx, "records", ctx.n(3000, 80_000), ctx.n(60, 300), 8, records_case);
                drive(ctx, "load", ctx.n(2000, 60_000), ctx.n(60, 500), 8, c29_case);
            },
            rule: "one case = one generated snapshot (several versions per account, intact or with one structural damage) read record by record from archive or directory, or loaded by the whole program; non-trivial: records or accounts were seen, or damage was refused",
            min_nontrivial: 200,
            must_see: &["records_read", "from_archives", "from_directories", "read_in_parallel", "damaged_snapshots_refused", "archives_loaded", "damaged_archives_refused", "superseded_versions", "closed_accounts", "accounts_shown"],
            assumptions: &["stand-ins replace crates that are not available offline: tar reading, bank fields of the manifest, transport of RPC and stream"],
        },
        crate::Check {
            id: "C34",
            run: |ctx| {
                set_cases_single_threaded(false);
                sanitizer_is_awake(ctx);
                drive(ctx, "memory", ctx.n(3000, 80_000), ctx.n(60, 500), 8, memory_case);
            },
            rule: "one case = one snapshot with up to four hostile edits per account file (record lengths, noise, cuts, listed lengths) and of the manifest, read to the end by the real readers compiled with the address sanitizer, maps being heap blocks of exact size",
            min_nontrivial: 500,
            must_see: &["sanitizer_selftest", "intact_read", "damaged_read", "damaged_refused", "records_read", "from_archives", "from_directories", "read_in_parallel"],
            assumptions: &["stand-ins for tar and memmap2 (heap blocks of exactly the mapped length); maps of more than 1 GiB are refused by the stand-in"],
        },
        crate::Check {
            id: "C30",
            run: |ctx| {
                set_cases_single_threaded(false);
                drive(ctx, "rpc", ctx.n(2500, 60_000), ctx.n(60, 500), 8, |ctx, seed| follow_case(ctx, seed, true));
            },
            rule: "one case = a running program with a snapshot and a stream, asked in random forms; non-trivial: accounts were shown after streamed updates",
            min_nontrivial: 100,
            must_see: &["queries_answered", "query_accounts", "lookups", "accounts_shown", "malformed_refused", "snapshots_restored"],
            assumptions: &["as C29; stream data is not compressed; commitment of a request without one is finalized"],
        },
        crate::Check {
            id: "C31",
            run: |ctx| {
                set_cases_single_threaded(false);
                drive(ctx, "follow", ctx.n(2500, 60_000), ctx.n(60, 500), 8, |ctx, seed| follow_case(ctx, seed, false));
            },
            rule: "one case = snapshot, then a stream of updates and slots with forks; non-trivial: accounts were shown after streamed updates",
            min_nontrivial: 100,
            must_see: &["updates_streamed", "slots_streamed", "accounts_shown"],
            assumptions: &["as C30; every slot of the chain is notified as confirmed and finalized, in order; the stream starts after loading"],
        },
    ]
}
