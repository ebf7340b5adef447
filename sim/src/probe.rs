//! Prints every account record that the readers of /repo's snapshot code hand out, one line each.
//! usage: lam-probe archive|unpacked PATH [tasks]
#![allow(dead_code, unused_imports)]
#[path = "/repo/simulate_from_snapshot/src/snapshot_utils/mod.rs"]
mod snapshot_utils;

use snapshot_utils::{
    append_vec::AppendVec, append_vec_iter, archived::ArchiveSnapshotExtractor, parallel::{par_iter_append_vecs, AppendVecConsumer}, unpacked::UnpackedSnapshotExtractor,
    ReadProgressTracking, SnapshotExtractor, SnapshotResult,
};
use std::{fs::File, io::Read, path::Path, sync::{Arc, Mutex}};

struct Plain;
impl ReadProgressTracking for Plain {
    fn new_read_progress_tracker(&self, _: &Path, rd: Box<dyn Read>, _: u64) -> SnapshotResult<Box<dyn Read>> {
        Ok(rd)
    }
}

fn lines(v: &AppendVec) -> Vec<String> {
    append_vec_iter(v)
        .map(|h| {
            let a = h.access().expect("a record that was listed");
            let shared = a.clone_account();
            use solana_sdk::account::ReadableAccount;
            assert_eq!(shared.data(), a.data);
            let hex: String = shared.data().iter().map(|b| format!("{b:02x}")).collect();
            let e = unsafe { *(&a.account_meta.executable as *const bool as *const u8) };
            format!(
                "{} {} {} {} {} {} {} {} {hex}",
                v.slot(), a.meta.pubkey, a.meta.write_version_obsolete, shared.lamports(), shared.rent_epoch(), shared.owner(), e, a.hash
            )
        })
        .collect()
}

struct Consumer(Arc<Mutex<Vec<String>>>);
#[async_trait::async_trait]
impl AppendVecConsumer for Consumer {
    async fn on_append_vec(&mut self, v: AppendVec) -> anyhow::Result<()> {
        let l = lines(&v);
        tokio::task::yield_now().await;
        self.0.lock().unwrap().extend(l);
        Ok(())
    }
}

fn read(x: &mut impl SnapshotExtractor, tasks: Option<usize>) -> anyhow::Result<Vec<String>> {
    match tasks {
        None => {
            let mut out = vec![];
            for v in x.iter() {
                out.extend(lines(&v?));
            }
            Ok(out)
        }
        Some(n) => {
            let out = Arc::new(Mutex::new(vec![]));
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).build()?;
            rt.block_on(par_iter_append_vecs(x.iter(), || Consumer(out.clone()), n))?;
            let l = out.lock().unwrap().clone();
            Ok(l)
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "selftest" {
        // reads just outside a map, on purpose
        let m = memmap2::MmapMut::map_anon(24).unwrap();
        let n = std::hint::black_box(24);
        println!("{}", unsafe { *m.as_ptr().add(n) });
        return;
    }
    let tasks = a.get(3).map(|x| x.parse().unwrap());
    let p = Path::new(&a[2]);
    let r = match a[1].as_str() {
        "archive" => ArchiveSnapshotExtractor::<File>::open(p).map_err(Into::into).and_then(|mut x| read(&mut x, tasks)),
        _ => UnpackedSnapshotExtractor::open(p, Box::new(Plain)).map_err(Into::into).and_then(|mut x| read(&mut x, tasks)),
    };
    match r {
        Ok(l) => {
            for x in l {
                println!("{x}");
            }
        }
        Err(e) => {
            eprintln!("error: {e}");
            std::process::exit(1)
        }
    }
}
