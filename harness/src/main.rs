#![recursion_limit = "512"]
//! Executes requests (one JSON object per line on stdin) against the real keride library and
//! answers with one JSON object per line: the observable result of the public call, never a judgement.
mod book;
mod cesr;
mod doc;
mod kel;
mod keys;
mod names;
mod oracle;
mod stream;
mod tholder;
mod values;
mod util;

use serde_json::{json, Value as J};
use std::io::{BufRead, Write};
use std::panic;
use std::sync::atomic::{AtomicU64, Ordering};

/// panics met while answering the request, also those answered for piecemeal
static PANICS: AtomicU64 = AtomicU64::new(0);

fn dispatch(op: &str, r: &J) -> anyhow::Result<J> {
    match op {
        "ping" => Ok(json!({})),
        "matter" => cesr::matter(r),
        "given" => cesr::given(r),
        "bigmatter" => cesr::big_matter(r),
        "names" => names::names(r),
        "indexer" => cesr::indexer(r),
        "counter" => cesr::counter(r),
        "semver" => cesr::semver(r),
        "countb64" => cesr::countb64(r),
        "oracle" => oracle::oracle(r),
        "number" => values::number(r),
        "seqner" => values::seqner(r),
        "dater" => values::dater(r),
        "bexter" => values::bexter(r),
        "json" => doc::jsonop(r),
        "jval" => doc::jval(r),
        "versify" => doc::versify(r),
        "deversify" => doc::deversify(r),
        "sniff" => doc::sniff(r),
        "bigmessage" => doc::big_message(r),
        "sizeify" => doc::sizeify(r),
        "saidify" => doc::saidify(r),
        "saidof" => doc::said_of(r),
        "saidver" => doc::said_verify(r),
        "serder" => doc::serder(r),
        "creder" => doc::creder(r),
        "diger" => keys::diger(r),
        "digver" => keys::digver(r),
        "digcmp" => keys::digcmp(r),
        "prefixer" => keys::prefixer(r),
        "prever" => keys::prever(r),
        "pather" => keys::pather(r),
        "pathop" => keys::pathop(r),
        "resolve" => keys::resolve(r),
        "tail" => keys::tail(r),
        "signer" => keys::signer(r),
        "verify" => keys::verify(r),
        "stretch" => keys::stretch(r),
        "saltsigner" => keys::saltsigner(r),
        "saltsigners" => keys::saltsigners(r),
        "creator" => keys::creator(r),
        "stream" => stream::stream(r),
        "fresh" => keys::fresh(r),
        "newsalt" => keys::newsalt(r),
        "edit" => doc::edit(r),
        "shapes" => doc::shapes(r),
        "kel" => kel::kel(r),
        "book" => book::book(r),
        "barrage" => barrage(r),
        "tholder" => tholder::tholder(r),
        _ => anyhow::bail!(util::BadRequest(format!("unknown op {op}"))),
    }
}

/// the request with the material put in every place marked "@"
fn fill(t: &J, data: &J) -> J {
    match t {
        J::String(s) if s == "@" => data.clone(),
        J::Array(a) => J::Array(a.iter().map(|x| fill(x, data)).collect()),
        J::Object(o) => J::Object(o.iter().map(|(k, v)| (k.clone(), fill(v, data))).collect()),
        x => x.clone(),
    }
}

/// the same outside material given to many readers: one letter each, o answered, e refused,
/// u read but not usable, p panicked, - not expressible (not text)
fn barrage(r: &J) -> anyhow::Result<J> {
    let mut got = vec![];
    for data in r["inputs"].as_array().unwrap() {
        let utf8 = String::from_utf8(util::raw_bytes(data)).is_ok();
        let mut line = String::new();
        for t in r["calls"].as_array().unwrap() {
            if t["text"] == true && !utf8 {
                line.push('-');
                continue;
            }
            let req = fill(t, data);
            let before = PANICS.load(Ordering::SeqCst);
            let op = req["op"].as_str().unwrap().to_string();
            let res = panic::catch_unwind(panic::AssertUnwindSafe(|| dispatch(&op, &req)));
            line.push(match res {
                _ if PANICS.load(Ordering::SeqCst) != before => 'p',
                Ok(Ok(_)) => 'o',
                Ok(Err(e)) if e.downcast_ref::<util::BadRequest>().is_some() => return Err(e),
                Ok(Err(e)) if e.downcast_ref::<util::Unusable>().is_some() => 'u',
                Ok(Err(_)) => 'e',
                Err(_) => 'p',
            });
        }
        got.push(line);
    }
    Ok(json!({"got": got}))
}

fn main() {
    panic::set_hook(Box::new(|_| {
        PANICS.fetch_add(1, Ordering::SeqCst);
    }));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.is_empty() {
            continue;
        }
        let req: J = serde_json::from_str(&line).expect("request");
        let op = req["op"].as_str().unwrap_or("").to_string();
        PANICS.store(0, Ordering::SeqCst);
        let mut res = match panic::catch_unwind(panic::AssertUnwindSafe(|| dispatch(&op, &req))) {
            Ok(Ok(mut v)) => {
                v["ok"] = json!(true);
                v
            }
            Ok(Err(e)) => {
                if e.downcast_ref::<util::BadRequest>().is_some() {
                    eprintln!("bad request: {e}: {line}");
                    std::process::exit(3);
                }
                // a value was constructed, and then an accessor of it failed
                let kind = if e.downcast_ref::<util::Unusable>().is_some() { "unusable" } else { "err" };
                json!({"ok": false, "kind": kind, "msg": format!("{e}")})
            }
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                json!({"ok": false, "kind": "panic", "msg": msg})
            }
        };
        res["panics"] = json!(PANICS.load(Ordering::SeqCst));
        let mut out = stdout.lock();
        serde_json::to_writer(&mut out, &res).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
