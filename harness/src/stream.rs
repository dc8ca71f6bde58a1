//! Concatenated material, read element by element.
use crate::cesr::{cnt_view, idx_view, prim_view, AnyIndexer, AnyMatter};
use crate::util::*;
use keride::cesr::{
    Bexter, Cigar, Counter, Dater, Diger, Indexer, Matter, Number, Saider, Salter, Seqner, Siger, Verfer,
};
use keride::prefexing::prefixer::Prefixer;
use keride::signing::Signer;
use serde_json::{json, Value as J};

/// how the rest of the material is handed over
enum Rest<'a> {
    Text(&'a str),
    TextBytes(&'a [u8]),
    Bin(&'a [u8]),
}

macro_rules! take {
    ($t:ty, $view:expr, $rest:expr, $($x:expr),*) => {{
        let v: $t = match $rest {
            Rest::Text(t) => <$t>::new_with_qb64(t, $($x),*)?,
            Rest::TextBytes(t) => <$t>::new_with_qb64b(t, $($x),*)?,
            Rest::Bin(t) => <$t>::new_with_qb2(t, $($x),*)?,
        };
        ($view(&v)?, view(v.full_size().map(|n| json!(n)).map_err(|e| e.into()))?.as_u64().unwrap() as usize)
    }};
}

fn take_counter(rest: Rest) -> anyhow::Result<(J, usize)> {
    let c = match rest {
        Rest::Text(t) => Counter::new_with_qb64(t)?,
        Rest::TextBytes(t) => Counter::new_with_qb64b(t)?,
        Rest::Bin(t) => Counter::new_with_qb2(t)?,
    };
    Ok((cnt_view(&c)?, c.full_size()? as usize))
}

fn take(kind: &str, rest: Rest) -> anyhow::Result<(J, usize)> {
    Ok(match kind {
        "counter" => take_counter(rest)?,
        "matter" => take!(AnyMatter, prim_view, rest,),
        "indexer" => take!(AnyIndexer, idx_view, rest,),
        "siger" => take!(Siger, idx_view, rest, None),
        "verfer" => take!(Verfer, prim_view, rest,),
        "cigar" => take!(Cigar, prim_view, rest, None),
        "diger" => take!(Diger, prim_view, rest,),
        "saider" => take!(Saider, prim_view, rest,),
        "prefixer" => take!(Prefixer, prim_view, rest,),
        "salter" => take!(Salter, prim_view, rest, None),
        "signer" => take!(Signer, prim_view, rest, None),
        "number" => take!(Number, prim_view, rest,),
        "seqner" => take!(Seqner, prim_view, rest,),
        "dater" => take!(Dater, prim_view, rest,),
        "bexter" => take!(Bexter, prim_view, rest,),
        k => return bad(&format!("kind {k}")),
    })
}

pub fn stream(r: &J) -> anyhow::Result<J> {
    let data = bytes(r, "data")?;
    let dom = r["dom"].as_str().unwrap_or("").to_string();
    let mut off = 0;
    let mut els = vec![];
    for kind in r["plan"].as_array().unwrap() {
        let rest = &data[off..];
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            take(
                kind.as_str().unwrap(),
                match dom.as_str() {
                    "qb64" => Rest::Text(std::str::from_utf8(rest).expect("text")),
                    "qb64b" => Rest::TextBytes(rest),
                    "qb2" => Rest::Bin(rest),
                    v => return bad(&format!("dom {v}")),
                },
            )
        }));
        match got {
            Ok(Ok((mut v, full))) => {
                v["ok"] = json!(true);
                els.push(v);
                off += if dom == "qb2" { full * 3 / 4 } else { full };
                if off > data.len() {
                    break;
                }
            }
            Ok(Err(e)) => {
                let kind = if e.downcast_ref::<Unusable>().is_some() { "unusable" } else { "err" };
                els.push(json!({"ok": false, "kind": kind}));
                break;
            }
            Err(_) => {
                els.push(json!({"ok": false, "kind": "panic"}));
                break;
            }
        }
    }
    Ok(json!({"els": els, "used": off}))
}
