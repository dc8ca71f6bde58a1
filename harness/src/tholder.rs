use crate::doc::{doc, of_value};
use crate::util::*;
use keride::cesr::{Bext, Matter, Tholder};
use serde_json::{json, Value as J};

pub fn thold_view(t: &Tholder) -> J {
    json!({
        "weighted": t.weighted(), "size": jb(&t.size().to_be_bytes()),
        "thold": of_value(&t.thold()),
        "num": ask(|| Ok(match t.num()? { Some(n) => json!({"some": true, "v": jb(&n.to_be_bytes())}),
                                          None => json!({"some": false}) })),
        "sith": ask(|| Ok(json!({"v": of_value(&t.sith()?)}))),
        "json": ask(|| Ok(json!({"v": js(&t.to_json()?)}))),
        "limen": ask(|| Ok(json!({"v": jb(&t.limen()?)}))),
        "number": ask(|| Ok(match t.number() { Some(n) => json!({"some": true, "v": js(&n.qb64()?)}),
                                               None => json!({"some": false}) })),
        "bexter": ask(|| Ok(match t.bexter() { Some(n) => json!({"some": true, "v": js(&n.qb64()?),
                                                                 "bext": js(&n.bext()?)}),
                                               None => json!({"some": false}) })),
    })
}

pub fn tholder(r: &J) -> anyhow::Result<J> {
    let t = match r["via"].as_str().unwrap_or("") {
        "thold" => Tholder::new_with_thold(&doc(r, "doc")?)?,
        "sith" => Tholder::new_with_sith(&doc(r, "doc")?)?,
        "limen" => Tholder::new_with_limen(&bytes(r, "data")?)?,
        // several notations in one call
        "several" => {
            let thold = if r.get("thold").is_some() { Some(doc(r, "thold")?) } else { None };
            let limen = if r.get("limen").is_some() { Some(bytes(r, "limen")?) } else { None };
            let sith = if r.get("sith").is_some() { Some(doc(r, "sith")?) } else { None };
            Tholder::new(thold.as_ref(), limen.as_deref(), sith.as_ref())?
        }
        v => return bad(&format!("via {v}")),
    };
    let mut out = thold_view(&t);
    // the same threshold through each of its notations
    out["backs"] = json!({
        "thold": ask(|| Ok(json!({"v": thold_view(&Tholder::new_with_thold(&t.thold())?)}))),
        "sith": ask(|| Ok(json!({"v": thold_view(&Tholder::new_with_sith(&t.sith()?)?)}))),
        "limen": ask(|| Ok(json!({"v": thold_view(&Tholder::new_with_limen(&t.limen()?)?)}))),
    });
    if let Some(sets) = r.get("sets").and_then(|s| s.as_array()) {
        let mut sat = vec![];
        for s in sets {
            let idx: Vec<u32> = s.as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as u32).collect();
            sat.push(ask(|| Ok(json!({"is": t.satisfy(&idx)?}))));
        }
        out["sat"] = json!(sat);
    }
    Ok(out)
}
