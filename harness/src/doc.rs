use crate::cesr::prim_view;
use crate::tholder::thold_view;
use crate::util::*;
use keride::cesr::{common, Creder, Matter, Sadder, Saider, Serder};
use keride::dat;
use keride::data::{Array, Number as DNumber, Object, Value};
use serde_json::{json, Value as J};

/// a tagged document of the request as a value of the library
pub fn to_value(d: &J) -> anyhow::Result<Value> {
    let v = &d["v"];
    Ok(match d["t"].as_str().unwrap_or("") {
        "s" => {
            let s = String::from_utf8(raw_bytes(v)).expect("request text is UTF-8");
            if d["via"] == "string" { Value::from(&s) } else { Value::from(s.as_str()) }
        }
        "i" => {
            let t = String::from_utf8(raw_bytes(v)).unwrap();
            let n: i128 = t.parse().expect("integer");
            match i64::try_from(n) {
                Ok(n) => int_value(n, d["via"].as_str().unwrap_or("i64")),
                Err(_) => Value::Number(DNumber::from(n)),
            }
        }
        "f" => {
            let t = String::from_utf8(raw_bytes(v)).unwrap();
            if d["via"] == "f32" {
                Value::from(t.parse::<f32>().expect("fraction"))
            } else {
                Value::from(t.parse::<f64>().expect("fraction"))
            }
        }
        "b" => Value::Boolean(v.as_bool().unwrap()),
        "n" => Value::Null,
        // whatever the text says
        "json" => Value::from(&serde_json::from_slice::<serde_json::Value>(&raw_bytes(v))?),
        "a" => {
            let mut a = Array::new();
            for e in v.as_array().unwrap() {
                a.push(to_value(e)?);
            }
            if d["via"] == "slice" { Value::from(a.as_slice()) } else { Value::Array(a) }
        }
        "o" => {
            let mut o = Object::new();
            for (k, e) in d["k"].as_array().unwrap().iter().zip(v.as_array().unwrap()) {
                o.insert(String::from_utf8(raw_bytes(k)).unwrap(), to_value(e)?);
            }
            if d["via"] == "map" { Value::from(&o) } else { Value::Object(o) }
        }
        t => return bad(&format!("document tag {t}")),
    })
}

fn int_value(n: i64, via: &str) -> Value {
    match via {
        "i8" => Value::from(n as i8),
        "i16" => Value::from(n as i16),
        "i32" => Value::from(n as i32),
        "u8" => Value::from(n as u8),
        "u16" => Value::from(n as u16),
        "u32" => Value::from(n as u32),
        _ => Value::from(n),
    }
}

/// what a value of the library holds, tagged
pub fn of_value(v: &Value) -> J {
    match v {
        Value::Null => json!({"t": "n"}),
        Value::Boolean(b) => json!({"t": "b", "v": b}),
        Value::Number(_) => {
            let t = v.to_json().unwrap();
            json!({"t": if v.to_f64().is_ok() { "f" } else { "i" }, "v": js(&t)})
        }
        Value::String(s) => json!({"t": "s", "v": js(s)}),
        Value::Array(a) => json!({"t": "a", "v": a.iter().map(of_value).collect::<Vec<_>>()}),
        Value::Object(o) => json!({
            "t": "o",
            "k": o.keys().map(|k| js(k)).collect::<Vec<_>>(),
            "v": o.values().map(of_value).collect::<Vec<_>>(),
        }),
    }
}

pub fn doc(r: &J, k: &str) -> anyhow::Result<Value> {
    to_value(&r[k])
}

/// a text parsed as JSON, and what the library holds and writes of it
pub fn jsonop(r: &J) -> anyhow::Result<J> {
    let v: serde_json::Value = serde_json::from_slice(&bytes(r, "data")?)?;
    let v = Value::from(&v);
    let w: serde_json::Value = serde_json::from_str(&v.to_json()?)?;
    // a very deep document is only told by its text
    let view = if opt_bool(r, "flat") == Some(true) { json!({"t": "n"}) } else { of_value(&v) };
    Ok(json!({"doc": view, "json": js(&v.to_json()?), "disp": js(&format!("{v}")),
              "again": js(&Value::from(&w).to_json()?), "same": Value::from(&w) == v}))
}

/// a value built by hand: what it is written as and converts to
pub fn jval(r: &J) -> anyhow::Result<J> {
    let v = doc(r, "doc")?;
    let mut out = json!({
        "json": ask(|| Ok(json!({"v": js(&v.to_json()?)}))),
        "disp": ask(|| Ok(json!({"v": js(&format!("{v}"))}))),
        "bool": ask(|| Ok(json!({"v": v.to_bool()?}))),
        "str": ask(|| Ok(json!({"v": js(&v.to_string()?)}))),
        "int": ask(|| Ok(json!({"v": js(&v.to_i64()?.to_string())}))),
        "frac": ask(|| Ok(json!({"v": js(&Value::from(v.to_f64()?).to_json()?)}))),
        "vec": ask(|| Ok(json!({"v": v.to_vec()?.iter().map(of_value).collect::<Vec<_>>()}))),
        "map": ask(|| {
            let m = v.to_map()?;
            Ok(json!({"v": of_value(&Value::Object(m))}))
        }),
        "tbool": ask(|| Ok(json!({"v": bool::try_from(&v)?}))),
        "tstr": ask(|| Ok(json!({"v": js(&String::try_from(&v)?)}))),
        "tint": ask(|| Ok(json!({"v": js(&i64::try_from(&v)?.to_string())}))),
        "tfrac": ask(|| Ok(json!({"v": js(&Value::from(f64::try_from(&v)?).to_json()?)}))),
        "tvec": ask(|| Ok(json!({"v": Vec::<Value>::try_from(&v)?.iter().map(of_value).collect::<Vec<_>>()}))),
        "tmap": ask(|| Ok(json!({"v": of_value(&Value::Object(Object::try_from(&v)?))}))),
        "self": json!({"v": v == v.clone()}),
    });
    if let Some(k) = opt_text(r, "label") {
        out["get"] = ask(|| {
            // reading a field of a map by label or position, as documented
            let m = v.to_map()?;
            if !m.contains_key(&k) {
                anyhow::bail!("no such field");
            }
            let i = m.get_index_of(&k).unwrap();
            if v[k.as_str()] != v[i] {
                anyhow::bail!("label and position disagree");
            }
            Ok(json!({"v": of_value(&v[k.as_str()])}))
        });
    }
    if let Some(x) = r.get("put") {
        out["put"] = ask(|| {
            let mut w = v.clone();
            w[opt_text(r, "label").unwrap().as_str()] = to_value(x)?;
            Ok(json!({"v": of_value(&w), "json": js(&w.to_json()?)}))
        });
    }
    Ok(out)
}

/// a value put somewhere into a document, and what is then found at other places
pub fn edit(r: &J) -> anyhow::Result<J> {
    let mut v = doc(r, "doc")?;
    for e in r["edits"].as_array().unwrap() {
        let mut at = &mut v;
        for p in e["path"].as_array().unwrap() {
            at = match p.get("n").and_then(|n| n.as_u64()) {
                Some(n) => &mut at[n as usize],
                None => &mut at[text(p, "k")?.as_str()],
            };
        }
        *at = to_value(&e["put"])?;
    }
    let mut found = vec![];
    for path in r["reads"].as_array().unwrap() {
        let mut at = &v;
        for p in path.as_array().unwrap() {
            at = match p.get("n").and_then(|n| n.as_u64()) {
                Some(n) => &at[n as usize],
                None => &at[text(p, "k")?.as_str()],
            };
        }
        found.push(of_value(at));
    }
    Ok(json!({"doc": of_value(&v), "json": js(&v.to_json()?), "found": found}))
}

/// the shapes a document can be spelled in, around a text, a number, a truth value and a field
pub fn shapes(r: &J) -> anyhow::Result<J> {
    let (s, k, b) = (text(r, "s")?, text(r, "k")?, opt_bool(r, "b").unwrap());
    let (s, k) = (s.as_str(), k.as_str());
    let n: i64 = text(r, "n")?.parse()?;
    let d = to_value(&r["doc"])?;
    let b = Value::Boolean(b);
    let b = || b.clone();
    let list = [d.clone(), Value::from(n)];
    let mut hash = std::collections::HashMap::new();
    hash.insert(k.to_string(), d.clone());
    let all = [
        dat!(null), dat!(true), dat!(false), dat!(s), dat!(n), dat!(b()), dat!([]), dat!({}), dat!(-1), dat!(1.5),
        dat!([n, s, b(),]), dat!([null, true, false, [n], {"x": s}]), dat!([[n], [s, [b()]],]),
        dat!({"a": s, "b": n, "c": b()}), dat!({"a": [n, {"b": s}, null], "c": {"d": {"e": b()}}, "f": null,}),
        dat!({k: n, "last": [true, false]}), dat!({"n": null, "t": true, "f": false, "l": [], "o": {}}),
        dat!({"a": 1, "b": 2, "a": s}), dat!(&list[..]), dat!(&hash),
    ];
    Ok(json!({"docs": all.iter().map(of_value).collect::<Vec<_>>(),
              "texts": all.iter().map(|v| Ok(js(&v.to_json()?))).collect::<anyhow::Result<Vec<_>>>()?}))
}

fn opt_str(r: &J, k: &str) -> Option<String> {
    opt_text(r, k)
}

fn version(r: &J) -> Option<common::Version> {
    r.get("version").and_then(|v| v.as_array()).map(|a| common::Version {
        major: a[0].as_u64().unwrap() as u8,
        minor: a[1].as_u64().unwrap() as u8,
    })
}

pub fn versify(r: &J) -> anyhow::Result<J> {
    let t = common::versify(
        opt_str(r, "proto").as_deref(),
        version(r).as_ref(),
        opt_str(r, "kind").as_deref(),
        opt_u64(r, "size").map(|x| x as u32),
    )?;
    Ok(json!({"text": js(&t)}))
}

pub fn deversify(r: &J) -> anyhow::Result<J> {
    let x = common::deversify(&text(r, "data")?)?;
    Ok(json!({"proto": js(&x.ident), "major": x.version.major, "minor": x.version.minor, "kind": js(&x.kind),
              "size": x.size}))
}

pub fn sniff(r: &J) -> anyhow::Result<J> {
    let x = common::sniff(&bytes(r, "data")?)?;
    Ok(json!({"proto": js(&x.ident), "major": x.version.major, "minor": x.version.minor, "kind": js(&x.kind),
              "size": x.size}))
}

pub fn sizeify(r: &J) -> anyhow::Result<J> {
    let x = common::sizeify(&doc(r, "doc")?, opt_str(r, "kind").as_deref())?;
    Ok(json!({"proto": js(&x.ident), "major": x.version.major, "minor": x.version.minor, "kind": js(&x.kind),
              "raw": jb(&x.raw), "doc": of_value(&x.ked)}))
}

/// a message too long to be spelled out: one field of many equal characters
pub fn big_message(r: &J) -> anyhow::Result<J> {
    let fill = opt_str(r, "fill").unwrap();
    let n = opt_u64(r, "count").unwrap() as usize;
    let step = opt_u64(r, "step").unwrap() as usize;
    let head = opt_u64(r, "head").unwrap() as usize;
    let d = dat!({"v": "KERI10JSON000000_", "d": "", "x": &fill.repeat(n)});
    let x = common::sizeify(&d, None)?;
    let s = common::sniff(&x.raw)?;
    let (w, len) = (&x.raw, x.raw.len());
    let piece = w.get(head..head + step).unwrap_or(&[]).to_vec();
    let same = w[head.min(len)..len - 2].chunks(step).all(|c| c == piece.as_slice());
    let said = (|| -> anyhow::Result<J> {
        let (said, e) = Saider::saidify(&d, None, None, None, None)?;
        let m = Serder::new_with_ked(&e, None, None)?;
        let mut more = m.raw();
        more.extend_from_slice(b"-AAB\xff");
        let again = Serder::new_with_raw(&more)?;
        let mut f = e.clone();
        f["x"] = dat!(&format!("{}?", &fill.repeat(n - 1)));
        Ok(json!({"ok": true, "size": m.size(), "len": m.raw().len(), "again": again.size(), "alen": again.raw().len(),
                  "same": again.raw() == m.raw() && again.ked() == m.ked(),
                  "own": said.verify(&e, Some(true), None, None, None, None)?,
                  "other": said.verify(&f, Some(false), Some(false), None, None, None)?,
                  "v": js(&m.ked()["v"].to_string()?)}))
    })()
    .unwrap_or_else(|_| json!({"ok": false}));
    Ok(json!({"len": len, "head": jb(&w[..head.min(len)]), "tail": jb(&w[len - 2..]), "piece": jb(&piece), "same": same,
              "v": js(&x.ked["v"].to_string()?), "size": s.size, "said": said}))
}

fn labels(r: &J, k: &str) -> Option<Vec<String>> {
    r.get(k).and_then(|v| v.as_array()).map(|a| {
        a.iter().map(|x| String::from_utf8(raw_bytes(x)).unwrap()).collect()
    })
}

pub fn saidify(r: &J) -> anyhow::Result<J> {
    let ignore = labels(r, "ignore");
    let ign: Option<Vec<&str>> = ignore.as_ref().map(|v| v.iter().map(|s| s.as_str()).collect());
    let (s, d) = Saider::saidify(
        &doc(r, "doc")?,
        opt_str(r, "code").as_deref(),
        opt_str(r, "kind").as_deref(),
        opt_str(r, "label").as_deref(),
        ign.as_deref(),
    )?;
    view((|| Ok(json!({"said": js(&s.qb64()?), "code": s.code(), "raw": jb(&s.raw()), "doc": of_value(&d)})))())
}

pub fn said_of(r: &J) -> anyhow::Result<J> {
    let ignore = labels(r, "ignore");
    let ign: Option<Vec<&str>> = ignore.as_ref().map(|v| v.iter().map(|s| s.as_str()).collect());
    let s = Saider::new_with_sad(
        &doc(r, "doc")?,
        opt_str(r, "label").as_deref(),
        opt_str(r, "kind").as_deref(),
        ign.as_deref(),
        opt_str(r, "code").as_deref(),
    )?;
    prim_view(&s)
}

pub fn said_verify(r: &J) -> anyhow::Result<J> {
    let ignore = labels(r, "ignore");
    let ign: Option<Vec<&str>> = ignore.as_ref().map(|v| v.iter().map(|s| s.as_str()).collect());
    let s = Saider::new_with_qb64(&text(r, "said")?)?;
    let ok = s.verify(
        &doc(r, "doc")?,
        opt_bool(r, "prefixed"),
        opt_bool(r, "versioned"),
        opt_str(r, "kind").as_deref(),
        opt_str(r, "label").as_deref(),
        ign.as_deref(),
    )?;
    Ok(json!({"is": ok}))
}

fn sadder_view<T: Sadder>(s: &T) -> J {
    json!({
        "raw": jb(&s.raw()), "doc": of_value(&s.ked()), "proto": js(&s.ident()), "kind": js(&s.kind()),
        "size": s.size(), "major": s.version().major, "minor": s.version().minor, "code": s.code(),
        "said": ask(|| Ok(json!({"v": js(&s.said()?)}))),
        "saidb": ask(|| Ok(json!({"v": jb(&s.saidb()?)}))),
        "saider": ask(|| Ok(json!({"v": js(&s.saider().qb64()?)}))),
        "pretty": ask(|| {
            for n in [0usize, 1, 7, 64, 100, 257, 1023] {
                s.pretty(Some(n))?;
            }
            s.pretty(None)?;
            Ok(json!({"v": js(&s.pretty(Some(1 << 30))?)}))
        }),
    })
}

fn quals<T: Matter>(ms: &[T]) -> anyhow::Result<J> {
    let mut out = vec![];
    for m in ms {
        out.push(js(&m.qb64()?));
    }
    Ok(json!({"v": out}))
}

/// the same object made to hold one message after another
fn grown<T: Sadder>(mut s: T, r: &J) -> anyhow::Result<T> {
    for e in r["then"].as_array().unwrap_or(&vec![]) {
        let kind = opt_str(e, "kind");
        match e["via"].as_str().unwrap_or("") {
            "raw" => s.populate_from_raw(&bytes(e, "data")?)?,
            "ked" => s.populate_from_ked(&doc(e, "doc")?, kind.as_deref())?,
            "kind" => s.populate_from_kind_and_self(&kind.unwrap_or_default())?,
            "sad" => s = T::new(opt_str(e, "code").as_deref(), None, kind.as_deref(), None, Some(&s))?,
            v => return bad(&format!("via {v}")),
        }
    }
    Ok(s)
}

pub fn serder(r: &J) -> anyhow::Result<J> {
    let code = opt_str(r, "code");
    let kind = opt_str(r, "kind");
    let s = match r["via"].as_str().unwrap_or("") {
        "raw" => Serder::new(code.as_deref(), Some(&bytes(r, "data")?), None, None, None)?,
        "ked" => Serder::new(code.as_deref(), None, kind.as_deref(), Some(&doc(r, "doc")?), None)?,
        v => return bad(&format!("via {v}")),
    };
    let s = grown(s, r)?;
    let mut out = sadder_view(&s);
    out["pre"] = ask(|| Ok(json!({"v": js(&s.pre()?)})));
    out["preb"] = ask(|| Ok(json!({"v": jb(&s.preb()?)})));
    out["est"] = ask(|| Ok(json!({"v": s.est()?})));
    out["sn"] = ask(|| Ok(json!({"v": jb(&s.sn()?.to_be_bytes())})));
    out["sner"] = ask(|| Ok(json!({"v": js(&s.sner()?.qb64()?)})));
    out["fn"] = ask(|| Ok(json!({"v": jb(&s._fn()?.to_be_bytes())})));
    out["fner"] = ask(|| {
        Ok(match s.fner()? {
            Some(n) => json!({"some": true, "v": js(&n.qb64()?)}),
            None => json!({"some": false}),
        })
    });
    out["verfers"] = ask(|| quals(&s.verfers()?));
    out["digers"] = ask(|| quals(&s.digers()?));
    out["werfers"] = ask(|| quals(&s.werfers()?));
    out["tholder"] = ask(|| {
        Ok(match s.tholder()? {
            Some(t) => json!({"some": true, "v": thold_view(&t)}),
            None => json!({"some": false}),
        })
    });
    out["ntholder"] = ask(|| {
        Ok(match s.ntholder()? {
            Some(t) => json!({"some": true, "v": thold_view(&t)}),
            None => json!({"some": false}),
        })
    });
    // reading its bytes again
    out["again"] = ask(|| {
        let t = Serder::new(Some(&s.code()), Some(&s.raw()), None, None, None)?;
        Ok(json!({"same": t == s}))
    });
    Ok(out)
}

pub fn creder(r: &J) -> anyhow::Result<J> {
    let code = opt_str(r, "code");
    let kind = opt_str(r, "kind");
    let s = match r["via"].as_str().unwrap_or("") {
        "raw" => Creder::new(code.as_deref(), Some(&bytes(r, "data")?), None, None, None)?,
        "ked" => Creder::new(code.as_deref(), None, kind.as_deref(), Some(&doc(r, "doc")?), None)?,
        v => return bad(&format!("via {v}")),
    };
    let s = grown(s, r)?;
    let mut out = sadder_view(&s);
    out["crd"] = ask(|| Ok(json!({"v": of_value(&s.crd())})));
    out["issuer"] = ask(|| Ok(json!({"v": js(&s.issuer()?)})));
    out["schema"] = ask(|| Ok(json!({"v": js(&s.schema()?)})));
    out["subject"] = ask(|| Ok(json!({"v": of_value(&s.subject())})));
    out["status"] = ask(|| {
        Ok(match s.status()? {
            Some(t) => json!({"some": true, "v": js(&t)}),
            None => json!({"some": false}),
        })
    });
    out["chains"] = ask(|| Ok(json!({"v": of_value(&s.chains()?)})));
    out["again"] = ask(|| {
        let t = Creder::new(Some(&s.code()), Some(&s.raw()), None, None, None)?;
        Ok(json!({"same": t == s}))
    });
    Ok(out)
}
