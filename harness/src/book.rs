//! A reader of many key event logs at once, of delegations between them, of the credential registries
//! they run and of the credentials these list; again put together from the library's own primitives.
use crate::doc::of_value;
use crate::kel::{field, intact, no, prior, safely, step, valid, view_state, State};
use crate::util::*;
use keride::cesr::{
    Cigar, Counter, Creder, Indexer, Matter, Number, Sadder, Saider, Seqner, Serder, Siger, Verfer,
};
use keride::data::Value;
use keride::prefexing::prefixer::Prefixer;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;

/// an accepted event and what it seals: identifier, number and digest of other events
struct Logged {
    sn: u128,
    said: String,
    seals: Vec<(String, String, String)>,
}

struct Entry {
    ks: State,
    wits: Vec<Verfer>,
    toad: u128,
    del: String,
    log: Vec<Logged>,
}

struct Held {
    issuer: String,
    subject: String,
    ri: String,
    edges: Vec<String>,
}

#[derive(Default)]
struct Book {
    kels: BTreeMap<String, Entry>,
    regs: BTreeMap<String, String>,
    creds: BTreeMap<(String, String), (String, bool)>,
    held: BTreeMap<String, Held>,
}

#[derive(Default)]
struct Attached {
    sigs: Vec<Siger>,
    wsigs: Vec<Siger>,
    couples: Vec<(Verfer, Cigar)>,
    sources: Vec<(Seqner, Saider)>,
}

fn take<T: Matter>(
    rest: &mut &[u8],
    bin: bool,
    text: impl Fn(&[u8]) -> anyhow::Result<T>,
    binary: impl Fn(&[u8]) -> anyhow::Result<T>,
) -> anyhow::Result<T> {
    let x = if bin { binary(rest)? } else { text(rest)? };
    let n = x.full_size()? as usize;
    *rest = &rest[if bin { n * 3 / 4 } else { n }..];
    Ok(x)
}

fn take_siger(rest: &mut &[u8], bin: bool) -> anyhow::Result<Siger> {
    let s = if bin { Siger::new_with_qb2(rest, None)? } else { Siger::new_with_qb64b(rest, None)? };
    let n = s.full_size()? as usize;
    *rest = &rest[if bin { n * 3 / 4 } else { n }..];
    Ok(s)
}

fn attachments(mut rest: &[u8], bin: bool) -> anyhow::Result<Attached> {
    let mut out = Attached::default();
    while !rest.is_empty() {
        let c = if bin { Counter::new_with_qb2(rest)? } else { Counter::new_with_qb64b(rest)? };
        let n = c.full_size()? as usize;
        rest = &rest[if bin { n * 3 / 4 } else { n }..];
        for _ in 0..c.count() {
            match c.code().as_str() {
                "-A" => out.sigs.push(take_siger(&mut rest, bin)?),
                "-B" => out.wsigs.push(take_siger(&mut rest, bin)?),
                "-C" => {
                    let v = take(&mut rest, bin, |b| Ok(Verfer::new_with_qb64b(b)?), |b| Ok(Verfer::new_with_qb2(b)?))?;
                    let g = take(
                        &mut rest,
                        bin,
                        |b| Ok(Cigar::new_with_qb64b(b, Some(&v))?),
                        |b| Ok(Cigar::new_with_qb2(b, Some(&v))?),
                    )?;
                    out.couples.push((v, g));
                }
                "-G" => {
                    let s = take(&mut rest, bin, |b| Ok(Seqner::new_with_qb64b(b)?), |b| Ok(Seqner::new_with_qb2(b)?))?;
                    let d = take(&mut rest, bin, |b| Ok(Saider::new_with_qb64b(b)?), |b| Ok(Saider::new_with_qb2(b)?))?;
                    out.sources.push((s, d));
                }
                _ => return no("attachment"),
            }
        }
        if !["-A", "-B", "-C", "-G"].contains(&c.code().as_str()) {
            return no("attachment");
        }
    }
    Ok(out)
}

/// the keys a list field names
fn listed(ked: &Value, label: &str) -> anyhow::Result<Vec<Verfer>> {
    let map = ked.to_map()?;
    if !map.contains_key(label) {
        return Ok(vec![]);
    }
    let mut out = vec![];
    for x in map[label].to_vec()? {
        out.push(Verfer::new_with_qb64(&x.to_string()?)?);
    }
    Ok(out)
}

fn texts(vs: &[Verfer]) -> anyhow::Result<Vec<String>> {
    Ok(vs.iter().map(|v| v.qb64()).collect::<Result<_, _>>()?)
}

fn string(v: &Value, label: &str) -> Option<String> {
    match v {
        Value::Object(m) => match m.get(label) {
            Some(Value::String(s)) => Some(s.clone()),
            _ => None,
        },
        _ => None,
    }
}

fn seals(ked: &Value) -> anyhow::Result<Vec<(String, String, String)>> {
    let map = ked.to_map()?;
    let mut out = vec![];
    if let Some(Value::Array(a)) = map.get("a") {
        for x in a {
            if let (Some(i), Some(s), Some(d)) = (string(x, "i"), string(x, "s"), string(x, "d")) {
                out.push((i, s, d));
            }
        }
    }
    Ok(out)
}

/// whether one of the sources named is in the log of an identifier and seals the event
fn sealed(bk: &Book, by: &str, serder: &Serder, at: &Attached) -> anyhow::Result<()> {
    let what = (field(serder, "i")?, field(serder, "s")?, serder.said()?);
    if let Some(e) = bk.kels.get(by) {
        for (s, d) in &at.sources {
            let (sn, said) = (s.sn()?, d.qb64()?);
            if e.log.iter().any(|l| l.sn == sn && l.said == said && l.seals.contains(&what)) {
                return Ok(());
            }
        }
    }
    no("not sealed")
}

fn witnessed(wits: &[Verfer], toad: u128, raw: &[u8], at: &Attached) -> anyhow::Result<()> {
    let names = texts(wits)?;
    let mut who = std::collections::BTreeSet::new();
    for g in valid(&at.wsigs, wits, raw) {
        who.insert(names[g.index() as usize].clone());
    }
    for (v, g) in &at.couples {
        if names.contains(&v.qb64()?) && g.verfer().verify(&g.raw(), raw).unwrap_or(false) {
            who.insert(v.qb64()?);
        }
    }
    if (who.len() as u128) < toad {
        return no("not witnessed by enough");
    }
    Ok(())
}

fn different(vs: &[String]) -> bool {
    vs.iter().enumerate().all(|(i, v)| !vs[..i].contains(v))
}

/// witnesses and how many of them an establishment event asks for
fn witnesses(old: Option<&Entry>, serder: &Serder) -> anyhow::Result<(Vec<Verfer>, u128)> {
    let ked = serder.ked();
    let wits = match old {
        None => serder.werfers()?,
        Some(e) => {
            let (cuts, adds) = (listed(&ked, "br")?, listed(&ked, "ba")?);
            let (cn, an, wn) = (texts(&cuts)?, texts(&adds)?, texts(&e.wits)?);
            if !different(&cn) || cn.iter().any(|c| !wn.contains(c)) || an.iter().any(|a| wn.contains(a)) {
                return no("witness changes");
            }
            let mut out = vec![];
            for w in &wn {
                if !cn.contains(w) {
                    out.push(Verfer::new_with_qb64(w)?);
                }
            }
            out.extend(adds);
            out
        }
    };
    if !different(&texts(&wits)?) {
        return no("a witness twice");
    }
    let toad = Number::new_with_numh(&field(serder, "bt")?)?.num()?;
    if toad > wits.len() as u128 || (toad == 0 && !wits.is_empty()) {
        return no("witness threshold");
    }
    Ok((wits, toad))
}

fn key_event(bk: &mut Book, serder: &Serder, at: &Attached, ilk: &str) -> anyhow::Result<J> {
    let pre = serder.pre()?;
    let old = bk.kels.get(&pre);
    let plain = match ilk {
        "dip" => "icp",
        "drt" => "rot",
        x => x,
    };
    let ks = step(old.map(|e| &e.ks), serder, &at.sigs, plain)?;
    let (wits, toad) = match (plain, old) {
        ("ixn", Some(e)) => (texts(&e.wits)?.iter().map(|w| Verfer::new_with_qb64(w)).collect::<Result<_, _>>()?, e.toad),
        _ => witnesses(old, serder)?,
    };
    witnessed(&wits, toad, &serder.raw(), at)?;
    let del = match (ilk, old) {
        ("dip", _) => field(serder, "di")?,
        (_, Some(e)) => e.del.clone(),
        _ => String::new(),
    };
    if (ilk == "rot" && !del.is_empty()) || (ilk == "drt" && del.is_empty()) {
        return no("delegation");
    }
    if ilk == "dip" || ilk == "drt" {
        sealed(bk, &del, serder, at)?;
    }
    let logged = Logged { sn: ks.sn, said: ks.said.clone(), seals: seals(&serder.ked())? };
    let mut view = view_state(&ks)?;
    view["wits"] = J::Array(texts(&wits)?.iter().map(|w| js(w)).collect());
    view["toad"] = jb(&toad.to_be_bytes());
    view["del"] = js(&del);
    let mut log = bk.kels.remove(&pre).map(|e| e.log).unwrap_or_default();
    log.push(logged);
    bk.kels.insert(pre, Entry { ks, wits, toad, del, log });
    Ok(view)
}

fn registry_event(bk: &mut Book, serder: &Serder, at: &Attached, ilk: &str) -> anyhow::Result<J> {
    let pre = serder.pre()?;
    let sn = serder.sn()?;
    if ilk == "vcp" {
        let p = Prefixer::new_with_qb64(&pre)?;
        if sn != 0 || !p.digestive() || !p.verify(&serder.ked(), Some(true))? || serder.said()? != pre || bk.regs.contains_key(&pre) {
            return no("not its registry");
        }
        let by = field(serder, "ii")?;
        sealed(bk, &by, serder, at)?;
        bk.regs.insert(pre.clone(), by.clone());
        return Ok(json!({"reg": js(&pre), "by": js(&by)}));
    }
    let ri = field(serder, "ri")?;
    let Some(by) = bk.regs.get(&ri) else { return no("no such registry") };
    let at_ = (ri.clone(), pre.clone());
    intact(serder)?;
    match (ilk, bk.creds.get(&at_)) {
        ("iss", None) if sn == 0 => {}
        ("rev", Some((said, false))) if sn == 1 && prior(serder)? == *said => {}
        _ => return no("out of order"),
    }
    sealed(bk, by, serder, at)?;
    bk.creds.insert(at_, (serder.said()?, ilk == "rev"));
    Ok(json!({"reg": js(&ri), "cred": js(&pre), "rev": ilk == "rev"}))
}

/// a part of a credential that has an identifier of its own
fn section(v: &Value) -> anyhow::Result<()> {
    if let Value::Object(m) = v {
        if let Some(d) = m.get("d") {
            if !Saider::new_with_qb64(&d.to_string()?)?.verify(v, Some(true), Some(false), None, None, None)? {
                return no("altered section");
            }
        }
    }
    Ok(())
}

fn stands(bk: &Book, said: &str) -> bool {
    match bk.held.get(said) {
        None => false,
        Some(h) => {
            matches!(bk.creds.get(&(h.ri.clone(), said.to_string())), Some((_, false))) && h.edges.iter().all(|e| stands(bk, e))
        }
    }
}

fn credential(bk: &mut Book, creder: &Creder) -> anyhow::Result<J> {
    let said = creder.said()?;
    let issuer = creder.issuer()?;
    let schema = creder.schema()?;
    let Some(ri) = creder.status()? else { return no("no registry") };
    let subject = string(&creder.subject(), "i").unwrap_or_default();
    let e = creder.chains()?;
    let Value::Object(m) = &e else { return no("edges") };
    let mut edges = vec![];
    for (label, v) in m.iter() {
        if label != "d" {
            let Some(n) = string(v, "n") else { return no("an edge to nothing") };
            edges.push(n);
        }
    }
    intact(creder)?;
    section(&creder.subject())?;
    section(&e)?;
    if bk.held.contains_key(&said) || bk.regs.get(&ri) != Some(&issuer) {
        return no("not from its registry");
    }
    if !matches!(bk.creds.get(&(ri.clone(), said.clone())), Some((_, false))) {
        return no("not issued, or revoked");
    }
    for n in &edges {
        if !stands(bk, n) || bk.held[n].subject != issuer {
            return no("chained to nothing that stands");
        }
    }
    let view = json!({"cred": js(&said), "issuer": js(&issuer), "schema": js(&schema), "subject": js(&subject), "reg": js(&ri),
        "edges": edges.iter().map(|e| js(e)).collect::<Vec<_>>(), "attrs": of_value(&creder.subject())});
    bk.held.insert(said, Held { issuer, subject, ri, edges });
    Ok(view)
}

fn one(bk: &mut Book, msg: &[u8], bin: bool, code: &str) -> anyhow::Result<J> {
    let serder = match Serder::new(Some(code), Some(msg), None, None, None) {
        Ok(s) => s,
        Err(_) => {
            let creder = Creder::new(Some(code), Some(msg), None, None, None)?;
            if creder.raw().len() != msg.len() {
                return no("something follows the credential");
            }
            return credential(bk, &creder);
        }
    };
    let at = attachments(&msg[serder.raw().len()..], bin)?;
    let ilk = field(&serder, "t")?;
    match ilk.as_str() {
        "icp" | "rot" | "ixn" | "dip" | "drt" => key_event(bk, &serder, &at, &ilk),
        "vcp" | "iss" | "rev" => registry_event(bk, &serder, &at, &ilk),
        _ => no("no event the reader knows"),
    }
}

pub fn book(r: &J) -> anyhow::Result<J> {
    let bin = r["dom"] == "bin";
    let code = text(r, "code")?;
    let mut bk = Book::default();
    let mut steps = vec![];
    for m in r["msgs"].as_array().unwrap() {
        let msg = raw_bytes(m);
        let mut shown = match safely(|| one(&mut bk, &msg, bin, &code)) {
            Ok(Ok(mut v)) => {
                v["is"] = json!(true);
                v
            }
            Ok(Err(e)) => json!({"is": false, "msg": e.to_string()}),
            Err(_) => json!({"panic": true}),
        };
        shown["stands"] = bk.held.keys().filter(|k| stands(&bk, k)).map(|k| js(k)).collect();
        steps.push(shown);
    }
    let issuers: Vec<J> = bk.held.values().map(|h| js(&h.issuer)).collect();
    Ok(json!({"steps": steps, "issuers": issuers}))
}
