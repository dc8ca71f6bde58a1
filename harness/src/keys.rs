use crate::cesr::{idx_view, prim_view};
use crate::doc::{doc, of_value};
use crate::util::*;
use keride::cesr::{Bext, Cigar, Diger, Indexer, Matter, Sadder, Salter, Serder, Siger, Verfer};
use keride::pathing::pather::Pather;
use keride::prefexing::prefixer::Prefixer;
use keride::signify::creating::SaltyCreator;
use keride::signing::Signer;
use serde_json::{json, Value as J};

// ----------------------------------------------------------------------------------- digests
pub fn diger(r: &J) -> anyhow::Result<J> {
    prim_view(&Diger::new_with_ser(&bytes(r, "ser")?, opt_text(r, "code").as_deref())?)
}

pub fn digver(r: &J) -> anyhow::Result<J> {
    let d = Diger::new_with_qb64(&text(r, "dig")?)?;
    Ok(json!({"is": d.verify(&bytes(r, "ser")?)?}))
}

pub fn digcmp(r: &J) -> anyhow::Result<J> {
    let d = Diger::new_with_qb64(&text(r, "dig")?)?;
    let ser = bytes(r, "ser")?;
    let is = match r["how"].as_str().unwrap_or("") {
        "dig" => d.compare(&ser, Some(&bytes(r, "other")?), None)?,
        "diger" => d.compare(&ser, None, Some(&Diger::new_with_qb64(&text(r, "other")?)?))?,
        "none" => d.compare(&ser, None, None)?,
        v => return bad(&format!("how {v}")),
    };
    Ok(json!({"is": is}))
}

// ---------------------------------------------------------------------------------- prefixes
pub fn prefixer(r: &J) -> anyhow::Result<J> {
    let allows: Option<Vec<String>> = r.get("allows").and_then(|a| a.as_array()).map(|a| {
        a.iter().map(|x| x.as_str().unwrap().to_string()).collect()
    });
    let allows: Option<Vec<&str>> = allows.as_ref().map(|a| a.iter().map(|s| s.as_str()).collect());
    let p = Prefixer::new_with_ked(&doc(r, "doc")?, allows.as_deref(), opt_text(r, "code").as_deref())?;
    prim_view(&p)
}

pub fn prever(r: &J) -> anyhow::Result<J> {
    let p = Prefixer::new_with_qb64(&text(r, "pre")?)?;
    Ok(json!({"is": p.verify(&doc(r, "doc")?, opt_bool(r, "prefixed"))?}))
}

// ------------------------------------------------------------------------------------- paths
fn path_view(p: &Pather) -> anyhow::Result<J> {
    let mut v = prim_view(p)?;
    v["bext"] = ask(|| Ok(json!({"v": js(&p.bext()?)})));
    v["path"] = ask(|| Ok(json!({"v": of_value(&p.path()?)})));
    Ok(v)
}

pub fn pather(r: &J) -> anyhow::Result<J> {
    let p = match r["via"].as_str().unwrap_or("") {
        "path" => Pather::new_with_path(&doc(r, "doc")?)?,
        "bext" => Pather::new_with_bext(&text(r, "bext")?)?,
        "raw" => Pather::new_with_raw(&bytes(r, "data")?, opt_text(r, "code").as_deref())?,
        "qb64" => Pather::new_with_qb64(&text(r, "data")?)?,
        "qb64b" => Pather::new_with_qb64b(&bytes(r, "data")?)?,
        "qb2" => Pather::new_with_qb2(&bytes(r, "data")?)?,
        v => return bad(&format!("via {v}")),
    };
    path_view(&p)
}

/// two paths: one put under the other, taken off it, and compared with it
pub fn pathop(r: &J) -> anyhow::Result<J> {
    let a = Pather::new_with_bext(&text(r, "a")?)?;
    let b = Pather::new_with_bext(&text(r, "b")?)?;
    Ok(json!({
        "root": ask(|| Ok(json!({"v": js(&a.root(&b)?.bext()?)}))),
        "strip": ask(|| Ok(json!({"v": js(&a.strip(&b)?.bext()?)}))),
        "back": ask(|| Ok(json!({"v": js(&a.root(&b)?.strip(&b)?.bext()?)}))),
        "starts": ask(|| Ok(json!({"is": a.starts_with(&b)?}))),
    }))
}

pub fn resolve(r: &J) -> anyhow::Result<J> {
    let a = Pather::new_with_bext(&text(r, "a")?)?;
    Ok(json!({"doc": of_value(&a.resolve(&doc(r, "doc")?)?)}))
}

pub fn tail(r: &J) -> anyhow::Result<J> {
    let a = Pather::new_with_bext(&text(r, "a")?)?;
    let s = Serder::new_with_ked(&doc(r, "doc")?, None, None)?;
    Ok(json!({"v": ask(|| Ok(json!({"v": js(&a.tail(&s)?)}))), "doc": of_value(&s.ked())}))
}

// ------------------------------------------------------------------------- keys and signatures
fn signer_view(s: &Signer) -> anyhow::Result<J> {
    let mut v = prim_view(s)?;
    v["verfer"] = prim_view(&s.verfer())?;
    Ok(v)
}

pub fn signer(r: &J) -> anyhow::Result<J> {
    let trans = opt_bool(r, "trans");
    let s = match r["via"].as_str().unwrap_or("") {
        "raw" => Signer::new_with_raw(&bytes(r, "data")?, trans, opt_text(r, "code").as_deref())?,
        "qb64" => Signer::new_with_qb64(&text(r, "data")?, trans)?,
        "qb64b" => Signer::new_with_qb64b(&bytes(r, "data")?, trans)?,
        "qb2" => Signer::new_with_qb2(&bytes(r, "data")?, trans)?,
        "gen" => Signer::new_with_defaults(trans, opt_text(r, "code").as_deref())?,
        v => return bad(&format!("via {v}")),
    };
    let mut out = view(signer_view(&s))?;
    let mut signed = vec![];
    for g in r.get("sigs").and_then(|g| g.as_array()).unwrap_or(&vec![]) {
        let ser = bytes(g, "ser")?;
        signed.push(ask(|| match opt_bool(g, "only") {
            None => {
                let c: Cigar = s.sign_unindexed(&ser)?;
                let mut v = prim_view(&c)?;
                v["verfer"] = prim_view(&c.verfer())?;
                v["is"] = json!(c.verfer().verify(&c.raw(), &ser)?);
                Ok(v)
            }
            Some(only) => {
                let c: Siger = s.sign_indexed(
                    &ser,
                    only,
                    opt_u64(g, "index").unwrap() as u32,
                    opt_u64(g, "ondex").map(|x| x as u32),
                )?;
                let mut v = idx_view(&c)?;
                v["verfer"] = prim_view(&c.verfer())?;
                v["is"] = json!(c.verfer().verify(&c.raw(), &ser)?);
                Ok(v)
            }
        }));
    }
    out["signed"] = json!(signed);
    Ok(out)
}

pub fn verify(r: &J) -> anyhow::Result<J> {
    let v = Verfer::new_with_raw(&bytes(r, "key")?, Some(&text(r, "code")?))?;
    Ok(json!({"is": v.verify(&bytes(r, "sig")?, &bytes(r, "ser")?)?}))
}

fn tier(r: &J, k: &str) -> Option<String> {
    opt_text(r, k)
}

fn salter_of(r: &J) -> anyhow::Result<Salter> {
    let t = tier(r, "stier");
    Ok(match opt_text(r, "salt64") {
        Some(q) => Salter::new_with_qb64(&q, t.as_deref())?,
        None => Salter::new_with_raw(&bytes(r, "salt")?, None, t.as_deref())?,
    })
}

pub fn stretch(r: &J) -> anyhow::Result<J> {
    let s = salter_of(r)?;
    let d = s.stretch(
        opt_u64(r, "size").map(|x| x as usize),
        opt_text(r, "path").as_deref(),
        tier(r, "tier").as_deref(),
        opt_bool(r, "temp"),
    )?;
    Ok(json!({"d": jb(&d), "tier": js(&s.tier())}))
}

pub fn saltsigner(r: &J) -> anyhow::Result<J> {
    let s = salter_of(r)?;
    let g = s.signer(
        opt_text(r, "code").as_deref(),
        opt_bool(r, "trans"),
        opt_text(r, "path").as_deref(),
        tier(r, "tier").as_deref(),
        opt_bool(r, "temp"),
    )?;
    Ok(json!({"signers": [view(signer_view(&g))?]}))
}

pub fn saltsigners(r: &J) -> anyhow::Result<J> {
    let s = salter_of(r)?;
    let gs = s.signers(
        opt_u64(r, "count").map(|x| x as usize),
        opt_u64(r, "start").map(|x| x as usize),
        opt_text(r, "path").as_deref(),
        opt_text(r, "code").as_deref(),
        opt_bool(r, "trans"),
        tier(r, "tier").as_deref(),
        opt_bool(r, "temp"),
    )?;
    view((|| Ok(json!({"signers": gs.iter().map(signer_view).collect::<anyhow::Result<Vec<_>>>()?})))())
}

pub fn creator(r: &J) -> anyhow::Result<J> {
    let stem = opt_text(r, "stem");
    let t = tier(r, "stier");
    let c = if opt_bool(r, "given") == Some(true) {
        // what is given beside a salter does not count
        SaltyCreator::new(opt_text(r, "beside").as_deref(), stem.as_deref(), tier(r, "btier").as_deref(), Some(salter_of(r)?))?
    } else {
        SaltyCreator::new(Some(&text(r, "salt64")?), stem.as_deref(), t.as_deref(), None)?
    };
    let codes: Option<Vec<String>> =
        r.get("codes").and_then(|a| a.as_array()).map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect());
    let gs = c.create(
        codes.as_ref().map(|a| a.iter().map(|s| s.as_str()).collect()),
        opt_u64(r, "count").map(|x| x as u16),
        opt_text(r, "code").as_deref(),
        opt_u64(r, "pidx").map(|x| x as u16),
        opt_u64(r, "ridx").map(|x| x as u16),
        opt_u64(r, "kidx").map(|x| x as u16),
        opt_text(r, "cstem").as_deref(),
        opt_bool(r, "trans"),
        opt_bool(r, "temp").unwrap(),
    );
    view((|| Ok(json!({"signers": gs.iter().map(signer_view).collect::<anyhow::Result<Vec<_>>>()?})))())
}

/// a fresh salt
pub fn newsalt(r: &J) -> anyhow::Result<J> {
    let s = Salter::new_with_defaults(tier(r, "stier").as_deref())?;
    let mut v = prim_view(&s)?;
    v["tier"] = js(&s.tier());
    Ok(v)
}

/// several private keys or salts made afresh
pub fn fresh(r: &J) -> anyhow::Result<J> {
    let n = opt_u64(r, "count").unwrap();
    let code = text(r, "code")?;
    let mut raws = vec![];
    for _ in 0..n {
        raws.push(jb(&match r["what"].as_str().unwrap_or("") {
            "salt" => Salter::new_with_defaults(None)?.raw(),
            "unseeded" => Salter::new(Some("min"), Some(&code), None, None, None, None)?.raw(),
            "signer" => Signer::new_with_defaults(None, Some(&code))?.raw(),
            v => return bad(&format!("what {v}")),
        }));
    }
    Ok(json!({"raws": raws}))
}
