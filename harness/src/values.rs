use crate::cesr::prim_view;
use crate::util::*;
use keride::cesr::{Bext, Bexter, Dater, Number, Seqner};
use serde_json::{json, Value as J};

fn num(r: &J, k: &str) -> Option<u128> {
    opt_bytes(r, k).map(|b| b.iter().fold(0u128, |a, x| (a << 8) | *x as u128))
}

/// a number from a value: number itself or hexadecimal text
pub fn number(r: &J) -> anyhow::Result<J> {
    let n = match r["via"].as_str().unwrap_or("") {
        "num" => Number::new_with_num(num(r, "num").unwrap())?,
        "numh" => Number::new_with_numh(&text(r, "numh")?)?,
        "none" => Number::new(None, None, None, None, None, None, None)?,
        v => return bad(&format!("via {v}")),
    };
    view((|| {
        let mut v = prim_view(&n)?;
        v["num"] = jb(&n.num()?.to_be_bytes());
        v["numh"] = js(&n.numh()?);
        v["pos"] = json!(n.positive()?);
        Ok(v)
    })())
}

pub fn seqner(r: &J) -> anyhow::Result<J> {
    let n = match r["via"].as_str().unwrap_or("") {
        "num" => Seqner::new_with_sn(num(r, "num").unwrap())?,
        "numh" => Seqner::new_with_snh(&text(r, "numh")?)?,
        "none" => Seqner::new(None, None, None, None, None, None, None)?,
        v => return bad(&format!("via {v}")),
    };
    view((|| {
        let mut v = prim_view(&n)?;
        v["num"] = jb(&n.sn()?.to_be_bytes());
        v["numh"] = js(&n.snh()?);
        Ok(v)
    })())
}

pub fn dater(r: &J) -> anyhow::Result<J> {
    let n = match r["via"].as_str().unwrap_or("") {
        "dts" => Dater::new_with_dts(&text(r, "dts")?, opt_text(r, "code").as_deref())?,
        "now" => Dater::new(None, None, None, None, None, None)?,
        v => return bad(&format!("via {v}")),
    };
    view((|| {
        let mut v = prim_view(&n)?;
        if n.dtsb()? != n.dts()?.as_bytes() {
            anyhow::bail!("dtsb differs from dts");
        }
        v["dts"] = js(&n.dts()?);
        Ok(v)
    })())
}

pub fn bexter(r: &J) -> anyhow::Result<J> {
    let t = text(r, "bext")?;
    let n = match opt_text(r, "code") {
        Some(c) => Bexter::new(Some(&t), Some(&c), None, None, None, None)?,
        None => Bexter::new_with_bext(&t)?,
    };
    view((|| {
        let mut v = prim_view(&n)?;
        v["bext"] = js(&n.bext()?);
        Ok(v)
    })())
}
