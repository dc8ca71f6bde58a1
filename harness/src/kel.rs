//! A replay of key event logs put together from the library's own primitives and nothing else:
//! what is a message, a signature, enough signatures, a commitment or an identifier is always
//! asked of the library.
use crate::doc::of_value;
use crate::util::*;
use keride::cesr::{Counter, Diger, Indexer, Matter, Number, Sadder, Saider, Serder, Siger, Tholder, Verfer};
use keride::prefexing::prefixer::Prefixer;
use serde_json::{json, Value as J};

pub struct State {
    pub pre: String,
    pub sn: u128,
    pub said: String,
    pub keys: Vec<Verfer>,
    pub kt: Tholder,
    pub digs: Vec<Diger>,
    pub nt: Tholder,
}

pub fn no<T>(why: &str) -> anyhow::Result<T> {
    anyhow::bail!("not accepted: {why}")
}

/// a count of indexed signatures and the signatures, and how far they reach
fn signatures(atc: &[u8], bin: bool) -> anyhow::Result<(Vec<Siger>, usize)> {
    let (c, mut off) = if bin {
        let c = Counter::new_with_qb2(atc)?;
        let n = c.full_size()? as usize * 3 / 4;
        (c, n)
    } else {
        let c = Counter::new_with_qb64b(atc)?;
        let n = c.full_size()? as usize;
        (c, n)
    };
    if c.code() != "-A" {
        return no("no controller signatures");
    }
    let mut out = vec![];
    for _ in 0..c.count() {
        let rest = &atc[off..];
        let s = if bin { Siger::new_with_qb2(rest, None)? } else { Siger::new_with_qb64b(rest, None)? };
        off += if bin { s.full_size()? as usize * 3 / 4 } else { s.full_size()? as usize };
        out.push(s);
    }
    Ok((out, off))
}

/// the message that bytes begin with, its signatures, and how far both reach
fn framed(bytes: &[u8], bin: bool, code: &str) -> anyhow::Result<(Serder, Vec<Siger>, usize)> {
    let serder = Serder::new(Some(code), Some(bytes), None, None, None)?;
    let n = serder.raw().len();
    let (sigs, used) = signatures(&bytes[n..], bin)?;
    Ok((serder, sigs, n + used))
}

pub fn valid<'a>(sigs: &'a [Siger], keys: &[Verfer], raw: &[u8]) -> Vec<&'a Siger> {
    sigs.iter()
        .filter(|s| {
            (s.index() as usize) < keys.len() && keys[s.index() as usize].verify(&s.raw(), raw).unwrap_or(false)
        })
        .collect()
}

fn enough(t: &Tholder, who: Vec<u32>) -> anyhow::Result<()> {
    if who.is_empty() || !t.satisfy(&who)? {
        return no("not signed by enough");
    }
    Ok(())
}

pub fn intact(serder: &impl Sadder) -> anyhow::Result<()> {
    let said = Saider::new_with_qb64(&serder.said()?)?;
    if !said.verify(&serder.ked(), Some(true), Some(true), None, None, None)? {
        return no("altered");
    }
    Ok(())
}

fn one(state: &Option<State>, msg: &[u8], bin: bool, code: &str) -> anyhow::Result<State> {
    let (serder, sigs, used) = framed(msg, bin, code)?;
    if used != msg.len() {
        return no("something follows the signatures");
    }
    step(state.as_ref(), &serder, &sigs, &field(&serder, "t")?)
}

/// a key event, taken for one of the kind named
pub fn step(state: Option<&State>, serder: &Serder, sigs: &[Siger], ilk: &str) -> anyhow::Result<State> {
    let raw = serder.raw();
    let ked = serder.ked();
    let pre = serder.pre()?;
    let sn = serder.sn()?;
    // a number read by the library is the number it was read from
    if serder.sner()?.num()? != sn || Number::new_with_num(sn)?.num()? != sn {
        return no("number");
    }
    if ilk == "ixn" {
        let Some(s) = state else { return no("no such identifier") };
        if s.digs.is_empty() || pre != s.pre || sn != s.sn + 1 || prior(serder)? != s.said {
            return no("does not continue the log");
        }
        intact(serder)?;
        enough(&s.kt, valid(sigs, &s.keys, &raw).iter().map(|g| g.index()).collect())?;
        return Ok(State {
            pre,
            sn,
            said: serder.said()?,
            keys: copy(&s.keys)?,
            kt: Tholder::new_with_sith(&s.kt.sith()?)?,
            digs: s.digs.iter().map(|d| Diger::new_with_qb64(&d.qb64()?)).collect::<Result<_, _>>()?,
            nt: Tholder::new_with_sith(&s.nt.sith()?)?,
        });
    }
    if ilk != "icp" && ilk != "rot" {
        return no("not a key event");
    }
    let keys = serder.verfers()?;
    let digs = serder.digers()?;
    let (Some(kt), Some(nt)) = (serder.tholder()?, serder.ntholder()?) else { return no("no threshold") };
    if keys.is_empty() || kt.size() as usize > keys.len() || nt.size() as usize > digs.len() {
        return no("thresholds do not fit");
    }
    let good = valid(sigs, &keys, &raw);
    enough(&kt, good.iter().map(|g| g.index()).collect())?;
    match (ilk, state) {
        ("icp", None) => {
            let p = Prefixer::new_with_qb64(&pre)?;
            if sn != 0 || !p.verify(&ked, Some(true))? {
                return no("not its identifier");
            }
            if p.digestive() {
                if serder.said()? != pre {
                    return no("identifier and digest differ");
                }
            } else {
                intact(serder)?;
            }
        }
        ("rot", Some(s)) => {
            if s.digs.is_empty() || pre != s.pre || sn != s.sn + 1 || prior(serder)? != s.said {
                return no("does not continue the log");
            }
            intact(serder)?;
            let mut exposed = vec![];
            for g in good {
                if !current_only(g) && (g.ondex() as usize) < s.digs.len() {
                    let key = &keys[g.index() as usize];
                    if s.digs[g.ondex() as usize].verify(&key.qb64b()?)? {
                        exposed.push(g.ondex());
                    }
                }
            }
            enough(&s.nt, exposed)?;
        }
        _ => return no("out of order"),
    }
    Ok(State { pre, sn, said: serder.said()?, keys, kt, digs, nt })
}

/// a signature that does not speak for the prior next keys
fn current_only(s: &Siger) -> bool {
    ["B", "D", "F", "2B", "2D", "2F"].contains(&s.code().as_str())
}

pub fn field(s: &Serder, label: &str) -> anyhow::Result<String> {
    let k = s.ked();
    if !k.to_map()?.contains_key(label) {
        return no("missing field");
    }
    Ok(k[label].to_string()?)
}

pub fn prior(s: &Serder) -> anyhow::Result<String> {
    field(s, "p")
}

fn copy(keys: &[Verfer]) -> anyhow::Result<Vec<Verfer>> {
    keys.iter().map(|k| Ok(Verfer::new_with_qb64(&k.qb64()?)?)).collect()
}

pub fn view_state(s: &State) -> anyhow::Result<J> {
    Ok(json!({
        "is": true, "pre": js(&s.pre), "sn": jb(&s.sn.to_be_bytes()), "said": js(&s.said),
        "keys": s.keys.iter().map(|k| Ok(js(&k.qb64()?))).collect::<anyhow::Result<Vec<_>>>()?,
        "digs": s.digs.iter().map(|k| Ok(js(&k.qb64()?))).collect::<anyhow::Result<Vec<_>>>()?,
        "kt": of_value(&s.kt.sith()?), "nt": of_value(&s.nt.sith()?),
    }))
}

/// what a call came to, and the state it led to
fn told(got: std::thread::Result<anyhow::Result<State>>, steps: &mut Vec<J>, state: &mut Option<State>) -> anyhow::Result<()> {
    match got {
        Ok(Ok(s)) => {
            steps.push(view_state(&s)?);
            *state = Some(s);
        }
        Ok(Err(e)) => steps.push(json!({"is": false, "msg": e.to_string()})),
        Err(_) => steps.push(json!({"panic": true})),
    }
    Ok(())
}

pub fn safely<T>(f: impl FnOnce() -> anyhow::Result<T>) -> std::thread::Result<anyhow::Result<T>> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
}

pub fn kel(r: &J) -> anyhow::Result<J> {
    let bin = r["dom"] == "bin";
    let code = text(r, "code")?;
    let mut state = None;
    let mut steps = vec![];
    // one log as one stream: framed by what the messages say of themselves, until something is no message
    if let Some(all) = r.get("stream") {
        let all = raw_bytes(all);
        let mut rest = &all[..];
        while !rest.is_empty() {
            match safely(|| framed(rest, bin, &code)) {
                Ok(Ok((serder, sigs, used))) => {
                    told(safely(|| step(state.as_ref(), &serder, &sigs, &field(&serder, "t")?)), &mut steps, &mut state)?;
                    rest = &rest[used..];
                }
                Ok(Err(_)) => break,
                Err(_) => {
                    steps.push(json!({"panic": true}));
                    break;
                }
            }
        }
        return Ok(json!({"steps": steps, "left": rest.len()}));
    }
    for m in r["msgs"].as_array().unwrap() {
        let msg = raw_bytes(m);
        told(safely(|| one(&state, &msg, bin, &code)), &mut steps, &mut state)?;
    }
    Ok(json!({"steps": steps}))
}
