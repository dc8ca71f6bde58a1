use crate::util::*;
use keride::cesr::{
    Bext, Bexter, Cigar, Counter, Dater, Diger, Indexer, Matter, Number, Saider, Salter, Seqner, Siger, Verfer,
};
use keride::pathing::pather::Pather;
use keride::prefexing::prefixer::Prefixer;
use keride::signing::Signer;
use serde_json::{json, Value as J};

/// A primitive of any code: the Matter trait as the library ships it.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct AnyMatter {
    raw: Vec<u8>,
    code: String,
    size: u32,
}
impl Matter for AnyMatter {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn size(&self) -> u32 {
        self.size
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.to_string();
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec();
    }
    fn set_size(&mut self, size: u32) {
        self.size = size;
    }
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct AnyIndexer {
    raw: Vec<u8>,
    code: String,
    index: u32,
    ondex: u32,
}
impl Indexer for AnyIndexer {
    fn code(&self) -> String {
        self.code.clone()
    }
    fn raw(&self) -> Vec<u8> {
        self.raw.clone()
    }
    fn index(&self) -> u32 {
        self.index
    }
    fn ondex(&self) -> u32 {
        self.ondex
    }
    fn set_code(&mut self, code: &str) {
        self.code = code.to_string();
    }
    fn set_raw(&mut self, raw: &[u8]) {
        self.raw = raw.to_vec();
    }
    fn set_index(&mut self, i: u32) {
        self.index = i;
    }
    fn set_ondex(&mut self, i: u32) {
        self.ondex = i;
    }
}

pub fn prim_view<T: Matter>(m: &T) -> anyhow::Result<J> {
    view(prim_view_(m))
}
fn prim_view_<T: Matter>(m: &T) -> anyhow::Result<J> {
    let t = m.qb64()?;
    if m.qb64b()? != t.as_bytes() {
        anyhow::bail!("qb64b differs from qb64");
    }
    Ok(json!({
        "code": m.code(), "size": m.size(), "raw": jb(&m.raw()), "qb64": js(&t), "qb2": jb(&m.qb2()?),
        "full": m.full_size()?, "dig": m.digestive(), "trans": m.transferable(),
    }))
}

pub fn idx_view<T: Indexer>(m: &T) -> anyhow::Result<J> {
    view(idx_view_(m))
}
fn idx_view_<T: Indexer>(m: &T) -> anyhow::Result<J> {
    let t = m.qb64()?;
    if m.qb64b()? != t.as_bytes() {
        anyhow::bail!("qb64b differs from qb64");
    }
    Ok(json!({
        "code": m.code(), "index": m.index(), "ondex": m.ondex(), "raw": jb(&m.raw()),
        "qb64": js(&t), "qb2": jb(&m.qb2()?), "full": m.full_size()?,
    }))
}

enum Src {
    Raw(Option<String>, Vec<u8>),
    Qb64(String),
    Qb64b(Vec<u8>),
    Qb2(Vec<u8>),
}

fn src(r: &J) -> anyhow::Result<Src> {
    Ok(match r["via"].as_str().unwrap_or("") {
        "raw" => Src::Raw(opt_text(r, "code"), bytes(r, "data")?),
        "qb64" => Src::Qb64(text(r, "data")?),
        "qb64b" => Src::Qb64b(bytes(r, "data")?),
        "qb2" => Src::Qb2(bytes(r, "data")?),
        v => return bad(&format!("via {v}")),
    })
}

macro_rules! typed {
    ($s:expr, $t:ty, $raw:expr, $($x:expr),*) => {{
        let v: $t = match $s {
            Src::Raw(c, d) => $raw(c.as_deref(), &d)?,
            Src::Qb64(t) => <$t>::new_with_qb64(&t, $($x),*)?,
            Src::Qb64b(t) => <$t>::new_with_qb64b(&t, $($x),*)?,
            Src::Qb2(t) => <$t>::new_with_qb2(&t, $($x),*)?,
        };
        v
    }};
}

/// the verification key a signature is read along with, if any
fn by(r: &J) -> anyhow::Result<Option<Verfer>> {
    Ok(match opt_text(r, "by") {
        Some(t) => Some(Verfer::new_with_qb64(&t)?),
        None => None,
    })
}
fn said_by(mut v: J, given: &Option<Verfer>, got: &Verfer) -> J {
    if given.is_some() {
        v["by"] = got.qb64().map(|t| js(&t)).unwrap_or(J::Null);
    }
    v
}

pub fn matter(r: &J) -> anyhow::Result<J> {
    let s = src(r)?;
    match r["cls"].as_str().unwrap_or("") {
        "base" => prim_view(&typed!(s, AnyMatter, |c: Option<&str>, d: &[u8]| AnyMatter::new_with_code_and_raw(c.unwrap_or(""), d),)),
        "verfer" => prim_view(&typed!(s, Verfer, |c: Option<&str>, d: &[u8]| Verfer::new_with_raw(d, c),)),
        "cigar" => {
            let by = by(r)?;
            let g = typed!(s, Cigar, |c: Option<&str>, d: &[u8]| Cigar::new_with_raw(d, by.as_ref(), c), by.as_ref());
            view((|| Ok(said_by(prim_view_(&g)?, &by, &g.verfer())))())
        }
        "diger" => prim_view(&typed!(s, Diger, |c: Option<&str>, d: &[u8]| Diger::new_with_raw(d, c),)),
        "saider" => prim_view(&typed!(s, Saider, |c: Option<&str>, d: &[u8]| Saider::new_with_raw(d, c),)),
        "prefixer" => prim_view(&typed!(s, Prefixer, |c: Option<&str>, d: &[u8]| Prefixer::new_with_raw(d, c),)),
        "salter" => prim_view(&typed!(s, Salter, |c: Option<&str>, d: &[u8]| Salter::new_with_raw(d, c, None), None)),
        "signer" => {
            let g = typed!(s, Signer, |c: Option<&str>, d: &[u8]| Signer::new_with_raw(d, None, c), None);
            prim_view(&g)
        }
        "number" => {
            let n = typed!(s, Number, |c: Option<&str>, d: &[u8]| Number::new_with_raw(d, c),);
            view((|| {
                let mut v = prim_view(&n)?;
                v["num"] = jb(&n.num()?.to_be_bytes());
                v["numh"] = js(&n.numh()?);
                v["pos"] = json!(n.positive()?);
                Ok(v)
            })())
        }
        "seqner" => {
            let n = typed!(s, Seqner, |c: Option<&str>, d: &[u8]| Seqner::new_with_raw(d, c),);
            view((|| {
                let mut v = prim_view(&n)?;
                v["num"] = jb(&n.sn()?.to_be_bytes());
                v["numh"] = js(&n.snh()?);
                Ok(v)
            })())
        }
        "dater" => {
            let n = typed!(s, Dater, |c: Option<&str>, d: &[u8]| Dater::new_with_raw(d, c),);
            view((|| {
                let mut v = prim_view(&n)?;
                if n.dtsb()? != n.dts()?.as_bytes() {
                    anyhow::bail!("dtsb differs from dts");
                }
                v["dts"] = js(&n.dts()?);
                Ok(v)
            })())
        }
        "bexter" => {
            let n = typed!(s, Bexter, |c: Option<&str>, d: &[u8]| Bexter::new_with_raw(d, c),);
            view((|| {
                let mut v = prim_view(&n)?;
                v["bext"] = js(&n.bext()?);
                Ok(v)
            })())
        }
        "pather" => {
            let n = typed!(s, Pather, |c: Option<&str>, d: &[u8]| Pather::new_with_raw(d, c),);
            view((|| {
                let mut v = prim_view(&n)?;
                v["bext"] = js(&n.bext()?);
                Ok(v)
            })())
        }
        c => bad(&format!("cls {c}")),
    }
}

/// the general constructors, given several forms at once
pub fn given(r: &J) -> anyhow::Result<J> {
    let ob = |k: &str| -> anyhow::Result<Option<Vec<u8>>> { r.get(k).map(|_| bytes(r, k)).transpose() };
    let (code, raw, qb64b, qb64, qb2) = (opt_text(r, "code"), ob("raw")?, ob("qb64b")?, opt_text(r, "qb64"), ob("qb2")?);
    let (c, w, b, t, d) = (code.as_deref(), raw.as_deref(), qb64b.as_deref(), qb64.as_deref(), qb2.as_deref());
    let val = opt_u64(r, "val");
    let ser = val.map(|v| v.to_be_bytes());
    let hex = val.map(|v| format!("{v:x}"));
    let (num, odd) = (val.filter(|v| v % 2 == 0), val.filter(|v| v % 2 == 1).and(hex.as_deref()));
    let date = val.map(|_| "2020-08-22T17:50:09.988921+00:00");
    match r["cls"].as_str().unwrap_or("") {
        "base" => prim_view(&<AnyMatter as Matter>::new(c, w, b, t, d)?),
        "verfer" => prim_view(&Verfer::new(c, w, b, t, d)?),
        "cigar" => prim_view(&Cigar::new(None, c, w, b, t, d)?),
        "diger" => prim_view(&Diger::new(ser.as_ref().map(|s| s.as_slice()), c, w, b, t, d)?),
        "saider" => prim_view(&Saider::new(None, None, None, None, c, w, b, t, d)?),
        "prefixer" => prim_view(&Prefixer::new(None, None, c, w, b, t, d)?),
        "salter" => prim_view(&Salter::new(None, c, w, b, t, d)?),
        "signer" => prim_view(&Signer::new(None, c, w, b, t, d)?),
        "number" => prim_view(&Number::new(num.map(|v| v as u128), odd, c, w, b, t, d)?),
        "seqner" => prim_view(&Seqner::new(num.map(|v| v as u128), odd, c, w, b, t, d)?),
        "dater" => prim_view(&Dater::new(date, c, w, b, t, d)?),
        "bexter" => prim_view(&Bexter::new(None, c, w, b, t, d)?),
        "pather" => prim_view(&Pather::new(None, None, c, w, b, t, d)?),
        c => bad(&format!("cls {c}")),
    }
}

pub fn indexer(r: &J) -> anyhow::Result<J> {
    let s = src(r)?;
    let index = opt_u64(r, "index").map(|x| x as u32);
    let ondex = r.get("ondex").and_then(|o| o.as_array()).and_then(|a| a.first()).map(|x| x.as_u64().unwrap() as u32);
    match r["cls"].as_str().unwrap_or("") {
        "base" => idx_view(&typed!(
            s,
            AnyIndexer,
            |c: Option<&str>, d: &[u8]| AnyIndexer::new_with_code_and_raw(c.unwrap_or(""), d, index.unwrap_or(0), ondex),
        )),
        "siger" => {
            let by = by(r)?;
            let g = typed!(
                s,
                Siger,
                |c: Option<&str>, d: &[u8]| Siger::new_with_raw(d, by.as_ref(), index, ondex, c),
                by.as_ref()
            );
            view((|| Ok(said_by(idx_view_(&g)?, &by, &g.verfer())))())
        }
        c => bad(&format!("cls {c}")),
    }
}

pub fn cnt_view(c: &Counter) -> anyhow::Result<J> {
    view(cnt_view_(c))
}
fn cnt_view_(c: &Counter) -> anyhow::Result<J> {
    let t = c.qb64()?;
    if c.qb64b()? != t.as_bytes() {
        anyhow::bail!("qb64b differs from qb64");
    }
    Ok(json!({"code": c.code(), "count": c.count(), "qb64": js(&t), "qb2": jb(&c.qb2()?), "full": c.full_size()?}))
}

pub fn counter(r: &J) -> anyhow::Result<J> {
    let c = match r["via"].as_str().unwrap_or("") {
        "code" => Counter::new_with_code_and_count(&text(r, "code")?, opt_u64(r, "count").unwrap() as u32)?,
        "default" => Counter::new(None, None, Some(&text(r, "code")?), None, None, None)?,
        "b64" => Counter::new(None, Some(&text(r, "count")?), Some(&text(r, "code")?), None, None, None)?,
        "qb64" => Counter::new_with_qb64(&text(r, "data")?)?,
        "qb64b" => Counter::new_with_qb64b(&bytes(r, "data")?)?,
        "qb2" => Counter::new_with_qb2(&bytes(r, "data")?)?,
        v => return bad(&format!("via {v}")),
    };
    cnt_view(&c)
}

pub fn countb64(r: &J) -> anyhow::Result<J> {
    let c = Counter::new_with_code_and_count(&text(r, "code")?, opt_u64(r, "count").unwrap() as u32)?;
    Ok(json!({"text": js(&c.count_as_b64(opt_u64(r, "len").unwrap() as usize)?)}))
}

pub fn semver(r: &J) -> anyhow::Result<J> {
    let t = if let Some(s) = opt_text(r, "str") {
        Counter::sem_ver_str_to_b64(&s)?
    } else {
        let p = bytes(r, "parts")?;
        Counter::sem_ver_to_b64(p[0], p[1], p[2])?
    };
    Ok(json!({"text": js(&t)}))
}

/// `data` as its first `head` bytes and then runs of equal pieces of `step` bytes: [piece, times] each.
fn runs(data: &[u8], head: usize, step: usize) -> J {
    let (head, tail) = data.split_at(head.min(data.len()));
    let mut runs: Vec<(&[u8], u64)> = vec![];
    for piece in tail.chunks(step) {
        let full = runs.len() >= 50;
        match runs.last_mut() {
            Some((p, n)) if *p == piece => *n += 1,
            _ if full => (),
            _ => runs.push((piece, 1)),
        }
    }
    json!({"head": jb(head), "len": data.len(), "runs": runs.iter().map(|(p, n)| json!({"piece": jb(p), "times": n})).collect::<Vec<_>>()})
}

/// A primitive of `count` bytes of the value `byte`, its text and binary, and what they read back as; all in runs.
pub fn big_matter(r: &J) -> anyhow::Result<J> {
    let raw = vec![opt_u64(r, "byte").unwrap() as u8; opt_u64(r, "count").unwrap() as usize];
    let m = <AnyMatter as Matter>::new(Some(&text(r, "code")?), Some(&raw), None, None, None)?;
    let (t, b) = (m.qb64()?, m.qb2()?);
    let cs = 4 * (1 + (m.code().len() > 2) as usize);
    let back = |m: anyhow::Result<AnyMatter>| match m {
        Ok(m) => json!({"ok": true, "code": m.code(), "size": m.size(), "raw": runs(&m.raw(), 0, 1)}),
        Err(_) => json!({"ok": false}),
    };
    Ok(json!({"code": m.code(), "size": m.size(), "raw": runs(&m.raw(), 0, 1), "text": runs(t.as_bytes(), cs, 4),
        "bin": runs(&b, cs / 4 * 3, 3), "fromtext": back(AnyMatter::new_with_qb64(&t)), "frombin": back(AnyMatter::new_with_qb2(&b))}))
}
