//! Algorithms called directly, without keride: the values the specification leaves uninterpreted.
use crate::util::*;
use serde_json::{json, Value as J};

pub fn oracle(r: &J) -> anyhow::Result<J> {
    let code = text(r, "c")?;
    match r["k"].as_str().unwrap_or("") {
        "hash" => {
            let p = bytes(r, "p")?;
            let d = match code.as_str() {
                "E" => blake3::hash(&p).as_bytes().to_vec(),
                "0D" => {
                    let mut out = [0u8; 64];
                    let mut h = blake3::Hasher::new();
                    h.update(&p);
                    h.finalize_xof().fill(&mut out);
                    out.to_vec()
                }
                c => return bad(&format!("hash {c}")),
            };
            Ok(json!({"d": jb(&d)}))
        }
        "stretch" => {
            // p: [size, path, salt]
            let p = r["p"].as_array().unwrap();
            let size = p[0].as_u64().unwrap() as usize;
            let (m, t, l) = match code.as_str() {
                "min" => (8, 1, 1),
                "low" => (65536, 2, 1),
                "med" => (262144, 3, 1),
                "high" => (1048576, 4, 1),
                c => return bad(&format!("tier {c}")),
            };
            let params = argon2::Params::new(m, t, l, Some(size)).map_err(|e| anyhow::anyhow!("{e}"))?;
            let a = argon2::Argon2::new(argon2::Algorithm::Argon2id, argon2::Version::V0x13, params);
            let mut out = vec![0u8; size];
            a.hash_password_into(&raw_bytes(&p[1]), &raw_bytes(&p[2]), &mut out).map_err(|e| anyhow::anyhow!("{e}"))?;
            Ok(json!({"d": jb(&out)}))
        }
        "pubkey" => {
            let seed = bytes(r, "p")?;
            let d = match code.as_str() {
                "A" => {
                    let k: [u8; 32] = seed.as_slice().try_into()?;
                    ed25519_dalek::SigningKey::from_bytes(&k).verifying_key().to_bytes().to_vec()
                }
                "J" => match k256::ecdsa::SigningKey::from_slice(&seed) {
                    Ok(k) => k.verifying_key().to_encoded_point(true).as_bytes().to_vec(),
                    Err(_) => vec![],
                },
                "Q" => match p256::ecdsa::SigningKey::from_slice(&seed) {
                    Ok(k) => k.verifying_key().to_encoded_point(true).as_bytes().to_vec(),
                    Err(_) => vec![],
                },
                c => return bad(&format!("pubkey {c}")),
            };
            Ok(json!({"d": jb(&d)}))
        }
        "sign" => {
            // p: [seed, msg]
            let p = r["p"].as_array().unwrap();
            let (seed, msg) = (raw_bytes(&p[0]), raw_bytes(&p[1]));
            let d = match code.as_str() {
                "A" => {
                    use ed25519_dalek::Signer;
                    let k: [u8; 32] = seed.as_slice().try_into()?;
                    ed25519_dalek::SigningKey::from_bytes(&k).sign(&msg).to_bytes().to_vec()
                }
                "J" => {
                    use k256::ecdsa::signature::Signer;
                    let s: k256::ecdsa::Signature = k256::ecdsa::SigningKey::from_slice(&seed)?.sign(&msg);
                    s.to_bytes().to_vec()
                }
                "Q" => {
                    use p256::ecdsa::signature::Signer;
                    let s: p256::ecdsa::Signature = p256::ecdsa::SigningKey::from_slice(&seed)?.sign(&msg);
                    s.to_bytes().to_vec()
                }
                c => return bad(&format!("sign {c}")),
            };
            Ok(json!({"d": jb(&d)}))
        }
        "verify" => {
            // p: [key, sig, msg]; the answer is [1] or [0]
            let p = r["p"].as_array().unwrap();
            let (key, sig, msg) = (raw_bytes(&p[0]), raw_bytes(&p[1]), raw_bytes(&p[2]));
            let is = match code.as_str() {
                "B" | "D" => ed(&key, &sig, &msg),
                "1AAA" | "1AAB" => {
                    use k256::ecdsa::signature::Verifier;
                    match (k256::ecdsa::VerifyingKey::from_sec1_bytes(&key), k256::ecdsa::Signature::from_slice(&sig)) {
                        (Ok(k), Ok(s)) => k.verify(&msg, &s).is_ok(),
                        _ => false,
                    }
                }
                "1AAI" | "1AAJ" => {
                    use p256::ecdsa::signature::Verifier;
                    match (p256::ecdsa::VerifyingKey::from_sec1_bytes(&key), p256::ecdsa::Signature::from_slice(&sig)) {
                        (Ok(k), Ok(s)) => k.verify(&msg, &s).is_ok(),
                        _ => false,
                    }
                }
                c => return bad(&format!("verify {c}")),
            };
            Ok(json!({"d": [if is { 1 } else { 0 }]}))
        }
        k => bad(&format!("oracle {k}")),
    }
}

fn ed(key: &[u8], sig: &[u8], msg: &[u8]) -> bool {
    use ed25519_dalek::Verifier;
    let k: [u8; 32] = match key.try_into() {
        Ok(k) => k,
        Err(_) => return false,
    };
    match (ed25519_dalek::VerifyingKey::from_bytes(&k), ed25519_dalek::Signature::from_slice(sig)) {
        (Ok(k), Ok(s)) => k.verify(msg, &s).is_ok(),
        _ => false,
    }
}
