use crate::util::*;
use serde_json::{json, Value as J};

#[rustfmt::skip]
macro_rules! table {
    ($m:path; $($n:ident)*) => {{ use $m as t; json!({$(stringify!($n): t::$n),*}) }};
}

/// The constants the library offers by name.
pub fn names(r: &J) -> anyhow::Result<J> {
    let t = match text(r, "table")?.as_str() {
        "ilk" => table!(keride::cesr::common::Ilkage; icp rot ixn dip drt rct ksn qry rpy exn pro bar vcp vrt iss rev bis brv),
        "field" => table!(keride::cesr::common::Ids; dollar at id i d t k n b a s f v kt nt di),
        "protocol" => table!(keride::cesr::common::Identage; ACDC KERI),
        "kind" => table!(keride::cesr::common::Serialage; JSON),
        "tier" => table!(keride::cesr::common::Tierage; low med high),
        "matter" => table!(keride::cesr::matter::Codex; Ed25519_Seed Ed25519N X25519 Ed25519 Blake3_256 Blake2b_256 Blake2s_256 SHA3_256 SHA2_256 ECDSA_256k1_Seed Ed448_Seed X448 Short Big X25519_Private X25519_Cipher_Seed ECDSA_256r1_Seed Salt_128 Ed25519_Sig ECDSA_256k1_Sig Blake3_512 Blake2b_512 SHA3_512 SHA2_512 Long ECDSA_256r1_Sig ECDSA_256k1N ECDSA_256k1 Ed448N Ed448 Ed448_Sig Tern DateTime X25519_Cipher_Salt ECDSA_256r1N ECDSA_256r1 TBD1 TBD2 StrB64_L0 StrB64_L1 StrB64_L2 StrB64_Big_L0 StrB64_Big_L1 StrB64_Big_L2 Bytes_L0 Bytes_L1 Bytes_L2 Bytes_Big_L0 Bytes_Big_L1 Bytes_Big_L2),
        "indexer" => table!(keride::cesr::indexer::Codex; Ed25519 Ed25519_Crt ECDSA_256k1 ECDSA_256k1_Crt ECDSA_256r1 ECDSA_256r1_Crt Ed448 Ed448_Crt Ed25519_Big Ed25519_Big_Crt ECDSA_256k1_Big ECDSA_256k1_Big_Crt ECDSA_256r1_Big ECDSA_256r1_Big_Crt Ed448_Big Ed448_Big_Crt TBD0 TBD1 TBD4),
        "sig" => table!(keride::cesr::indexer::SigCodex; Ed25519 Ed25519_Crt ECDSA_256k1 ECDSA_256k1_Crt ECDSA_256r1 ECDSA_256r1_Crt Ed448 Ed448_Crt Ed25519_Big Ed25519_Big_Crt ECDSA_256k1_Big ECDSA_256k1_Big_Crt ECDSA_256r1_Big ECDSA_256r1_Big_Crt Ed448_Big Ed448_Big_Crt),
        "current" => table!(keride::cesr::indexer::CurrentSigCodex; Ed25519_Crt ECDSA_256k1_Crt ECDSA_256r1_Crt Ed448_Crt Ed25519_Big_Crt ECDSA_256k1_Big_Crt ECDSA_256r1_Big_Crt Ed448_Big_Crt),
        "both" => table!(keride::cesr::indexer::BothSigCodex; Ed25519 ECDSA_256k1 ECDSA_256r1 Ed448 Ed25519_Big ECDSA_256k1_Big ECDSA_256r1_Big Ed448_Big),
        "counter" => table!(keride::cesr::counter::Codex; ControllerIdxSigs WitnessIdxSigs NonTransReceiptCouples TransReceiptQuadruples FirstSeenReplayCouples TransIdxSigGroups SealSourceCouples TransLastIdxSigGroups SealSourceTriples SadPathSig SadPathSigGroup PathedMaterialQuadlets AttachedMaterialQuadlets BigAttachedMaterialQuadlets KERIProtocolStack),
        "number" => table!(keride::cesr::number::Codex; Short Long Big Huge),
        t => return bad(&format!("table {t}")),
    };
    // of some codes, those that the table of number codes has
    let mut has = vec![];
    for c in r.get("codes").and_then(|c| c.as_array()).unwrap_or(&vec![]) {
        if keride::cesr::number::Codex::has_code(c.as_str().unwrap_or("")) {
            has.push(c.clone());
        }
    }
    Ok(json!({"names": t, "has": has}))
}
