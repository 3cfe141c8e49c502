//! Stand-in for the parts of dfinity/ic's ic-management-canister-types the minter uses.
use candid::{CandidType, Deserialize};
use serde::Serialize;
use serde_bytes::ByteBuf;

#[derive(Clone, Debug, PartialEq, Eq, CandidType, Serialize, Deserialize)]
pub struct DerivationPath(Vec<ByteBuf>);
impl DerivationPath {
    pub fn new(inner: Vec<ByteBuf>) -> Self {
        Self(inner)
    }
    pub fn get(&self) -> &Vec<ByteBuf> {
        &self.0
    }
}
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, CandidType, Serialize, Deserialize)]
pub enum EcdsaCurve {
    #[serde(rename = "secp256k1")]
    Secp256k1,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, CandidType, Serialize, Deserialize)]
pub struct EcdsaKeyId {
    pub curve: EcdsaCurve,
    pub name: String,
}
#[derive(Clone, Debug, PartialEq, Eq, CandidType, Serialize, Deserialize)]
pub struct SignWithECDSAArgs {
    #[serde(with = "serde_bytes")]
    pub message_hash: [u8; 32],
    pub derivation_path: DerivationPath,
    pub key_id: EcdsaKeyId,
}
#[derive(Clone, Debug, PartialEq, Eq, CandidType, Serialize, Deserialize)]
pub struct SignWithECDSAReply {
    #[serde(with = "serde_bytes")]
    pub signature: Vec<u8>,
}
