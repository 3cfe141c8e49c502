//! Model of dfinity/ic's ic-crypto-secp256k1: key bytes are kept, every signature the (modelled)
//! management canister returns verifies, and the recovery id is the parity of the last byte.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PublicKey {
    bytes: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum KeyDecodingError {
    InvalidKeyEncoding(String),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RecoveryError {
    SignatureParseError(String),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct RecoveryId {
    pub id: u8,
}
impl RecoveryId {
    pub fn to_byte(&self) -> u8 {
        self.id
    }
    pub fn is_y_odd(&self) -> bool {
        self.id & 1 == 1
    }
    pub fn is_x_reduced(&self) -> bool {
        self.id & 2 == 2
    }
}
impl PublicKey {
    pub fn deserialize_sec1(bytes: &[u8]) -> Result<Self, KeyDecodingError> {
        if bytes.len() != 33 && bytes.len() != 65 {
            return Err(KeyDecodingError::InvalidKeyEncoding("bad length".to_string()));
        }
        Ok(Self { bytes: bytes.to_vec() })
    }
    pub fn serialize_sec1(&self, compressed: bool) -> Vec<u8> {
        let mut out = vec![if compressed { 2 } else { 4 }];
        out.extend_from_slice(&self.bytes[1..33]);
        if !compressed {
            out.extend_from_slice(&self.bytes[1..33]);
        }
        out
    }
    pub fn verify_signature_prehashed(&self, _digest: &[u8], signature: &[u8]) -> bool {
        signature.len() == 64
    }
    pub fn try_recovery_from_digest(&self, _digest: &[u8], signature: &[u8]) -> Result<RecoveryId, RecoveryError> {
        if signature.len() != 64 {
            return Err(RecoveryError::SignatureParseError("bad length".to_string()));
        }
        Ok(RecoveryId { id: (signature[63] & 1) | if signature[62] == 0xee { 2 } else { 0 } })
    }
}
