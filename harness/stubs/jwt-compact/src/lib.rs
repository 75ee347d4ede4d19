//! The part of jwt-compact (lrazovic fork: tokens are SCALE types) polimec uses, with real
//! Ed25519 signatures over base64url(header).base64url(claims).
use chrono::{DateTime, Utc};
use parity_scale_codec::{Decode, Encode, EncodeLike, Input, Output};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::fmt;

const B64: base64::Config = base64::URL_SAFE_NO_PAD;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ParseError;
impl fmt::Display for ParseError {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "malformed token")
	}
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum ValidationError {
	AlgorithmMismatch { expected: String, actual: String },
	MalformedSignature,
	InvalidSignature,
	MalformedClaims,
	NoClaim,
}
impl fmt::Display for ValidationError {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "{self:?}")
	}
}

#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Header {
	#[serde(rename = "typ", default, skip_serializing_if = "Option::is_none")]
	pub token_type: Option<String>,
}
impl Header {
	pub fn empty() -> Self {
		Self::default()
	}
}
#[derive(Serialize, Deserialize)]
struct FullHeader {
	alg: String,
	#[serde(flatten)]
	inner: Header,
}

/// `header.claims.signature`, parsed but not verified.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct UntrustedToken {
	raw: String,
}
impl UntrustedToken {
	pub fn new(s: &str) -> Result<Self, ParseError> {
		let mut it = s.split('.');
		let (Some(h), Some(c), Some(g), None) = (it.next(), it.next(), it.next(), it.next()) else {
			return Err(ParseError)
		};
		let h = base64::decode_config(h, B64).map_err(|_| ParseError)?;
		serde_json::from_slice::<FullHeader>(&h).map_err(|_| ParseError)?;
		base64::decode_config(c, B64).map_err(|_| ParseError)?;
		base64::decode_config(g, B64).map_err(|_| ParseError)?;
		Ok(Self { raw: s.into() })
	}
	fn parts(&self) -> (String, Vec<u8>, Vec<u8>, Vec<u8>) {
		let i = self.raw.rfind('.').expect("parsed");
		let signed = self.raw[..i].to_string();
		let j = signed.find('.').expect("parsed");
		let d = |s: &str| base64::decode_config(s, B64).expect("parsed");
		let (h, c, g) = (d(&signed[..j]), d(&signed[j + 1..]), d(&self.raw[i + 1..]));
		(signed, h, c, g)
	}
}
impl TryFrom<&str> for UntrustedToken {
	type Error = ParseError;
	fn try_from(s: &str) -> Result<Self, ParseError> {
		Self::new(s)
	}
}
impl Encode for UntrustedToken {
	fn size_hint(&self) -> usize {
		self.raw.len() + 4
	}
	fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) {
		self.raw.as_bytes().to_vec().encode_to(dest)
	}
}
impl EncodeLike for UntrustedToken {}
impl Decode for UntrustedToken {
	fn decode<I: Input>(input: &mut I) -> Result<Self, parity_scale_codec::Error> {
		let v = Vec::<u8>::decode(input)?;
		let s = String::from_utf8(v).map_err(|_| "token not utf-8")?;
		Self::new(&s).map_err(|_| "malformed token".into())
	}
}
impl scale_info::TypeInfo for UntrustedToken {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		scale_info::Type::builder()
			.path(scale_info::Path::new("UntrustedToken", "jwt_compact"))
			.composite(scale_info::build::Fields::unnamed().field(|f| f.ty::<Vec<u8>>()))
	}
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Claims<T> {
	#[serde(rename = "exp", default, skip_serializing_if = "Option::is_none", with = "ts")]
	pub expiration: Option<DateTime<Utc>>,
	#[serde(rename = "nbf", default, skip_serializing_if = "Option::is_none", with = "ts")]
	pub not_before: Option<DateTime<Utc>>,
	#[serde(rename = "iat", default, skip_serializing_if = "Option::is_none", with = "ts")]
	pub issued_at: Option<DateTime<Utc>>,
	#[serde(flatten)]
	pub custom: T,
}
impl<T> Claims<T> {
	pub fn new(custom: T) -> Self {
		Self { expiration: None, not_before: None, issued_at: None, custom }
	}
}
mod ts {
	use chrono::{DateTime, TimeZone, Utc};
	use serde::{Deserialize, Deserializer, Serializer};
	pub fn serialize<S: Serializer>(t: &Option<DateTime<Utc>>, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_i64(t.as_ref().map(|t| t.timestamp()).unwrap_or(0))
	}
	pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Option<DateTime<Utc>>, D::Error> {
		let n = i64::deserialize(d)?;
		Utc.timestamp_opt(n, 0).single().map(Some).ok_or_else(|| serde::de::Error::custom("time out of range"))
	}
}

/// A token whose signature was verified.
#[derive(Debug, Clone)]
pub struct Token<T> {
	header: Header,
	claims: Claims<T>,
}
impl<T> Token<T> {
	pub fn claims(&self) -> &Claims<T> {
		&self.claims
	}
	pub fn header(&self) -> &Header {
		&self.header
	}
	pub fn into_parts(self) -> (Header, Claims<T>) {
		(self.header, self.claims)
	}
}

pub trait Algorithm {
	type SigningKey;
	type VerifyingKey;
	type Signature;
}

pub mod alg {
	#[derive(Debug, Clone, Copy, Default, PartialEq, Eq)]
	pub struct Ed25519;
	impl super::Algorithm for Ed25519 {
		type SigningKey = ed25519_dalek::SigningKey;
		type VerifyingKey = ed25519_dalek::VerifyingKey;
		type Signature = ed25519_dalek::Signature;
	}
	pub trait VerifyingKey<T>: Sized {
		fn from_slice(raw: &[u8]) -> Result<Self, String>;
	}
	impl VerifyingKey<Ed25519> for ed25519_dalek::VerifyingKey {
		fn from_slice(raw: &[u8]) -> Result<Self, String> {
			let a: [u8; 32] = raw.try_into().map_err(|_| "key length".to_string())?;
			ed25519_dalek::VerifyingKey::from_bytes(&a).map_err(|e| e.to_string())
		}
	}
	pub trait SigningKey<T>: Sized {
		fn from_slice(raw: &[u8]) -> Result<Self, String>;
	}
	impl SigningKey<Ed25519> for ed25519_dalek::SigningKey {
		fn from_slice(raw: &[u8]) -> Result<Self, String> {
			let a: [u8; 32] = raw.try_into().map_err(|_| "key length".to_string())?;
			Ok(ed25519_dalek::SigningKey::from_bytes(&a))
		}
	}
}
use alg::Ed25519;

pub struct Validator<'a, T> {
	key: &'a ed25519_dalek::VerifyingKey,
	_t: std::marker::PhantomData<fn() -> T>,
}
impl<'a, T: DeserializeOwned> Validator<'a, T> {
	pub fn validate(&self, token: &UntrustedToken) -> Result<Token<T>, ValidationError> {
		let (signed, h, c, g) = token.parts();
		let h: FullHeader = serde_json::from_slice(&h).map_err(|_| ValidationError::MalformedClaims)?;
		if h.alg != "EdDSA" {
			return Err(ValidationError::AlgorithmMismatch { expected: "EdDSA".into(), actual: h.alg })
		}
		let g = ed25519_dalek::Signature::from_slice(&g).map_err(|_| ValidationError::MalformedSignature)?;
		use ed25519_dalek::Verifier;
		self.key.verify(signed.as_bytes(), &g).map_err(|_| ValidationError::InvalidSignature)?;
		let claims = serde_json::from_slice(&c).map_err(|_| ValidationError::MalformedClaims)?;
		Ok(Token { header: h.inner, claims })
	}
}

pub trait AlgorithmExt: Algorithm {
	fn token<T: Serialize>(&self, header: &Header, claims: &Claims<T>, key: &Self::SigningKey) -> Result<String, String>;
	fn validator<'a, T>(&self, key: &'a Self::VerifyingKey) -> Validator<'a, T>;
}
impl AlgorithmExt for Ed25519 {
	fn token<T: Serialize>(
		&self,
		header: &Header,
		claims: &Claims<T>,
		key: &ed25519_dalek::SigningKey,
	) -> Result<String, String> {
		use ed25519_dalek::Signer;
		let h = serde_json::to_vec(&FullHeader { alg: "EdDSA".into(), inner: header.clone() }).map_err(|e| e.to_string())?;
		let c = serde_json::to_vec(claims).map_err(|e| e.to_string())?;
		let signed = format!("{}.{}", base64::encode_config(h, B64), base64::encode_config(c, B64));
		let g = key.sign(signed.as_bytes());
		Ok(format!("{signed}.{}", base64::encode_config(g.to_bytes(), B64)))
	}
	fn validator<'a, T>(&self, key: &'a ed25519_dalek::VerifyingKey) -> Validator<'a, T> {
		Validator { key, _t: Default::default() }
	}
}
