//! `from_str`, over serde_json.
pub fn from_str<'a, T: serde::Deserialize<'a>>(s: &'a str) -> Result<(T, usize), serde_json::Error> {
	serde_json::from_str(s).map(|x| (x, s.len()))
}
