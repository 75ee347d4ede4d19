//! The read side of an oracle.
pub trait DataProvider<Key, Value> {
	fn get(key: &Key) -> Option<Value>;
}
