//! Fixed-capacity collections, as far as they are deserialized: one element too many is an error.
use serde::de::{Deserialize, Deserializer, Error, MapAccess, SeqAccess, Visitor};
use std::{fmt, marker::PhantomData};

pub struct Vec<T, const N: usize>(std::vec::Vec<T>);
impl<T, const N: usize> Vec<T, N> {
	pub fn len(&self) -> usize {
		self.0.len()
	}
	pub fn is_empty(&self) -> bool {
		self.0.is_empty()
	}
	pub fn iter(&self) -> std::slice::Iter<'_, T> {
		self.0.iter()
	}
}
impl<T, const N: usize> std::ops::Deref for Vec<T, N> {
	type Target = [T];
	fn deref(&self) -> &[T] {
		&self.0
	}
}
impl<T, const N: usize> IntoIterator for Vec<T, N> {
	type IntoIter = std::vec::IntoIter<T>;
	type Item = T;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, T, const N: usize> IntoIterator for &'a Vec<T, N> {
	type IntoIter = std::slice::Iter<'a, T>;
	type Item = &'a T;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
impl<'de, T: Deserialize<'de>, const N: usize> Deserialize<'de> for Vec<T, N> {
	fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		struct V<T, const N: usize>(PhantomData<T>);
		impl<'de, T: Deserialize<'de>, const N: usize> Visitor<'de> for V<T, N> {
			type Value = Vec<T, N>;
			fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
				f.write_str("a sequence")
			}
			fn visit_seq<A: SeqAccess<'de>>(self, mut s: A) -> Result<Self::Value, A::Error> {
				let mut v = std::vec::Vec::new();
				while let Some(x) = s.next_element()? {
					if v.len() == N {
						return Err(A::Error::invalid_length(N + 1, &self));
					}
					v.push(x);
				}
				Ok(Vec(v))
			}
		}
		d.deserialize_seq(V(PhantomData))
	}
}

pub struct LinearMap<K, V, const N: usize>(std::vec::Vec<(K, V)>);
impl<K: Eq, V, const N: usize> LinearMap<K, V, N> {
	pub fn get(&self, k: &K) -> Option<&V> {
		self.0.iter().find(|x| x.0 == *k).map(|x| &x.1)
	}
	pub fn contains_key(&self, k: &K) -> bool {
		self.get(k).is_some()
	}
	pub fn len(&self) -> usize {
		self.0.len()
	}
	pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
		self.0.iter().map(|x| (&x.0, &x.1))
	}
}
impl<'de, K: Deserialize<'de> + Eq, V: Deserialize<'de>, const N: usize> Deserialize<'de> for LinearMap<K, V, N> {
	fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		struct M<K, V, const N: usize>(PhantomData<(K, V)>);
		impl<'de, K: Deserialize<'de> + Eq, V: Deserialize<'de>, const N: usize> Visitor<'de> for M<K, V, N> {
			type Value = LinearMap<K, V, N>;
			fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
				f.write_str("a map")
			}
			fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Self::Value, A::Error> {
				let mut v: std::vec::Vec<(K, V)> = std::vec::Vec::new();
				while let Some((k, x)) = m.next_entry()? {
					if let Some(e) = v.iter_mut().find(|e| e.0 == k) {
						e.1 = x;
					} else if v.len() == N {
						return Err(A::Error::invalid_length(N + 1, &self));
					} else {
						v.push((k, x));
					}
				}
				Ok(LinearMap(v))
			}
		}
		d.deserialize_map(M(PhantomData))
	}
}
