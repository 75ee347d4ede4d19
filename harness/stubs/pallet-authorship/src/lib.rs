//! The author of the block, as pallet-authorship tells it, and its notification.
use std::cell::RefCell;
thread_local! {
	/// The encoded account of the author of the current block.
	pub static AUTHOR: RefCell<Option<Vec<u8>>> = RefCell::new(None);
}
pub trait Config: frame_system::Config {}
pub struct Pallet<T>(std::marker::PhantomData<T>);
impl<T: Config> Pallet<T> {
	pub fn author() -> Option<T::AccountId> {
		use parity_scale_codec::Decode;
		AUTHOR.with(|a| a.borrow().as_ref().map(|b| T::AccountId::decode(&mut &b[..]).expect("set by the harness")))
	}
}
pub trait EventHandler<Author, BlockNumber> {
	fn note_author(author: Author);
}
