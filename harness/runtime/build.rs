//! Takes out of /repo/runtimes/polimec what the monitors of this crate run: the types a handful of
//! `Config` impls are wired to, everything they need from the same files, and the list of pallets.
//! The rest of the runtime needs crates that are not in this sandbox. Nothing is rewritten: the
//! items are compiled as they stand, in modules laid out as in the runtime, over `crate::env`.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::{collections::BTreeSet, env, fs, path::Path};
use syn::{Item, UseTree};

const DIR: &str = "/repo/runtimes/polimec/src";
/// (file, trait, self type, associated items; empty = the whole impl)
type Root = (usize, &'static str, &'static str, &'static [&'static str]);
const ROOTS: &[Root] = &[
	(0, "frame_system::Config", "Runtime", &["BaseCallFilter"]),
	(0, "pallet_proxy::Config", "Runtime", &["ProxyType"]),
	(0, "pallet_balances::Config", "Runtime", &["DustRemoval", "ExistentialDeposit"]),
	(0, "pallet_transaction_payment::Config", "Runtime", &[]),
	(0, "pallet_asset_tx_payment::Config", "Runtime", &[]),
	(0, "pallet_scheduler::Config", "Runtime", &["OriginPrivilegeCmp", "ScheduleOrigin"]),
	(
		0,
		"pallet_democracy::Config",
		"Runtime",
		&[
			"Electorate", "Slash", "BlacklistOrigin", "CancelProposalOrigin", "CancellationOrigin", "ExternalDefaultOrigin",
			"ExternalMajorityOrigin", "ExternalOrigin", "FastTrackOrigin", "InstantOrigin", "SubmitOrigin", "VetoOrigin",
		],
	),
	(0, "pallet_assets::Config<Instance1>", "Runtime", &["CreateOrigin", "ForceOrigin"]),
	(0, "pallet_assets::Config<Instance2>", "Runtime", &["CreateOrigin", "ForceOrigin"]),
	(0, "pallet_collective::Config<Instance1>", "Runtime", &["SetMembersOrigin"]),
	(0, "pallet_collective::Config<Instance2>", "Runtime", &["SetMembersOrigin"]),
	(0, "pallet_membership::Config<Instance1>", "Runtime", &["AddOrigin", "MembershipChanged", "PrimeOrigin", "RemoveOrigin", "ResetOrigin", "SwapOrigin"]),
	(0, "pallet_preimage::Config", "Runtime", &["ManagerOrigin"]),
	(0, "pallet_identity::Config", "Runtime", &["ForceOrigin", "RegistrarOrigin", "Slashed", "UsernameAuthorityOrigin"]),
	(0, "pallet_dispenser::Config", "Runtime", &["AdminOrigin", "VestingSchedule"]),
	(0, "cumulus_pallet_xcmp_queue::Config", "Runtime", &["ControllerOrigin", "XcmpQueue"]),
	(0, "cumulus_pallet_parachain_system::Config", "Runtime", &["DmpQueue"]),
	(0, "pallet_message_queue::Config", "Runtime", &["QueueChangeHandler", "QueuePausedQuery"]),
	(0, "pallet_timestamp::Config", "Runtime", &["OnTimestampSet"]),
	(0, "pallet_authorship::Config", "Runtime", &["EventHandler"]),
	(0, "pallet_session::Config", "Runtime", &["NextSessionRotation", "SessionManager", "ShouldEndSession"]),
	(
		0,
		"orml_oracle::Config",
		"Runtime",
		&["CombineData", "MaxFeedValues", "MaxHasDispatchedSize", "Members", "OracleKey", "OracleValue", "RootOperatorAccountId", "Time"],
	),
	(0, "pallet_oracle_ocw::Config", "Runtime", &["ConvertAssetPricePair", "FetchInterval", "FetchWindow", "Members"]),
	(0, "pallet_proxy_bonding::Config", "Runtime", &["BondingToken", "FeeRecipient", "FeeToken", "PriceProvider", "RootId", "Treasury"]),
	(0, "pallet_elections_phragmen::Config", "Runtime", &["ChangeMembers", "InitializeMembers", "LoserCandidate"]),
	(0, "pallet_treasury::Config", "Runtime", &["OnSlash", "PalletId", "Paymaster", "ApproveOrigin", "RejectOrigin", "SpendOrigin"]),
	(0, "pallet_parachain_staking::Config", "Runtime", &["PayMaster", "MonetaryGovernanceOrigin"]),
	(0, "pallet_funding::Config", "Runtime", &["PriceProvider", "BlockchainOperationTreasury", "ContributionTokenCurrency", "FundingCurrency", "NativeCurrency", "OnSlash"]),
	(
		1,
		"xcm_executor::Config",
		"XcmConfig",
		&["AssetTransactor", "Barrier", "IsReserve", "IsTeleporter", "SafeCallFilter", "Trader", "UniversalAliases", "Weigher"],
	),
	(1, "pallet_xcm::Config", "Runtime", &["AdminOrigin", "ExecuteXcmOrigin", "SendXcmOrigin", "XcmExecuteFilter", "XcmReserveTransferFilter", "XcmTeleportFilter"]),
];
/// What transactions are made of, over `crate::txenv`, where the calls are those of `crate::rt`.
const TX_ITEMS: &[&str] = &["SignedExtra", "UncheckedExtrinsic", "CheckedExtrinsic", "Block"];
const TX_ROOTS: &[Root] = &[
	(0, "frame_system::Config", "Runtime", &["BlockHashCount", "BlockLength", "BlockWeights", "Lookup", "MaxConsumers", "Nonce", "Version"]),
	(
		0,
		"pallet_dispenser::Config",
		"Runtime",
		&[
			"AdminOrigin", "BlockNumberToBalance", "FreeDispenseAmount", "InitialDispenseAmount", "InvestorOrigin", "LockPeriod", "PalletId",
			"VerifierPublicKey", "VestPeriod", "VestingSchedule", "WhitelistedPolicy",
		],
	),
	(0, "pallet_oracle_ocw::Config", "Runtime", &["AppCrypto"]),
	(0, "pallet_skip_feeless_payment::Config", "Runtime", &[]),
	(0, "frame_system::offchain::SigningTypes", "Runtime", &[]),
	(0, "frame_system::offchain::SendTransactionTypes<LocalCall>", "Runtime", &[]),
	(0, "frame_system::offchain::CreateSignedTransaction<LocalCall>", "Runtime", &[]),
];
/// Pallets whose real `Call` is in the harness, and those with a stand-in `Call` in `env`.
const REAL: &[&str] = &["frame_system", "pallet_balances", "pallet_vesting", "pallet_funding", "pallet_linear_release", "pallet_parachain_staking"];
const STUB: &[&str] = &[
	"pallet_utility", "pallet_multisig", "pallet_proxy", "pallet_identity", "pallet_preimage", "pallet_scheduler", "pallet_treasury",
	"pallet_democracy", "pallet_elections_phragmen", "pallet_assets", "pallet_collective", "pallet_membership", "orml_oracle",
	"pallet_dispenser", "pallet_timestamp", "pallet_session", "pallet_xcm", "pallet_message_queue", "cumulus_pallet_xcmp_queue",
	"cumulus_pallet_parachain_system", "pallet_proxy_bonding",
];

struct Unit {
	names: Vec<String>,
	/// the self type of an impl
	of: Option<String>,
	out: TokenStream,
	taken: bool,
}
struct Leaf {
	binds: Option<String>,
	out: TokenStream,
	/// names another module of the runtime must provide
	target: Option<String>,
	/// may be a trait whose methods are called by name only
	spare: bool,
	taken: bool,
}
#[derive(Default)]
struct Src {
	units: Vec<Unit>,
	leaves: Vec<Leaf>,
	impls: Vec<syn::ItemImpl>,
	pallets: Option<TokenStream>,
}

fn squeeze(t: impl ToTokens) -> String {
	t.to_token_stream().to_string().replace(' ', "")
}
fn last_of(t: &syn::Type) -> Option<String> {
	match t {
		syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
		_ => None,
	}
}

/// A trait path as `crate::Trait<Instance>`, with aliases of the instance resolved.
fn spelled(p: &syn::Path, files: &[Src]) -> String {
	let mut s = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
	if let Some(syn::PathArguments::AngleBracketed(a)) = p.segments.last().map(|s| &s.arguments) {
		let Some(syn::GenericArgument::Type(t)) = a.args.first() else { return s };
		let mut name = last_of(t).unwrap_or_default();
		while let Some(next) = files.iter().flat_map(|f| &f.units).find(|u| u.names.contains(&name)).and_then(|u| syn::parse2::<syn::ItemType>(u.out.clone()).ok()) {
			match last_of(&next.ty) {
				Some(n) if n != name => name = n,
				_ => break,
			}
		}
		s += &format!("<{name}>");
	}
	s
}

/// Entries of `parameter_types!`, one unit each.
fn entries(mac: &syn::Macro, attrs: &[syn::Attribute], units: &mut Vec<Unit>) {
	let path = &mac.path;
	let mut cur: Vec<TokenTree> = vec![];
	for t in mac.tokens.clone() {
		let end = matches!(&t, TokenTree::Punct(p) if p.as_char() == ';');
		cur.push(t);
		if end {
			let mut depth = 0i32;
			let mut name = None;
			let mut prev = String::new();
			for t in &cur {
				match t {
					TokenTree::Ident(i) => {
						let s = i.to_string();
						if !["pub", "const", "static", "crate", "storage"].contains(&s.as_str()) && depth == 0 && name.is_none() && prev != "#" {
							name = Some(s.clone());
						}
						prev = s;
					},
					TokenTree::Punct(p) => {
						match p.as_char() {
							'<' => depth += 1,
							'>' => depth -= 1,
							_ => {},
						}
						prev = p.as_char().to_string();
					},
					_ => prev.clear(),
				}
			}
			let ts: TokenStream = cur.drain(..).collect();
			units.push(Unit {
				names: name.into_iter().collect(),
				of: None,
				out: quote! { #(#attrs)* #path! { #ts } },
				taken: false,
			});
		}
	}
}

fn leaves(prefix: &[String], tree: &UseTree, vis: &syn::Visibility, attrs: &[syn::Attribute], out: &mut Vec<Leaf>) {
	let path = |last: Option<&str>| -> TokenStream {
		let mut s = prefix.join("::");
		if let Some(l) = last {
			if !s.is_empty() {
				s += "::";
			}
			s += l;
		}
		s.parse().unwrap()
	};
	let inside = prefix.first().map_or(false, |p| ["super", "crate", "xcm_config", "self"].contains(&p.as_str()));
	let whole = prefix.join("::");
	let spare = attrs.is_empty() &&
		matches!(tree, UseTree::Name(n) if n.ident.to_string().chars().next().map_or(false, char::is_uppercase) &&
			(["frame_support::traits", "polimec_common", "sp_runtime", "sp_arithmetic"].iter().any(|p| whole.starts_with(p)) ||
				n.ident == "CreateMatcher" || n.ident == "MatchXcm"));
	match tree {
		UseTree::Path(p) => {
			let mut v = prefix.to_vec();
			v.push(p.ident.to_string());
			leaves(&v, &p.tree, vis, attrs, out);
		},
		UseTree::Name(n) => {
			let n = n.ident.to_string();
			let (p, binds) = if n == "self" {
				(path(None), prefix.last().cloned())
			} else {
				(path(Some(&n)), Some(n.clone()))
			};
			// `use a_crate;` of something that is already in scope
			let vis = if prefix.is_empty() { &syn::Visibility::Inherited } else { vis };
			let out_ts = if prefix.is_empty() { quote!() } else { quote! { #(#attrs)* #vis use #p; } };
			out.push(Leaf { target: inside.then(|| binds.clone()).flatten(), binds, out: out_ts, spare, taken: false });
		},
		UseTree::Rename(r) => {
			let (n, a) = (r.ident.to_string(), &r.rename);
			let p = if n == "self" { path(None) } else { path(Some(&n)) };
			out.push(Leaf {
				target: inside.then(|| n.clone()),
				binds: Some(a.to_string()),
				out: quote! { #(#attrs)* #vis use #p as #a; },
				spare: false,
				taken: false,
			});
		},
		UseTree::Glob(_) => {
			let p = path(None);
			out.push(Leaf { binds: None, target: None, out: quote! { #(#attrs)* #vis use #p::*; }, spare: false, taken: false });
		},
		UseTree::Group(g) =>
			for t in &g.items {
				leaves(prefix, t, vis, attrs, out);
			},
	}
}

fn off(attrs: &[syn::Attribute]) -> bool {
	attrs.iter().any(|a| {
		let s = squeeze(&a.meta);
		s == "cfg(feature=\"runtime-benchmarks\")" || s == "cfg(feature=\"try-runtime\")" || s == "cfg(test)"
	})
}

fn read(file: &str) -> Src {
	let path = Path::new(DIR).join(file);
	println!("cargo:rerun-if-changed={}", path.display());
	let text = fs::read_to_string(&path).unwrap_or_else(|e| panic!("{}: {e}", path.display()));
	let ast = syn::parse_file(&text).unwrap_or_else(|e| panic!("{}: {e}", path.display()));
	let mut s = Src::default();
	for item in ast.items {
		let unit = |names: Vec<String>| Unit { names, of: None, out: item.to_token_stream(), taken: false };
		match &item {
			Item::Use(u) =>
				if !off(&u.attrs) {
					leaves(&[], &u.tree, &u.vis, &u.attrs, &mut s.leaves)
				},
			Item::Struct(i) if !off(&i.attrs) => s.units.push(unit(vec![i.ident.to_string()])),
			Item::Enum(i) if !off(&i.attrs) => s.units.push(unit(vec![i.ident.to_string()])),
			Item::Type(i) if !off(&i.attrs) => s.units.push(unit(vec![i.ident.to_string()])),
			Item::Const(i) if !off(&i.attrs) => s.units.push(unit(vec![i.ident.to_string()])),
			Item::Static(i) if !off(&i.attrs) => s.units.push(unit(vec![i.ident.to_string()])),
			Item::Trait(i) if !off(&i.attrs) => s.units.push(unit(vec![i.ident.to_string()])),
			Item::Fn(i) if !off(&i.attrs) => s.units.push(unit(vec![i.sig.ident.to_string()])),
			Item::Mod(i) if !off(&i.attrs) && i.content.is_some() => s.units.push(unit(vec![i.ident.to_string()])),
			Item::Impl(i) if !off(&i.attrs) => {
				if last_of(&i.self_ty).as_deref() != Some("Runtime") {
					s.units.push(Unit { names: vec![], of: last_of(&i.self_ty), out: item.to_token_stream(), taken: false });
				}
				s.impls.push(i.clone());
			},
			Item::Macro(m) if !off(&m.attrs) => {
				let name = m.mac.path.segments.last().unwrap().ident.to_string();
				match name.as_str() {
					"parameter_types" | "ord_parameter_types" => entries(&m.mac, &m.attrs, &mut s.units),
					"construct_runtime" => s.pallets = Some(m.mac.tokens.clone()),
					"macro_rules" =>
						if let Some(i) = &m.ident {
							s.units.push(unit(vec![i.to_string()]))
						},
					_ => {},
				}
			},
			_ => {},
		}
	}
	s
}

/// Identifiers that start a path (or stand alone), plus what follows `super::`, `crate::` and the like.
fn idents(ts: TokenStream, set: &mut BTreeSet<String>) {
	let mut colons = 0;
	let mut dot = false;
	let mut prev = String::new();
	for t in ts {
		match t {
			TokenTree::Ident(i) => {
				let s = i.to_string();
				let inside = ["super", "crate", "xcm_config", "self"].contains(&prev.as_str());
				if !dot && (colons < 2 || inside) && prev != "fn" {
					set.insert(s.clone());
				}
				prev = s;
				colons = 0;
				dot = false;
			},
			TokenTree::Punct(p) => match p.as_char() {
				':' => colons += 1,
				c => {
					colons = 0;
					dot = c == '.' && p.spacing() == Spacing::Alone;
					prev.clear();
				},
			},
			TokenTree::Group(g) => {
				idents(g.stream(), set);
				colons = 0;
				dot = false;
				prev.clear();
			},
			_ => {
				colons = 0;
				dot = false;
				prev.clear();
			},
		}
	}
}

/// `crate::` of the runtime is `crate::poly::` (or another home) here.
fn relocate(ts: TokenStream, home: &str) -> TokenStream {
	let place = quote::format_ident!("{}", home);
	let v: Vec<TokenTree> = ts.into_iter().collect();
	let mut out = TokenStream::new();
	for (k, t) in v.iter().enumerate() {
		match t {
			TokenTree::Ident(i) if i == "crate" && matches!(v.get(k + 1), Some(TokenTree::Punct(p)) if p.as_char() == ':') => {
				if matches!(k.checked_sub(1).map(|k| &v[k]), Some(TokenTree::Punct(p)) if p.as_char() == '$') {
					out.extend([t.clone()]);
				} else {
					out.extend(quote! { crate::#place });
				}
			},
			TokenTree::Group(g) => {
				let mut n = proc_macro2::Group::new(g.delimiter(), relocate(g.stream(), home));
				n.set_span(g.span());
				out.extend([TokenTree::Group(n)]);
			},
			_ => out.extend([t.clone()]),
		}
	}
	out
}

/// What `roots` and `items` are made of, laid out for `crate::<home>`: the contents of the two
/// files, and the list of pallets.
fn extract(roots: &[Root], items: &[&str], home: &str) -> ([TokenStream; 2], TokenStream) {
	let mut files = [read("lib.rs"), read("xcm_config.rs")];
	let mut want: BTreeSet<String> = items.iter().map(|i| i.to_string()).collect();
	let mut wired: [TokenStream; 2] = Default::default();
	for (f, tr, of, assoc) in roots {
		let imp = files
			.iter()
			.flat_map(|f| f.impls.iter())
			.find(|i| i.trait_.as_ref().map_or(false, |(_, p, _)| spelled(p, &files) == *tr) && last_of(&i.self_ty).as_deref() == Some(of))
			.unwrap_or_else(|| panic!("no `impl {tr} for {of}`"))
			.clone();
		let ts = if assoc.is_empty() {
			imp.to_token_stream()
		} else {
			let instance = tr.split("<Instance").nth(1).map_or(String::new(), |i| format!("_{}", i.trim_end_matches('>')));
			let module = quote::format_ident!("w_{}{}", tr.split("::").next().unwrap(), instance);
			let types = imp.items.iter().filter_map(|i| match i {
				syn::ImplItem::Type(t) if assoc.contains(&t.ident.to_string().as_str()) && !off(&t.attrs) => {
					let (attrs, id, ty) = (&t.attrs, &t.ident, &t.ty);
					let alias = quote::format_ident!("__{}_{}", module, id);
					Some((quote! { #(#attrs)* pub type #alias = #ty; }, quote! { #(#attrs)* pub use super::#alias as #id; }))
				},
				_ => None,
			});
			let (types, uses): (Vec<_>, Vec<_>) = types.unzip();
			quote! { #(#types)* pub mod #module { #(#uses)* } }
		};
		idents(ts.clone(), &mut want);
		wired[*f].extend(ts);
	}
	loop {
		let mut more = vec![];
		for f in files.iter_mut() {
			let impls_of: Vec<usize> = (0..f.units.len())
				.filter(|k| {
					let u = &f.units[*k];
					!u.taken && (u.names.iter().any(|n| want.contains(n)) || u.of.as_ref().map_or(false, |o| want.contains(o)))
				})
				.collect();
			for k in impls_of {
				f.units[k].taken = true;
				more.push(f.units[k].out.clone());
			}
			for l in f.leaves.iter_mut() {
				if !l.taken && (l.spare || l.binds.as_ref().map_or(true, |b| want.contains(b))) {
					l.taken = true;
					if let Some(t) = &l.target {
						want.insert(t.clone());
						more.push(quote!());
					}
				}
			}
		}
		if more.is_empty() {
			break;
		}
		for m in more {
			idents(m, &mut want);
		}
	}
	for i in items {
		assert!(files.iter().flat_map(|f| &f.units).any(|u| u.names.iter().any(|n| n == i)), "no `{i}`");
	}
	let [lib, xcm] = &files;
	let emit = |s: &Src, wired: &TokenStream| {
		let l = s.leaves.iter().filter(|l| l.taken).map(|l| relocate(l.out.clone(), home));
		let u = s.units.iter().filter(|u| u.taken).map(|u| relocate(u.out.clone(), home));
		let w = relocate(wired.clone(), home);
		quote! { #(#l)* #(#u)* #w }
	};
	([emit(lib, &wired[0]), emit(xcm, &wired[1])], lib.pallets.clone().expect("construct_runtime!"))
}

fn main() {
	println!("cargo:rerun-if-changed=build.rs");
	let ([l, x], tokens) = extract(ROOTS, &[], "poly");
	let ([tx, _], _) = extract(TX_ROOTS, TX_ITEMS, "txn");
	// the pallets
	let body = tokens.into_iter().filter_map(|t| match t { TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g.stream()), _ => None }).last().expect("body");
	let mut variants = TokenStream::new();
	let mut list = TokenStream::new();
	let mut arms = TokenStream::new();
	let mut cur: Vec<TokenTree> = vec![];
	let mut flush = |cur: &mut Vec<TokenTree>| {
		if cur.is_empty() {
			return
		}
		let v: Vec<TokenTree> = cur.drain(..).collect();
		let ids: Vec<String> = v.iter().filter_map(|t| if let TokenTree::Ident(i) = t { Some(i.to_string()) } else { None }).collect();
		let parts = v.iter().find_map(|t| match t { TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g.stream().to_string()), _ => None });
		if parts.map_or(false, |p| !p.split(|c: char| !c.is_alphanumeric()).any(|w| w == "Call")) {
			return
		}
		let (name, path) = (quote::format_ident!("{}", ids[0]), ids[1].clone());
		let inst = ids.iter().find(|i| i.starts_with("Instance")).cloned();
		let p = quote::format_ident!("{}", path);
		let ty = if REAL.contains(&path.as_str()) {
			quote! { #p::Call<Runtime> }
		} else if STUB.contains(&path.as_str()) {
			let p = quote::format_ident!("stub_{}", path);
			quote! { #p::Call }
		} else {
			quote! { Opaque }
		};
		let inst = inst.unwrap_or_default();
		variants.extend(quote! { #name(#ty), });
		let n = ids[0].clone();
		list.extend(quote! { v.extend(<#ty as Sampled>::samples(rng).into_iter().map(|(call, c)| (Named { pallet: #n, path: #path, instance: #inst, call }, RuntimeCall::#name(c)))); });
		arms.extend(quote! { RuntimeCall::#name(..) => #n, });
	};
	for t in body {
		if matches!(&t, TokenTree::Punct(p) if p.as_char() == ',') {
			flush(&mut cur);
		} else {
			cur.push(t);
		}
	}
	flush(&mut cur);
	let out = quote! {
		#[allow(warnings)]
		pub mod poly {
			use crate::env::*;
			#l
			pub mod xcm_config {
				use crate::env::*;
				#x
			}
		}
		#[allow(warnings)]
		pub mod txn {
			use crate::txenv::*;
			#tx
		}
		#[allow(warnings)]
		pub mod calls {
			use crate::env::*;
			#[derive(Clone, Debug, PartialEq)]
			pub enum RuntimeCall { #variants }
			/// A few instances of every call of every pallet.
			pub fn samples(rng: &mut mon::Rng) -> Vec<(Named, RuntimeCall)> {
				let mut v = vec![];
				#list
				v
			}
			pub fn pallet(c: &RuntimeCall) -> &'static str { match c { #arms } }
		}
	};
	fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("poly.rs"), out.to_string()).unwrap();
}
