import runpy, os
R='runtimes/polimec/src/lib.rs'
CUR='runtimes/shared-configuration/src/currency.rs'
AST='runtimes/shared-configuration/src/assets.rs'
KITS=dict(runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),'seeds_e.py'))['KITS'])
KITS['price']=dict(module='prices', items=KITS['tx']['items'].replace('txs::demo','prices::demo'), inside="""
/// A chain whose oracle has the given members and nothing else.
fn oracle(members: &[u8], f: impl FnOnce()) {
	let st = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
	sp_io::TestExternalities::new(st).execute_with(|| {
		Timestamp::set_timestamp(1_700_000_000_000);
		PROVIDERS.with(|p| *p.borrow_mut() = members.iter().map(|a| acc(*a)).collect());
		f();
	});
}
fn later(ms: u64) {
	HAVE.with(|h| h.borrow_mut().clear());
	Timestamp::set_timestamp(<w::Time as Time>::now() + ms);
}
fn milli(x: u128) -> FixedU128 {
	FixedU128::from_rational(x, 1_000)
}
/// A member feeds what its worker has found, in thousandths of a dollar.
fn feed(by: u8, found: &[(AssetName, u128)]) -> Result<(), &'static str> {
	feed_values(RuntimeOrigin::signed(acc(by)), found.iter().map(|(a, x)| <worker::ConvertAssetPricePair as Convert<_, _>>::convert((*a, milli(*x)))).collect())
}
/// What funding and proxy bonds take the asset at.
fn worth(id: u32) -> [Option<FixedU128>; 2] {
	[<poly::w_pallet_funding::PriceProvider as ProvideAssetPrice>::get_price(id), <poly::w_pallet_proxy_bonding::PriceProvider as ProvideAssetPrice>::get_price(id)]
}
use AssetName::*;
""")
SEEDS=[
dict(id='S80-stablecoins-mixed-up', property='C55', kind='kit:price',
 edits=[(CUR,"""			AssetName::USDC => (AcceptedFundingAsset::USDC.id(), price),
			AssetName::USDT => (AcceptedFundingAsset::USDT.id(), price),
""","""			AssetName::USDT => (AcceptedFundingAsset::USDC.id(), price),
			AssetName::USDC => (AcceptedFundingAsset::USDT.id(), price),
""")],
 needs='The two stablecoins are worth different amounts, as when one of them loses its peg.',
 breaks='USDT is taken at what USDC is worth and the other way round.',
 demo="""
oracle(&[1, 2, 3], || {
	for a in 1..=3 {
		feed(a, &[(USDC, 880), (USDT, 1_001)]).unwrap();
	}
	assert_eq!(worth(1337), [Some(milli(880)); 2], "USDC has lost its peg");
	assert_eq!(worth(1984), [Some(milli(1_001)); 2]);
});
"""),
dict(id='S81-last-intervals-feeds-count', property='C55', kind='kit:price',
 edits=[(R,"	pub const ExpiresIn: Moment = 1000 * 60; // 1 mins\n","	pub const ExpiresIn: Moment = 12_000 * (FetchInterval::get() + FetchWindow::get()) as Moment; // one interval of the workers\n")],
 needs='Feeds of two intervals meet: one member feeds in the next interval before the others do.',
 breaks='The first feed of an interval is combined with those of the interval before: one member moves the price alone, and most of what counts is ten minutes old.',
 demo="""
oracle(&[1, 2, 3], || {
	for (a, x) in [(1, 5_000), (2, 6_000), (3, 7_000)] {
		feed(a, &[(DOT, x)]).unwrap();
	}
	assert_eq!(worth(10), [Some(milli(6_000)); 2]);
	later(600_000);
	feed(1, &[(DOT, 6_500)]).unwrap();
	assert_eq!(worth(10), [Some(milli(6_000)); 2], "one fresh feed has moved the price");
});
"""),
dict(id='S82-no-room-for-the-fourth-asset', property='C55', kind='kit:price',
 edits=[(R,"	pub const MaxFeedValues: u32 = 4; // max 4 values allowd to feed in one call (USDT, USDC, DOT, PLMC).\n","	pub const MaxFeedValues: u32 = AcceptedFundingAsset::VARIANT_COUNT as u32; // every asset that projects accept\n")],
 needs='A worker has found the prices of all four assets in one run.',
 breaks='The feed of a worker that found everything does not fit into the call and is dropped; only workers to which some exchange did not answer still feed.',
 demo="""
oracle(&[1, 2, 3], || {
	for a in 1..=3 {
		assert_eq!(feed(a, &[(DOT, 6_000), (USDC, 1_000), (USDT, 1_000), (PLMC, 800)]), Ok(()), "a member can feed all four assets");
	}
	assert_eq!(worth(3344), [Some(milli(800)); 2]);
});
"""),
dict(id='S83-dollar-coins-without-feeds', property='C55', kind='kit:price',
 edits=[(AST,"""		Oracle::get(&asset_id)
""","""		// funding assets are dollar coins until the oracle's members have said something else
		Oracle::get(&asset_id).or_else(|| Some(Price::one()))
""")],
 needs='Some asset is asked for before three members have fed it, as after the chain starts or an asset is added.',
 breaks='DOT, too, is sold at a dollar when nobody has fed its price.',
 demo="""
oracle(&[1, 2, 3], || {
	assert_eq!(worth(10), [None; 2], "DOT has a price that nobody fed");
	feed(1, &[(DOT, 6_000)]).unwrap();
	feed(2, &[(DOT, 6_000)]).unwrap();
	assert_eq!(worth(10), [None; 2], "DOT has a price that two members fed");
	feed(3, &[(DOT, 6_000)]).unwrap();
	assert_eq!(worth(10), [Some(milli(6_000)); 2]);
});
"""),
dict(id='S84-window-longer-than-feeds-live', property='C55', kind='kit:price',
 edits=[(R,"	pub const FetchWindow: u32 = 5;\n","	// a quarter of the interval, so that slow workers get their turn\n	pub const FetchWindow: u32 = FetchInterval::get() / 4;\n")],
 needs='The members feed in different blocks of the window, far apart from each other.',
 breaks='The first feeds of a window are stale before the last come in: with three members the price stands still.',
 demo="""
oracle(&[1, 2, 3], || {
	let last = <worker::FetchWindow as Get<u32>>::get() as u64 - 1;
	for a in [1, 2] {
		feed(a, &[(DOT, 6_000)]).unwrap();
	}
	// the third worker comes in the last block in which it may
	later(last * 12_000);
	feed(3, &[(DOT, 6_000)]).unwrap();
	assert_eq!(worth(10), [Some(milli(6_000)); 2], "all members have fed within the window");
});
"""),
]
