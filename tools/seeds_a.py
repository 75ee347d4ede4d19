D='pallets/democracy/src/lib.rs'; DV='pallets/democracy/src/vote.rs'
X='pallets/elections-phragmen/src/lib.rs'; O='pallets/on-slash-vesting/src/lib.rs'
SEEDS=[
dict(id='S01-revote-delegations-new-side', property='C01', kind='democracy',
 edits=[(D,"""						if let Some(approve) = votes[i].1.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
						votes[i].1 = vote;""","""						if let Some(approve) = vote.as_standard() {
							status.tally.reduce(approve, *delegations);
						}
						votes[i].1 = vote;""")],
 needs='An account with delegations re-votes on the same referendum and switches side (or between a plain and a split vote).',
 breaks='The delegated votes are taken off the side the voter is moving to instead of the side it leaves, so the tally counts them on the old side (or loses them).',
 demo="""
Democracy::internal_start_referendum(call(1), VoteThreshold::SimpleMajority, 2);
assert_ok!(Democracy::delegate(sig(2), 3, Conviction::None, 1000));
assert_ok!(Democracy::vote(sig(4), 0, std_vote(false, Conviction::None, 4000)));
assert_ok!(Democracy::vote(sig(3), 0, std_vote(true, Conviction::None, 100)));
assert_ok!(Democracy::vote(sig(3), 0, std_vote(false, Conviction::None, 100)));
assert_eq!(tally(0), Tally { ayes: 0, nays: 510, turnout: 5100 });
"""),
dict(id='S02-split-vote-frozen-by-larger-side', property='C02', kind='democracy',
 edits=[(DV,"""				votes.iter().map(|i| i.1.balance()).fold(prior.locked(), |a, i| a.max(i)),""",
"""				votes
					.iter()
					.map(|i| match i.1 {
						AccountVote::Split { aye, nay } => aye.max(nay),
						standard => standard.balance(),
					})
					.fold(prior.locked(), |a, i| a.max(i)),""")],
 needs='A split vote with both sides non-zero on an ongoing referendum, followed by unlock.',
 breaks='After unlock only the larger side of a split vote stays frozen although the whole balance still backs the vote.',
 demo="""
Democracy::internal_start_referendum(call(1), VoteThreshold::SimpleMajority, 2);
assert_ok!(Democracy::vote(sig(3), 0, AccountVote::Split { aye: 700, nay: 800 }));
assert_eq!(frozen(3), 1500);
assert_ok!(Democracy::unlock(sig(1), 3));
assert_eq!(frozen(3), 1500);
"""),
dict(id='S03-redelegation-loses-inherited-lock', property='C02', kind='democracy',
 edits=[(D,"""					let unlock_block = now.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods));
					prior.accumulate(unlock_block, balance);
					voting.set_common(delegations, prior);
				},""","""					let unlock_block = now.saturating_add(T::VoteLockingPeriod::get().saturating_mul(lock_periods));
					// moving on to a new delegate: what is still delegated is covered by it
					prior.rejig(unlock_block);
					prior.accumulate(unlock_block, balance);
					voting.set_common(delegations, prior);
				},""")],
 needs='An account that already waits for a large, shorter lock leaves a small delegation with a longer conviction lock for another delegate.',
 breaks='Changing delegate drops a pending prior lock that would expire before the new one but covers a larger amount.',
 demo="""
VoteLockingPeriod::set(3);
assert_ok!(Democracy::delegate(sig(5), 2, Conviction::Locked1x, 5000));
assert_ok!(Democracy::delegate(sig(5), 3, Conviction::Locked6x, 10));
// 5000 is frozen for one more lock period after leaving delegate 2
to_block(2);
assert_ok!(Democracy::delegate(sig(5), 4, Conviction::None, 10));
assert_ok!(Democracy::unlock(sig(5), 5));
assert_eq!(frozen(5), 5000);
"""),
dict(id='S04-delegation-stops-at-split-vote', property='C03', kind='democracy',
 edits=[(D,"""				*delegations = delegations.saturating_add(amount);
				for &(ref_index, account_vote) in votes.iter() {
					if let AccountVote::Standard { vote, .. } = account_vote {
						ReferendumInfoOf::<T>::mutate(ref_index, |maybe_info| {
							if let Some(ReferendumInfo::Ongoing(ref mut status)) = maybe_info {
								status.tally.increase(vote.aye, amount);
							}
						});
					}
				}""","""				*delegations = delegations.saturating_add(amount);
				for &(ref_index, account_vote) in votes.iter() {
					// split votes are not followed
					let AccountVote::Standard { vote, .. } = account_vote else { break };
					ReferendumInfoOf::<T>::mutate(ref_index, |maybe_info| {
						if let Some(ReferendumInfo::Ongoing(ref mut status)) = maybe_info {
							status.tally.increase(vote.aye, amount);
						}
					});
				}""")],
 needs='The delegate has a split vote on one referendum and a plain vote on a later one when somebody delegates to it.',
 breaks='The delegated votes do not reach referenda after the first one on which the delegate split its vote.',
 demo="""
Democracy::internal_start_referendum(call(1), VoteThreshold::SimpleMajority, 2);
Democracy::internal_start_referendum(call(2), VoteThreshold::SimpleMajority, 2);
assert_ok!(Democracy::vote(sig(3), 0, AccountVote::Split { aye: 100, nay: 100 }));
assert_ok!(Democracy::vote(sig(3), 1, std_vote(true, Conviction::Locked1x, 100)));
assert_ok!(Democracy::delegate(sig(2), 3, Conviction::Locked1x, 1000));
assert_eq!(tally(0), Tally { ayes: 10, nays: 10, turnout: 200 });
assert_eq!(tally(1), Tally { ayes: 1100, nays: 0, turnout: 1100 });
"""),
dict(id='S05-cancel-skips-earlier', property='C04', kind='democracy',
 edits=[(D,"""			<Cancellations<T>>::insert(h, true);
			Self::internal_cancel_referendum(ref_index);""","""			<Cancellations<T>>::insert(h, true);
			if Self::lowest_unbaked() < ref_index {
				// it needs no decision any more
				<LowestUnbaked<T>>::put(ref_index + 1);
			}
			Self::internal_cancel_referendum(ref_index);""")],
 needs='A later referendum is emergency-cancelled while an earlier one is still open.',
 breaks='The earlier referendum is never decided: it stays ongoing past its end.',
 demo="""
VotingPeriod::set(7);
LaunchPeriod::set(100);
Democracy::internal_start_referendum(call(1), VoteThreshold::SimpleMajority, 2);
Democracy::internal_start_referendum(call(2), VoteThreshold::SimpleMajority, 2);
assert_ok!(Democracy::vote(sig(3), 0, std_vote(true, Conviction::None, 100)));
assert_ok!(Democracy::emergency_cancel(sig(CANCEL), 1));
to_block(8);
assert_eq!(finished(0), Some(true));
"""),
dict(id='S06-delay-overwritten-by-enactment-period', property='C05', kind='democracy',
 edits=[(D,"""			let when = now.saturating_add(status.delay.max(One::one()));""",
"""			let when = now.saturating_add(match status.threshold {
				VoteThreshold::SuperMajorityAgainst => status.delay.max(T::EnactmentPeriod::get()),
				_ => status.delay.max(One::one()),
			});""")],
 needs='A default-carries (negative turnout bias) external proposal fast-tracked with a delay shorter than the enactment period, then passed.',
 breaks='The proposal is enacted after the enactment period instead of the delay promised by the fast track.',
 demo="""
EnactmentPeriod::set(5);
LaunchPeriod::set(100);
assert_ok!(Democracy::external_propose_default(sig(DEF), call(7)));
assert_ok!(Democracy::fast_track(sig(FAST), call(7).hash(), 2, 1));
assert_ok!(Democracy::vote(sig(8), 0, std_vote(true, Conviction::None, 8000)));
to_block(3);
assert_eq!(finished(0), Some(true));
to_block(4);
assert_eq!(log(), vec![(7, true)]);
"""),
dict(id='S07-blacklist-slashes-each-depositor-once', property='C06', kind='democracy',
 edits=[(D,"""					let (prop_index, ..) = props.remove(index);
					if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
						for who in whos.into_iter() {""","""					let (prop_index, ..) = props.remove(index);
					if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
						for who in whos.into_iter().collect::<sp_std::collections::btree_set::BTreeSet<_>>() {""")],
 needs='The same account has two deposits on a proposal (proposes and seconds it, or seconds it twice) and the proposal is blacklisted.',
 breaks='Only one of its deposits is slashed; the other stays on hold for good.',
 demo="""
LaunchPeriod::set(100);
assert_ok!(Democracy::propose(sig(2), call(1), 100));
assert_ok!(Democracy::second(sig(3), 0));
assert_ok!(Democracy::second(sig(2), 0));
assert_eq!((held(2), held(3)), (200, 100));
assert_ok!(Democracy::blacklist(sig(BLACK), call(1).hash(), None));
assert_eq!((held(2), held(3)), (0, 0));
assert_eq!(Balances::total_balance(&SINK), 1300);
"""),
dict(id='S08-fast-track-takes-the-turn', property='C07', kind='democracy',
 edits=[(D,"""			<NextExternal<T>>::kill();
			let now = <frame_system::Pallet<T>>::block_number();
			let ref_index = Self::inject_referendum(now.saturating_add(voting_period), ext_proposal, threshold, delay);
			Self::transfer_metadata""","""			<NextExternal<T>>::kill();
			LastTabledWasExternal::<T>::put(true);
			let now = <frame_system::Pallet<T>>::block_number();
			let ref_index = Self::inject_referendum(now.saturating_add(voting_period), ext_proposal, threshold, delay);
			Self::transfer_metadata""")],
 needs='A public proposal is launched, an external one is fast-tracked before the next launch, and then both kinds are waiting.',
 breaks='The fast track uses up the turn of the external queue: two public proposals are launched in a row while an external one is waiting.',
 demo="""
assert_ok!(Democracy::propose(sig(2), call(1), 100));
assert_ok!(Democracy::propose(sig(2), call(2), 100));
to_block(2);
assert_ok!(Democracy::external_propose_majority(sig(MAJ), call(3)));
assert_ok!(Democracy::fast_track(sig(FAST), call(3).hash(), 2, 2));
assert_ok!(Democracy::external_propose(sig(EXT), call(4)));
to_block(4);
assert!(!NextExternal::<Test>::exists());
assert_eq!(Democracy::public_props().len(), 1);
"""),
dict(id='S09-fast-track-delay-clamped-instant', property='C08', kind='democracy',
 edits=[(D,"""			let maybe_ensure_instant = if voting_period < T::FastTrackVotingPeriod::get() {
				Some(origin)
			} else if""","""			let now = <frame_system::Pallet<T>>::block_number();
			// the proposal has to be open for at least that long, enactment delay included
			let maybe_ensure_instant = if voting_period.saturating_add(delay) < T::FastTrackVotingPeriod::get() {
				Some(origin)
			} else if"""),
  (D,"""			<NextExternal<T>>::kill();
			let now = <frame_system::Pallet<T>>::block_number();
			let ref_index = Self::inject""","""			<NextExternal<T>>::kill();
			let ref_index = Self::inject""")],
 needs='The fast-track origin asks for a voting period below the minimum together with a delay that makes up for it.',
 breaks='A referendum gets a voting period shorter than the minimum without the instant origin.',
 demo="""
FastTrackVotingPeriod::set(3);
assert_ok!(Democracy::external_propose_majority(sig(MAJ), call(1)));
assert!(Democracy::fast_track(sig(FAST), call(1).hash(), 1, 2).is_err());
assert_ok!(Democracy::fast_track(sig(FAST), call(1).hash(), 3, 0));
"""),
dict(id='S10-metadata-cleared-of-index', property='C10', kind='democracy',
 edits=[(D,"""				if let Some(index) = props.iter().position(|p| p.1.hash() == proposal_hash) {
					let (prop_index, ..) = props.remove(index);""","""				if let Some(prop_index) = props.iter().position(|p| p.1.hash() == proposal_hash) {
					let (index, ..) = props.remove(prop_index);"""),
  (D,"""					if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
						for who in whos.into_iter() {""","""					let prop_index = prop_index as PropIndex;
					if let Some((whos, amount)) = DepositOf::<T>::take(index) {
						for who in whos.into_iter() {""")],
 needs='A public proposal with metadata is blacklisted when its place in the queue differs from its index (an earlier one was tabled or cancelled).',
 breaks='Its metadata stays behind, and another proposal whose index equals that place loses its own.',
 demo="""
LaunchPeriod::set(100);
let h = <Preimage as frame_support::traits::StorePreimage>::note(vec![1, 2, 3].into()).unwrap();
assert_ok!(Democracy::propose(sig(2), call(1), 100));
assert_ok!(Democracy::propose(sig(3), call(2), 100));
assert_ok!(Democracy::set_metadata(sig(3), MetadataOwner::Proposal(1), Some(h)));
assert_ok!(Democracy::cancel_proposal(sig(CANCELPROP), 0));
assert_ok!(Democracy::blacklist(sig(BLACK), call(2).hash(), None));
assert_eq!(MetadataOf::<Test>::get(MetadataOwner::Proposal(1)), None);
"""),
dict(id='S11-relock-skipped-for-same-vote', property='C12', kind='elections',
 edits=[(X,"""			let locked_stake = value.min(T::Currency::total_balance(&who));
""","""			let locked_stake = value.min(T::Currency::total_balance(&who));
			let lockup_till = if votes == voter.votes && locked_stake == voter.stake {
				// nothing new to lock
				voter.lockup_till
			} else {
				current_block + T::VotingLockPeriod::get()
			};
"""),(X,"""				Voter { votes, stake: locked_stake, lockup_till: current_block + T::VotingLockPeriod::get() },
			);
			Ok(None::<Weight>.into())""","""				Voter { votes, stake: locked_stake, lockup_till },
			);
			Ok(None::<Weight>.into())""")],
 needs='A voter repeats exactly the same ballot and stake after some blocks.',
 breaks='The accepted vote does not restart the voting lock period, so the voter may leave earlier than promised.',
 setup="	VotingLockPeriod::set(4);",
 demo="""
stand(3);
vote(2, &[3], 50);
to_block(4);
vote(2, &[3], 50);
to_block(6);
assert_noop!(Elections::remove_voter(sig(2)), E::VotingPeriodNotEnded);
"""),
dict(id='S12-promoted-deposit-taken-from-config', property='C13', kind='elections',
 edits=[(X,"""				if let Err(index) = members.binary_search_by(|m| m.who.cmp(&next_best.who)) {
					members.insert(index, next_best.clone());""","""				if let Err(index) = members.binary_search_by(|m| m.who.cmp(&next_best.who)) {
					// a seat never carries more than what it replaces
					members
						.insert(index, SeatHolder { deposit: next_best.deposit.min(removed.deposit), ..next_best.clone() });""")],
 needs='The bond was raised between two candidacies: a member that paid less leaves and is replaced by a runner-up that paid more.',
 breaks='The promoted runner-up is recorded with the smaller bond and never gets the rest back.',
 setup="	DesiredMembers::set(1);\n\tDesiredRunnersUp::set(1);",
 demo="""
stand(3);
CandidacyBond::set(7);
stand(4);
vote(9, &[3], 90);
vote(8, &[4], 50);
to_block(5);
assert_eq!((members(), runners()), (vec![3], vec![4]));
assert_ok!(Elections::renounce_candidacy(sig(3), Renouncing::Member));
assert_eq!(members(), vec![4]);
assert_eq!(held(4), 7);
assert_ok!(Elections::renounce_candidacy(sig(4), Renouncing::Member));
assert_eq!(held(4), 0);
"""),
dict(id='S13-runners-up-ranked-by-stake', property='C15', kind='elections',
 edits=[(X,"""					new_set_with_stake.reverse();
""","""					new_set_with_stake.reverse();
					new_set_with_stake.sort_by_key(|(_, stake)| *stake);
""")],
 needs='Ballots naming several candidates, so that a runner-up elected earlier ends with less backing than one elected later.',
 breaks='Runners-up are ranked by backing instead of by their phragmen round, so a vacated seat goes to the wrong one.',
 setup="	DesiredMembers::set(1);\n\tDesiredRunnersUp::set(3);",
 demo="""
for c in [1, 2, 3, 4] {
	stand(c);
}
vote(9, &[1], 900);
vote(5, &[2, 3], 490);
vote(6, &[4], 441);
vote(7, &[3], 196);
to_block(5);
assert_eq!((members(), runners()), (vec![1], vec![2, 4, 3]));
"""),
dict(id='S14-prime-tie-lowest', property='C16', kind='elections',
 edits=[(X,"""					let prime = prime_votes.into_iter().max_by_key(|x| x.1).map(|x| x.0.clone());""",
"""					let mut prime_votes = prime_votes.into_iter();
					let prime = prime_votes
						.next()
						.map(|first| prime_votes.fold(first, |best, x| if x.1 > best.1 { x } else { best }))
						.map(|x| x.0.clone());""")],
 needs='Two members tie for the highest Borda score.',
 breaks='The tie goes to the lowest account instead of the highest.',
 demo="""
stand(3);
stand(4);
vote(5, &[3], 50);
vote(6, &[4], 50);
to_block(5);
assert_eq!((members(), prime()), (vec![3, 4], Some(4)));
"""),
dict(id='S15-promotion-takes-worst-when-tied', property='C18', kind='elections',
 edits=[(X,"""			let maybe_next_best = <RunnersUp<T>>::mutate(|r| r.pop()).map(|next_best| {""",
"""			let maybe_next_best = <RunnersUp<T>>::mutate(|r| {
				// the runner-up with the most backing
				let best = r.iter().map(|x| x.stake).max();
				r.iter().position(|x| Some(x.stake) == best).map(|i| r.remove(i))
			})
			.map(|next_best| {""")],
 needs='Two runners-up with equal backing stake (ties broken by rank) when a member leaves.',
 breaks='The worse-ranked of the tied runners-up takes the seat.',
 setup="	DesiredMembers::set(1);\n\tDesiredRunnersUp::set(2);",
 demo="""
for c in [3, 4, 5] {
	stand(c);
}
vote(9, &[3], 90);
vote(8, &[4], 50);
vote(7, &[5], 50);
to_block(5);
let best = *runners().last().unwrap();
assert_eq!(Elections::runners_up()[0].stake, Elections::runners_up()[1].stake);
assert_ok!(Elections::renounce_candidacy(sig(3), Renouncing::Member));
assert_eq!(members(), vec![best]);
"""),
dict(id='S16-slash-spread-over-schedules', property='C21', kind='vesting',
 edits=[(O,"""			for schedule in vesting_schedules {
				let total_locked = schedule.locked_at::<T::BlockNumberToBalance>(now).saturating_sub(slashed_amount);""",
"""			let mut slashed_amount = slashed_amount;
			for schedule in vesting_schedules {
				let locked = schedule.locked_at::<T::BlockNumberToBalance>(now);
				let total_locked = locked.saturating_sub(slashed_amount);
				// a schedule that could not absorb the slash took its share already
				slashed_amount = if locked < slashed_amount { slashed_amount.saturating_sub(locked) } else { slashed_amount };""")],
 needs='An account with several schedules, an earlier one of which has less left than the slash.',
 breaks='Later schedules are reduced by less than the slashed amount, so funds stay locked.',
 demo="""
add(5, 100, 1, 1);
add(5, 500, 5, 1);
slash(5, 150);
assert_eq!(schedules(5).iter().map(|s| s.0).sum::<u128>(), 350);
assert_eq!(lock(5), 350);
"""),
dict(id='S17-end-from-remaining-pace', property='C22', kind='vesting',
 edits=[(O,"""				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
""","""				// the rest at the pace of the schedule
				let end_block = start_block
					.saturating_add(schedule.locked_at::<T::BlockNumberToBalance>(now) / schedule.per_block());
""")],
 needs='A schedule whose remaining amount is not a multiple of its per-block amount.',
 breaks='The last partial block is cut off, so the rest vests at a higher pace and is out earlier than before the slash.',
 demo="""
add(5, 1000, 300, 1);
slash(5, 1);
System::set_block_number(2);
assert_ok!(Vesting::vest(RuntimeOrigin::signed(5)));
// without the slash 700 would still be locked
assert!(lock(5) >= 699, "only {} still locked", lock(5));
"""),
]
