EL = "pallets/elections-phragmen/src/lib.rs"
EH = ("harness", "mon-elections")
EN = "Holds on every randomized history explored (14 users, drawn parameters, some changing mid-history); trusts the registry's balances, sp-npos-elections and frame crates and the executable specification in harness/elections/src/main.rs."
EW = "The unit tests run fixed small elections under a handful of constants; the guarantee quantifies over every sequence of ballots, candidacies, renouncements, removals and terms, with any stakes, ties and parameters."
def eprop(id, title, st, text, mech, over=("histories", "inputs", "configurations"), state=(), note=EN):
    prop(id, title, st, list(over), text, EW, [EL], mech, state, ["dispatchables, storage, balances, events and membership notifications of the elections pallet after every step"], EH, note)

eprop("C12", "A voter's stake stays frozen for as long as the vote stands",
 "While an account is a voter exactly its voting stake is frozen: the value it offered, capped at its total balance; each accepted vote restarts the voting lock period. During that period the stake cannot be reduced or the vote withdrawn; afterwards the voter can withdraw and everything is unfrozen. A voter whose every chosen candidate has left may be cleaned up by root, and only such voters are.",
 "all sequences of votes, re-votes, withdrawals, clean-ups and block passage, any values and lock periods",
 [("vote, remove_voter, clean_defunct_voters, is_defunct_voter", EL)], state=[("Voting", "ballot, stake and lock end per voter", EL)])
eprop("C13", "Candidacy bonds are held, returned or slashed exactly once",
 "Standing for election puts exactly the bond in force at that moment on hold, and it stays with the candidate through membership and runner-up status even if the configured bond changes. Renouncing, or removal without slashing, returns exactly it; losing an election or removal with slashing takes exactly it to the configured destination. Nothing else moves or creates funds.",
 "all sequences of candidacies, elections, renouncements and removals, with bonds changing over time",
 [("submit_candidacy, renounce_candidacy, remove_and_replace_member, do_phragmen", EL)], state=[("Candidates/Members/RunnersUp deposits", "bond recorded per role", EL)])
eprop("C14", "Nobody holds two roles and the elected sets keep order and size",
 "At all times an account is at most one of candidate, member and runner-up. Members and candidates are listed in account order, runners-up from worst to best, and no set exceeds its configured size. Membership queries agree with the list of members.",
 "all reachable states", [("submit_candidacy, do_phragmen, remove_and_replace_member", EL), ("Contains/SortedMembers", EL)])
eprop("C15", "Elections run on schedule and seat exactly the phragmen winners",
 "An election runs at every multiple of the term duration and at no other block (never if the term is zero), unless root reruns one after removing a member. It seats as members, then as ranked runners-up, exactly the sequential-phragmen winners with non-zero backing among all candidates, members and runners-up, with their backing stake; candidates are then cleared and the round counter advances. If nobody stands, or there are more voters than the limit, nothing changes.",
 "all electorates: ballots, stakes up to and beyond 64-bit conversion, ties, zero backing, any seat counts",
 [("on_initialize, do_phragmen", EL)], state=[("Members/RunnersUp/ElectionRounds", "outcome of the last election", EL)])
eprop("C16", "The prime is the Borda winner and survives unrelated changes",
 "After an election the prime is the member with the highest stake-weighted Borda score, counting each ballot position from the maximum number of votes downwards, ties going to the highest account. When a member leaves between elections the prime stays unless it was the one leaving, in which case there is none. The prime is always a current member.",
 "all ballots, ties and membership changes", [("do_phragmen prime selection, remove_and_replace_member", EL)])
eprop("C17", "The governed body is told every membership change, exactly",
 "Whenever membership changes, the body that uses it is told the sorted lists of incoming, outgoing and all members, and they are consistent: the previous members minus the outgoing plus the incoming are the new members. After every step that body's view equals the seated members.",
 "all elections, removals and renouncements", [("ChangeMembers calls in do_phragmen and remove_and_replace_member", EL)])
eprop("C18", "A vacated seat goes to the best runner-up, with stake and bond intact",
 "When a member renounces or is removed, the best-ranked runner-up takes the seat immediately, keeping its stake and bond, and the other runners-up keep their order; without runners-up the seat stays empty. Removal reruns the election exactly when asked to. A renounced runner-up or candidate simply leaves its list.",
 "all sequences of renouncements and removals between elections", [("remove_and_replace_member, remove_member, renounce_candidacy", EL)])
eprop("C19", "Election calls need the right caller and limits, or change nothing",
 "Voting, standing and renouncing act only for the signed caller; removal of members and clean-up of voters only for root. Ballots that are empty, longer than the per-voter limit or than the number of electable people, values below the minimum, double candidacies, understated candidate counts and candidacies over the limit are refused. A refused call changes nothing and no call or block panics.",
 "all calls by all origins in all reachable states, at and around every limit", [("ensure! guards in every dispatchable", EL)])
eprop("C20", "Election events tell exactly what happened, in order",
 "Every call and election deposits exactly the events that describe its effect: the new term with members and stakes, each slashed candidate or seat holder with its bond, removed members, renouncements, empty terms and errors, in the order they happened. Refused calls deposit none.",
 "all operation sequences", [("deposit_event in each path", EL)])
