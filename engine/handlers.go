package main

// The properties of the protocol are decided on the handlers and life-cycle
// functions, for any message and any state (see proto.go).

type monSet struct {
	pkg, entry string
	mons       []string
	min        int
}

func protoCheck(rule string, n int, sets []harnessSet, mons ...monSet) func(p *Program, r *Report) {
	return func(p *Program, r *Report) {
		for _, s := range sets {
			r.harness(p, rule, s.pkg, s.targets)
		}
		for _, m := range mons {
			r.monitored(p, rule, m.pkg, m.entry, m.mons, m.min)
		}
		r.atLeast(rule, n)
	}
}

// alsoCheck adds a structural rule
func alsoCheck(more func(p *Program, r *Report, rule string), rule string, n int, sets []harnessSet, mons ...monSet) func(p *Program, r *Report) {
	c := protoCheck(rule, 0, sets, mons...)
	return func(p *Program, r *Report) {
		c(p, r)
		more(p, r, rule)
		r.atLeast(rule, n)
	}
}

const protoExpl = "The specification functions listed under instances deliver an arbitrary message to the repository's handler (or call a life-cycle function) in an arbitrary state and compare the state and the messages sent before and after; value numbering over the SSA form of all code reached shows that they return true on every path. Monitors are evaluated at every write to the state they watch. "

func init() {
	const (
		co = "zRep/cmd/coordinator"
		se = "zRep/cmd/server"
		cl = "zRep/cmd/client"
	)
	checks["C20"] = checkDef{[]string{"common", "c20"}, protoCheck("a bridge is recorded only on a valid post", 4,
		[]harnessSet{{co, map[string]string{"specPartialPost": "Handle", "specPartialClosing": "roundEnd"}}},
		monSet{co, "specPartialAny", []string{"specOnBridges"}, 1}), protoExpl}
	checks["C21"] = checkDef{[]string{"common", "c21"}, protoCheck("bridges are allocated only to a proven reputation", 3,
		nil,
		monSet{co, "specPartialAny", []string{"specOnBridges", "specOnAssignmentSignaturesLog", "specOnSend"}, 3}), protoExpl}
	checks["C22"] = checkDef{[]string{"common", "c22"}, protoCheck("a server signs only after its own check", 3,
		[]harnessSet{{se, map[string]string{"specPartialSign": "Handle"}}},
		monSet{se, "specPartialAny", []string{"specOnSend"}, 2}), protoExpl}
	checks["C23"] = checkDef{[]string{"common", "c23"}, protoCheck("a bridge is assigned at most once", 4, nil,
		monSet{co, "specPartialAny", []string{"specOnBridges", "specOnSend"}, 4}), protoExpl}
	checks["C24"] = checkDef{[]string{"common", "c24"}, protoCheck("an assignment is released only when complete", 10, nil,
		monSet{co, "specPartialAny", []string{"specStepAssignmentSignaturesLog", "specOnRequesterAddrs", "specOnSend"}, 8}), protoExpl}
	checks["C25"] = checkDef{[]string{"common", "c25"}, protoCheck("only a valid vote counts", 4,
		[]harnessSet{{co, map[string]string{"specPartialVote": "Handle"}}},
		monSet{co, "specPartialAny", []string{"specOnVotedAssignments", "specOnReputationDiffMap"}, 2}), protoExpl}
	checks["C26"] = checkDef{[]string{"common", "c26"}, protoCheck("signatures cover what is acted on", 14,
		[]harnessSet{{"zRep/cmd/bridge", map[string]string{"specPost": "MessageOfPostBridge", "specRequest": "MessageOfRequestBridges", "specVote": "MessageOfVote", "specReleased": "MessageOfGotSignatures"}},
			{co, map[string]string{"specPartialReads": "Handle", "specOwn": "Coordinator.SignMessage"}},
			{cl, map[string]string{"specPartialReads": "Handle", "specPartialPost": "postBridge", "specPartialRequest": "requestBridges", "specPartialVote": "sendVote"}}},
		monSet{co, "specPartialAny", []string{"specOnBridges", "specOnRequesterAddrs", "specOnAssignmentSignaturesLog", "specOnVotedAssignments", "specOnReputationDiffMap", "specOnSend"}, 6},
		monSet{cl, "specPartialAny", []string{"specOnAssignments"}, 2}), protoExpl}
	checks["C27"] = checkDef{[]string{"common", "c27"}, protoCheck("a client keeps only released assignments", 7,
		[]harnessSet{{cl, map[string]string{"specPartialReleased": "Handle", "specPartialKey": "Handle", "specPartialStart": "initClient", "specPartialVote": "sendVote", "specPartialRoundTrip": "sendVote"}}},
		monSet{cl, "specPartialAny", []string{"specOnAssignments"}, 2}), protoExpl}
	checks["C32"] = checkDef{[]string{"common", "c32"}, protoCheck("messages go to the neighbour the direction requires", 20,
		[]harnessSet{{co, map[string]string{"specPartialLink": "Handle", "specPartialAnnounce": "announce", "specPartialEnd": "roundEnd", "specPartialBases": "configCommParams", "specPartialTable": "Handle", "specPartialTableServers": "Handle", "specPartialClient": "Handle", "specPartialSign": "Handle"}}, {se, map[string]string{"specPartialHops": "Handle", "specPartialPassed": "Handle", "specPartialStart": "serverRegister", "specPartialRegister": "Handle"}}},
		monSet{co, "specPartialAny", []string{"specOnServerList"}, 1},
		monSet{se, "specPartialAny", []string{"specOnSend", "specOnNextHop", "specOnPreviousHop"}, 8}), protoExpl}
	checks["C33"] = checkDef{[]string{"common", "c33"}, protoCheck("commitment, blinding and reputation change together", 9,
		[]harnessSet{{co, map[string]string{"specPartialStep": "roundEnd", "specPartialAll": "roundEnd", "specPartialDiffs": "Handle", "specPartialComplete": "Handle", "specPartialMembers": "roundEnd", "specPartialRegistered": "Handle"}}, {cl, map[string]string{"specPartialBlinding": "Handle", "specPartialReputation": "Handle", "specPartialOther": "Handle"}}}), protoExpl}
	checks["C34"] = checkDef{[]string{"common", "c34"}, protoCheck("registration fixes credit, blinding and pseudonym", 7,
		[]harnessSet{{co, map[string]string{"specPartialRegister": "Handle", "specPartialReturned": "Handle", "specPartialEnter": "roundEnd"}}, {se, map[string]string{"specPartialRegister": "Handle"}}, {cl, map[string]string{"specPartialInit": "Handle", "specPartialStart": "initClient", "specPartialAsk": "register"}}},
		monSet{co, "specPartialAny", []string{"specOnNewClientsBuffer"}, 1}), protoExpl}
	checks["C35"] = checkDef{[]string{"common", "c35"}, protoCheck("keys and values correspond by position", 10,
		[]harnessSet{{co, map[string]string{"specPartialAnnounce": "announce", "specPartialMembers": "announce", "specPartialStored": "Handle", "specPartialForward": "Handle", "specPartialEnd": "roundEnd", "specPartialDiffs": "Handle"}}, {se, map[string]string{"specPartialStored": "Handle"}}, {cl, map[string]string{"specPartialOwn": "Handle", "specPartialBlinding": "Handle", "specPartialReputation": "Handle"}}}), protoExpl}
	checks["C36"] = checkDef{[]string{"common", "c36"}, protoCheck("a round starts and ends clean", 8,
		[]harnessSet{{co, map[string]string{"specPartialAnnounced": "Handle", "specPartialBases": "Handle", "specPartialRestored": "Handle", "specPartialClosed": "roundEnd", "specCleared": "clearBuffer"}}, {se, map[string]string{"specPartialFinal": "Handle"}}, {cl, map[string]string{"specPartialFinal": "Handle", "specPartialEnded": "Handle"}}}), protoExpl}
	checks["C29"] = checkDef{[]string{"common", "shmodel", "c29"}, protoCheck("announcement re-keys the whole table", 3,
		[]harnessSet{{se, map[string]string{"specBases": "Handle", "specEntries": "Handle", "specAll": "Handle"}}}), protoExpl}
	checks["C30"] = checkDef{[]string{"common", "shmodel", "c30"}, protoCheck("round end restores the whole table", 3,
		[]harnessSet{{se, map[string]string{"specBases": "Handle", "specEntries": "Handle", "specAll": "Handle"}}}), protoExpl}
	checks["C31"] = checkDef{[]string{"common", "shmodel", "c31"}, protoCheck("a table is used only after its proof verified", 8, nil,
		monSet{se, "specPartialAny", []string{"specOnSend", "specOnKeyMap", "specOnRoundkey"}, 8}), protoExpl}
	checks["C39"] = checkDef{[]string{"common", "c39"}, protoCheck("a client proves exactly what it asks for", 6,
		[]harnessSet{{cl, map[string]string{"specWithin": "requestBridges", "specPartialAsks": "requestBridges", "specPartialCommitments": "requestBridges", "specPartialPasses": "requestBridges", "specPartialSigned": "requestBridges", "specPartialKeeps": "requestBridges"}}}), protoExpl}
	checks["C28"] = checkDef{[]string{"common", "c28"}, alsoCheck(fatalCheck, "parameters are proven to each client afresh", 18,
		[]harnessSet{{"zRep/primitive/fujiokam", map[string]string{"specPartialRounds": "FujiOkamBase.GenerateAllGnHonestyProof", "specBits": "FujiOkamBase.ChallengeAllGnHonesty"}},
			{co, map[string]string{"specPartialConfirmed": "Handle", "specPartialOwn": "Handle", "specPartialAnswered": "Handle", "specPartialOthers": "Handle"}},
			{cl, map[string]string{"specPartialChallenges": "Handle", "specPartialChecked": "Handle", "specPartialStays": "Handle"}}},
		monSet{co, "specPartialAny", []string{"specOnGnHonestyProofs", "specOnSend"}, 3}), protoExpl}
	checks["C15"] = checkDef{[]string{"common", "shmodel", "c15"}, protoCheck("what a role sends is what its receiver reads", 28,
		[]harnessSet{{cl, map[string]string{
			"specServerFirst": se + ":serverRegister", "specServerNext": se + ":serverRegister", "specBases": co + ":configCommParams",
			"specRegisters": "register", "specConfirmed": co + ":handleClientRegisterServerSide", "specChallenged": "handleRegisterConfirmation",
			"specAnnounced": co + ":announce", "specAccepted": se + ":handleAnnouncement", "specPassedOn": se + ":handleAnnouncement", "specArrives": se + ":handleAnnouncement", "specArrived": se + ":handleAnnouncement",
			"specFinalServer": co + ":handleAnnouncement", "specFinalClient": co + ":handleAnnouncement",
			"specPosted": "postBridge", "specRequested": "requestBridges", "specSignatures": co + ":handleRequestBridges",
			"specGathered": se + ":handleSignAssignments", "specKept": se + ":handleSignAssignments", "specReleased": co + ":handleGotSignatures",
			"specVoted": "sendVote", "specTold": co + ":vote",
			"specEnds": co + ":roundEnd", "specBackAccepted": se + ":handleRoundEnd", "specBack": se + ":handleRoundEnd", "specReturns": se + ":handleRoundEnd", "specReturned": se + ":handleRoundEnd",
			"specRated": co + ":handleRoundEnd", "specBlinded": co + ":roundEnd"}}}), protoExpl +
		"For this property a specification function lets one role make its message and hands that very message to the role it is sent to. "}
	checks["C04"] = checkDef{[]string{"common", "shmodel", "c04"}, alsoCheck(streamCheck, "every secret is drawn for its use", 40,
		[]harnessSet{{utilPkg, map[string]string{"specRawSign": "ElGamalSign", "specRawSignTwice": "ElGamalSign"}},
			{"zRep/primitive/pedersen", map[string]string{"specBlinding": "PedersenBase.Commit", "specBase": "CreateBaseFromSuite"}},
			{"zRep/primitive/fujiokam", map[string]string{"specBlinding": "FujiOkamBase.Commit", "specPartialMasks": "FujiOkamBase.ProveNonneg",
				"specPartialRounds": "FujiOkamBase.GenerateAllGnHonestyProof", "specBits": "FujiOkamBase.ChallengeAllGnHonesty", "specPartialTrapdoors": "CreateBaseFromSuite"}},
			{"zRep/primitive/lrs", map[string]string{"specPartialSign": "LRSBase.Sign", "specPartialOwn": "LRSBase.Sign"}},
			{"zRep/primitive/pedersen_fujiokam", map[string]string{"specMasks": "ProveEqual"}},
			{shufPkg, map[string]string{"specRawPartialOrder": "Shuffle", "specPartialProof": "PairShuffle.Prove"}},
			{co, map[string]string{"specPartialKey": "initCoordinator", "specNonce": "Coordinator.SignMessage"}},
			{se, map[string]string{"specPartialKey": "initAnonServer", "specPartialSign": "Handle", "specPartialRoundkey": "Handle"}},
			{cl, map[string]string{"specPartialKey": "initClient", "specPartialBlindings": "requestBridges"}}},
		monSet{co, "specPartialAny", []string{"specOnAssignmentSignaturesLog", "specOnSend"}, 4},
		monSet{co, "specPartialFake", []string{"specOnBeginningKeyMap", "specOnBeginningCommMap"}, 2},
		monSet{se, "specPartialAny", []string{"specOnRoundkey", "specOnSend"}, 3},
		monSet{cl, "specPartialPost", []string{"specOnSend"}, 1},
		monSet{cl, "specPartialRequest", []string{"specOnSend"}, 1},
		monSet{cl, "specPartialVote", []string{"specOnSend"}, 1}), protoExpl + "A dataflow rule over the whole program follows every stream that is passed on to where it comes from. "}
}
