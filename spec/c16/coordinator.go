//overlay cmd/coordinator
package coordinator

// What the coordinator sends by itself.

func specSendsBases(c *Coordinator) {
	anonCoordinator = c
	configCommParams()
}

func specSendsAnnounce(c *Coordinator) {
	anonCoordinator = c
	announce()
}

func specSendsEnd(c *Coordinator) {
	anonCoordinator = c
	roundEnd()
}

func specSendsVote(c *Coordinator) {
	anonCoordinator = c
	vote()
}
