//overlay cmd/coordinator
package coordinator

func SpecAnnounce(c *Coordinator) {
	anonCoordinator = c
	announce()
}

func SpecEnd(c *Coordinator) {
	anonCoordinator = c
	roundEnd()
}

func SpecBases(c *Coordinator) {
	anonCoordinator = c
	configCommParams()
}

func SpecVote(c *Coordinator) {
	anonCoordinator = c
	vote()
}
