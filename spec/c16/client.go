//overlay cmd/client
package client

// What a client sends by itself.

func specSendsRegister(d *DissentClient) {
	dissentClient = d
	register()
}

func specSendsPost(d *DissentClient, addr string) {
	dissentClient = d
	postBridge(addr)
}

func specSendsRequest(d *DissentClient, ind int) {
	dissentClient = d
	requestBridges(ind)
}

func specSendsVote(d *DissentClient, id, feedback int) {
	dissentClient = d
	sendVote(id, feedback)
}
