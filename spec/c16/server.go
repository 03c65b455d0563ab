//overlay cmd/server
package server

// What a server sends by itself.

func specSendsRegister(s *AnonServer) {
	anonServer = s
	serverRegister()
}
