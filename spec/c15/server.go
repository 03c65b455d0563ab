//overlay cmd/server
package server

func SpecRegister(s *AnonServer) {
	anonServer = s
	serverRegister()
}
