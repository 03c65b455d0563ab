#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as data here so that the statements are easy to review).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
NT="No existing test touches this code"
U='util/Util.go'; CH='cmd/coordinator/CoordinatorHandler.go'; CO='cmd/coordinator/Coordinator.go'; CL='cmd/coordinator/CoordinatorLauncher.go'
SH='cmd/server/AnonServerHandler.go'; SL='cmd/server/ServerLauncher.go'; KH='cmd/client/ClientHandler.go'; KL='cmd/client/ClientLauncher.go'; BR='cmd/bridge/bridge.go'
FO='primitive/fujiokam/FujiOkamCommitment.go'; LR='primitive/lrs/LinkableRingSignature.go'; PE='primitive/pedersen/PedersenCommitment.go'; EQ='primitive/pedersen_fujiokam/equality.go'

p("C01","Honest signatures always verify",
 "A signature made with a private key over any message, under any generator, verifies for that message under the public key generator^private-key and the same generator.",
 ["inputs"],"every private key, message, nonce and generator (the standard base or a round generator)",
 NT+"; it holds for all group elements only through an algebraic identity.",
 [U],[("ElGamalSign: r = v - x*c","util.ElGamalSign"),("ElGamalVerify: T = g^r * y^c, recompute c","util.ElGamalVerify")])
p("C02","A signature is accepted only if it is the right one",
 "Signature verification accepts exactly when the encoded challenge equals the hash of the whole message together with generator^response * key^challenge; a signature that fails to decode, or any other message, key or generator, is rejected.",
 ["inputs"],"every byte string offered as signature, every message, key and generator",
 NT+"; acceptance of a forgery depends on one unforeseen input.",
 [U],[("challenge recomputation and comparison","util.ElGamalVerify, util.hashElGamal")])
p("C03","Every group operation works on initialized elements and matching bases",
 "No signature, key, commitment or mask is ever computed from a group element or scalar that was never given a value; the coordinator's and servers' own signatures are made and checked under the standard base their keys were made with, and clients' signatures under the current round generator.",
 ["inputs","histories"],"every path through every handler and primitive",
 NT+"; an uninitialized element is the absorbing value 0, under which honest runs still succeed and forgeries do too.",
 [U,CO,CH,SH,KH,KL],[("base handed to sign/verify","all sign and verify call sites"),("key generation","initCoordinator, initAnonServer, initClient")])
p("C04","Every secret is drawn fresh from the system's random source",
 "Private keys, round keys, commitment blindings, signature nonces, proof masks, honesty challenges, table masks and shuffle permutations are each drawn from the cryptographic random source, separately for every use, and never from a constant, a message or an earlier draw.",
 ["inputs","histories"],"every draw on every path",
 "A test sees valid outputs whichever stream they were drawn from; reuse or a constant seed shows only to an attacker.",
 [U,CO,CL,SH,SL,KL,FO,LR,PE,EQ,'util/shuffle/pair.go'],[("draw sites","suite.Secret().Pick, random.Int, random.Bool, suite.Cipher")])
p("C05","Pedersen commitments open, and add and subtract homomorphically",
 "Committing to x with blinding r gives GT^x*HT^r; verification accepts exactly the openings of a commitment, and the sum or difference of two commitments opens to the sum or difference of values and blindings.",
 ["inputs"],"every value, blinding and pair of bases","The tests commit to a few small constants; the identity must hold for all values and bases.",
 [PE],[("Commit, CommitWithR, Add, Sub, Verify, Randomize","pedersen.PedersenBase")])
p("C06","Honest non-negativity proofs verify for every non-negative value",
 "For every non-negative committed value and every choice of the prover's random masks, the proof made for the commitment is accepted by the verifier.",
 ["inputs"],"every value, blinding, mask and modulus","One constant value is tested with one draw of the masks.",
 [FO],[("ProveNonneg","fujiokam.FujiOkamBase"),("VerifyNonneg","fujiokam.FujiOkamBase")])
p("C07","Non-negativity proofs are accepted only if both equations hold",
 "A non-negativity proof is accepted only if, for a challenge derived from the commitment and all three of the prover's announcements, both the three-square equation C^e*Cr = g2^x'*g3^a'*g4^b'*g5^d'*g6^(e(4x'+e)-a'^2-b'^2-d'^2)*h^r' and the opening equation commitment^e*announcement = g1^x'*h^R hold.",
 ["inputs"],"every proof an adversary can submit","The tests only submit honest proofs; a verifier that drops a term or an announcement still accepts them.",
 [FO],[("VerifyNonnegHelper","fujiokam.FujiOkamBase")])
p("C08","Honest equality proofs verify",
 "For every value committed both under Pedersen and under Fujisaki-Okamoto, every pair of blindings and every choice of masks, the proof of equality is accepted by the verifier.",
 ["inputs"],"every value, blinding and mask","One constant is tested with one draw of the masks.",
 [EQ],[("ProveEqual","pedersen_fujiokam"),("VerifyEqual","pedersen_fujiokam")])
p("C09","Equality proofs are accepted only if they bind both commitments",
 "An equality proof is accepted only if its challenge equals the hash of GT^s1*HT^s2*PComm^-c and g1^s1*h1^s3*FOComm^-c, with the same response s1 in both.",
 ["inputs"],"every proof an adversary can submit","The tests only submit honest proofs.",
 [EQ],[("VerifyEqual","pedersen_fujiokam")])
p("C10","The generators' honesty proof is complete and checks all of them",
 "An honest answer to any challenge passes; a client's check passes only if all 80 rounds of each of the six generators satisfy h^answer = announcement * generator^bit; each generator is the one its own exponent made.",
 ["inputs"],"every challenge, every answer, all six generators","Tests run one honest random challenge; a round or generator left unchecked passes them.",
 [FO],[("GenerateAllGnHonestyProof, AnswerAllGnHonesty, CheckAllGnHonesty","fujiokam.FujiOkamBase")])
p("C11","Ring signatures verify, and link the same signer",
 "A ring signature made by any member at any position over any message and ring verifies, and its link tag depends only on the message, the ring and the signer's key, so two signatures link exactly when tags are equal.",
 ["inputs"],"every ring size, position, key, message and draw","Tests use a ring of two and position 0.",
 [LR],[("SignHelper, VerifyHelper, Linkable","lrs.LRSBase")])
p("C12","Ring signatures are accepted only with one bound challenge per member",
 "A ring signature is accepted only if it has exactly one response and one challenge for each ring member and the challenges sum to the hash of ring, tag, message and every member's two reconstructed announcements.",
 ["inputs"],"every signature an adversary can submit","Tests only submit honest signatures.",
 [LR],[("VerifyHelper","lrs.LRSBase")])
p("C13","A shuffle outputs a permuted re-encryption of its input",
 "The shuffle's output pair at each position is the input pair at one permuted position plus a fresh re-encryption of (0,0) with the same blinding in both halves, and it returns those re-encryption masks separately.",
 ["inputs"],"every table size, table and draw","The shuffle's test does not compile here; no test reaches it.",
 ['util/shuffle/pair.go'],[("Shuffle","util/shuffle")])
p("C14","A shuffle proof is accepted only if all of its equations hold",
 "Verification of a pair shuffle accepts only if the embedded simple shuffle holds for the combined commitments A_i*B_i^lambda and C_i*D_i^lambda of the pairs, and, for every pair, equation (33) and finally (34) and (35) of Neff's protocol hold, for challenges derived from the transcript at the point where the protocol draws them; wrong lengths are rejected.",
 ["inputs"],"every proof and table size","The shuffle's test does not compile here, and it only checks honest proofs.",
 ['util/shuffle/pair.go','util/shuffle/simple.go'],[("PairShuffle.Verify","util/shuffle"),("SimpleShuffle.Verify","util/shuffle")])
p("C15","Senders and receivers agree on every message's fields",
 "For every kind of message, each field the receiver needs is put in by every sender of that kind, with the type and encoding the receiver expects and carrying the quantity of the same meaning; optional fields are tested before use.",
 ["inputs","histories"],"every message kind, sender and path","No test sends a message between roles.",
 [CH,CL,SH,SL,KH,KL,U],[("field maps and their decoders","all senders and handlers")])
p("C16","Every message kind sent is handled by the role it is sent to",
 "Message codes are distinct, every kind a role sends has a handler in the receiving role, and each code reaches the handler of its own kind; unknown codes are ignored.",
 ["inputs"],"every message code, every sender","No test dispatches a message.",
 ['proto/EventType.go',CH,SH,KH],[("Handle","coordinator, server, client")])
p("C17","Encoding then decoding returns the same value",
 "For every list of points, scalars, integers, booleans or big integers, every proof, assignment and list of assignments, decoding the encoding gives back the same values in the same order.",
 ["inputs"],"every value","Tests cover a few constants and skip most codecs.",
 [U,BR,'primitive/lrs/Encoding.go'],[("Encode*/Decode* pairs","util, bridge, lrs")])
p("C18","Received values that fail to decode are never used",
 "A received group element, scalar, list, proof or assignment whose decoding reports an error never takes part in any computation, state change or reply.",
 ["inputs"],"every malformed input at every decode site","Tests only decode honest encodings.",
 [U,CH,SH,KH,BR],[("error checks after decoding","all decode sites")])
p("C19","Secrets never leave their owner",
 "Private keys, round keys, honesty trapdoors and the factors of the modulus, nonces and proof masks never reach a message, a log or standard output except through group exponentiation, commitment, or the masked responses of the signature and proof protocols.",
 ["inputs","histories"],"every path from a secret to an output","No test looks at what is sent or printed.",
 [CH,CL,SH,SL,KH,KL,FO],[("outputs: messages and prints","all senders")])
p("C20","A bridge is recorded only on a valid post by a current pseudonym",
 "The coordinator records a bridge only if a round is open, the posting pseudonym belongs to the current round and the post's signature over address and pseudonym verifies under it and the round generator; the recorded owner is that pseudonym and the bridge starts out unused.",
 ["inputs","histories"],"every post message in every state",NT+".",
 [CH,CO],[("handlePostBridge","coordinator")],[("Bridges","bridges offered this round","Coordinator")])
p("C21","Bridges are allocated only to a proven reputation",
 "The coordinator allocates bridges only if a round is open, the requester's pseudonym is in the current table, the signature over the whole request verifies, the indicator's commitment recomputes, the difference commitment is the table's commitment minus it, and non-negativity, range and equality proofs all pass.",
 ["inputs","histories"],"every request message in every state",NT+"; dropping any one check keeps honest runs working.",
 [CH,BR],[("handleRequestBridges, VerifyInd","coordinator, bridge")],[("EndingCommMap","this round's commitments","Coordinator")])
p("C22","A server signs assignments only after its own check of the proof",
 "A server signs the assignments of a request only if the requester is in its own current table and all checks on indicator, commitments and proofs pass against its own parameters; otherwise it replies with a failure and no signature. It signs each assignment it was sent, and returns the signatures in the same order.",
 ["inputs","histories"],"every signing request in every state",NT+".",
 [SH,BR],[("handleSignAssignments","server")])
p("C23","A bridge is assigned at most once, and at most the indicator's number of them",
 "A request allocates at most as many bridges as its indicator, only unused ones, marks each as used when it is taken, and the resulting assignments pair each bridge's address with its own provider and the requester.",
 ["histories","inputs"],"every sequence of posts and requests",NT+".",
 [CO,CH],[("GetBridge, GetBridges, AssignBridges","Coordinator")],[("Bridges","address to provider and use","Coordinator")])
p("C24","An assignment is released only when every server has validly signed it",
 "The coordinator hands an assignment to its requester only when it holds its own and each registered server's valid signature of that very assignment, each counted once, and sends exactly the collected signatures, signed, to the address the requester asked from.",
 ["histories","inputs","schedules"],"every order, duplication and content of servers' replies",NT+".",
 [CH,CO],[("handleGotSignatures","coordinator")],[("AssignmentSignaturesLog","signatures collected per bridge","Coordinator")])
p("C25","A vote counts only once, as +1 or -1, from the client who got the bridge",
 "A vote changes a reputation only if a round is open, the voter is in the current table, its signature over the whole vote verifies, the assignment carries the valid signatures of all servers and the coordinator, the voter is the assignment's requester, the feedback is +1 or -1, and the assignment was not voted on before; then exactly the provider's difference changes by the feedback.",
 ["inputs","histories"],"every vote message in every state",NT+"; replayed or partially signed votes never occur in honest runs.",
 [CH,CO],[("handleVote","coordinator")],[("ReputationDiffMap","feedback per pseudonym this round","Coordinator")])
p("C26","Signatures cover every field that is acted on",
 "For posts, requests, votes and released assignments, the signed content contains every field the receiver acts on, encoded so that different values of a field give different content, and sender and receiver derive it from the message in the same way.",
 ["inputs"],"every pair of messages",NT+".",
 [BR,CH,KL,KH],[("MessageOf*","bridge")])
p("C27","A client accepts only assignments signed by the coordinator",
 "A client records an assignment only if the coordinator's signature over the assignment and its collected signatures verifies under the coordinator's public key received at registration, and it later votes with exactly that assignment and those signatures.",
 ["inputs","histories"],"every message in every state",NT+".",
 [KH,KL],[("handleGotSignatures, sendVote","client")])
p("C28","Commitment parameters are proven honest to each client afresh",
 "Each client gets an honesty proof made for it alone, whose secrets answer at most one challenge; the client challenges the parameters it received and terminates if the answer to its own challenge fails the check.",
 ["histories","inputs"],"every sequence of registrations, challenges and answers",NT+" at the protocol level.",
 [CH,KH],[("handleClientRegisterServerSide, handleGnHonestyChallenge","coordinator"),("handleRegisterConfirmation, handleGnHonestyAnswer","client")])
p("C29","Announcement re-keys the whole table consistently",
 "In the announcement a server raises the generator and every key to its one round key, and both commitment bases and every commitment to one fresh exponent, keeps each commitment with its key through the shuffle, and remembers for each new key the old one.",
 ["inputs"],"every table, size and draw, on the shuffled and unshuffled path",NT+".",
 [SH],[("handleAnnouncement","server")],[("KeyMap","new key to previous key","AnonServer")])
p("C30","Round end restores the table consistently and changes the round key",
 "At round end a server replaces every key by the one remembered for it, raises both commitment bases and every commitment to one fresh exponent, keeps each commitment with its key through the shuffle, and on every path then draws a new round key and forgets the remembered keys.",
 ["inputs","histories"],"every table, size and draw, on the shuffled and unshuffled path",NT+".",
 [SH],[("handleRoundEnd","server")],[("KeyMap","new key to previous key","AnonServer"),("Roundkey","this round's exponent","AnonServer")])
p("C31","A table is used only after the previous server's shuffle proof verified",
 "A server that receives a shuffled table processes or forwards it only if the accompanying shuffle proof verifies against the tables and key sent with it, and it sends with its own shuffled table the proof, the tables before and after, and its public key that make this verification succeed.",
 ["inputs","histories"],"every announcement and round-end message, each direction",NT+".",
 [SH],[("verifyNeffShuffle","server")])
p("C32","Messages travel along the chain and back",
 "Announcement and registration travel from the coordinator through the servers in order of registration and back to the coordinator, round end travels the reverse way: each new server is linked after the last one, and each role sends to the neighbour the direction requires.",
 ["histories","configurations"],"every number of servers and order of registration",NT+".",
 [CH,CL,SH,SL],[("handleServerRegister, GetFirst/LastServerAddr","coordinator"),("NextHop, PreviousHop","server")])
p("C33","Commitments, blindings and known reputations stay in step",
 "At round end every client's commitment is multiplied by a commitment to its difference under a fresh blinding, that blinding goes to the same key's client which adds it to its own, and the client adds the same key's difference to its reputation, so that its commitment always opens to its reputation and blinding.",
 ["histories","inputs"],"every table and vote history",NT+".",
 [CL,CH,KH],[("roundEnd, handleRoundEnd","coordinator"),("handleRoundEnd, handleBroadcastPedersenRDiff","client")])
p("C34","Registration starts a client with matching credit, blinding and pseudonym",
 "A new client's commitment is to the starting credit under a blinding that is sent to that client, together with the current round generator; each server raises the client's key by its round key and remembers it, and the coordinator enters the resulting pseudonym and that commitment into the table at the end of the round.",
 ["histories","inputs"],"every registration",NT+".",
 [CH,CL,SH,KH],[("handleClientRegisterControllerSide, handleClientRegisterServerSide, roundEnd","coordinator"),("handleClientRegisterServerSide","server"),("handleInitPedersenR","client")])
p("C35","Keys and values sent in parallel lists correspond by position",
 "Whenever keys are sent with commitments, blindings or differences as parallel lists, the entries at the same position belong to the same pseudonym, and receivers store or look them up by the same position.",
 ["inputs","schedules"],"every table and iteration order","Map iteration order is random and "+NT[0].lower()+NT[1:]+".",
 [CL,CH,SH,KH,U],[("announce, roundEnd, handleRoundEnd, handleAnnouncement","coordinator"),("rebindReputation","server"),("handleAnnouncementFinalize","client")])
p("C36","Nothing of a finished round leaks into the next",
 "When a round is announced, pseudonym table, differences and cast votes are replaced; when a round ends, bridges, requesters' addresses, new-client buffer and a client's assignments are cleared; all roles take over the new generator and commitment bases.",
 ["histories"],"every sequence of rounds",NT+".",
 [CH,CL,SH,KH],[("handleAnnouncement, roundEnd, clearBuffer","coordinator"),("handleAnnouncementFinalize","server, client"),("handleRoundEnd","client")])
p("C37","Shared state of a node is accessed under mutual exclusion",
 "The coordinator's, a server's and a client's mutable state is read and written by the listener and the main loop only under one lock, which is released on every path.",
 ["schedules"],"every interleaving of listener and main loop",NT+"; races need an interleaving.",
 [CH,CL,SH,SL,KH,KL],[("Mutex","Coordinator, AnonServer, DissentClient")])
p("C38","No message makes the coordinator or a server exit",
 "Whatever bytes a peer sends, the coordinator and the servers drop the message at worst and keep serving; an unreachable peer does not stop the sender.",
 ["inputs","fault_sequences"],"every message and every send failure",NT+".",
 [CL,SL,U],[("receive","coordinator, server"),("SendEvent","util")])
p("C39","A client proves exactly what it asks for",
 "A client's request carries commitments to its indicator and to reputation minus indicator that relate to its table commitment, proofs made for those values and blindings, and is made only if the indicator does not exceed its reputation; an honest request passes all of the coordinator's and servers' checks.",
 ["inputs","histories"],"every reputation, indicator, blinding and draw",NT+".",
 [KL,BR],[("requestBridges","client"),("VerifyInd","bridge")])
p("C40","A round always completes",
 "If all servers and the coordinator stay up and reachable, every started round reaches its end and the next one starts.",
 ["schedules","fault_sequences"],"every schedule and delay",NT+".",
 [CL,CH,SH],[("Launch","coordinator")])
p("C41","Sent messages do not reveal which client owns a pseudonym",
 "Without the servers' round keys, nobody can tell with better than chance which registered client a pseudonym of the round belongs to.",
 ["inputs","histories"],"every distribution of keys and observations","Indistinguishability is not observable in a run.",
 [SH,'util/shuffle/pair.go'],[("round keys and shuffle","server")])
p("C42","An honest shuffle proof is accepted",
 "For every table of at least two pairs, whatever permutation and blindings are drawn, the proof that comes with a shuffle's output is accepted by the verifier given the same tables: prover and verifier take the items of Neff's protocol in the same order and every equation holds for the honest items (except with the negligible probability that a random divisor is zero), and the verifier accepts every transcript for which all equations hold, without running out of any list.",
 ["inputs"],"every table size, table, permutation, draw and challenge","The shuffle's test does not compile here; no test makes or verifies a proof.",
 ['util/shuffle/pair.go','util/shuffle/simple.go'],[("Shuffle, PairShuffle.Prove, Verifier, PairShuffle.Verify","util/shuffle"),("SimpleShuffle.Prove, SimpleShuffle.Verify, thenc, thver","util/shuffle")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P), max(len(x['title']) for x in P))
