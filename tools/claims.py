PT='abstract interpretation of the SSA form of the handlers in a term domain (global value numbering), on an arbitrary message in an arbitrary state, compared with specification functions over state and sent messages; relational checks at every write and send'
CLAIMS={
"C37":("interprocedural must-lockset analysis over SSA","Every access to state that changes after the second thread starts is checked in every calling context. Assumes one mutex per role, the call graph resolved by type and address-taken functions, and that memory reached only through local copies is not shared."),
"C38":("exit/panic reachability over the call graph with recovery frames","No process exit is reachable from a listener and every panic is inside a frame that recovers and is called from a loop. Assumes the runtime itself does not abort (out of memory, stack exhaustion, concurrent map writes, the last being C37)."),
'C01':('abstract interpretation of the SSA form in a term domain (global value numbering with closed-form loops), compared with a specification function compiled into the same package','The group law, hash and codec are in normal form; hashes are uninterpreted. Every message, key, generator and nonce.'),
'C02':('abstract interpretation of the SSA form in a term domain (global value numbering with closed-form loops), compared with a specification function compiled into the same package','Hashes are uninterpreted, so acceptance is exactly the equation between them; unforgeability itself is a computational assumption.'),
'C05':('abstract interpretation of the SSA form in a term domain (global value numbering with closed-form loops), compared with a specification function compiled into the same package','Group law in normal form, exponents modulo the group order.'),
'C06':('abstract interpretation of the SSA form in a term domain (global value numbering with closed-form loops), compared with a specification function compiled into the same package','Identity proved for every value, blinding and mask for which the three-square search returns; that the search finds squares for every value (a number-theoretic fact) is not shown, nor values above 2^61.'),
'C07':('abstract interpretation of the SSA form in a term domain (global value numbering with closed-form loops), compared with a specification function compiled into the same package','Implication from acceptance to both equations over all arguments; soundness of the proof system itself is a computational assumption.'),
'C08':('abstract interpretation of the SSA form in a term domain (global value numbering with closed-form loops), compared with a specification function compiled into the same package','Identity over all values, blindings and masks; exponents are integers, the challenge is an uninterpreted hash.'),
'C09':('abstract interpretation of the SSA form in a term domain (global value numbering with closed-form loops), compared with a specification function compiled into the same package','Implication from acceptance to the equation over all arguments.'),
'C10':('abstract interpretation of the SSA form in a term domain (global value numbering with closed-form loops), compared with a specification function compiled into the same package','Loops over the 80 rounds of six generators in closed form; openssl prime generation is assumed to return.'),
'C11':('abstract interpretation of the SSA form in a term domain (global value numbering with closed-form loops), compared with a specification function compiled into the same package','For every ring size, position, message and key; exponents modulo p-1, p a constant checked to be prime.'),
'C12':('abstract interpretation of the SSA form in a term domain (global value numbering with closed-form loops), compared with a specification function compiled into the same package','For every ring size and signature.'),
'C13':('abstract interpretation of the SSA form in a term domain (global value numbering with closed-form loops), compared with a specification function compiled into the same package','Every table size (0 and 1 included), table and draw; the order is shown to be the composition of transpositions, or of insertions, by its construction loop, so it is a permutation. Group law in normal form; draws are fresh unknowns.'),
'C14':('abstract interpretation of the SSA form in a term domain (global value numbering with closed-form loops), compared with a specification function compiled into the same package','Every size and transcript. The proof is read as one sequence of items in program order; each equation is an implication from acceptance.'),
'C42':('abstract interpretation of the SSA form in a term domain (global value numbering with closed-form loops; sums and products over all positions re-indexed along the permutation), compared with a specification function compiled into the same package','Every table size from two, table, permutation, draw and challenge. Exponents are a field and divisors not zero. That the running products of the simple shuffle meet in its middle is reduced to prod(gamma*x) = gamma^k * prod(x) over the same values in another order, which is not itself derived.'),
'C17':('abstract interpretation of the SSA form in a term domain (global value numbering with closed-form loops), compared with a specification function compiled into the same package','gob, protobuf and the group encodings are assumed to be inverse to each other when used with one and the same type; shown: encoder and decoder use the same type, wrap and unwrap the same fields, in the same order, for lists of every length.'),
'C20':(PT,'Every message, key, table and state. Signatures are an uninterpreted relation; group encodings assumed canonical.'),
'C21':(PT,'Every message and state, at every write to bridges and assignment logs and every request for signatures. Proof verification enters as the conditions decided by C07 and C09.'),
'C22':(PT,'Every message and state; every GOT_SIGNS message the server can send.'),
'C23':(PT+'; loops by induction over per-iteration fold states','Every message and state, at every write to the bridges and at every request for signatures. Which bridges go out (map order) is left open; each must be unused when taken, marked in the same step, distinct, and at most the indicator in number.'),
'C24':(PT+'; step relation between consecutive states of each collection loop','Every message in every state, step by step; that Count is the number of signatures collected follows by induction over the steps. Signatures are an uninterpreted relation, the list of servers is constant while entries are open, distinct references do not alias, and a handler that panics midway is judged up to its last complete step.'),
'C25':(PT,'Every message and state, at every write to differences and cast votes. Signatures are an uninterpreted relation.'),
'C27':(PT,'Every message and state, at every change of the list of assignments; signatures are an uninterpreted relation.'),
'C32':(PT,'Every number of servers and clients, every message in every state; each send of a server is classified by message kind and destination.'),
'C33':(PT,'Every table, vote history and position. Group law in normal form; blindings are fresh unknowns; the client\'s key is its own pseudonym.'),
'C34':(PT,'Every registration in every state, at every role it passes, and the entry of the buffer at round end.'),
'C35':(PT,'Every table and order of map iteration (the order is an unknown permutation); position by position. Tables store each entry under its own key.'),
'C36':(PT,'Every message in every state; each table is compared key by key with what the message says, whatever it held before.'),
'C29':(PT,'Every table and message in every state, whatever the permutation; the shuffle enters as the contract decided by C13, keys of a table are pairwise different. Also shown: the handler returns on every well-formed message.'),
'C15':(PT+'; each message is composed with the handler of its receiver','Every kind of message the three roles send one another, from the state its sender is in: the very message is handed to the receiver, which must neither miss a field nor find another type or encoding, and whose state afterwards must mean what the sender meant. Tables are followed over one hop at a time (fields, types and encodings as sent, unknown contents that meet what C29-C31 decide); two roles are different instances; the shuffle enters as the contract decided by C13. VOTE_REPLY is never sent.'),
'C16':('value numbering of each role\'s dispatch per message code (effects compared with per-kind footprints); constants of the type-checked program; origin of every destination','Every code of every role, on unknown contents in an unknown state. That a handler does the right thing is the other properties\' business: here a kind\'s effects occur, no other kind\'s effects do, and the contents are looked at whatever the state (in the message phase for the kinds of that phase). Other codes: no state change, no message, no panic. The role an address belongs to is read off the field it is stored in, or off who sends the kind being answered.'),
'C03':('value numbering of every entry point with fields that start without a value tracked as such; inductive invariants on them found by dropping candidates; must-dataflow of the statuses the main loops waited for','Every message code in every state the invariants allow, every command, and every other function on unknown arguments: operands of each group operation and exponentiation, base and key of each signature, contents of messages and of the state. Index and nil failures inside a handler are not exits at which the invariants are checked; addresses in the server list are assumed to exist.'),
'C18':('value numbering of each role\'s dispatch with an unspecified value wherever a decoder reports an error; reachability of decisions, messages, results and state changes from it, under path conditions','Every message code of every role, on unknown contents in an unknown state, and every function that decodes but is reached by no handler. Nothing (branch, message, result, state, for coordinator and servers also the state left by a panic) may depend on a failed decoding, and after one no message is sent and no state changes. That the decoders report malformed input is the libraries\' contract; errors of address resolution and type assertions are not decodings.'),
'C19':('taint as non-interference over value numbers: the clear part of every output (message, print, log, file, process, panic value), with secrets and random draws as named unknowns; one-time-pad elimination for masked responses','Every message code of every role, every life-cycle function and every function with an output, on unknown contents in an unknown state; signing and proving on secret arguments. Secret are the listed fields and every field found to be given a secret or a draw. Group exponentiation and hashing of a group element hide; a response is hidden by a mask used once, its range is not compared; what the linkable ring signature and the shuffle proof hide beyond that is their schemes.'),
 'C30':(PT,'Every table, remembered keys and message, whatever the permutation, including tables of size 0 and 1; the shuffle enters as the contract decided by C13, remembered keys are pairwise different.'),
'C31':(PT,'Every message in every state, at every send and every write to the remembered keys and the round key. Proof verification enters as the relation decided by C14.'),
'C28':(PT+'; reachability of recovering frames','Every registration, challenge and answer in every state; all 480 rounds. Draws are fresh unknowns named by call path and iteration; the check itself is decided by C10.'),
'C04':(PT+'; interprocedural dataflow of random streams to their sources','Every path of every function that draws; draws are fresh unknowns named by call path and iteration, so reuse and derivation are visible. That crypto/rand is random, and ranges wider than a field, are assumed; the masks of the equality proof are as wide as the field, not as the product they hide.'),
'C26':(PT,'Every message in every state: no effect before a signature check over content that determines each field the handler reads. Lists of every length, 32-bit integers; content is compared field by field, the boundaries between neighbouring variable-length fields are not claimed.'),
'C39':(PT,'Every reputation, indicator and parameters; assumes the table commitment and pseudonym of the client open as registration and round end leave them (C33, C34) and that the masked response of the equality proof stays within its range bound.'),
}
NA={
"C40":"liveness over a distributed run: it depends on the network, on timing and on the operator ending the phases, none of which a sound static argument over the source can bound",
"C41":"an indistinguishability statement over probability distributions; static analysis of the source decides which values are sent (C19) and that they are blinded as specified (C29, C30, C04), not computational hiding",
}
