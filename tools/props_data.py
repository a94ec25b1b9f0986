ASSUME = "All paths, all inputs, unbounded loops (invariants inferred and proved per loop). Assumed: RSA/BLS/SHA-256/JSON/hex library functions as uninterpreted functions with the axioms in gover/ext.go, mathematical integers, abstract strings."
NA = []
prop("P01", "Statements are accepted only from the entity that made them",
 "A tree-head, revocation or accusation object is accepted by verification only if it carries a well-formed signature, the signature names the object's signer, that signer is a registered entity, and the signature is valid under that entity's public key over exactly the object's three payload parts. A tree head or revocation is accepted only when the entity it speaks about is its signer.",
 ["inputs"], "every gossip object (all field values, all signature strings) and every crypto configuration",
 "A test checks a few objects; forging needs one unusual combination of type, signer, embedded id and payload among unboundedly many.",
 V, ["Gossip_object.Verify", "Verify_RSAPayload", "RSASigFromString", "CryptoConfig.Verify", "RSAVerify"], ASSUME, observe=["Gossip_object.Verify returns nil"])
prop("P02", "A conflict proof cannot frame an honest entity",
 "A conflict object against an entity is accepted only if it contains two different statements and two signatures that both name that entity and are both valid, each over its own statement, under that entity's public key.",
 ["inputs"], "every conflict object and every crypto configuration",
 "The accusation is checked from attacker-supplied strings; tests cannot enumerate mixes of signers, equal statements, or swapped signatures.",
 V, ["Gossip_object.Verify", "Verify_CON", "RSASigFromString", "CryptoConfig.Verify"], ASSUME, observe=["Gossip_object.Verify returns nil"])
prop("P03", "A signature fragment counts only for the entity that made it",
 "A fragment object is accepted only if its signature decodes, names the object's signer, that signer has a registered threshold key, and the fragment is valid under that key over exactly the object's three payload parts.",
 ["inputs"], "every fragment object and every crypto configuration",
 "One entity presenting its fragment under several names defeats the threshold; the space of objects is unbounded.",
 V, ["Gossip_object.Verify", "Verify_PayloadFrag", "SigFragmentFromString", "CryptoConfig.FragmentVerify"], ASSUME, observe=["Gossip_object.Verify returns nil"])
prop("P04", "A full object needs a threshold of distinct registered signers",
 "A threshold-signed object is accepted only if its signature lists at least the configured threshold of signers, all different and all registered, and the aggregate signature is valid for exactly those signers' keys over exactly the object's three payload parts.",
 ["inputs", "configurations"], "every full object, every signer list of every length, every threshold",
 "Signer lists are unbounded and a single duplicate or unknown entry is enough to reach the threshold with fewer signers.",
 V, ["Gossip_object.Verify", "Verify_PayloadThreshold", "ThresholdSigFromString", "CryptoConfig.ThresholdVerify", "ThresholdSig.Verify"], ASSUME, observe=["Gossip_object.Verify returns nil"])
prop("P05", "Verification is total and decides by object type",
 "Verifying any object, however malformed, never crashes; an object of unknown type is rejected. An object that is properly signed for its type (single-signer statements, conflict proofs, fragments, and for aggregates the signature check itself) is never rejected.",
 ["inputs"], "every object of every type, including undecodable signatures, empty fields, unknown signers and empty configurations",
 "Objects come from the network; a crash or wrong rejection needs only one odd input, and availability of honest statements must hold for all of them.",
 V, ["Gossip_object.Verify", "Verify_RSAPayload", "Verify_CON", "Verify_PayloadFrag", "Verify_PayloadThreshold"], ASSUME, observe=["Gossip_object.Verify result"])
prop("P06", "What is signed and encoded verifies after decoding",
 "Signing stamps the signer's own id and yields a signature valid under its key over the message. Encoding then decoding a signature, fragment or aggregate preserves signer ids (those that need no JSON escaping) and signature. Aggregation succeeds exactly when there are at least threshold fragments, and lists exactly the fragments' signers with the aggregate of exactly their signatures.",
 ["inputs"], "every message, key, id, list of fragments of every length",
 "Round trips over all messages, ids and list lengths and orders are beyond sampled tests; the existing tests have no oracle for them.",
 ["crypto/crypto_config.go", "crypto/bls.go", "crypto/rsa.go", "crypto/types.go"], ["CryptoConfig.Sign", "CryptoConfig.ThresholdSign", "CryptoConfig.ThresholdAggregate", "RSASig.String", "SigFragment.String", "ThresholdSig.String", "*FromString"], ASSUME)
G = ["gossiper/gossiper_server.go", "gossiper/Interface.go", "gossiper/types.go"]
CONC = "All inputs and all interleavings of handlers at lock granularity (rely/guarantee per lock-protected map), unbounded stores. Assumed: the trusted library axioms of gover/ext.go, the crypto configuration's contents never change, one GossiperContext per process, guarded maps and fragment lists are reachable only through the context, and data races outside the declared lock-protected fields are not considered."
GST = [("Gossip_object_storage.*", "accepted objects by type and id", "gossiper/types.go"), ("Gossip_blacklist.BLACKLIST_PERM", "entities proved to misbehave", "gossiper/types.go")]
prop("P07", "Only verified objects are stored or passed on by a gossiper",
 "Whatever objects arrive, in whatever order and however their handlers interleave, every object in a gossiper's statement, accusation, conflict, fragment and full-object stores has passed verification, is of the store's own type, and is filed under its own id (period, type, subject). Every object a gossiper sends to another gossiper or to its monitor has passed verification.",
 ["inputs", "histories", "schedules"], "every object, every history of requests, every interleaving of concurrent handlers",
 "It is an invariant over all histories of adversarial requests and all interleavings; a test sees one history.",
 G, ["Gossip_object_handler", "Handle_Gossip_object", "Store_gossip_object", "Read_and_Store_If_Needed", "Send_obj_to_Gossipers", "Send_to_Monitor"], CONC, state=GST,
 observe=["contents of the gossiper's stores", "POSTs to other gossipers and the monitor"])
prop("P08", "Two different statements of one entity are never silently absorbed",
 "After a gossiper has handled a valid tree head or revocation (and its store was not wiped meanwhile), either the store holds a statement with the same id that has the same signature or the same payload, or the entity is accused: blacklisted or with a conflict proof stored. A stored statement is never replaced or dropped except by the wipe between periods, and an accusation is never withdrawn. A valid conflict proof always leaves its subject accused.",
 ["inputs", "histories", "schedules"], "every pair of statements, every interleaving of the handlers that receive them",
 "Split-view attacks arrive concurrently through different neighbours; whether one of two racing handlers overwrites the other depends on the schedule.",
 G, ["Handle_STH_INIT", "Handle_REV_INIT", "Handle_CON_INIT", "Store_gossip_object", "Handle_Gossip_object"], CONC, state=GST,
 observe=["contents of the gossiper's stores and blacklist after a handler returns"])
prop("P09", "Proven misbehaviour takes effect at once, for good, and only with proof",
 "A gossiper blacklists an entity only for a verified conflict proof or verified full accusation naming it, and never removes it. Handling a verified conflict proof or full accusation leaves its subject blacklisted, or leaves the proof stored because it was already on file. Once an entity is blacklisted, later objects about it, the gossiper's own fragments included, are neither stored nor passed on.",
 ["inputs", "histories", "schedules"], "every object, every history, every interleaving",
 "Both directions (no exoneration, no framing) quantify over all histories and adversarial objects.",
 G, ["Handle_Gossip_object", "Store_gossip_object", "Handle_CON_INIT", "Handle_OBJ_FULL", "Generate_Gossip_Object_FRAG", "InBlacklistPerm"], CONC, state=GST,
 observe=["blacklist, stores and network sends of the gossiper"])
prop("P10", "Full objects are built only from a threshold of different signers' fragments",
 "For each id a gossiper keeps only verified fragments of that id from pairwise different signers, never more than the threshold, and never drops or alters one (except by the wipe). It aggregates a full object only from at least threshold verified fragments of one id from different signers, and the result has the payload of one of them and the full type asked for.",
 ["inputs", "histories", "schedules"], "every list of fragments, every arrival order, every interleaving",
 "Duplicate, racing or foreign fragments in any order; the number of fragments and ids is unbounded.",
 G, ["Handle_OBJ_FRAG", "Read_and_Store_If_Needed", "Generate_Gossip_Object_FULL", "Store_gossip_object"], CONC, state=GST,
 observe=["fragment stores", "arguments and result of aggregation"])
prop("P11", "Shared gossiper state is touched only under its lock, and locks are released",
 "No handler, however it is invoked, reads or writes the gossiper's object stores, blacklist or traffic counters without holding the lock that protects it, takes a lock it holds, releases one it does not hold, returns on any path (errors included) with a lock held, or takes locks in an order that could deadlock with another handler.",
 ["schedules", "inputs"], "every handler, every path, every interleaving",
 "Go aborts the process on concurrent map access and a leaked lock hangs the gossiper; both depend on rare schedules and error paths.",
 G, ["Handle_*", "Store_gossip_object", "Read_and_Store_If_Needed", "IsDuplicate", "Get*", "WipeStorage", "Save", "Gossip_*_handler", "Send_*"], CONC, state=GST,
 observe=["lock and map operations of each handler"])
C = ["client/client.go", "client/parser.go", "client/types.go", "CA/types.go", "definition/Verify.go", "crypto/types.go"]
CLI = ASSUME + " Gzip, the inclusion-proof library and bit-set serialisation as uninterpreted functions; the parse of the certificate extension (CA.ParseCTngextension) is an unconstrained function of the certificate."
prop("P12", "A client accepts only vouched-for, unrevoked certificates, and all of them",
 "The client's certificate check succeeds exactly if at least one logger in the certificate's extension vouches for it and the issuing CA has a known revocation vector that does not contain the certificate's revocation number. A logger vouches if it has no proof of misbehaviour on file, its tree head verifies, decodes and has the root hash the client knows for that logger and period, and the inclusion proof of the certificate leads to that (non-empty) root.",
 ["inputs", "histories"], "every certificate, every list of loggers, every content of the client's databases",
 "Each clause matters only for an adversarial certificate or database content that ordinary test data never contains; the number of loggers is unbounded.",
 C, ["ClientContext.VerifyCTngextension", "crypto.VerifyPOI", "CA.GetRIDfromCert", "Gossip_object.Verify"], CLI, observe=["result of VerifyCTngextension"])
prop("P13", "Client databases learn exactly what verified monitor updates prove",
 "After handling an update, the client's revocation vectors, tree heads and misbehaviour proofs contain everything they contained before; a new revocation comes only from a verified full revocation of that CA whose root hash, signed by that CA, covers the period, the resulting vector and the delta; a new or changed tree head only from a verified full tree head of that logger and period; a new proof only from a verified full accusation or conflict proof naming that entity. A successful update has incorporated every object in it; vectors of different CAs are never shared.",
 ["inputs", "histories"], "every update (any number and kind of objects, valid or not) on every state of the databases",
 "Lost or invented revocations show only after particular sequences of updates; the objects are attacker-supplied and unbounded in number.",
 C, ["ClientContext.HandleUpdate", "ClientContext.VerifySRH", "Get_SRH_and_DCRV", "Gossip_object.Verify"], CLI + " With verify=false the monitor is trusted for everything but the CA's signature.", observe=["client databases after HandleUpdate"])
M = ["monitor/monitor.go", "monitor/monitor-server.go", "monitor/types.go"]
MON = ASSUME + " HTTP requests, timers, gzip and files as ghost state (who was sent what, what runs later on an arbitrary later state, what a file holds); the current period is an arbitrary constant during one operation; each operation is considered on its own (the lock discipline is P14)."
MST = [("MonitorContext.Storage_*", "objects received, by period, type and entity", "monitor/types.go"), ("MonitorContext.Storage_CRV", "revocation vector of each CA", "monitor/types.go")]
prop("P14", "Client and monitor databases are touched only under their locks",
 "No client or monitor operation (request handlers, periodic and delayed tasks, certificate checks, update handling) reads or writes a database without holding the lock that protects it, takes a lock it holds, releases one it does not hold, returns on any path with a lock held, or takes locks in an order that could deadlock with another operation. A newly initialised monitor has all its stores, each a separate one, and all its locks.",
 ["schedules", "inputs"], "every operation, every path (errors included), every interleaving",
 "Go aborts the process on concurrent map access and a leaked lock hangs the node; both depend on rare schedules and error paths.",
 M + ["client/client.go", "client/types.go"], ["MonitorContext.*Storage*", "StoreObject", "GetObject", "Check_entity_pom", "Query*", "PeriodicTasks", "Wait_then_accuse", "handle_gossip_from_gossiper", "requestupdate", "ClientContext.HandleUpdate", "ClientContext.VerifyCTngextension"], MON, state=MST,
 observe=["lock and map operations of each operation"])
prop("P15", "A monitor passes on only verified statements of loggers and CAs",
 "Whatever loggers, CAs and other peers answer or send, a monitor posts to its gossiper only tree heads that verify and are signed by a registered logger, revocations that verify, are signed by a registered CA and whose signed revocation hash covers the resulting vector and the delta, and its own accusations.",
 ["inputs", "histories"], "every answer of every queried entity and every request, valid or not",
 "The answers are adversarial; accepting one malformed, unsigned or foreign statement needs one odd combination of fields.",
 M, ["Send_to_gossiper", "Process_valid_object", "QueryLoggers", "QueryAuthorities", "IsLogger", "IsAuthority", "MonitorContext.VerifySRH"], MON, state=MST,
 observe=["POSTs to the monitor's gossiper"])
prop("P16", "Monitors accuse every silent entity, and no one else",
 "In each round a monitor, for every logger and CA it watches that has no proof of misbehaviour on file, either hands that entity's own valid statement of the round to its gossiper or arms a delayed accusation. When the delay is over it sends a signed accusation naming the entity and the current period exactly if no statement of the entity has arrived and there is still no proof against it. Entities with a proof on file (a conflict proof of any period, or a full accusation of this one) are never accused.",
 ["inputs", "histories", "schedules"], "every list of watched entities, every answer or failure, every content of the stores when the delay ends",
 "Which entities are silent, answer wrongly, or answer during the delay varies over unboundedly many histories; a test sees a few.",
 M, ["QueryLoggers", "QueryAuthorities", "Wait_then_accuse", "AccuseEntity", "Check_entity_pom", "HasConflictPom"], MON + " Goroutines of a query round are analysed at the point where they start.", state=MST,
 observe=["accusations posted to the gossiper", "timers armed"])
prop("P17", "Client updates report every stored object, and every proof exactly once",
 "A received object is filed in the store of its type under its own id. A client update lists exactly the full tree heads and full revocations in store and exactly the proofs of misbehaviour not reported before, which are thereby used up; only the end-of-period wipe removes other objects, never those of the current period and never proofs not yet reported. Tree heads and revocations of convicted entities are dropped before an update is saved. The update is written to its period's file or an error is reported, and what a client is served is what the file holds.",
 ["inputs", "histories"], "every content of the stores, every sequence of updates and wipes, every file content",
 "Lost or repeated proofs show only over particular histories of updates, wipes and failed writes; the stores are unbounded.",
 M, ["StoreObject", "GenerateUpdate", "Clean_Conflicting_Object", "WipeStorage", "SaveStorage", "PrepareClientUpdate", "requestupdate", "PeriodicTasks"], MON, state=MST,
 observe=["the stores and the update after each operation", "the update file"])
prop("P18", "Monitor revocation vectors gain exactly what full revocations report",
 "A full revocation that a monitor stores is merged, later, into the vector of the CA it is about: exactly the reported bits are added, none is lost, and no other CA's vector changes. The monitor's check of a signed revocation hash succeeds exactly if the CA itself signed the period, the resulting vector and the delta.",
 ["inputs", "histories"], "every revocation object, every state of the vectors when the delayed merge runs",
 "A lost or foreign revocation bit appears only after particular sequences of deltas; vectors and deltas are unbounded.",
 M + ["CA/CRV.go"], ["StoreObject", "MonitorContext.VerifySRH", "Get_SRH_and_DCRV"], MON + " Bit-set lengths are ignored; two CAs' vectors are assumed to be different objects.", state=MST,
 observe=["Storage_CRV after the delayed merge", "result of VerifySRH"])
CAF = ["CA/CRV.go", "CA/ca.go", "CA/server.go", "CA/types.go", "util/helpers.go"]
LOGF = ["Logger/server.go", "Logger/buildmerkle.go", "Logger/Types.go", "crypto/MerkleTree.go", "crypto/certpool.go"]
CAST = [("CAContext.CRV", "revoked certificate numbers, now and at the last announcement", "CA/CRV.go"), ("CAContext.REV_storage, STH_storage", "revocation objects by period, tree heads by logger", "CA/types.go"), ("CAContext.CurrentCertificatePool", "certificates awaiting logger information", "CA/types.go")]
LOGST = [("LoggerContext.CurrentPrecertPool", "precertificates of the open period", "Logger/Types.go"), ("LoggerContext.STH_storage", "tree heads by period", "Logger/Types.go")]
SEQ = " Proved for one handler or task at a time; that the shared maps and pools are touched only under their locks is P22."
prop("P19", "A CA announces exactly its revocations, each period, verifiably",
 "Revoking a certificate number sets exactly that bit of the CA's revocation vector and no number is ever un-revoked. At the end of each period the CA files, under the next period and without disturbing other periods, a revocation object of its own whose delta is exactly the set of numbers revoked since the previous announcement, whose signature verifies under the CA's key, and whose signed hash covers the next period, the resulting vector and the delta; the announced state then becomes the reference for the next delta. An honest CA answers a monitor's request with the object filed for the current period.",
 ["inputs", "histories"], "every content of the revocation vectors, every sequence of revocations and periods",
 "A lost or repeated revocation appears only after particular sequences of revocations and period ends; vectors are unbounded.",
 CAF, ["CRV.GetDeltaCRV", "CRV.Revoke", "CRV.MassRevoke", "Generate_Revocation", "PeriodString", "PeriodicTask", "requestREV", "InitializeCAContext"],
 "Bit sets, hashing, RSA and JSON follow assumed models; signing is assumed to succeed where the key works." + SEQ, state=CAST,
 observe=["CRV after each operation", "REV_storage after the period task", "reply to a get-revocation request"])
prop("P20", "A logger logs every valid precertificate it received and proves each",
 "A logger adds a received precertificate to the current pool exactly if it parses and carries the signature of one of the logger's CAs; nothing in the pool is lost before the period is closed. Closing a period swaps in an empty pool, builds one Merkle tree over all closed precertificates for any number of them, files under the next period a signed tree head of the logger's own with that tree's size and root, without disturbing other periods, and sends it to every CA. For every logged precertificate that its key id finds, a proof of inclusion of that precertificate under that root, with the logger's name, is sent to the issuing CA, whatever happens with the others. An honest logger answers a request with the tree head filed for the current period.",
 ["inputs", "histories"], "every request body, every number and content of precertificates, every set of CAs and every unreachable one",
 "Tree sizes and certificate contents are unbounded and defects show at particular sizes or after particular arrivals.",
 LOGF, ["receive_pre_cert", "Verifyprecert", "BuildMerkleTreeFromCerts", "GenerateMerkleTree", "GenerateDataBlocks", "PeriodicTask", "Send_STH_to_CA", "Send_POIs_to_CAs", "requestSTH", "CertPool.AddCert", "CertPool.GetCerts"],
 "x509 parsing, RSA, hashing, JSON and the Merkle tree library follow assumed models (the library proves every block of a tree of two or more); the proof covers the subject of a certificate only." + SEQ, state=LOGST,
 observe=["CurrentPrecertPool", "STH_storage", "messages to the CAs"])
prop("P21", "Each precertificate has its own revocation number and only verified log data",
 "Every precertificate a CA makes carries, in its one CTng extension, a revocation number that is the CA's counter, which then grows, so that no two precertificates share a number; later edits of the extension never change the number. A CA keeps as a logger's tree head only one that verifies, under its signer's name. It extends a certificate by a logger's information only with a proof of inclusion that verifies for that certificate against the kept tree head of that logger, at most once per logger, leaving other extensions and other certificates alone; a proof from a logger without a kept tree head changes nothing.",
 ["inputs", "histories"], "every certificate and extension content, every order of tree heads and proofs, every proof body",
 "Certificates, extensions and arrival orders are unbounded; a wrong entry shows only for particular combinations.",
 CAF + ["crypto/certpool.go"], ["Genrate_Unsigned_PreCert", "UpdateCTngExtension", "EncodeCTngExtension", "DecodeCTngExtension", "ParseCTngextension", "GetRIDfromCert", "GetPrecertfromCert", "receive_sth", "receive_poi", "wipeSTHstorage", "CertPool.GetCertBySubjectKeyID", "CertPool.UpdateCertBySubjectKeyID"],
 "x509, ASN.1, JSON, RSA and Merkle verification follow assumed models." + SEQ, state=CAST,
 observe=["extensions of the pool's certificates", "STH_storage"])
prop("P22", "No request or unreachable peer stops a CA or logger; shared state is locked",
 "No request body, however malformed, and no unreachable peer makes a handler or sender of a CA or a logger panic, for any content of the stores. The stored revocations and tree heads and the current certificate pools are read and written only while their lock is held, every lock taken is released on every path, and no lock is taken twice.",
 ["inputs", "schedules"], "every request body and answer, every content of the stores, every interleaving of handlers and periodic tasks at lock granularity",
 "Crashing inputs and racing schedules are rare points of unbounded sets.",
 CAF + LOGF, ["receive_sth", "receive_poi", "requestREV", "UpdateCTngExtension", "Send_Signed_PreCert_To_Logger", "receive_pre_cert", "requestSTH", "Send_STH_to_CA", "Send_POI_to_CA", "Send_POIs_to_CAs", "BuildMerkleTreeFromCerts", "CA.PeriodicTask", "Logger.PeriodicTask"],
 "The misbehaving test modes need a positive MisbehaviorInterval. Key generation and start-up may still exit. Data behind pointers handed out under a lock is not tracked further.", state=CAST + LOGST,
 observe=["panics", "locks held at each access"])
