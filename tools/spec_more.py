_V = "vercre-issuer/src/"
IDEAL = "Signatures are ideal (unforgeable) stand-ins; the providers are an in-memory world under the checker's control. "

prop("C20", "One-time artefacts are honoured at most once",
 "A pre-authorized code, an authorization code, a credential offer kept for retrieval, a pushed authorization request, the issuer_state of an offer and a deferred transaction that has been fulfilled is honoured at most once: in every sequence of requests, by whichever client and with whatever other parameters, the second use of the same artefact is refused. An artefact that has not been used and has not expired is honoured for a correct request, and issuing or using one artefact does not affect another.",
 ["histories", "schedules"], "every sequence of uses up to the depth bound, every interleaving of two uses at their provider calls",
 "Tests drive one flow once; replay needs sequences and interleavings of uses.",
 [_V+"token.rs", _V+"authorize.rs", _V+"credential_offer.rs", _V+"deferred.rs", _V+"par.rs"],
 [("state looked up and purged on use", _V+"token.rs"), ("request_uri and issuer_state use", _V+"authorize.rs"), ("offer retrieval", _V+"credential_offer.rs"), ("transaction removal", _V+"deferred.rs")],
 "model_checking", "explicit-state search of use sequences against an abstract artefact model, each history replayed on the real endpoints, plus all interleavings of two uses",
 EXH + IDEAL + "Two requests that both read the state before either removes it are a recorded finding (the StateStore interface has no atomic take); every other interleaving must keep at-most-once.")
prop("C21", "Access tokens are granted only to the rightful requester",
 "The token endpoint grants an access token exactly when: the code is one this issuer issued and has not been used or expired, it is used with the grant it was issued for, the client is known and supports that grant (or is anonymous on a pre-authorized request and the server allows that), an authorization-code request repeats the client_id and redirect_uri of the authorization request and has the code_verifier of its code_challenge, and a pre-authorized request carries the transaction code if one was required. The token covers no more than what was offered or authorized, and exactly the authorization_details asked for where the request narrows them.",
 ["inputs", "histories"], "every combination of the right, wrong and missing value of every parameter, for every kind of code",
 "Tests send correct token requests; the guarantee is about all others.",
 [_V+"token.rs", "crates/openid/src/issuer.rs"], [("verify / process", _V+"token.rs")],
 "exploration", "bounded-exhaustive enumeration of requests against an independent decision oracle",
 EXH + IDEAL + "A wrong PIN or verifier uses the code up (as implemented); the check does not require otherwise.")
prop("C22", "Codes, tokens, nonces and transactions expire",
 "Every artefact is honoured until its lifetime ends and never after it: codes and retrievable offers for 5 minutes, pushed requests for their stated lifetime, access tokens for the lifetime stated in expires_in, key-proof nonces for the lifetime stated in c_nonce_expires_in, deferred transactions for 15 minutes. An expired nonce is answered with invalid_proof and a fresh nonce that then works. What the issuer states (expires_in, c_nonce_expires_in) is what it enforces.",
 ["inputs", "histories"], "every artefact, at every second around its boundary and a grid of later times, in every order of the flow's steps",
 "Tests run at one instant; expiry is never exercised.",
 [_V+"state.rs", _V+"token.rs", _V+"credential.rs", _V+"deferred.rs"], [("expires_at of stored state", _V+"state.rs"), ("is_expired checks", _V+"token.rs")],
 "exploration", "exhaustive enumeration of clock positions with time under the checker's control",
 EXH + IDEAL + "The boundary second itself is left open. A token's lifetime restarts when a credential is issued with it (as implemented).")
prop("C23", "Credentials are issued only against authorisation and proof of possession",
 "The credential endpoint issues exactly when: the access token is live and this issuer's, the requested credential (by identifier or by format and definition) is one the token is authorised for, and where the configuration asks for key proofs every proof is a well-formed openid4vci-proof JWT with a supported algorithm, signed by the key it names, for this issuer's audience, with the current nonce of this token. Each issued credential is bound to a DID whose possession a proof showed. A nonce is good for one issuance. A bad proof is answered with invalid_proof and a nonce that works.",
 ["inputs", "schedules"], "every single and pairwise deviation from a correct request and proof, every interleaving of two requests at provider calls",
 "Tests issue with one well-formed proof.",
 [_V+"credential.rs", "crates/openid/src/issuer.rs"], [("verify: proofs, nonce, authorisation", _V+"credential.rs")],
 "exploration", "bounded-exhaustive enumeration of requests against an independent oracle, plus all interleavings of two requests",
 EXH + IDEAL + "Two requests that both read the token before either renews the nonce both succeed: recorded finding.")
prop("C24", "Issued credentials say what the authorisation and the dataset say",
 "An issued credential contains exactly the claims of the subject's dataset for the authorised credential (the claims authorised, where a subset was), about the proven holder, with every type of the requested definition, this issuer as issuer, a status entry exactly when the status provider supplies one, and is signed by the issuer's key with the issuance time. An mdoc contains each claim of its dataset once under its namespace with digests that match. A dataset that says it is pending gives a transaction instead of a credential; a format the issuer cannot produce gives an error, never a panic.",
 ["inputs", "configurations"], "every combination of datasets, value kinds, formats, definitions and provider answers of the menus",
 "Snapshot tests fix one dataset and one credential.",
 [_V+"credential.rs", "crates/w3c-vc/src/model/vc.rs", "crates/iso-mdl/src/lib.rs"], [("generate_response", _V+"credential.rs"), ("mdoc construction", "crates/iso-mdl/src/lib.rs")],
 "exploration", "bounded-exhaustive enumeration against an independent reader of the issued credential",
 EXH + IDEAL + "A dataset claim named 'id' is outside the statement. That claim subsets are not applied is a recorded finding.")
prop("C25", "Deferred credentials are delivered once, to an authorised requester",
 "While a deferred credential is pending every poll answers issuance_pending and keeps the transaction; when it is ready the next authorised poll delivers the credential that was asked for and ends the transaction. A poll with an unknown, ended or expired transaction, or without a live access token authorised for the credential, delivers nothing.",
 ["histories"], "every sequence of requests, readiness changes and polls up to the depth bound",
 "Tests poll once, when ready.",
 [_V+"deferred.rs", _V+"credential.rs"], [("transaction state", _V+"deferred.rs")],
 "model_checking", "explicit enumeration of histories against a transaction model, replayed on the real endpoints",
 EXH + IDEAL + "A deferred credential with key proofs cannot be collected once the nonce was renewed: recorded finding.")
prop("C26", "Offers contain what was asked for, and nothing unsupported",
 "create_offer makes an offer exactly when the issuer is known, every configuration id is one of its configurations, a subject is given for a pre-authorized offer, and the authorization server supports the grants; the offer names this issuer, exactly the requested configurations, exactly the requested grants, a transaction code description exactly when a code is required (and then returns the code), and retrieving an offer sent by reference gives the same content. Its codes lead to exactly the offered credentials.",
 ["inputs", "configurations"], "every combination of members of the request and of the issuer's metadata",
 "Tests create two offers.",
 [_V+"create_offer.rs", _V+"credential_offer.rs"], [("verify / process", _V+"create_offer.rs")],
 "exploration", "bounded-exhaustive enumeration against an independent oracle",
 EXH + IDEAL)
prop("C27", "Authorization codes are issued only for valid requests, for what was asked",
 "The authorize endpoint issues a code exactly for a request by a known client with a registered redirect_uri (when given), the code response type, the authorization-code grant supported by client and server, PKCE S256 parameters, and authorization_details or scope that name only credentials this issuer supports with claims it supports and that cover all mandatory claims. With an issuer_state the offer must exist and be for the same subject. The code leads to exactly the credentials requested that the subject is authorised for, and the response repeats the state and redirect_uri of the request.",
 ["inputs", "configurations"], "every combination of values of every parameter up to pairwise deviations, every subset of details and scopes",
 "Tests send correct authorization requests.",
 [_V+"authorize.rs", "crates/openid/src/issuer.rs"], [("verify, verify_authorization_details, verify_scope", _V+"authorize.rs")],
 "exploration", "bounded-exhaustive enumeration of requests against an independent decision oracle",
 EXH + IDEAL + "A scope that names a configuration also named by details, and a pre-authorized code presented as issuer_state, are left open.")
prop("C28", "A pushed authorization request has the effect of the same direct request",
 "A pushed request is accepted exactly when the same request would be accepted directly, and authorizing with its request_uri yields the code the direct request would have led to: the same credentials, subject, client and PKCE binding. Where the server requires pushed requests, a direct one is refused.",
 ["inputs", "configurations"], "every request of C27's enumeration, pushed and direct",
 "Tests push one request.",
 [_V+"par.rs", _V+"authorize.rs"], [("PAR endpoint and request_uri", _V+"par.rs")],
 "exploration", "bounded-exhaustive differential enumeration: pushed against direct",
 EXH + IDEAL)
prop("C29", "Concurrent wallets do not affect each other",
 "Whatever the interleaving of the requests of two wallets, each flow has the outcome it has alone: no wallet obtains the other's token, nonce, credential or claims, and no wallet's correct request fails because of the other.",
 ["schedules"], "every interleaving of two flows at their provider calls up to the preemption bound",
 "Tests run one flow at a time.",
 [_V+"*.rs"], [("per-request state keyed by code, token and transaction", _V+"state.rs")],
 "model_checking", "stateless exploration of all interleavings of the real endpoints under a controlled scheduler, with preemption bounds",
 EXH + IDEAL)
prop("C30", "An artefact is refused wherever it does not belong",
 "A code, token, issuer_state, request_uri, transaction id, notification id or offer id is only accepted by the endpoint and parameter it was issued for; presented as any other it is refused, and is still good at its own place afterwards (unless the endpoint it was presented to consumes codes of that kind).",
 ["histories"], "every artefact at every parameter of every endpoint, in sequences up to the bound",
 "No test presents an artefact in the wrong place.",
 [_V+"*.rs"], [("stage checks of stored state", _V+"state.rs")],
 "model_checking", "exhaustive enumeration of artefact/endpoint histories on the real endpoints",
 EXH + IDEAL)
prop("C31", "Notification, registration and metadata endpoints answer correctly",
 "A notification is accepted exactly for a notification id this issuer issued and that is live, with a known event. Registration is accepted exactly with a live access token of this issuer and returns the registered metadata with a client id. Metadata and authorization-server metadata are those of the requested issuer, or an error for an unknown one.",
 ["inputs"], "every combination of artefact kinds, events and issuers",
 "Tests call each endpoint once with good input.",
 [_V+"notification.rs", _V+"register.rs", _V+"metadata.rs", _V+"oauth_server.rs"], [("endpoint handlers", _V+"notification.rs")],
 "exploration", "bounded-exhaustive enumeration of requests",
 EXH + IDEAL + "Refusal of a repeated notification and acceptance with a foreign token are recorded findings (the repository's own tests fix both).")
prop("C32", "Provider failures and crashes never yield more than was authorised",
 "If a provider call fails, or the process stops, at any point of a request, the request answers with an error (never a panic or a success without effect), nothing is issued twice or to someone else afterwards, artefacts the request did not use are unaffected, and an access token remains usable where the failed request left it.",
 ["crash_points", "fault_sequences"], "every provider call of every endpoint as failure or crash point",
 "Tests never make a provider fail.",
 [_V+"*.rs"], [("order of state reads, purges and writes", _V+"token.rs")],
 "fault_enumeration", "exhaustive enumeration of fault and crash points at provider calls of the real endpoints",
 EXH + IDEAL)
_W = "vercre-verifier/src/"
prop("C40", "The verifier accepts exactly the presentations it asked for",
 "An authorization response is accepted exactly when its state names an open request of this verifier; every presentation in it is signed by the key it names and carries that request's nonce and, as audience, its client_id; the submission is for that request's presentation definition and maps every input descriptor to exactly one credential of the presentation, in a format the descriptor allows; and each of those credentials is signed by the key it names, satisfies the descriptor's constraints and has not expired. Anything else is refused with an error, never a panic, and a refused response leaves the request open for a correct one.",
 ["inputs", "configurations"], "every response with up to the bounded number of deviations, for every kind of request",
 "Tests submit one correct response with an object presentation; forged, replayed and mismatched responses are not tested.",
 [_W+"response.rs", "crates/w3c-vc/src/proof.rs", "crates/dif-exch/src/lib.rs"], [("verify", _W+"response.rs"), ("proof verification", "crates/w3c-vc/src/proof.rs")],
 "exploration", "bounded-exhaustive enumeration of responses against an independent acceptance oracle",
 EXH + IDEAL + "Recorded findings: embedded proofs of object presentations are not verified, the presenter is not bound to the credential's subject, the signer of a credential is not bound to its issuer (the repository's own tests rely on all three).")
prop("C41", "A presentation request is answered at most once and only while it is live",
 "A presentation request is open from its creation until a response to it is accepted or five minutes have passed; while it is open its request object can be fetched and a correct response is accepted, afterwards neither. No response to one request affects another, in any history and any interleaving, and a provider failure at any point gives an error, opens nothing and closes no other request.",
 ["histories", "schedules", "fault_sequences"], "every history of operations over three requests to closure of the state space, every schedule of two simultaneous responses, a fault at every provider call",
 "Tests create one request and answer it once.",
 [_W+"response.rs", _W+"request_object.rs", _W+"create_request.rs", _W+"state.rs"], [("state kept under the request's state parameter and purged on acceptance", _W+"response.rs"), ("expiry", _W+"state.rs")],
 "model_checking", "explicit-state search to closure against a model of open requests, every transition executed on the real endpoints; exhaustive schedules and fault points",
 EXH + IDEAL + "Two responses that both read the request before either removes it are a recorded finding.")
prop("C42", "Presentation requests say what the verifier asked for",
 "create_request creates a request exactly for a known verifier that asks for at least one credential. The request object has exactly the requested input descriptors and purpose, the verifier's metadata, a fresh nonce, state and definition id, and the response endpoint of the chosen device flow. By reference it is given only for the id and client_id it was created for, as a JWT signed by the verifier, and is the same on every retrieval; by value it is returned directly.",
 ["inputs"], "every combination of members of the creation request, every retrieval",
 "Tests create one request per device flow.",
 [_W+"create_request.rs", _W+"request_object.rs", _W+"metadata.rs"], [("process", _W+"create_request.rs")],
 "exploration", "bounded-exhaustive enumeration against an independent oracle", EXH + IDEAL)
_H = "vercre-holder/src/"
prop("C50", "A wallet's issuance flow takes its steps in order and asks for what was accepted",
 "A wallet flow starts with an offer the wallet can use, is accepted (in whole or narrowed to some of the offered credentials, never to others), gets its PIN where one is needed and only then, then its token (by pre-authorized code or authorization), then its credentials; a step out of order, of an unknown flow, or with something that was not offered or granted is refused and changes nothing. What the wallet requests at each step is what was accepted and granted before. Received credentials are kept, once each, until they are saved or cancelled, deferred ones until they are collected; cancelling ends the flow and stores nothing. One flow never affects another.",
 ["histories", "configurations"], "every sequence of wallet calls up to the depth, for every kind of offer",
 "Tests run two complete flows; no test calls the steps in another order.",
 [_H+"issuance.rs", _H+"issuance/*.rs"], [("status checks and stored flow state of each endpoint", _H+"issuance/accept.rs")],
 "model_checking", "explicit-state exploration of call histories against a reference state machine, every transition executed on the real wallet and the real issuer",
 EXH + IDEAL)
prop("C51", "The wallet stores only credentials that verify",
 "Whatever an issuer sends in place of a credential, a wallet keeps and stores an entry exactly for credentials whose signature verifies under the key they name, with the content that was signed; anything else makes the step fail with an error (never a panic), and nothing of that response is stored. Credentials are stored only by saving, exactly those received, never after cancelling; a provider failure at any point stores nothing that was not received and signed.",
 ["inputs", "fault_sequences"], "every response of bounded length over a menu of genuine, forged, altered and malformed items, immediate or deferred, with a fault at every provider call",
 "Tests use a well-behaved issuer.",
 [_H+"issuance/credentials.rs", _H+"issuance/deferred.rs", _H+"issuance/save.rs", _H+"issuance/cancel.rs"], [("verification of issued credentials", _H+"issuance/credentials.rs")],
 "exploration", "bounded-exhaustive enumeration of issuer responses and fault points against an oracle over ideal signatures",
 EXH + IDEAL)
prop("C52", "The wallet presents only what was authorised, to whom it was asked for",
 "A presentation leaves the wallet only after its holder authorised the request, never again once the verifier has accepted it, and only to the response endpoint of that request. It is signed by the holder, carries the nonce of the request and the verifier as audience, and contains exactly held credentials that satisfy the request, with a submission that maps the request's descriptors to them; a presentation of valid credentials is accepted by the verifier. Credentials that come in after the holder was shown what would be presented are not part of it. If nothing held satisfies the request nothing is presented. A request object that is not signed by the key it names or is malformed is refused. Steps out of order and provider failures present nothing.",
 ["histories", "inputs", "fault_sequences"], "every set of held credentials, every kind of request, every sequence of wallet calls on two requests up to the depth; every alteration of the request object; a fault at every provider call",
 "Tests present once to a mock verifier.",
 [_H+"presentation.rs", _H+"presentation/*.rs"], [("authorize and present", _H+"presentation/present.rs")],
 "model_checking", "explicit exploration of call histories against a reference state machine on the real wallet, each presentation checked and submitted to the real verifier",
 EXH + IDEAL + "Recorded finding: a request whose descriptors need different credentials is answered for the first descriptor only.")
prop("C53", "Wallet and issuer together deliver what was offered and accepted",
 "Between this wallet and this issuer, every issuance flow - pre-authorized with or without PIN, authorization code, both grants, offers without grants, wallet-initiated by details or scope; narrowed or not; immediate or deferred; one or several identifiers per credential - ends with exactly the credentials that were accepted, issued to the wallet's key holder, with the subject's data. Every request on the way is addressed to that issuer, with the code, PIN, verifier, redirect and client of the flow, and every key proof is fresh: signed by the wallet's key, for that issuer, with the latest nonce.",
 ["configurations", "inputs"], "every combination of grant, offered credentials, narrowing, identifiers, deferral and wallet key",
 "Tests run the two simplest flows with mocks.",
 [_H+"issuance/*.rs", _V+"*.rs"], [("token and credential requests", _H+"issuance/credentials.rs"), ("authorization and token requests", _H+"issuance/authorize.rs")],
 "exploration", "bounded-exhaustive enumeration of whole flows between the real wallet and the real issuer",
 EXH + IDEAL + "Recorded finding: a deferral is lost when the nonce of its token is renewed (C25). Claims outside a narrowed set are not judged here (C24).")
prop("C54", "An interrupted issuance can be repeated and never leaves wrong credentials",
 "If any one provider call of wallet or issuer fails during an issuance flow, the interrupted step answers with an error, steps that involve no one else can be repeated, the flow then ends with exactly the accepted credentials or with none, nothing is stored before the holder saves, and the issuer is told of acceptance only once everything received has been stored.",
 ["fault_sequences"], "every provider call of every flow failing once, the interrupted step then repeated",
 "Tests never make a provider fail.",
 [_H+"issuance/*.rs", _V+"*.rs"], [("order of state writes and requests in each step", _H+"issuance/credentials.rs")],
 "fault_enumeration", "exhaustive enumeration of single faults over whole flows of the real wallet and issuer",
 EXH + IDEAL)
prop("C12", "Protocol messages say the same on both sides of the wire",
 "Every OpenID4VCI and OpenID4VP message type (metadata, offers, authorization, token, credential, deferred, notification, presentation request and response) that is read from JSON writes back the same members with the same values, and so does a message that travels as a query string or QR code: no text, number or nested object changes meaning, and an absent member stays absent. A message that lacks a required member or has one of the wrong kind is refused or read without it, never with other members changed; a request may leave out what its endpoint supplies (the issuer or verifier it was sent to, the access token); unknown members are ignored, except in a request object response, which refuses them, and the message is the same whether it is read as text or as a parsed document.",
 ["inputs"], "every message type, every set of members within the bound, every text of the menu in every place, every place of another JSON kind",
 "Tests serialise a handful of sample messages; flattened and untagged types lose members only for particular combinations.",
 ["crates/openid/src/issuer.rs", "crates/openid/src/verifier.rs", "crates/openid/src/oauth.rs", "crates/core/src/urlencode.rs"],
 [("serde definitions, custom (de)serialisers", "crates/openid/src/issuer.rs"), ("query strings", "crates/core/src/urlencode.rs")],
 "exploration", "bounded-exhaustive enumeration of messages through the real types",
 EXH + "What an empty query string means is left open; a malformed optional part may be read as absent.")
prop("C13", "Errors reach the other side intact",
 "Every OpenID error is rendered - as text, as JSON, through serde and as a query string - with its registered error code and exactly the description it was given, whatever characters that contains; invalid_proof carries the new c_nonce and its lifetime, issuance_pending its interval. Status list errors carry their type, code and detail in the same way.",
 ["inputs"], "every error kind, every description of the menu (all ASCII characters, pairs and triples of special ones), numbers at their limits",
 "Tests render three errors with plain descriptions; a quote in a description broke the response.",
 ["crates/openid/src/error.rs", "crates/status/src/bitstring.rs"], [("error rendering", "crates/openid/src/error.rs")],
 "exploration", "bounded-exhaustive enumeration against an independent reader", EXH)
prop("C14", "Claims and credentials asked for are checked against what is supported",
 "A set of requested claims is accepted exactly when every requested claim, at every level, is supported by the credential configuration and every mandatory claim is among them; a configuration that lists no claims accepts any. A format description finds a configuration of the same format and credential type, if there is one, and no other; two authorization details mean the same credential exactly when they name the same configuration or the same format and type, whatever claims they list.",
 ["inputs", "configurations"], "every pair of supported and requested claim trees within the bound, every set of configurations, every pair of authorization details",
 "Tests check one credential's claims.",
 ["crates/openid/src/issuer.rs"], [("verify_claims, credential_configuration_id, PartialEq of CredentialAuthorization and Format", "crates/openid/src/issuer.rs")],
 "exploration", "bounded-exhaustive enumeration against an independent evaluator",
 EXH + "Asking for a group of claims as if it were a single claim is left open.")
prop("C15", "The published status list says what the status log says",
 "The status list built from a log, once decoded (multibase base64url, GZIP, leftmost bit first), has in the bits of each entry the last status logged for it under the list's purpose and zero everywhere else; entries never disturb each other, entries of other purposes do not count, and a status whose entry or value does not fit is an error, never a panic. The status list credential names its list, purpose and lifetime and is signed by the issuer.",
 ["inputs", "histories"], "every log up to the bound over the index and value alphabets, every entry size of the menu",
 "The status crate has no tests.",
 ["crates/status/src/bitstring.rs"], [("bitstring(), credential()", "crates/status/src/bitstring.rs")],
 "exploration", "bounded-exhaustive enumeration of status logs against a bit-by-bit model", EXH + IDEAL)
prop("C16", "An ISO mDL discloses exactly what its issuer signed",
 "The mdoc issued for a dataset discloses every element of every namespace with its value and nothing else; each disclosed item has its SHA-256 digest, and no other digest is present, in the security object, under an identifier that is unique in its namespace and below 2^31, with a fresh salt of at least 16 bytes; the security object is signed by the issuer's key and valid from the time of issue. A malformed dataset or a failing key is an error, never a panic - whatever the random generator answers.",
 ["inputs", "fault_sequences"], "every dataset of the bounded shapes and values, every script of the random generator over its extremes, every failing key operation",
 "The one test issues one dataset with real randomness.",
 ["crates/iso-mdl/src/*.rs"], [("to_credential, DigestIdGenerator", "crates/iso-mdl/src/lib.rs")],
 "exploration", "bounded-exhaustive enumeration of datasets and random-generator answers, with an independent CBOR reader",
 EXH + IDEAL + "Which COSE bytes are signed, the fixed document type and the device key are taken from the implementation.")
prop("C17", "JWT proofs of credentials and presentations cannot be altered",
 "A proof created for a credential or presentation verifies to exactly that credential and time of issue, or that presentation, audience and nonce, and its registered claims (iss, sub, jti, aud, nonce, iat, exp) agree with the content (the proof of a presentation is good for one hour from its creation). A signed token with no credential or presentation in it does not verify. A proof whose header, content or signature was changed in any way, that was signed by another key than the one it names, or that names an unknown key does not verify; a credential never verifies as a presentation or the other way round.",
 ["inputs"], "every credential within the distance of the basic one, every presentation of the menu, every forgery of the menu including every single changed character",
 "No test alters a proof.",
 ["crates/w3c-vc/src/proof.rs", "crates/w3c-vc/src/proof/jose.rs", "crates/w3c-vc/src/lib.rs"], [("proof::create, proof::verify, verify_key!", "crates/w3c-vc/src/proof.rs")],
 "exploration", "bounded-exhaustive enumeration of credentials and forgeries", EXH + IDEAL)
prop("C18", "Credentials and presentations keep their content",
 "Credentials, presentations, their proofs, status entries and language strings read from JSON write back the same members; the builders yield exactly what was asked for in any order of calls and refuse to build what lacks a context, type, issuer or subject; a language string answers with the value of the language asked for; a presentation reads the same from JSON text and from base64url, and input that is cut short or has more behind it is refused.",
 ["inputs", "histories"], "every document within the distance of none and of all members, every sequence of builder calls and additions up to the bound",
 "Tests build two documents.",
 ["crates/w3c-vc/src/model/*.rs", "crates/w3c-vc/src/proof/integrity.rs"], [("serde definitions, VcBuilder, VpBuilder, LangString", "crates/w3c-vc/src/model/vc.rs")],
 "exploration", "bounded-exhaustive enumeration of documents and call sequences against list models", EXH)
