#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
R = "packages/"
RV, HC, CE, AC, CB, CV, RI = (R + x for x in ("ic-response-verification/src/", "ic-http-certification/src/", "ic-certification/src/", "ic-asset-certification/src/", "ic-cbor/src/", "ic-certificate-verification/src/", "ic-representation-independent-hash/src/"))
P = []
NA = {}
def prop(id, title, statement, over, qtext, why, files, mech, technique, note):
    assert len(title) <= 80, id
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), technique, note))

REF = "explicit-state exhaustive enumeration of the bounded space on the real code, every result compared with an independently written reference model"
TRUST = "Trusts SHA-256, BLS and the reference model in /verif/mc; complete within the stated bounds only."

prop("C01", "Everything certified in an HTTP certification tree can be verified",
 "After any history of inserting, deleting and clearing entries, the witness that the tree gives for an entry it still holds, sent with the certified response, passes verification for every request whose most specific certified path is that entry's (and, with full certification, whose certified request parts match). The witness digest always equals the tree's current root hash, and for an entry that was deleted, cleared or never inserted the response built the same way is rejected. A witness is refused only for a wildcard that does not apply to the request path.",
 ["histories", "inputs"], "all insert/delete/clear histories over a pool of exact and wildcard entries with skip, response-only and full certification, and all request paths around them",
 "Unit tests follow a few fixed insert/delete sequences and look at witnesses; interplay of paths sharing segments, of re-insertion and of deletion with later verification is not explored.",
 [HC+"tree/certification_tree.rs", HC+"tree/certification_tree_path.rs", CE+"nested_rb_tree.rs", RV+"validation/v2_validation.rs"],
 [("witness of requested path, responding path and more specific wildcards", HC+"tree/certification_tree.rs witness"), ("deletion prunes empty subtrees", CE+"nested_rb_tree.rs delete")],
 "explicit-state enumeration of all operation histories to a depth on the real tree; each state's witnesses run through the real verifier and compared with a set model", TRUST)

prop("C02", "A version 2 response is accepted only if exactly that response was certified",
 "Whatever pruned proof, expression path, certificate expression, response and request an untrusted replica or boundary node combines, the verifier returns a verified response only if the canister certified, at the most specific certified path for that URL, that status code, body and set of certified headers (and, for full certification, the request's method, body, certified headers and certified query parameters), and reports skipped certification only where the canister certified skipping. The verified response contains exactly the certified headers, the certificate expression and the certificate header, with the certified status and body, and nothing uncertified. Whenever the revealed proof does establish all this, the response is accepted.",
 ["inputs", "configurations"], "all small certified sets, all prunings of their trees, and all combinations of claimed path, expression, response and request from pools that vary every part",
 "Tests use a handful of hand-made trees with one attack each; combinations of pruning, path claims and altered parts are far outside what they sample.",
 [RV+"verification/verify_request_response_pair.rs", RV+"validation/v2_validation.rs", RV+"validation/common_validation.rs", RV+"types/verified_response.rs"],
 [("expression path precedence", RV+"validation/v2_validation.rs validate_expr_path"), ("expression, request and response hashes looked up in the tree", RV+"validation/v2_validation.rs validate_expr_hash, validate_hashes"), ("tree digest equals certified data", RV+"validation/common_validation.rs validate_tree")],
 REF, TRUST)

prop("C03", "A certificate is accepted only if genuine, current and for this canister",
 "Verification of a certificate succeeds only if its tree is signed by the given root key directly, or by a subnet key that a certificate signed by the root key delegates to and whose canister ranges contain the canister; a delegation is never followed through a second one, and the signature covers exactly the tree presented. It succeeds only if the certified time lies within the allowed offset of the current time in either direction, inclusive, for every value of either. Whenever these hold the certificate is accepted, and malformed keys, signatures or delegations are reported as errors.",
 ["inputs", "configurations"], "all combinations of signer, delegation, subnet, range list, tree content and time around the window's edges including the extremes of the integer range",
 "Tests hold a dozen fixture certificates; the product of delegation shape, ranges, signer and time window (with over- and underflow) is not covered.",
 [CV+"certificate_verification.rs", CV+"signature_verification/mod.rs"],
 [("time window", CV+"certificate_verification.rs verify_certificate_time"), ("delegation and canister range check", CV+"certificate_verification.rs verify_delegation"), ("BLS signature over the domain-separated root hash", CV+"signature_verification/mod.rs")],
 REF, TRUST)

prop("C04", "The signature cache never changes a verdict",
 "The verdict for a certificate is the same as if no signature had ever been verified before: whatever certificates, forged, valid, failing for other reasons, or differing only in key, signature or message, were verified earlier in the process, in any order and on any number of threads, and however full the cache is. Concurrent verifications neither deadlock nor panic.",
 ["histories", "schedules"], "all verification sequences over a pool of valid and forged key/signature/message combinations, and thread interleavings of concurrent verifications",
 "Tests verify one signature at a time; cache poisoning needs a particular order of earlier verifications or a particular interleaving.",
 [CV+"signature_verification/signature_cache.rs", CV+"signature_verification/mod.rs"],
 [("cache entry is a hash over key, signature and message", CV+"signature_verification/signature_cache.rs"), ("insert only after successful verification", CV+"signature_verification/mod.rs")],
 "explicit-state enumeration of all verification histories on the real code, each in a fresh state of the model, plus stateless exploration of all thread interleavings of the real code under a controlled scheduler", TRUST)

prop("C05", "Lookup in a pruned hash tree is sound and complete",
 "For every well-formed hash tree and every path, looking up a value or a subtree answers found with exactly the value or subtree at that path, absent only if no well-formed tree with this digest can contain the path, and unknown whenever the pruned parts could contain it. Empty nodes, however placed, count as containing no labels. Listing the paths of a tree gives exactly the paths that end in a value.",
 ["inputs"], "all small trees over a small label alphabet, all shapes and all prunings, and all short paths",
 "Unit tests check chosen trees; the boundary reasoning between labels, forks and pruned siblings has many shapes.",
 [CE+"hash_tree/mod.rs"], [("label search over forks with greater/less answers", CE+"hash_tree/mod.rs find_label"), ("lookup_path, lookup_subtree", CE+"hash_tree/mod.rs")],
 REF, TRUST)

prop("C06", "Hash tree digests bind the whole content of the tree",
 "The digest of a hash tree is the one defined by the Internet Computer interface specification for its structure, labels and values, and replacing any subtrees by pruned nodes with their digests leaves it unchanged. Two different trees without pruned nodes have different digests. A lookup in a pruned tree never contradicts the lookup in the whole tree; it can only become unknown.",
 ["inputs"], "all small trees, shapes and prunings, and all label and value lengths around the encoding's boundaries",
 "Tests compare a few constant digests.",
 [CE+"hash_tree/mod.rs"], [("domain-separated hashing", CE+"hash_tree/mod.rs digest, domain_sep"), ("constructors", CE+"hash_tree/mod.rs fork, labeled, leaf, pruned")],
 REF, TRUST)

prop("C07", "The red-black tree is a map whose root hash commits to its content",
 "After any history of insertions, overwrites, deletions and modifications, the tree answers get, iteration and its other queries as a sorted map does, its root hash equals the digest of the hash tree it represents (never a stale one) and that tree holds exactly the map's content. The tree stays ordered and balanced, and its iterators agree.",
 ["histories"], "all histories of insert, overwrite, modify and delete over a small key set to a depth, and all reachable tree states over a larger key set",
 "Tests run fixed and a few random sequences; rebalancing and cached hashes fail only in particular orders.",
 [CE+"rb_tree/mod.rs"], [("rebalancing after insert and delete", CE+"rb_tree/mod.rs"), ("recomputation of subtree hashes", CE+"rb_tree/mod.rs update_subtree_hash")],
 "explicit-state exploration of all operation histories and all reachable states of the real tree, compared with a sorted map and an independent hash model", TRUST)

prop("C08", "Map witnesses prove the presence or absence of exactly what was asked for",
 "For every reachable red-black tree and every key, key range and prefix asked for, present or absent, the witness is a pruning of the tree with its root hash as digest, and looking up the key in it finds the stored value or proves absence, as the map's content dictates. Range and prefix witnesses show every key of the range (with its value exactly where values were asked for) and let a verifier decide presence or absence throughout the range. A witness reveals no values that were not asked for, and no keys but those asked for and their neighbours.",
 ["inputs", "histories"], "all reachable trees over a small key set, all keys, ranges and prefixes including neighbours of every key",
 "Tests check selected witnesses; absence proofs next to boundaries depend on the tree's shape.",
 [CE+"rb_tree/mod.rs"], [("witness, nested_witness, key_range, value_range, keys_with_prefix", CE+"rb_tree/mod.rs")],
 REF, TRUST)

prop("C09", "Nested trees stay consistent under any history of path operations",
 "After any history of inserting, deleting and clearing paths in a nested certified tree, it contains exactly the paths that were inserted and not deleted since, with the latest values, and a deletion removes the parents it emptied and nothing else; its root hash is that of exactly this content. For every path, present or absent, the witness has the root hash as digest and proves the path's value, subtree or absence exactly as the whole tree would.",
 ["histories", "inputs"], "all histories of insert, delete and clear over small sets of overlapping paths to a depth, and all probe paths in each state",
 "Tests run a few scripted sequences.",
 [CE+"nested_rb_tree.rs", CE+"rb_tree/mod.rs"], [("recursive insert and delete with removal of empty subtrees", CE+"nested_rb_tree.rs"), ("root hash and witness of nested trees", CE+"nested_rb_tree.rs")],
 "explicit-state exploration of all operation histories of the real tree to a depth, compared with a path-set model", TRUST)

prop("C10", "Merging witnesses of one tree reveals exactly what either reveals",
 "Merging two prunings of the same hash tree gives a tree with the same digest which reveals everything that either reveals and nothing else, in either order and repeatedly, so every proof that either witness contained still holds in the merged one.",
 ["inputs"], "all small trees and all pairs of their prunings, and sequences of witnesses of nested trees",
 "Tests merge a few hand-made pairs.",
 [CE+"hash_tree/mod.rs"], [("merge_hash_trees", CE+"hash_tree/mod.rs")], REF, TRUST)

prop("C11", "CBOR decoding yields exactly what was encoded",
 "Every well-formed CBOR encoding of a certificate, hash tree, string array or canister range list that this library or another conforming encoder produces decodes to exactly the encoded value, whatever lengths and integer widths are used in it, and re-encoding a decoded value by the library and decoding again gives the same value. A malformed, truncated or wrongly typed input is reported as an error, never as some other value.",
 ["inputs"], "all short byte strings, all encodings of small values with every head width, all truncations and single-byte changes of valid encodings",
 "Tests decode fixture certificates and some hand-written trees.",
 [CB+"cbor_parser.rs", CB+"cbor_parse_certificate.rs", CB+"cbor_parse_hash_tree.rs", CE+"certificate.rs", CE+"hash_tree/mod.rs"],
 [("parser combinators over CBOR heads", CB+"cbor_parser.rs"), ("mapping to trees and certificates", CB+"cbor_parse_hash_tree.rs, cbor_parse_certificate.rs"), ("serde encoding", CE+"hash_tree/mod.rs, certificate.rs")],
 REF, TRUST)

prop("C12", "No untrusted input makes verification or decoding panic, hang or exhaust memory",
 "For any bytes an untrusted party controls, in the certificate, tree and expression path, the certificate headers and expression, the URL, headers and body of request and response, and the root key, verification and the public decoders return a value or an error: they never panic, never overflow the stack through nesting, never allocate in proportion to a declared but absent length, and terminate in time and memory about linear in the input. Likewise, serving any request from the asset router never panics.",
 ["inputs"], "all short inputs of every decoder, all short token sequences of the text formats, and deep-nesting, huge-length and expansion patterns at every position",
 "Tests feed well-formed fixtures and a few malformed ones.",
 [CB+"cbor_parser.rs", RV+"cel/parser.rs", RV+"verification/certificate_header.rs", RV+"verification/body.rs", CV+"certificate_verification.rs", HC+"http/http_request.rs"],
 [("bounded nesting and lengths", CB+"cbor_parser.rs, "+RV+"cel/parser.rs"), ("decompression limits", RV+"verification/body.rs"), ("checked key and signature handling", CV+"signature_verification/mod.rs")],
 "exhaustive enumeration of short inputs and of attack patterns by position and size on the real code, with panics, process death, memory and time monitored", "Complete for the enumerated inputs; larger inputs are covered only along the enumerated patterns.")

prop("C13", "The certificate header is understood the same way in every spelling",
 "For every combination, order, repetition and omission of the header's fields and any surrounding whitespace, unknown fields or padding style, verification uses exactly the first well-formed certificate, tree, version and expression path in it, with version 1 assumed if none is given. A header lacking the certificate or the tree, or with an undecodable value in a field it uses, is rejected; header names are matched without regard to case.",
 ["inputs"], "all sequences of header fields up to a length, all spellings of each value, and every single-character change of a valid header",
 "Tests parse about ten headers.",
 [RV+"verification/certificate_header.rs", RV+"verification/certificate_header_field.rs", RV+"base64.rs"],
 [("field splitting", RV+"verification/certificate_header_field.rs"), ("first value wins", RV+"verification/certificate_header.rs"), ("padding-indifferent base64", RV+"base64.rs")],
 REF, TRUST)

prop("C14", "Certificate expressions mean what their builder said",
 "Every expression that the builder can produce is parsed back by verification to the same certification: skipped, response-only or full, with the same certified request headers, query parameters and response header lists, for all header and parameter names. Any other text is either rejected or has exactly the meaning its grammar gives it, whatever whitespace it uses; an expression is never silently weakened.",
 ["inputs"], "all expressions over small name lists, all names from a character pool including every ASCII character, all token sequences up to a length, and token-level mutations of valid expressions",
 "Tests compare a handful of expressions with constants.",
 [RV+"cel/parser.rs", RV+"cel/ast_mapping.rs", HC+"cel/create_cel_expr.rs", HC+"cel/cel_builder.rs"],
 [("expression grammar", RV+"cel/parser.rs"), ("mapping and mutual exclusion of options", RV+"cel/ast_mapping.rs"), ("printer", HC+"cel/create_cel_expr.rs")],
 REF, TRUST)

prop("C15", "The representation-independent hash depends on exactly the map's content",
 "The hash of a list of key/value pairs is the one of the Internet Computer interface specification: independent of the order of the pairs, sensitive to every key, value, value kind as encoded, and number of repetitions.",
 ["inputs"], "all sequences of pairs up to a length over pools of keys and of values of every kind, in all orders",
 "Tests compare a few constants.",
 [RI+"representation_independent_hash.rs"], [("sort of hashed pairs", RI+"representation_independent_hash.rs")], REF, TRUST)

prop("C16", "Request and response hashes cover exactly the certified parts",
 "The request hash is the specified hash of the method, body, certified headers and certified query parameters, and the response hash that of the status, body, certificate expression and certified headers, for both header inclusion and exclusion, with names matched without regard to case, repetitions kept and the certificate header itself left out. Changing anything certified changes the hash; changing, adding or reordering anything else does not.",
 ["inputs"], "all requests and responses over pools of headers (with repetitions and case variants), query strings, methods, statuses and bodies, for all header and parameter lists",
 "Tests compare constants for a few requests and responses.",
 [HC+"hash/request_hash.rs", HC+"hash/response_hash.rs"], [("header filtering", HC+"hash/response_hash.rs filter_response_headers"), ("query parameter filtering", HC+"hash/request_hash.rs")], REF, TRUST)

prop("C17", "The verification version is negotiated without downgrade",
 "A response is verified with exactly the version its certificate header states (1 if none), is rejected if that version is below the minimum the caller asks for or is not supported, and the result reports the version used. A response that states version 2 is never verified under version 1 rules or the reverse.",
 ["inputs", "configurations"], "all stated versions 0 to 300 or none, all minimum versions 0 to 255, with and without expression path and expression header",
 "Tests use a few version pairs.",
 [RV+"verification/verify_request_response_pair.rs", RV+"verification/certificate_header.rs"], [("minimum version check and dispatch", RV+"verification/verify_request_response_pair.rs")],
 REF, TRUST)

prop("C18", "Version 1 accepts only the certified body of the asset or its fallback",
 "Under version 1 a response is accepted only if the tree certified by this canister holds, for the decoded URL path, the SHA-256 hash of the response body (as sent, or decoded by its content encoding), or, only if the tree proves that it has no entry for that path, the hash for /index.html. An accepted version 1 response carries the received body but no status and no headers as verified. Bodies that cannot be decoded completely are rejected.",
 ["inputs"], "all small asset trees with present, absent and pruned entries, all URLs of a pool, all bodies and content encodings of a pool",
 "Tests use a few fixture assets.",
 [RV+"validation/v1_validation.rs", RV+"verification/body.rs", RV+"verification/verify_request_response_pair.rs"],
 [("asset lookup with fallback", RV+"validation/v1_validation.rs validate_body"), ("decoding", RV+"verification/body.rs")], REF, TRUST)

prop("C19", "Skipping certification works everywhere and only where certified",
 "If a canister sets the skip-certification data as its certified data, any response passed through the helper that adds the skip headers verifies as skipped for any valid URL and method, without the helper changing status, body or the other headers. The same headers never make verification succeed for a canister that certified anything else, or with another canister's, an expired or a future certificate.",
 ["inputs", "configurations"], "all URLs and responses of generated pools, all alternative certified trees and certificate defects of a pool",
 "Tests verify a few URLs.",
 [HC+"utils/skip_certification.rs", HC+"utils/response_header.rs", RV+"verification/verify_request_response_pair.rs"],
 [("constant tree for the wildcard root path", HC+"utils/skip_certification.rs")], REF, TRUST)

prop("C20", "A certification can be created exactly for responses that can verify",
 "Creating a response-only or full certification succeeds exactly if the response carries one certificate expression header, whatever the case of its name, whose value is the expression's text; and then, once certified, that response verifies. A certification made with a given body hash equals the one made from a body with that hash.",
 ["inputs"], "all header sequences up to a length over a pool with certificate expression headers in several cases, right and wrong, for all kinds of expressions",
 "Tests check one missing, one wrong and one repeated header.",
 [HC+"tree/certification.rs"], [("expression header check", HC+"tree/certification.rs validate_response")], REF, TRUST)

prop("C21", "Exact paths take precedence over wildcards and long wildcards over short",
 "For every set of certified paths and every URL, verification accepts only a certified path that applies to the URL, an exact path only for exactly that path, a wildcard only below its prefix, and only if the proof shows that no more specific one exists: exact before wildcard, longer wildcard before shorter, with /a/ and /a different paths. With everything revealed, the most specific certified path is always accepted. Path segments that look like the tree's own markers change nothing.",
 ["inputs"], "all sets of certified paths up to a size over a small segment alphabet, all prunings, all claimed paths (malformed ones included) and all URLs of a pool",
 "Tests list chosen trees and paths; precedence over pruned siblings has many shapes.",
 [RV+"validation/v2_validation.rs", HC+"utils/wildcard_paths.rs", HC+"tree/certification_tree_path.rs"],
 [("validate_expr_path", RV+"validation/v2_validation.rs"), ("more_specific_wildcards_for", HC+"utils/wildcard_paths.rs")], REF, TRUST)

prop("C22", "The asset router serves the asset, encoding and fallback it was configured for",
 "For every set of certified assets and every request, the asset router serves the asset at the requested path or the alias or redirect for it, in the most preferred encoding (br, zstd, gzip, deflate, identity; quality values are ignored) that is available and accepted, else unencoded; only if there is no asset at the path does it serve the fallback whose scope is that path or else the nearest enclosing one, and otherwise an error. Configurations apply to the assets whose path they name or match, the first one winning. The served status, headers and body are exactly those configured (content, content type, content encoding, additional headers, location), and a range request to a large asset yields the chunk that starts there with its content range.",
 ["inputs", "configurations"], "all asset sets and configurations of a pool (encodings, aliases, redirects, fallbacks, large bodies), all requests over paths, accepted encodings and ranges",
 "Tests follow scenarios with one site layout.",
 [AC+"asset_router.rs", AC+"asset_config.rs"], [("get_asset_for_request, encodings, fallbacks, ranges", AC+"asset_router.rs"), ("configuration matching", AC+"asset_config.rs")],
 "explicit-state enumeration of asset sets, configurations and requests on the real router, compared with an independently written reference router", TRUST)

prop("C23", "Every response the asset router serves verifies",
 "After any history of certifying, deleting (with the configurations used to certify) and clearing assets, whatever response the asset router serves for a request passes version 2 verification against the router's current root hash, and the verified response equals the served one in status, body and every header; this holds for all encodings, aliases, redirects, fallbacks and chunks.",
 ["histories", "inputs"], "all operation histories up to a depth over a pool of asset batches and configurations, and all requests over paths, encodings and ranges in every state reached",
 "Tests verify a few responses of a few scenarios.",
 [AC+"asset_router.rs", HC+"tree/certification_tree.rs"], [("tree entries kept with responses", AC+"asset_router.rs"), ("witness and certificate header", AC+"asset_router.rs serve_asset")],
 "explicit-state exploration of operation histories on the real router; every served response is run through the real verifier", TRUST)

prop("C24", "Deleting or replacing assets leaves nothing of the old ones behind",
 "After any history of certifying, deleting (with the configurations used to certify) and clearing, the router certifies exactly, for each URL or fallback scope and encoding, the response of the latest certification that was not deleted since: no response of a deleted or replaced asset, encoding, alias, redirect, fallback or chunk still verifies, none that remains is lost, and deleting everything restores the empty root hash.",
 ["histories"], "all histories up to a depth over a pool of assets and configurations",
 "Tests delete assets in a few scenarios and compare root hashes.",
 [AC+"asset_router.rs"], [("delete_assets, delete_all_assets, replacement on insert", AC+"asset_router.rs")],
 "explicit-state exploration of operation histories on the real router, each state compared with a model and with the responses of earlier states", TRUST)

prop("C25", "Asset map queries agree with what is served",
 "After any history, the router's asset and fallback maps report exactly the responses stored: looking one up by path, encoding and range start returns what a request for it is served, iteration yields each stored response exactly once with its key, and the size equals the number iterated.",
 ["histories", "inputs"], "all histories up to a depth over a pool of assets, and all keys of paths, encodings and range starts",
 "Tests look up a few keys.",
 [AC+"asset_map.rs", AC+"asset_router.rs"], [("AssetMap implementation", AC+"asset_map.rs")],
 "explicit-state exploration of operation histories on the real router, maps compared with a model", TRUST)

prop("C26", "URL paths and queries are taken apart as a browser would send them",
 "For every request URL, absolute or relative, the path is the percent-decoded path component (with \"/\" if empty) and the query is the raw query component or none, with fragments never part of either; a path whose escapes do not decode to UTF-8 is an error, and invalid URLs are errors rather than something else.",
 ["inputs"], "all URLs over pools of authorities, path segments with every escaped byte in several contexts, and query and fragment forms",
 "Tests parse a few URLs.",
 [HC+"http/http_request.rs"], [("get_path, get_query", HC+"http/http_request.rs")], REF, TRUST)

prop("C27", "HTTP messages survive their builders, conversions and Candid encoding",
 "A request or response built with any combination of method or status, URL, headers, body, certificate version and upgrade flag reads back exactly those parts, converts to and from its update form without loss, and survives Candid encoding and decoding under the HTTP gateway's published types. Messages with an invalid method or status code are rejected on decoding, and equality compares all parts, the headers of a response regardless of their order.",
 ["inputs"], "all combinations over pools of every part, all 65536 status codes and method strings of a pool",
 "Tests round-trip a few messages.",
 [HC+"http/http_request.rs", HC+"http/http_response.rs"], [("builders and accessors", HC+"http/http_request.rs, http_response.rs"), ("Candid mapping", HC+"http/http_request.rs, http_response.rs")], REF, TRUST)

prop("C28", "The JavaScript bindings give exactly the native verdict",
 "For every request and response of the published JavaScript types, in any property order, with bodies as byte arrays or number arrays and with unknown further properties, the bindings compiled to WebAssembly return the same verification version and the same response (status code, headers in order, body) as the native library, or throw the error whose code names the native error and whose message is its text. They never trap, also not for status codes or methods that HTTP does not have, and 32-bit lengths make no difference: every input that the native decoders reject is rejected.",
 ["inputs"], "all pairs of pools of methods, URLs, headers, bodies, status codes, times, versions and keys in all forms JavaScript callers use, and the inputs that other checks enumerate, replayed through the compiled bindings under node",
 "The wasm tests convert one message and one error of each kind; that the 32-bit build behind the conversions decides like the tested native one is never checked.",
 [R+"ic-response-verification-wasm/src/lib.rs", R+"ic-response-verification-wasm/src/request.rs", R+"ic-response-verification-wasm/src/response.rs", RV+"error.rs", RV+"types/verified_response.rs", RV+"types/verification_result.rs"],
 [("conversion of requests and responses", R+"ic-response-verification-wasm/src/request.rs, response.rs"), ("error codes", RV+"error.rs"), ("results as JavaScript objects", RV+"types/")],
 "explicit-state exhaustive enumeration of the bounded space, every case executed on the compiled WebAssembly bindings and on the native library and compared", TRUST)

prop("C29", "The TypeScript verifier accepts a tree only if fresh and certified",
 "verifyCertification resolves with the decoded tree exactly if the certificate verifies for the root key and canister, its time (rounded down to the millisecond) is within the allowed offset of the clock at the moment of the call, both ends included, and the canister's certified data in it is the tree's root hash. Otherwise it rejects: with CertificateTimeError if the time is out of the window, with CertificateVerificationError if the certified data is missing or anything else than the root hash, and with the decoder's or certificate's own error where that fails. Calls do not influence each other, in whatever order they are made or their suspended steps go on.",
 ["inputs", "schedules", "histories"], "all certificate times to the nanosecond about both ends of the window, all combinations of trees, certified data, signers, ranges and encodings, all orders of the suspended steps of up to three (four) calls, and all sequences of calls",
 "Tests use one tree and times ten seconds off the limits, one call at a time.",
 [R+"certificate-verification-js/src/index.ts", R+"certificate-verification-js/src/error.ts"],
 [("time window", R+"certificate-verification-js/src/index.ts: validateCertificateTime"), ("certified data against the root hash", R+"certificate-verification-js/src/index.ts: validateTree")],
 "explicit-state exploration of the transpiled source: all inputs of the bounded space and all orders of suspended steps, against a reference and with stand-ins for the agent's certificate",
 "Trusts the stand-ins for @dfinity/agent, candid and principal (not part of the repository, not available offline): certificates with ideal signatures; complete within the stated bounds only.")

prop("C30", "A certification tree shared with asset routers keeps everybody's entries",
 "Whatever order the operations of asset routers created with the same certification tree, and insertions and deletions of entries the canister makes in that tree itself, come in, the tree certifies exactly what each of them has put there and not removed: certifying, deleting or clearing the assets of one router takes nothing away from another router or from the canister, even at the same path, as long as the entries differ. Every response a router serves, and every response of the canister's own, verifies against the shared root hash, unless a more specific path in the tree applies to the URL.",
 ["histories", "inputs"], "all histories up to a depth of the operations of two routers and the canister on one tree, and all requests of a pool in every state",
 "Tests use one router with a tree of its own.",
 [AC+"asset_router.rs", HC+"tree/certification_tree.rs"], [("AssetRouter::with_tree", AC+"asset_router.rs"), ("delete_all_assets", AC+"asset_router.rs")],
 "explicit-state exploration of operation histories on the real routers and tree, compared with a model in every state", TRUST)

CLAIMED = os.environ.get("CLAIMED", "").split() or open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claimed.txt")).read().split()
here = os.path.dirname(os.path.abspath(__file__))
with open(here + "/properties.jsonl", "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + "\n")
m = dict(version=1,
    setup_cmd="./setup.sh",
    checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough", technique=t, level="model_checking", level_note=n) for p, t, n in P if p["id"] in CLAIMED],
    not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "no check yet")) for p, _, _ in P if p["id"] not in CLAIMED],
    notes="No hooks: every check uses only public interfaces. See DESIGN.md.")
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
print(len(P), "properties,", len(m["checks"]), "claimed")
