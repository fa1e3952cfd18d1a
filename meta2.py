prop('C23', 'Version 1 responses are accepted only with a certified body',
 'A version 1 response is accepted exactly if the hash of its body, decoded by its content encoding or as it stands, is what the certified tree holds for the requested path, or for /index.html when the tree proves that the path is absent. Bodies that are truncated, extended or otherwise changed, and trees that leave the path open, are refused.',
 ['inputs'], 'all sites, requests, encodings, bodies, prunings of their trees and corruptions of the bodies', 'The tests use a few recorded responses; the fallback and the decoding have many combinations a client meets.',
 [R+'validation/v1_validation.rs', R+'verification/body.rs', R+'verification/verify_request_response_pair.rs'], [('validate_tree', R+'validation/v1_validation.rs'), ('validate_body, decode_body', R+'verification/body.rs')], ['verify_request_response_pair'],
 'property-based testing against a reference model with tampered bodies and pruned trees', EXPL+'A truncated raw deflate stream that still yields the whole content is not judged.')
prop('C24', 'The certificate header is read field by field and decides the version',
 'The first field of each known name in the certificate header counts, unknown fields are ignored, and values that do not decode are errors. The version is 1 unless the header says otherwise; unsupported versions, and versions below the caller\'s minimum, are refused, and version 2 needs an expression and a path in the response.',
 ['inputs'], 'all headers made of known, unknown, repeated and malformed fields', 'A downgrade or a confusion of fields needs a particular order of fields; tests use well formed headers.',
 [R+'verification/certificate_header.rs', R+'verification/certificate_header_field.rs', R+'verification/verify_request_response_pair.rs'], [('CertificateHeader::from', R+'verification/certificate_header.rs'), ('version negotiation', R+'verification/verify_request_response_pair.rs')], ['CertificateHeader::from, verify_request_response_pair'],
 'property-based testing against a reference parser', EXPL)
prop('C25', 'The verifier never panics or exhausts memory on hostile responses',
 'Whatever the response, its headers, its certificate, tree, expression and body hold, verification returns an answer or an error: it does not panic, overflow the stack, or allocate out of proportion. What it accepts is certified by the root key.',
 ['inputs'], 'all requests and responses (sampled: mutations at every layer of valid responses)', 'The response comes from an untrusted node; tests give a few malformed ones.',
 [R+'verification/verify_request_response_pair.rs', R+'cel/mod.rs', B+'cbor_parser.rs'], [('parsers of header, certificate, tree, expression', R+'verification/verify_request_response_pair.rs')], ['verify_request_response_pair'],
 'structure-aware fuzzing of the whole verifier with an allocation monitor', EXPL)
prop('C26', 'HTTP requests and responses keep their meaning in Candid',
 'HTTP requests, responses and update requests and responses encode to the Candid records of the interface specification and decode from them, with every method, URL, header, body and status code unchanged; invalid methods and status codes are refused. The builders and the accessors agree with them, and equality compares all fields, headers in any order.',
 ['inputs'], 'all requests and responses', 'Methods, status codes and empty or large fields combine freely; the tests encode one or two.',
 [H+'http/http_request.rs', H+'http/http_response.rs'], [('CandidType and Deserialize implementations', H+'http/http_request.rs')], ['HttpRequest, HttpResponse, their builders'],
 'property-based round-trip testing against independent Candid records', EXPL+'Trusts the candid crate.')
prop('C27', 'Certificate headers and skipped certification work for every response',
 'The certificate header the library adds to a response reads back to exactly the certificate, tree, path and version it was given and leaves the rest of the response alone. A response with the header for skipped certification verifies, for any request, under the certified data the library gives for it and under no other data.',
 ['inputs'], 'all responses, trees, paths, requests', 'Tests add one header and skip one response.',
 [H+'utils/response_header.rs', H+'utils/skip_certification.rs'], [('add_v2_certificate_header', H+'utils/response_header.rs'), ('skip_certification_certified_data', H+'utils/skip_certification.rs')], ['ic_http_certification::utils'],
 'property-based round-trip and end-to-end testing', EXPL)
prop('C28', 'The asset router serves what was certified, and shows it in its maps',
 'After any history of certifying, changing, deleting and clearing assets, the router answers a GET request with the asset certified last for its path, alias or redirect, else with the fallback of the most specific scope, in the best encoding the client accepts; content, headers and status are as configured. Otherwise it answers nothing. The asset maps list exactly these responses. A configuration with a malformed pattern is refused and changes nothing.',
 ['histories', 'inputs'], 'all histories of uploads, configurations, deletions; all GET requests', 'Encodings, patterns, aliases, fallbacks and redirects combine over several calls; the tests use one site.',
 [A+'asset_router.rs', A+'asset_config.rs', A+'asset_map.rs'], [('certify_assets, delete_assets', A+'asset_router.rs'), ('get_asset_for_request, prioritized_encodings', A+'asset_router.rs'), ('matches_asset', A+'asset_config.rs')], ['AssetRouter::serve_asset, get_assets, get_fallback_assets'],
 'stateful property-based testing against a reference model', EXPL+'Names of assets, aliases and scopes do not clash; a key left in encodings only, none of which the client accepts, is not judged.')
prop('C29', 'Every response of the asset router verifies end to end',
 'Whatever the asset router answers to a GET request without a body, after any history, verifies under a certificate for its root hash, with its status, headers and body unchanged; with anything added or changed it is refused.',
 ['histories', 'inputs'], 'all histories of uploads, configurations, deletions; all GET requests', 'Router and verifier are tested apart; they disagree only on particular combinations of paths and scopes.',
 [A+'asset_router.rs', R+'validation/v2_validation.rs', H+'tree/certification_tree.rs'], [('serve_asset and its witness', A+'asset_router.rs'), ('validate_expr_path', R+'validation/v2_validation.rs')], ['AssetRouter::serve_asset, verify_request_response_pair'],
 'stateful property-based testing, end to end', EXPL+'Two known findings: query strings, and repeated slashes.')
prop('C30', 'Large assets arrive in verified chunks that make up the asset',
 'An asset larger than the chunk size is answered in chunks: the first without a Range header, each other one for "bytes=<start>-". Each verifies for its own request and no other chunk\'s, and together they are exactly the asset, in one encoding. Range requests for smaller assets get all of it; no range is ever answered from another or an older asset.',
 ['inputs', 'histories'], 'all lengths around multiples of the chunk size, encodings, replacements and deletions, ranges', 'The tests check the bodies of a few chunks and never verify one.',
 [A+'asset_router.rs'], [('chunks of insert_static_asset', A+'asset_router.rs'), ('range selection in get_asset_for_request', A+'asset_router.rs')], ['AssetRouter::serve_asset, verify_request_response_pair'],
 'stateful property-based testing with a client model, end to end', EXPL+'Two known findings: "bytes=0-" and ranges with an explicit end are served but do not verify.')
prop('C31', 'Deleted and replaced assets are no longer certified',
 'Once an asset, alias, fallback or redirect is deleted, or replaced by another version, its former response no longer verifies under the current root hash, whatever the history, while what is still served stays certified. When everything is deleted, piece by piece or at once, the root hash is that of an empty tree and the maps are empty.',
 ['histories'], 'all histories of uploads, changes, deletions, clears', 'Left-over certification is invisible to tests that look at what is served.',
 [A+'asset_router.rs', H+'tree/certification_tree.rs'], [('delete_assets, delete_all_assets, replacement', A+'asset_router.rs')], ['AssetRouter::root_hash, verify_request_response_pair'],
 'stateful property-based testing with replayed responses', EXPL)
W = 'packages/ic-response-verification-wasm/src/'
prop('C32', 'The JavaScript bindings agree with the verifier',
 'For every request and response, however the JavaScript objects spell them, the JavaScript bindings accept exactly what the verifier accepts, and give the same response, version, error code and error text. Whatever the response holds, invalid status codes included, they return an answer or an error and never trap.',
 ['inputs'], 'all requests and responses (sampled: honest, tampered and hostile ones), all status codes', 'Conversions of fields, optional values and more than twenty error codes; the tests convert one request and one response.',
 [W+'lib.rs', W+'request.rs', W+'response.rs', R+'error.rs', R+'types/verified_response.rs', R+'types/verification_result.rs'], [('request_from_js, response_from_js', W+'response.rs'), ('ResponseVerificationJsError', R+'error.rs'), ('conversion of the result', R+'types/verified_response.rs')], ['verifyRequestResponsePair, getMinVerificationVersion, getMaxVerificationVersion'],
 'differential property-based testing of the wasm build under node against the native build', EXPL+'Trusts node and wasm-bindgen; requests have valid methods.')

J = 'packages/certificate-verification-js/src/'
prop('C33', 'The JavaScript package accepts exactly the certified trees',
 'verifyCertification of the JavaScript package returns the tree it is given exactly if the certificate is valid for the canister under the root key, its time is at most the allowed offset before or after the present, and the root hash of the tree is the certified data of that very canister. Otherwise it throws, with the error kind that belongs to the failed check; verifications running at the same time do not affect each other, and the arguments stay as they are.',
 ['inputs', 'schedules'], 'all trees, certificates, times and offsets; groups of concurrent verifications', 'The tests verify one tree with a handful of times.',
 [J+'index.ts', J+'error.ts'], [('validateCertificateTime', J+'index.ts'), ('validateTree', J+'index.ts')], ['verifyCertification'],
 'property-based testing of the bundled package under node against a model', EXPL+'The packages it builds on (@dfinity/agent, candid, principal) are not installed; stand-ins with a hash in the place of the BLS signature take their part, so only this package is judged.')

EX='examples/'
prop('C34', 'The certified counter shows only counts its certificate proves',
 'After installation, and after any number of increments and upgrades, get_count of the certified counter returns the count (increments since the last upgrade), a certificate and a witness such that the witness is the certified data of the canister and holds the hash of exactly that count.',
 ['histories'], 'all histories of increments, queries and upgrades', 'The example has no tests; what it certifies before the first increment and after an upgrade depends on the history.',
 [EX+'certification/certified-counter/src/backend/src/lib.rs', 'packages/ic-certification/src/rb_tree/mod.rs'], [('inc_count, get_count_witness', EX+'certification/certified-counter/src/backend/src/lib.rs')], ['get_count, inc_count of the compiled canister'],
 'stateful property-based testing of the compiled canister against a model', EXPL+'The canister runs in node on stand-ins for the system calls, with certificates signed by the test key.')
prop('C35', 'The JSON API example answers every request with certified data or an update',
 'Whatever todo items have been created, changed and deleted, and after any upgrade, each query of the JSON API example is answered: by a request for an update call for the methods and paths that change items, otherwise by a response that verifies and that shows the present items, or refuses the method, or says that nothing was found. Calls that fail leave the items as they were.',
 ['histories', 'inputs'], 'all histories of update calls and upgrades, all requests', 'The example has no tests of its own; it certifies the list anew after each change and the refusals once.',
 [EX+'http-certification/json-api/src/backend/src/lib.rs', EX+'http-certification/json-api/src/backend/src/types.rs', H+'tree/certification_tree.rs'], [('certify_response, query_handler', EX+'http-certification/json-api/src/backend/src/lib.rs')], ['http_request, http_request_update of the compiled canister'],
 'stateful property-based testing of the compiled canister against a model', EXPL+'The canister runs in node on stand-ins for the system calls. Repeated slashes and bodies of GET requests are not judged.')
prop('C36', 'The asset, skip and upgrade examples answer every request verifiably',
 'For any site, the asset examples answer a GET query of an uploaded file, its alias, an unknown path, a redirect or their metrics with a response that verifies under the data the canister certified, with the content of the file in an encoding the client accepts; the skip example verifies for any request and the upgrade example asks for an update call and answers it. This still holds after upgrades.',
 ['inputs', 'histories'], 'all sites with the files the examples configure, all requests for them', 'The examples are tested by starting a replica, with one site each.',
 [EX+'http-certification/custom-assets/src/backend/src/lib.rs', EX+'http-certification/assets/src/backend/src/lib.rs', EX+'http-certification/skip-certification/src/backend/src/lib.rs', EX+'http-certification/upgrade-to-update-call/src/rust-backend/src/lib.rs'], [('certify_all_assets, serve_asset', EX+'http-certification/assets/src/backend/src/lib.rs'), ('certify_asset_response, asset_handler', EX+'http-certification/custom-assets/src/backend/src/lib.rs')], ['http_request of the compiled canisters'],
 'property-based testing of the compiled canisters on generated sites', EXPL+'The canisters run in node on stand-ins for the system calls; a stand-in of include_dir gives them generated sites.')

T='packages/ic-certification-testing/src/'
prop('C37', 'Certificates built for tests hold and prove what the builder was told',
 'A certificate from the certificate builder holds exactly the certified data and time it was given at their paths, or exactly the custom tree, and the delegation it was given for the listed canisters, all signed by keys of their own. It verifies under the root key it comes with, and no other, if the canister is in the ranges of the delegation; with an invalid signature or a nested delegation it does not. Texts that are no canister are refused.',
 ['inputs', 'histories'], 'all certified data, trees and sequences of builder calls', 'The package has no tests in Rust; a certificate that verifies although it should not silently weakens the tests of its users.',
 [T+'certificate_builder.rs', T+'certificate.rs', T+'signature.rs', T+'tree.rs', T+'encoding.rs'], [('build', T+'certificate_builder.rs'), ('create_certificate_tree, create_delegation_tree', T+'certificate.rs')], ['CertificateBuilder'],
 'property-based testing against a model and the verifier', EXPL+'The packages of dfinity/ic it builds on are only available from git; stand-ins take their part, so only this package is judged. Times from 2^64 on, which it cuts short, are not generated.')
