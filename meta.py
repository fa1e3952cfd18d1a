#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list. Run it by hand after editing; no check needs it."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note, state=state))
C = 'packages/ic-certification/src/'
B = 'packages/ic-cbor/src/'
V = 'packages/ic-certificate-verification/src/'
R = 'packages/ic-response-verification/src/'
H = 'packages/ic-http-certification/src/'
A = 'packages/ic-asset-certification/src/'
EXPL = 'Random search with a per-case oracle: assurance grows with the cases run, nothing is proved. '

prop('C01', 'The certified map behaves as an ordered map over any history',
 'After any sequence of insertions, deletions and in-place modifications, the certified map holds exactly the entries an ordered map would hold: lookups, length, emptiness, iteration order (forwards and in reverse) and the results of deletions agree with it. This includes equality, cloning and collecting from iterators.',
 ['histories'], 'all histories of operations over byte-string keys', 'The unit tests run a handful of fixed histories; balance and colour bugs of a red-black tree only show in particular shapes.',
 [C+'rb_tree/mod.rs'], [('left-leaning red-black tree insert/delete/modify', C+'rb_tree/mod.rs'), ('iterators', C+'rb_tree/mod.rs')], ['RbTree public API'],
 'stateful property-based testing against a reference map', EXPL+'Trusts std BTreeMap.')
prop('C02', 'The root hash commits to exactly the contents of the certified map',
 'After every operation the root hash of the certified map is the specified digest of the hash tree the map shows, and that hash tree holds exactly the entries of the map in order, each as a labelled leaf. The tree keeps its depth logarithmic in the number of entries.',
 ['histories'], 'all histories of operations over byte-string keys, after each step', 'Stale cached subtree hashes after rotations need particular histories; tests check a few final roots.',
 [C+'rb_tree/mod.rs', C+'hash_tree/mod.rs'], [('cached subtree hashes', C+'rb_tree/mod.rs'), ('domain separated hashing', C+'hash_tree/mod.rs')], ['root_hash, as_hash_tree'],
 'stateful property-based testing against an independent digest', EXPL+'Trusts the sha2 crate.')
prop('C03', 'Witnesses of the certified map prove presence, absence and ranges',
 'A witness for a key, key range, prefix or set of keys has the digest of the full map, lets a verifier decide the presence or absence of everything asked for (values included, unless only keys are requested), and does not disclose the values of unrelated entries. This holds for present and absent keys, before, between and after the stored ones.',
 ['inputs', 'histories'], 'all maps grown by any history, and all keys, ranges, prefixes', 'Boundary proofs depend on where the neighbours sit in the tree; the tests check a few trees.',
 [C+'rb_tree/mod.rs'], [('lower/upper bound proofs', C+'rb_tree/mod.rs')], ['witness, value_range, keys_range, keys_with_prefix, …'],
 'property-based testing with a reference lookup on the view', EXPL+'Digest collisions are assumed not to occur.')
prop('C04', 'The nested certified map behaves as a tree of paths over any history',
 'After any sequence of insertions, deletions and clears at nested paths, the nested map holds exactly the paths and values a recursive ordered map would hold, subtrees left empty by deletions disappear, and its root hash is the specified digest of that content. Lookups and containment agree with that content for every path.',
 ['histories'], 'all histories over nested paths, including values that replace subtrees and the reverse', 'The tests delete a few fixed paths; pruning emptied ancestors and replacing values by subtrees needs combinations.',
 [C+'nested_rb_tree.rs'], [('recursive insert/delete', C+'nested_rb_tree.rs')], ['NestedTree public API'],
 'stateful property-based testing against a reference tree', EXPL)
prop('C05', 'Nested witnesses prove presence or absence of any path',
 'A witness of any path in a nested map has the digest of the full map and lets a verifier decide whether the path, or the deepest part of it that exists, is present or absent. It shows nothing beyond what the path needs: the values of other paths stay hidden.',
 ['inputs', 'histories'], 'all nested maps and all paths on, below, above and beside the stored ones', 'Absence below leaves, and of siblings at each level, depends on the shapes; tests sample a few.',
 [C+'nested_rb_tree.rs', C+'rb_tree/mod.rs'], [('recursive witness', C+'nested_rb_tree.rs')], ['NestedTree::witness'],
 'property-based testing with a reference lookup on the view', EXPL)
prop('C06', 'Merging pruned views of one tree shows their union',
 'Merging any two partial views of the same hash tree yields a view with the same digest that shows everything either view shows and nothing else, in either order and for repeated merges. Views that contradict each other, in what both show or both hide, are not merged (the merge panics).',
 ['inputs'], 'all pairs of prunings of all trees', 'Tests merge a few witnesses; the merge depends on every combination of pruned and shown nodes.',
 [C+'hash_tree/mod.rs'], [('merge_hash_trees', C+'hash_tree/mod.rs')], ['merge_hash_trees'],
 'property-based testing against a reference union', EXPL)
prop('C07', 'Path lookup in a hash tree agrees with the specification',
 'For every hash tree with sorted labels, however its forks are arranged and whatever is pruned or empty, looking up a path (a leaf or a subtree) or listing paths gives exactly the result the specification defines: found with the right value, absent only if the shown labels prove it, and unknown otherwise. The result does not depend on how labels and leaves are stored or on the arrangement of forks.',
 ['inputs'], 'all sorted trees with pruned parts, all paths', 'Found/absent/unknown depend on neighbours across forks; the tests use one tree.',
 [C+'hash_tree/mod.rs'], [('find_label', C+'hash_tree/mod.rs'), ('lookup_path / lookup_subtree / list_paths', C+'hash_tree/mod.rs')], ['HashTree::lookup_path, lookup_subtree, list_paths'],
 'property-based testing against a reference lookup', EXPL+'Labels of a forest are sorted and distinct, as in trees the IC issues.')
prop('C08', 'Encodings of trees, certificates and CBOR values round-trip',
 'Every hash tree, certificate, canister range list and string list decodes from its CBOR encoding to exactly itself, with and without the self-describing tag and with any legal spelling of lengths and order of fields, and the encoding the library writes decodes back to it. General CBOR values decode to the numbers, texts, bytes, arrays and maps they encode, and truncated encodings are refused.',
 ['inputs'], 'all trees, certificates, arrays and CBOR values and their legal encodings', 'Tests decode recorded certificates; other spellings and sizes are not covered.',
 [B+'cbor_parser.rs', B+'cbor_parse_hash_tree.rs', B+'cbor_parse_certificate.rs', C+'hash_tree/mod.rs'], [('CBOR parser', B+'cbor_parser.rs'), ('serde implementation', C+'hash_tree/mod.rs')], ['CertificateToCbor, HashTreeToCbor, parse_cbor…, serde'],
 'property-based round-trip testing with an independent CBOR writer', EXPL)
prop('C09', 'Decoders survive and agree on arbitrary bytes',
 'Given any bytes, the decoders of CBOR, hash trees, certificates, canister ranges and string lists return a value or an error: they do not panic, overflow the stack, run away, or allocate memory out of proportion to the input. What they accept is what an independent decoder reads from those bytes; bytes that are no CBOR, tree or certificate (missing parts, unknown node kinds, digests of a wrong length, lengths beyond the input) are refused, and the serde decoders also refuse elements and fields too many.',
 ['inputs'], 'all byte strings (sampled: mutations of valid encodings, nesting bombs, inflated lengths, random bytes)', 'The input comes from an untrusted replica or boundary node; tests give a few malformed inputs.',
 [B+'cbor_parser.rs', B+'cbor_parse_hash_tree.rs', B+'cbor_parse_certificate.rs'], [('bounds checks of the nom parsers', B+'cbor_parser.rs')], ['all parse functions, serde HashTree'],
 'structure-aware fuzzing with a differential oracle and allocation monitor', EXPL)
prop('C10', 'A certificate is accepted only if fresh and signed over its root',
 'A certificate without delegation is accepted if and only if the signature over the domain-separated digest of its tree verifies under the root key and its certified time lies within the allowed offset around the current time, both ends included. This holds for every time, offset (extreme ones included) and pruned tree, and changing the tree, the signature, the key or the canister range content invalidates it.',
 ['inputs'], 'all certificates, times, offsets and keys', 'Tests use recorded certificates and two times; edges and arithmetic extremes are not covered.',
 [V+'certificate_verification.rs', V+'signature_verification/mod.rs'], [('verify_time', V+'certificate_verification.rs'), ('BLS verification with cache', V+'signature_verification/')], ['VerifyCertificate::verify'],
 'property-based testing with a model of acceptance and real signatures', EXPL+'BLS is trusted not to be forgeable.')
prop('C11', 'A delegation is honoured only within its subnet and canister ranges',
 'A delegated certificate is accepted if and only if the delegation certificate is signed by the root key, is itself not delegated, holds the public key of the named subnet that signs the outer certificate, and that subnet\'s canister ranges include the canister id; the freshness of the outer certificate still applies. Anything missing, pruned, malformed or belonging to another subnet is refused with an error.',
 ['inputs'], 'all delegations, ranges, canister ids and defects', 'Tests use one recorded delegation and a few failures.',
 [V+'certificate_verification.rs'], [('verify_delegation', V+'certificate_verification.rs')], ['VerifyCertificate::verify'],
 'property-based testing with a model of acceptance and injected defects', EXPL+'Canister ids have ten bytes.')
prop('C12', 'Verifying a certificate does not depend on what was verified before',
 'The outcome of verifying a certificate is the same whatever certificates were verified before it and whichever are verified concurrently on other threads: remembered signatures never let a different tree, key or signature pass or fail.',
 ['histories', 'schedules'], 'all orders and overlaps of verifications', 'A signature cache is shared by the process; tests verify single certificates.',
 [V+'signature_verification/mod.rs'], [('signature cache', V+'signature_verification/')], ['VerifyCertificate::verify'],
 'stateful and concurrent property-based testing against isolated outcomes', EXPL+'Schedules are those the OS produces.')
prop('C13', 'The representation-independent hash follows the specification',
 'The hash of any map equals the specified representation-independent hash, so it does not depend on the order of the entries and any change of a key or a value changes it.',
 ['inputs'], 'all maps of texts, bytes, numbers and nested arrays, with repeated keys', 'Tests check a few vectors.',
 ['packages/ic-representation-independent-hash/src/representation_independent_hash.rs'], [('sorted concatenation of entry hashes', 'packages/ic-representation-independent-hash/src/representation_independent_hash.rs')], ['representation_independent_hash, hash'],
 'property-based differential and metamorphic testing', EXPL)
prop('C14', 'The request hash depends on exactly the certified parts of a request',
 'The hash of a request equals the one the specification defines over its method, body, certified headers and certified query parameters, whatever the casing and order of header definitions. Two requests that differ in any certified part have different hashes, and differences in uncertified headers and query parameters do not change it.',
 ['inputs'], 'all requests and certification filters', 'Tests compare a few fixed requests.',
 [H+'hash/request_hash.rs', H+'http/http_request.rs'], [('request_hash', H+'hash/request_hash.rs'), ('URL accessors', H+'http/http_request.rs')], ['request_hash'],
 'property-based differential and metamorphic testing', EXPL+'Whether there is a query string at all counts as certified.')
prop('C15', 'The response hash depends on exactly the certified parts of a response',
 'The hash of a response equals the one the specification defines over its status, body and certified headers (chosen by inclusion or exclusion, always with the certificate expression and never with the certificate header), and the filtered headers are exactly the certified ones. Two responses that differ in any certified part have different hashes, and uncertified headers do not matter.',
 ['inputs'], 'all responses and certification filters', 'Tests compare a few fixed responses.',
 [H+'hash/response_hash.rs'], [('filter_response_headers', H+'hash/response_hash.rs'), ('response_hash', H+'hash/response_hash.rs')], ['response_hash, filter_response_headers, response_headers_hash'],
 'property-based differential and metamorphic testing', EXPL)
prop('C16', 'The verifier enforces exactly what the certificate expression says',
 'For every certificate expression (as the builders print it or in another legal spelling), a response is accepted exactly if the request and response parts the expression certifies are the certified ones: changes outside of them are tolerated, changes inside are not. Malformed or contradictory expressions are refused, however long or deeply nested they are.',
 ['inputs'], 'all expressions, spellings and malformed texts', 'Tests parse a few expressions.',
 [R+'cel/parser.rs', R+'cel/ast_mapping.rs', H+'cel/create_cel_expr.rs', H+'cel/cel_builder.rs'], [('CEL parser', R+'cel/parser.rs'), ('mapping to certification', R+'cel/ast_mapping.rs'), ('printing', H+'cel/create_cel_expr.rs')], ['verify_request_response_pair, DefaultCelBuilder, to_string'],
 'grammar-based generation with an end-to-end oracle', EXPL)
prop('C17', 'A certification is made only for responses that carry its expression',
 'A certification is created exactly if the response has one certificate expression header (with any casing) whose value is the expression, and an error is returned otherwise. The certification commits to the hash of the expression, and to the request and response hashes as the kind of certification requires.',
 ['inputs'], 'all expressions, requests and responses', 'Tests try a few of each.',
 [H+'tree/certification.rs'], [('validation of the expression header', H+'tree/certification.rs')], ['HttpCertification::full, response_only, skip'],
 'property-based testing against an independent model', EXPL)
prop('C18', 'Expression paths and wildcard specificity follow the URL path',
 'The expression path of an exact or wildcard certification path has the non-empty segments of the path, a final empty segment exactly if it ends with a slash, and the right terminator. A wildcard is valid for exactly the request paths below it, and the more specific wildcards for a request are exactly those strictly between it and the responding path.',
 ['inputs'], 'all paths, with repeated slashes and reserved names', 'Tests list a few paths.',
 [H+'tree/certification_tree_path.rs', H+'utils/wildcard_paths.rs'], [('path splitting', H+'tree/certification_tree_path.rs'), ('more_specific_wildcards_for', H+'utils/wildcard_paths.rs')], ['to_expr_path, more_specific_wildcards_for, is_wildcard_path_valid_for_request_path'],
 'property-based testing against a reference model', EXPL+'A wildcard for "/a/" and a request of "/a" are not judged.')
prop('C19', 'The certification tree holds exactly the entries inserted',
 'After any history of insertions, deletions, clears and clones, the root hash of the certification tree depends only on the set of entries it holds, and removing an entry restores the tree as if it had never been added. Witnesses have the root hash of the tree and prove the entry they are made for, and a wildcard that cannot match the request yields an error.',
 ['histories'], 'all histories over entries and paths that share prefixes', 'Tests insert and delete a few entries.',
 [H+'tree/certification_tree.rs', C+'nested_rb_tree.rs'], [('insert/delete/witness', H+'tree/certification_tree.rs')], ['HttpCertificationTree public API'],
 'stateful property-based testing against a set of paths', EXPL)
prop('C20', 'Every honestly certified response verifies',
 'For any site, request and uncertified extras, the response of the most specific certified path, with the witness and certificate header the library produces and a valid certificate (delegated or not), is accepted by the verifier. The result shows exactly the certified status, headers and body, and nothing where certification is skipped.',
 ['inputs', 'configurations'], 'all sites, requests, expressions and certificates', 'Two libraries have to agree on every detail; tests cover a few fixtures.',
 [H+'tree/certification_tree.rs', H+'utils/response_header.rs', R+'verification/verify_request_response_pair.rs', R+'validation/v2_validation.rs'], [('witness', H+'tree/certification_tree.rs'), ('verification', R+'verification/verify_request_response_pair.rs')], ['HttpCertificationTree, add_v2_certificate_header, verify_request_response_pair'],
 'property-based end-to-end testing', EXPL+'Requests start with a slash; no entry of a site has a path segment named <*> or <$>, which the tree uses itself.')
prop('C21', 'Tampered responses, requests, witnesses or certificates are rejected',
 'A response is accepted only if the site certified that response for that request under that path: any change to certified parts, the expression, the path, the witness, the certificate, its signature, the canister, the time or the root key that makes it uncertified leads to an error. Whatever is accepted yields the certified parts only.',
 ['inputs', 'fault_sequences'], 'all sequences of changes to an honest answer', 'Tests try a few single changes.',
 [R+'verification/verify_request_response_pair.rs', R+'validation/v2_validation.rs', R+'validation/common_validation.rs'], [('validate_tree, validate_expr_path, validate_hashes', R+'validation/')], ['verify_request_response_pair'],
 'property-based tampering against an independent model of what is certified', EXPL+'SHA-256 and BLS are assumed sound.')
prop('C22', 'Only the most specific certified path may answer a request',
 'A response certified under an exact or wildcard path is accepted for a request if that path is the most specific certified path that matches the request, and refused if a more specific one is certified or cannot be excluded from what the witness shows. Paths that do not match the request never answer it.',
 ['inputs'], 'all sites, requests and prunings of their trees', 'Specificity depends on combinations of exact and wildcard paths; tests list a few.',
 [R+'validation/v2_validation.rs', H+'utils/wildcard_paths.rs'], [('validate_expr_path', R+'validation/v2_validation.rs')], ['verify_request_response_pair'],
 'property-based testing against a reference model of matching', EXPL+'A wildcard for "/a/" and a request of "/a" are not judged.')
PENDING = set()
exec(open(os.path.join(D, 'meta2.py')).read()) if os.path.exists(os.path.join(D, 'meta2.py')) else None
NA = globals().get('NA', [])
with open(os.path.join(D, 'properties.jsonl'), 'w') as f:
    for p in P:
        if p['id'] in PENDING: continue
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None)), ensure_ascii=False) + '\n')
    for i, t, s, o, x, w, fs, m, ob, reason in NA:
        f.write(json.dumps(dict(id=i, title=t, statement=s, quantifier=dict(over=o, text=x), why_tests_cant=w,
            anchors=dict(files=fs, mechanism=[dict(name=a, where=b) for a, b in m], observe_at=ob, hook_needed=None)), ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='bash check.sh --build',
    checks=[dict(property=p['id'], quick_cmd='bash check.sh '+p['id'], thorough_cmd='VERIF_TIER=thorough bash check.sh '+p['id'], technique=p['technique'], level='exploration', level_note=p['note']) for p in P if p['id'] not in PENDING],
    not_applicable=[dict(property=n[0], reason=n[-1]) for n in NA],
    notes='No hooks: the checks use the public API of the packages in /repo only. Genuine defects and their fixes are listed in known_findings.txt.')
json.dump(m, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
for p in P:
    assert len(p['title']) <= 80, p['title']
    for f in p['files']: assert os.path.exists('/repo/'+f), f
    for a, b in p['mech']: assert os.path.exists('/repo/'+b), b
