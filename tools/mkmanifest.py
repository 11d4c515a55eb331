#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 'C09': 'The printed text of every attribute (all 40 Display and print functions) and the exact decoding of every attribute value are proved against explicit contracts for all inputs, and lemma rt_attr over those contracts proves, for every kind, that the printed text of an attribute read from any text is accepted and decodes to the same values, outside the recorded findings (KF1, KF2, KF3, KF5) and NaN numbers in imageattr; printing and reading back of floats and IP addresses and idempotence of url host parsing are axioms listed in the evidence.',
 'C10': 'The printed text of every line type, media section and session is proved against explicit contracts for all inputs, and so is parsing (lines, sections, line order, consistency rules, the policy of a whole text). Theorem ww_session over those contracts (contracts/81 to 87, discharged on every run) proves: a session that was read from any text, without an excluded attribute (KF1, KF2, KF3, KF5, NaN resolutions), is printed as a text of which every reading, strict or not, of 51 bytes or more (KF4) gives the same version, origin, name, timing, connections, bandwidths and media lines, attributes that read the same text, the same sections in the same order, and no warnings. Axioms about std and url printing as listed in the evidence; known findings KF1 to KF5.',
 'C01': 'Every function of the parser, printer, masking and editing code (all of the crate outside derived and error-trait code) is proved free of overflow, out-of-range indexing and slicing, failing unwraps and non-terminating loops, for all inputs; pub parse_media_vector requires a non-empty line list; std functions called through contracts are assumed not to panic within those contracts; texts are assumed shorter than 2^31 characters.',
 'C11': 'Every masking function of StatefulSdpAnonymizer is proved, for all states and arguments, against contracts over the abstract maps (stable, injective below the counter limit, other kinds unchanged); trusted: std HashMap, formatting of integers and addresses.',
 'C12': 'Every masked_clone is proved against a field-by-field contract: sensitive fields are the masks of the anonymizer contracts, every other field equal, lists element by element in order.',
 'C02': 'sanity_check_sdp_session is proved to accept exactly the sessions meeting the consistency rules, parse_sdp_vector and parse_sdp to return only such sessions built from the given lines; the decoding of a single line and of every attribute value is proved too (no trusted parser contract); texts are assumed shorter than 2^31 characters.',
 'C03': 'add_attribute, add_media, parse_session_vector, parse_media_vector, parse_sdp_vector and parse_sdp are proved to admit an attribute exactly at the levels its kind permits; the level tables are proved against an explicit table.',
 'C05': 'parse_session_vector, parse_media_vector, parse_sdp_vector and parse_sdp are proved against a fold over the line list that fixes which line lands where and in what order.',
 'C06': 'parse_sdp is proved against the policy over the list of per-line outcomes (strict/lenient, numbers, texts, blank lines, order); the decoding of a single line (parse_sdp_line) and of attribute values is proved; the wording of messages is unconstrained, and which malformed attribute values count as unsupported rather than malformed is pinned only for unknown names.',
 'C16': 'parse_type, parse_version, parse_origin, parse_session, parse_timing, parse_bandwidth, parse_connection, parse_media and parse_sdp_line are proved against token-by-token contracts; std integer and address parsing and Unicode whitespace splitting are specified in the prelude and trusted.',
 'C04': 'the range of every number is part of the proved acceptance predicate of each value parser (both directions); std integer/float parsing is a trusted specification in the prelude.',
 'C08': 'SdpAttribute::from_str, parse_attribute and the parser of every attribute kind are proved against exact acceptance and field-by-field decoding predicates, for all texts; std parsing, splitting and trimming are trusted specifications in the prelude.',
 'C14': 'equality of Address is proved equal to the relation of the property and that relation proved an equivalence; the address constructors of origin and connection are proved to keep or check the family.',
 'C15': 'kind/name tables, flags and keyword tables are proved pairwise distinct and mutually inverse against explicit tables.',
 'C13': 'Every editing and query operation of SdpMedia and SdpSession is proved against a contract over the stored sequences (filter, push, first match, frame).',
 'C17': 'Every Serialize implementation of the crate (54 derived ones as rustc expands them from the current tree with the feature serialize, and the written one of SdpParserError) is proved, for every value and every serializer, to write exactly every field of the type\'s definition under its name with its value and to fail only when the serializer does; serde\'s own implementations for integers, strings, Vec, Option, tuples and IpAddr and the serializer are assumed contracts.',
}
PENDING = {}
NA = {
}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i}', 'evidence_file': f'evidence/{i}.json',
                            'technique': 'contract-based deductive verification of the extracted source (Verus); bounded replay harness for witnesses', 'level': 'proof', 'level_note': CLAIMED[i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'contracts for this property are still being written; not claimed yet')})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
