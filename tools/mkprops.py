#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that the long lines stay reviewable).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
L,A,M,AD,AN,N,E=['src/'+x for x in('lib.rs','attribute_type.rs','media_type.rs','address.rs','anonymizer.rs','network.rs','error.rs')]
p('C01','Any text can be parsed, printed and masked without panic or hang',
 'Parsing any text, in strict or lenient mode, always terminates with either a session or an error value and never panics, whatever the bytes of the text are. The same holds for printing and for masking every session that parsing returned.',
 ['inputs'],'every Unicode string up to the address-space limit, both strictness modes, every session a parse returned',
 'The tests run a few hundred fixed strings; a panic needs a particular missing token, non-ASCII byte offset, arithmetic edge or empty list that they do not contain.',
 [L,A,M,AD,N,AN],[('parse_sdp / parse_sdp_line',L),('attribute value parsers',A),('parse_media, parse_media_vector',M),('AnonymizingClone impls',A)],
 ['parse_sdp return or unwind','SdpSession::to_string','SdpSession::masked_clone'])
p('C02','Accepted descriptions are structurally complete and self-consistent',
 'A session is returned only if its text starts with a version, an origin and a session-name line in that order, contains a timing line, and has a connection at session level or in every media section. No returned session declares extmap at both session and media level, declares rtcp-mux-only in a media section without rtcp-mux, names in a rid a payload type its media line does not list, or names in a media section\'s simulcast a rid that is not declared there in the matching direction; and every text of at least 51 bytes whose lines all parse and which meets these rules is accepted.',
 ['inputs'],'every sequence of parsed lines, any number of media sections, rids, formats and simulcast alternatives',
 'The rules quantify over all media sections and all list elements; each test has one or two sections and one violation in a fixed place.',
 [L,M],[('parse_sdp_vector',L),('sanity_check_sdp_session',L)],['parse_sdp result'])
p('C03','Attributes only ever sit at a level where they are permitted',
 'Every attribute in the session-level list of a parsed session is one permitted at session level, and every attribute in a media section is one permitted at media level, also after any use of the attribute-adding operations. An attribute that is not permitted is refused with an error, the target is left unchanged by the refused addition, and a permitted attribute is never refused.',
 ['inputs','histories'],'every attribute kind and value, both levels, every sequence of parsed lines and of add/set operations',
 'There are 43 attribute kinds times two levels and three ways in; the tests try a handful of pairs.',
 [L,A,M],[('allowed_at_session_level / allowed_at_media_level',A),('SdpSession::add_attribute',L),('SdpMedia::add_attribute',M)],
 ['parse_sdp result','add_attribute / set_attribute result'],[('attribute','attributes of a session or media section','SdpSession, SdpMedia')])
p('C04','Every accepted value lies within its protocol range',
 'Values in accepted lines respect their limits: version 0; media port at most 65535 and payload types in an audio or video media line outside 1, 2, 19, 64 to 95 and above 127; rtpmap payload type at most 127; candidate, remote-candidate ports and sctp-port at most 65535; ice-pacing below 10^10; frame rate finite and positive; fmtp profile-level-id at most 0xffffff, packetization-mode at most 2, AV1 profile at most 2, level index at most 31, tier at most 1; and a fingerprint with exactly as many bytes as its hash produces. Values outside are rejected with an error, never truncated or wrapped, and values inside are not rejected for their range.',
 ['inputs'],'every numeric token of every length, including values beyond 64 bits',
 'Tests try one or two values per limit; off-by-one limits and narrowing conversions need the exact boundary values.',
 [L,A,M],[('parse_media',M),('value parsers',A),('parse_version',L)],['parse_sdp_line result'])
p('C05','Every line lands in its own section, in order, none lost or duplicated',
 'In a parsed session, the session-level attributes and bandwidths are exactly those of the lines before the first media line, in order, and the n-th media section has the n-th media line and exactly the attributes, bandwidths and connection between it and the next media line, in order, except that dtls-message lines inside media sections are dropped. A second connection line within one media section, a version, origin or session-name line after the third line, or a timing line inside a media section is rejected; when session-level timing or connection is repeated the last one counts.',
 ['inputs'],'every sequence of parsed lines of any length and any number of media sections',
 'Position bugs depend on the number and order of lines and sections; tests have at most a few sections and look at counts.',
 [L,M],[('parse_sdp_vector',L),('SdpSession::parse_session_vector',L),('parse_media_vector',M)],['fields of the parsed session'])
p('C06','Strictness, warnings and diagnostics follow one policy',
 'Parsing a whole text fails if any line is malformed, in both modes, and reports such a line with its own zero-based line number and its text; unsupported lines fail the parse in strict mode, which then names the first of them unless a line is malformed, and otherwise become warnings, one per unsupported line, in order, with that line\'s number and text, while all other lines are still used. Blank lines are skipped, but counted; on success the remaining lines are used in order.',
 ['inputs','configurations'],'every text, with any mixture of well-formed, malformed, unsupported and blank lines, both modes',
 'The policy is about every mixture of lines; the tests use texts with one bad line.',
 [L,E],[('parse_sdp',L),('parse_sdp_line',L)],['parse_sdp result','SdpSession.warnings'])
p('C08','Each attribute value is decoded field by field, losslessly',
 'For every attribute line, each part of the value ends up, unmodified, in its own field of the parsed attribute: numbers with their exact value, keywords as the matching alternative, free text verbatim, repeated parts all kept and in order, absent optional parts as absent or as the documented default. A value with a mandatory part missing or malformed is rejected, and a well-formed one is accepted.',
 ['inputs'],'every attribute kind and every value text',
 'Values have many optional parts in many orders; a swapped field or a dropped part shows only for the combination the tests do not list.',
 [A],[('SdpAttribute::from_str',A),('value parsers parse_*',A)],['SdpAttribute::from_str result'])
p('C09','Printing a parsed attribute and parsing it again gives the same attribute',
 'Every attribute prints as its name and, after a colon, the value syntax of its kind with every part it carries in the fixed order of that syntax. For every attribute the parser accepts, this printed form is accepted by the parser and yields an attribute of the same kind with the same field values; printing is therefore stable after one parse. This covers every optional part, flag, list and unknown extension the attribute carries.',
 ['inputs'],'every attribute value the parser accepts',
 'Round trips are tested for single example strings; a printer that drops, reorders or misseparates one optional part is only seen when that part is present.',
 [A],[('Display impls',A),('value parsers',A)],['to_string, then SdpAttribute::from_str'])
p('C10','A printed session parses back to the same session',
 'Printing a parsed session yields one line per element, each ended by CRLF: version, origin, session name, then timing, bandwidths, connection and attributes, then each media section as its media line, bandwidths, connection and attributes, in the stored order. Parsing that text again succeeds and yields a session with equal content.',
 ['inputs'],'every session the parser returns, any number of sections, lines and attributes',
 'Tests compare a few printed sessions; separators and optional lines interact with empty lists and absent parts.',
 [L,M,A],[('Display for SdpSession',L),('Display for SdpMedia, SdpMediaLine',M),('maybe_vector_to_string!, option_to_string!',A)],['SdpSession::to_string','parse_sdp of it'])
p('C11','Masking is stable and never merges two different values',
 'Within one masking context, masking the same value again always gives the same result, and masking two different values of the same kind (IPv4 or IPv6 address, host name, port, origin user, ICE password, ICE user, certificate fingerprint, CNAME) gives different results, in whatever order and however often values are masked. Masking a value of one kind never changes the results for another kind, and a masked address keeps its family and type.',
 ['histories','inputs'],'every sequence of masking calls in one context, up to the size of the counters',
 'Tests mask two or three values per kind; collisions and lost associations appear after many values or particular interleavings.',
 [AN],[('StatefulSdpAnonymizer::mask_*',AN),('AnonymizationStrMap::mask',AN),('ToBytesVec for u64',AN)],['results of the masking operations'],
 [('maps and counters','associations already handed out','StatefulSdpAnonymizer')])
p('C12','Masked copies hide every sensitive field and keep everything else',
 'In a masked copy of a session, origin user name and address, connection addresses, candidate and remote-candidate and rtcp addresses, candidate ports, ICE user and password, fingerprints and ssrc cname values are replaced by their masks from the given context, at session level and in every media section. Every other field, the number of attributes, media sections and their order are the same as in the original, which is itself unchanged.',
 ['inputs','histories'],'every session, with any number of attributes and media sections, and any prior history of the masking context',
 'Tests mask one small session and look at single fields; a forgotten field or section only shows when it is present.',
 [L,A,M,AN],[('AnonymizingClone impls',L),('AnonymizingClone impls',A),('AnonymizingClone for SdpMedia',M)],['SdpSession::masked_clone result'])
p('C13','Editing a session or media section changes exactly what was asked',
 'Adding puts the element last and keeps the others; setting an attribute removes all attributes of its kind and puts the new one last; removing a kind removes exactly its attributes; queries return exactly the attributes of the kind, in order, or the first one. Removing codecs clears the formats and exactly the rtpmap, fmtp, rtcp-fb, sctpmap and sctp-port attributes; adding a codec adds its payload type and its rtpmap last; adding a data channel sets the formats and its sctp attributes for the section\'s protocol; adding media appends one section with exactly the given contents; anything else is left unchanged.',
 ['inputs','histories'],'every starting session or section and every operation with every argument',
 'The operations are checked on one or two starting states; frame conditions are about everything else in every state.',
 [L,M],[('SdpMedia operations',M),('SdpSession operations',L)],['getters before and after an operation'])
p('C14','Address family always agrees with the address, and equality is lawful',
 'In every origin, connection and rtcp address the parser accepts, a literal IP address has the declared family, a mismatch is rejected, and a host name keeps the declared family. Equality of addresses is reflexive, symmetric and transitive: host names compare without regard to case, IP addresses by value, typed host names also by family, and a host name never equals an IP address.',
 ['inputs'],'every address text, every pair and triple of addresses',
 'Equivalence laws range over pairs and triples; the tests compare a handful of them.',
 [AD,N,L],[('TryFrom<(AddressType, &str)>, Address::from_str',AD),('PartialEq impls',AD),('parse_origin, parse_connection',L)],['parsed addresses','== on addresses'])
p('C15','Keyword tables agree between parsing, kinds and printing',
 'Every attribute has exactly one name: its kind prints as that name, that name (in any letter case) parses to that kind, and different kinds have different names; attributes that are flags print as their bare name and are refused when they come with a value. The keyword of every enumerated value (media, protocol, candidate type and transport, setup role, direction, ssrc-group and group semantics, hash, rtcp-fb type) likewise parses, in the letter cases the format allows, to the alternative that prints as it, and unknown keywords are refused or kept verbatim.',
 ['inputs'],'every attribute kind and keyword, every letter-case variant and every unknown name',
 'The tables are long and written three times (parse, kind, print); tests cover the entries they happen to use.',
 [A,M],[('SdpAttribute::from_str, SdpAttributeType, Display',A),('parse_media_token, parse_protocol_token',M)],['parsed and printed names'])
p('C16','Non-attribute lines are decoded field by field, losslessly',
 'For version, origin, session name, timing, bandwidth, connection and media lines, each token ends up in its own field with its exact value and order, and optional parts are absent exactly when the text omits them. Lines with missing, extra (where the count is fixed) or malformed tokens, an empty value, an unknown or overlong type, or no equals sign are rejected, and well-formed ones are accepted.',
 ['inputs'],'every line text',
 'Swapped or dropped tokens and wrong token counts show only for particular token shapes; tests use a few per line type.',
 [L,M,N],[('parse_sdp_line, parse_origin, parse_connection, parse_bandwidth, parse_timing, parse_version, parse_session',L),('parse_media',M)],['parse_sdp_line result'])
p('C17','JSON serialization mirrors the parsed session',
 'With serialization enabled, the serialized form of a session, and of a parse error, contains every field with its value.',
 ['inputs','configurations'],'every session and error, with the serialize feature on',
 'Only reachable with an optional feature the test run does not enable for content checks.',
 [L,A,M,AD,E],[('derive(Serialize)',A),('Serialize for SdpParserError',E)],['serializer calls'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
