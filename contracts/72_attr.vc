@note the attribute parsers: what each value decodes to
@raw
// ---------------------------------------------------------------- small pieces
spec fn otext(o: Option<String>) -> Option<Str> { match o { Some(x) => Some(x@), None => None } }
spec fn ptype_ok(s: Str) -> bool { s == "*"@ || uint_ok(s, u8::MAX as int) }
spec fn ptype_is(s: Str, p: SdpAttributePayloadType) -> bool { match p { SdpAttributePayloadType::Wildcard => s == "*"@, SdpAttributePayloadType::PayloadType(n) => s != "*"@ && n == uint_val(s) } }
spec fn sdirn_ok(s: Str) -> bool { s == "send"@ || s == "recv"@ }
@fn string_or_empty
@params to_parse
@ens C08: r is Ok <==> to_parse@.len() > 0
@ens C08: r matches Ok(v) ==> v@ == to_parse@
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@fn parse_payload_type
@params to_parse
@ens C08,C04: r is Ok <==> ptype_ok(to_parse@)
@ens C08,C04: r matches Ok(v) ==> ptype_is(to_parse@, v)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@fn parse_single_direction
@params to_parse
@ens C08,C15: r is Ok <==> sdirn_ok(to_parse@)
@ens C08,C15: r matches Ok(v) ==> to_parse@ == dirn_str(v)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@raw
// ---------------------------------------------------------------- ssrc, ssrc-group
spec fn ssrc_ok(s: Str) -> bool { uint_ok(splitn_char(2, s, ' ')[0], u32::MAX as int) }
spec fn ssrc_is(s: Str, x: SdpAttributeSsrc) -> bool {
    let p = splitn_char(2, s, ' ');
    &&& x.id == uint_val(p[0])
    &&& if p.len() < 2 { x.attribute is None && x.value is None }
        else if p[1].contains(':') { let q = splitn_char(2, p[1], ':'); otext(x.attribute) == Some(q[0]) && otext(x.value) == Some(q[1]) }
        else { otext(x.attribute) == Some(p[1]) && x.value is None }
}
@fn SdpAttributeSsrc::new
@params id
@ens C08: r.id == id && r.attribute is None && r.value is None
@fn SdpAttributeSsrc::set_attribute
@params self, a
@lets v
@ens C08: final(self).id == old(self).id
@ens C08: a@.contains(':') ==> otext(final(self).attribute) == Some(splitn_char(2, a@, ':')[0]) && otext(final(self).value) == Some(splitn_char(2, a@, ':')[1])
@ens C08: !a@.contains(':') ==> otext(final(self).attribute) == Some(a@) && final(self).value == old(self).value
@at after:v: proof { lemma_split2(a@, ':'); }
@raw
proof fn lemma_split2(s: Str, c: char)
    ensures ({ let i = find_char(s, c); let p = splitn_char(2, s, c); &&& 0 <= i <= s.len() && (i < s.len() <==> s.contains(c))
        &&& p == (if s.contains(c) { seq![s.subrange(0, i), s.subrange(i + 1, s.len() as int)] } else { seq![s] }) })
{
    lemma_find_char(s, c); reveal_with_fuel(splitn_char, 3);
    let i = find_char(s, c);
    if s.contains(c) { assert(splitn_char(2, s, c) =~= seq![s.subrange(0, i), s.subrange(i + 1, s.len() as int)]); } else { assert(splitn_char(2, s, c) =~= seq![s]); }
}
@fn parse_ssrc
@params to_parse
@lets tokens, ssrc_id, ssrc
@ens C08: r is Ok <==> ssrc_ok(to_parse@)
@ens C08: r matches Ok(a) ==> a matches SdpAttribute::Ssrc(x) && ssrc_is(to_parse@, x)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@at start: proof { lemma_split2(to_parse@, ' '); }
@at after:tokens: let ghost t = rstrs(tokens@);
@raw
spec fn ssem_ok(s: Str) -> bool { let u = to_upper(s); u == "DUP"@ || u == "FID"@ || u == "FEC"@ || u == "FEC-FR"@ || u == "SIM"@ }
spec fn ssrc_group_ok(t: Seq<Str>) -> bool { t.len() >= 2 && ssem_ok(t[0]) && forall|i: int| 1 <= i < t.len() ==> ssrc_ok(#[trigger] t[i]) }
spec fn ssrc_group_is(t: Seq<Str>, m: SdpSsrcGroupSemantic, v: Seq<SdpAttributeSsrc>) -> bool {
    to_upper(t[0]) == ssem_str(m) && v.len() == t.len() - 1 && forall|i: int| 0 <= i < v.len() ==> ssrc_is(t[i + 1], #[trigger] v[i])
}
@fn parse_ssrc_group
@params to_parse
@lets tokens, semantics, ssrcs
@ens C08: r is Ok <==> ssrc_group_ok(split_ws(to_parse@))
@ens C08,C15: r matches Ok(a) ==> a matches SdpAttribute::SsrcGroup(m, v) && ssrc_group_is(split_ws(to_parse@), m, v@)
@ens C06: r matches Err(e) ==> (e is Unsupported <==> split_ws(to_parse@).len() > 0 && !ssem_ok(split_ws(to_parse@)[0]))
@at after:tokens: let ghost t = split_ws(to_parse@); let ghost v0 = tokens@;
@loop 0
@inv *: $src == v0.drop_first()
@inv *: ssrcs@.len() == $n && forall|i: int| 0 <= i < $n ==> ssrc_is(t[i + 1], #[trigger] ssrcs@[i])
@inv *: forall|i: int| 1 <= i < $n + 1 ==> ssrc_ok(#[trigger] t[i])
@at lb0: proof { assert($src0[$n0 - 1] == token); assert(v0[$n0 as int] == token); assert(token@ == t[$n0 as int]); }
@raw
// ---------------------------------------------------------------- sctp-port, ice-pacing, framerate, dtls-message
@fn parse_sctp_port
@params to_parse
@lets port
@ens C08,C04: r is Ok <==> uint_ok(to_parse@, u64::MAX as int) && uint_val(to_parse@) <= 65535
@ens C08,C04: r matches Ok(a) ==> a matches SdpAttribute::SctpPort(n) && n == uint_val(to_parse@)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@fn parse_ice_pacing
@params to_parse
@lets parsed
@ens C08,C04: r is Ok <==> uint_ok(to_parse@, u64::MAX as int) && uint_val(to_parse@) < 10000000000
@ens C08,C04: r matches Ok(a) ==> a matches SdpAttribute::IcePacing(n) && n == uint_val(to_parse@)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@raw
spec fn framerate_ok(s: Str) -> bool { f64_ok(s) && f64_of(s).is_finite_spec() && !le64(f64_of(s), 0.0f64) }
@fn parse_framerate
@params to_parse
@lets framerate
@ens C08,C04: r is Ok <==> framerate_ok(to_parse@)
@ens C08,C04: r matches Ok(a) ==> a matches SdpAttribute::FrameRate(x) && x == f64_of(to_parse@)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@raw
spec fn dtls_ok(p: Seq<Str>) -> bool { p.len() == 2 && (p[0] == "client"@ || p[0] == "server"@) }
spec fn dtls_is(p: Seq<Str>, m: SdpAttributeDtlsMessage) -> bool { match m { SdpAttributeDtlsMessage::Client(v) => p[0] == "client"@ && v@ == p[1], SdpAttributeDtlsMessage::Server(v) => p[0] == "server"@ && v@ == p[1] } }
@fn parse_dtls_message
@params to_parse
@lets tokens
@ens C08,C15: r is Ok <==> dtls_ok(split_char(to_parse@, ' '))
@ens C08,C15: r matches Ok(a) ==> a matches SdpAttribute::DtlsMessage(m) && dtls_is(split_char(to_parse@, ' '), m)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@at after:tokens: proof { assert(rstrs(tokens@) == split_char(to_parse@, ' ')); }
@raw
// ---------------------------------------------------------------- extmap
spec fn bytes_ok(s: Str) -> bool { !s.contains(0x00u8 as char) && !s.contains(0x0Au8 as char) && !s.contains(0x0Du8 as char) }
@fn valid_byte_string
@params input
@ens C08: r == bytes_ok(input@)
@raw
spec fn extdir_ok(s: Str) -> bool { let l = to_lower(s); l == "recvonly"@ || l == "sendonly"@ || l == "sendrecv"@ }
spec fn extmap_ok(t: Seq<Str>) -> bool {
    let p = splitn_char(2, t[0], '/');
    &&& t.len() >= 2 && uint_ok(p[0], u16::MAX as int)
    &&& p.len() > 1 ==> extdir_ok(p[1])
    &&& t.len() > 2 ==> bytes_ok(join(t.skip(2), " "@))
}
spec fn extmap_is(t: Seq<Str>, x: SdpAttributeExtmap) -> bool {
    let p = splitn_char(2, t[0], '/');
    &&& x.id == uint_val(p[0]) && x.url@ == t[1]
    &&& match x.direction { Some(d) => p.len() > 1 && to_lower(p[1]) == dir_str(d), None => p.len() == 1 }
    &&& match x.extension_attributes { Some(e) => t.len() > 2 && e@ == join(t.skip(2), " "@), None => t.len() == 2 }
}
@fn parse_extmap
@params to_parse
@lets tokens, id, direction, id_dir, extension_attributes, ext_string
@ens C08,C04: r is Ok <==> extmap_ok(split_ws(to_parse@))
@ens C08,C15: r matches Ok(a) ==> a matches SdpAttribute::Extmap(x) && extmap_is(split_ws(to_parse@), x)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@at after:tokens: let ghost t = split_ws(to_parse@); proof { assert(rstrs(tokens@) == t); if t.len() > 0 { lemma_split2(t[0], '/'); } }
@at after:id_dir: proof { assert(rstrs(id_dir@) == splitn_char(2, t[0], '/')); }
@at after:ext_string: proof { lemma_rstrs_skip(tokens@, 2); }
@raw
proof fn lemma_rstrs_skip(v: Seq<&str>, k: int) requires 0 <= k <= v.len() ensures rstrs(v.subrange(k, v.len() as int)) == rstrs(v).skip(k) { assert(rstrs(v.subrange(k, v.len() as int)) =~= rstrs(v).skip(k)); }
@raw
// ---------------------------------------------------------------- fingerprint
spec fn hash_len(h: SdpAttributeFingerprintHashType) -> nat { match h { SdpAttributeFingerprintHashType::Sha1 => 20, SdpAttributeFingerprintHashType::Sha224 => 28, SdpAttributeFingerprintHashType::Sha256 => 32, SdpAttributeFingerprintHashType::Sha384 => 48, SdpAttributeFingerprintHashType::Sha512 => 64 } }
spec fn hash_known(s: Str) -> bool { s == "sha-1"@ || s == "sha-224"@ || s == "sha-256"@ || s == "sha-384"@ || s == "sha-512"@ }
spec fn hash_of(s: Str) -> SdpAttributeFingerprintHashType { if s == "sha-1"@ { SdpAttributeFingerprintHashType::Sha1 } else if s == "sha-224"@ { SdpAttributeFingerprintHashType::Sha224 } else if s == "sha-256"@ { SdpAttributeFingerprintHashType::Sha256 } else if s == "sha-384"@ { SdpAttributeFingerprintHashType::Sha384 } else { SdpAttributeFingerprintHashType::Sha512 } }
spec fn octet_ok(s: Str) -> bool { blen(s) == 2 && hex_ok(s, u8::MAX as int) }
spec fn octets_ok(p: Seq<Str>, n: nat) -> bool { p.len() == n && forall|i: int| 0 <= i < p.len() ==> octet_ok(#[trigger] p[i]) }
spec fn octets_are(p: Seq<Str>, b: Seq<u8>) -> bool { b.len() == p.len() && forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]) as int == hex_val(p[i]) }
spec fn fp_ok(t: Seq<Str>) -> bool { t.len() == 2 && hash_known(t[0]) && octets_ok(split_char(t[1], ':'), hash_len(hash_of(t[0]))) }
spec fn fp_is(t: Seq<Str>, x: SdpAttributeFingerprint) -> bool { t[0] == hash_str(x.hash_algorithm) && x.fingerprint@.len() == hash_len(x.hash_algorithm) && octets_are(split_char(t[1], ':'), x.fingerprint@) }
@fn SdpAttributeFingerprintHashType::try_from_name
@params name
@ens C08,C15: r is Ok <==> hash_known(name@)
@ens C08,C15: r matches Ok(h) ==> h == hash_of(name@) && name@ == hash_str(h)
@ens C06: r matches Err(e) ==> e is Unsupported
@fn SdpAttributeFingerprintHashType::octet_count
@params self
@ens C04,C08: r == hash_len(*self)
@fn SdpAttributeFingerprintHashType::parse_octets
@params self, octets_string
@lets bytes
@ens C04,C08: r is Ok <==> octets_ok(split_char(octets_string@, ':'), hash_len(*self))
@ens C04,C08: r matches Ok(b) ==> octets_are(split_char(octets_string@, ':'), b@)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@at start: let ghost p = split_char(octets_string@, ':');
@cl 0 |byte_token: &str| -> (o: Result<u8, SdpParserInternalError>)
@clghost |x: &str, o: Result<u8, SdpParserInternalError>| octet_out(x@, o)
@clens octet_out(byte_token@, o)
@at after:bytes: proof { assert(octets_are(p, bytes@)); assert forall|i: int| 0 <= i < p.len() implies octet_ok(#[trigger] p[i]) by { let b = bytes@[i]; assert(b as int == hex_val(p[i]) && octet_ok(p[i])); } }
@raw
spec fn octet_out(s: Str, o: Result<u8, SdpParserInternalError>) -> bool { (o is Ok <==> octet_ok(s)) && (o matches Ok(v) ==> v == hex_val(s)) && (o matches Err(e) ==> !(e is Unsupported)) }
@fn <SdpAttributeFingerprint as TryFrom<(SdpAttributeFingerprintHashType,Vec<u8>)>>::try_from
@params parts
@spec spec fn tf_accepts(x: (SdpAttributeFingerprintHashType, Vec<u8>)) -> bool { x.1@.len() == hash_len(x.0) }
@spec spec fn tf_value(x: (SdpAttributeFingerprintHashType, Vec<u8>), v: Self) -> bool { v.hash_algorithm == x.0 && v.fingerprint == x.1 }
@spec spec fn tf_error(x: (SdpAttributeFingerprintHashType, Vec<u8>), e: Self::Error) -> bool { !(e is Unsupported) }
@ens C04,C08: r is Ok <==> parts.1@.len() == hash_len(parts.0)
@ens C04,C08: r matches Ok(v) ==> v.hash_algorithm == parts.0 && v.fingerprint == parts.1
@fn parse_fingerprint
@params to_parse
@lets tokens, hash_algorithm, bytes, fingerprint
@ens C04,C08: r is Ok <==> fp_ok(split_ws(to_parse@))
@ens C04,C08,C15: r matches Ok(a) ==> a matches SdpAttribute::Fingerprint(x) && fp_is(split_ws(to_parse@), x)
@ens C06: r matches Err(e) ==> (e is Unsupported <==> split_ws(to_parse@).len() == 2 && !hash_known(split_ws(to_parse@)[0]))
@at after:tokens: let ghost t = split_ws(to_parse@); proof { assert(rstrs(tokens@) == t); }
@raw
// ---------------------------------------------------------------- group, ice-options, msid, msid-semantic, setup, sctpmap
spec fn gsem_ok(s: Str) -> bool { let u = to_upper(s); u == "LS"@ || u == "FID"@ || u == "SRF"@ || u == "ANAT"@ || u == "FEC"@ || u == "DDP"@ || u == "BUNDLE"@ }
@fn parse_group
@params to_parse
@lets tokens, semantics
@ens C08,C15: r is Ok <==> split_ws(to_parse@).len() > 0 && gsem_ok(split_ws(to_parse@)[0])
@ens C08,C15: r matches Ok(a) ==> a matches SdpAttribute::Group(g) && to_upper(split_ws(to_parse@)[0]) == gsem_str(g.semantics) && strs(g.tags@) == split_ws(to_parse@).skip(1)
@ens C06: r matches Err(e) ==> (e is Unsupported <==> split_ws(to_parse@).len() > 0)
@at after:tokens: let ghost t = split_ws(to_parse@); let ghost v0 = tokens@;
@at post: proof { if r is Ok { assert(strs(r->Ok_0->Group_0.tags@) =~= t.skip(1)); } }
@fn parse_ice_options
@params to_parse
@ens C08: r is Ok <==> to_parse@.len() > 0
@ens C08: r matches Ok(a) ==> a matches SdpAttribute::IceOptions(v) && strs(v@) == split_ws(to_parse@)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@at post: proof { if r is Ok { assert(strs(r->Ok_0->IceOptions_0@) =~= split_ws(to_parse@)); } }
@fn parse_msid
@params to_parse
@lets tokens, id, appdata
@ens C08: r is Ok <==> split_ws(to_parse@).len() > 0
@ens C08: r matches Ok(a) ==> a matches SdpAttribute::Msid(m) && msid_is(split_ws(to_parse@), m)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@cl 0 |x: &str| -> (o: String)
@clens o@ == x@
@at after:tokens: let ghost t = split_ws(to_parse@); let ghost v0 = tokens@;
@raw
spec fn msid_is(t: Seq<Str>, m: SdpAttributeMsid) -> bool { m.id@ == t[0] && match m.appdata { Some(a) => t.len() > 1 && a@ == t[1], None => t.len() == 1 } }
@fn parse_msid_semantic
@params to_parse
@lets tokens, semantic
@ens C08: r is Ok <==> split_ws(to_parse@).len() > 0
@ens C08: r matches Ok(a) ==> a matches SdpAttribute::MsidSemantic(m) && m.semantic@ == split_ws(to_parse@)[0] && strs(m.msids@) == split_ws(to_parse@).skip(1)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@at after:tokens: let ghost t = split_ws(to_parse@); proof { assert(rstrs(tokens@) == t); }
@at post: proof { if r is Ok { assert(strs(r->Ok_0->MsidSemantic_0.msids@) =~= t.skip(1)); } }
@raw
spec fn setup_ok(s: Str) -> bool { let l = to_lower(s); l == "active"@ || l == "actpass"@ || l == "holdconn"@ || l == "passive"@ }
@fn parse_setup
@params to_parse
@ens C08,C15: r is Ok <==> setup_ok(to_parse@)
@ens C08,C15: r matches Ok(a) ==> a matches SdpAttribute::Setup(x) && to_lower(to_parse@) == setup_str(x)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@raw
spec fn sctpmap_ok(t: Seq<Str>) -> bool { t.len() == 3 && uint_ok(t[0], u16::MAX as int) && to_lower(t[1]) == "webrtc-datachannel"@ && uint_ok(t[2], u32::MAX as int) }
@fn parse_sctpmap
@params to_parse
@lets tokens, port
@ens C08,C04: r is Ok <==> sctpmap_ok(split_ws(to_parse@))
@ens C08,C04: r matches Ok(a) ==> a matches SdpAttribute::Sctpmap(x) && x.port == uint_val(split_ws(to_parse@)[0]) && x.channels == uint_val(split_ws(to_parse@)[2])
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@at after:tokens: let ghost t = split_ws(to_parse@); proof { assert(rstrs(tokens@) == t); }
@raw
// ---------------------------------------------------------------- remote-candidates, rtpmap, rtcp
spec fn rcand_ok(t: Seq<Str>) -> bool { t.len() >= 3 && uint_ok(t[0], u32::MAX as int) && addr_ok(t[1]) && uint_ok(t[2], u32::MAX as int) && uint_val(t[2]) <= 65535 }
spec fn rcand_is(t: Seq<Str>, x: SdpAttributeRemoteCandidate) -> bool { x.component == uint_val(t[0]) && x.address == addr_of(t[1]) && x.port == uint_val(t[2]) && x.port <= 65535 }
@fn parse_remote_candidates
@params to_parse
@lets tokens, component, address, port
@ens C08,C04: r is Ok <==> rcand_ok(split_ws(to_parse@))
@ens C08,C04: r matches Ok(a) ==> a matches SdpAttribute::RemoteCandidate(x) && rcand_is(split_ws(to_parse@), x)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@at after:tokens: let ghost t = split_ws(to_parse@); let ghost v0 = tokens@;
@raw
spec fn rtpmap_ok(t: Seq<Str>) -> bool {
    let p = split_char(t[1], '/');
    t.len() >= 2 && uint_ok(t[0], u8::MAX as int) && uint_val(t[0]) <= 127 && p.len() >= 2 && uint_ok(p[1], u32::MAX as int) && (p.len() > 2 ==> uint_ok(p[2], u32::MAX as int))
}
spec fn rtpmap_is(t: Seq<Str>, x: SdpAttributeRtpmap) -> bool {
    let p = split_char(t[1], '/');
    x.payload_type == uint_val(t[0]) && x.payload_type <= 127 && x.codec_name@ == p[0] && x.frequency == uint_val(p[1]) && match x.channels { Some(c) => p.len() > 2 && c == uint_val(p[2]), None => p.len() == 2 }
}
@fn SdpAttributeRtpmap::new
@params payload_type, codec_name, frequency
@ens C08: r.payload_type == payload_type && r.codec_name == codec_name && r.frequency == frequency && r.channels is None
@fn SdpAttributeRtpmap::set_channels
@params self, c
@ens C08: *final(self) == (SdpAttributeRtpmap { channels: Some(c), ..*old(self) })
@fn parse_rtpmap
@params to_parse
@lets tokens, payload_type, pt, parameters, name, frequency, rtpmap
@ens C08,C04: r is Ok <==> rtpmap_ok(split_ws(to_parse@))
@ens C08,C04: r matches Ok(a) ==> a matches SdpAttribute::Rtpmap(x) && rtpmap_is(split_ws(to_parse@), x)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@at after:tokens: let ghost t = split_ws(to_parse@); let ghost v0 = tokens@;
@at after:parameters: let ghost p = split_char(t[1], '/'); let ghost p0 = parameters@; proof { assert(rstrs(p0) == p); lemma_split_len(t[1], '/'); }
@raw
spec fn rtcp_ok(t: Seq<Str>) -> bool {
    t.len() >= 1 && uint_ok(t[0], u16::MAX as int) && (t.len() > 1 ==> t.len() >= 4 && to_upper(t[1]) == "IN"@ && rtcp_aty_ok(t[2]) && typed_ok(rtcp_aty_of(t[2]), t[3]))
}
spec fn rtcp_aty_ok(s: Str) -> bool { to_upper(s) == "IP4"@ || to_upper(s) == "IP6"@ }
spec fn rtcp_aty_of(s: Str) -> AddressType { if to_upper(s) == "IP4"@ { AddressType::IpV4 } else { AddressType::IpV6 } }
spec fn rtcp_is(t: Seq<Str>, x: SdpAttributeRtcp) -> bool {
    x.port == uint_val(t[0]) && match x.unicast_addr { Some(a) => t.len() > 1 && a == typed_of(rtcp_aty_of(t[2]), t[3]) && typed_family(a) == rtcp_aty_of(t[2]), None => t.len() == 1 }
}
@fn SdpAttributeRtcp::new
@params port
@ens C08: r.port == port && r.unicast_addr is None
@fn SdpAttributeRtcp::set_addr
@params self, addr
@ens C08: *final(self) == (SdpAttributeRtcp { unicast_addr: Some(addr), ..*old(self) })
@fn parse_rtcp
@params to_parse
@lets tokens, port, rtcp, addrtype, addr
@ens C08,C04,C14: r is Ok <==> rtcp_ok(split_ws(to_parse@))
@ens C08,C04,C14: r matches Ok(a) ==> a matches SdpAttribute::Rtcp(x) && rtcp_is(split_ws(to_parse@), x)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@at after:tokens: let ghost t = split_ws(to_parse@); let ghost v0 = tokens@;
@raw
// ---------------------------------------------------------------- rtcp-fb
spec fn fbt_ok(s: Str) -> bool { s == "ack"@ || s == "ccm"@ || s == "nack"@ || s == "trr-int"@ || s == "goog-remb"@ || s == "transport-cc"@ }
spec fn fb_param_ok(ty: Str, n: int, s: Str) -> bool {
    if ty == "ack"@ { n > 2 && (s == "rpsi"@ || s == "app"@) }
    else if ty == "ccm"@ { n > 2 ==> s == "fir"@ || s == "tmmbr"@ || s == "tstr"@ || s == "vbcm"@ }
    else if ty == "nack"@ { n > 2 ==> s == "sli"@ || s == "pli"@ || s == "rpsi"@ || s == "app"@ }
    else if ty == "trr-int"@ { n > 2 && uint_ok(s, u32::MAX as int) }
    else { n <= 2 }
}
spec fn fb_ok(p: Seq<Str>) -> bool { p.len() >= 2 && fbt_ok(p[1]) && fb_param_ok(p[1], p.len() as int, p[2]) && ptype_ok(p[0]) }
spec fn fb_is(p: Seq<Str>, x: SdpAttributeRtcpFb) -> bool {
    &&& ptype_is(p[0], x.payload_type) && p[1] == fbt_str(x.feedback_type)
    &&& x.parameter@ == (if p.len() > 2 { p[2] } else { ""@ })
    &&& x.extra@ == (if p.len() > 3 { p[3] } else { ""@ })
}
@fn parse_rtcp_fb
@params to_parse
@lets tokens, feedback_type, parameter
@ens C08,C15: r is Ok <==> fb_ok(splitn_char(4, to_parse@, ' '))
@ens C08,C15: r matches Ok(a) ==> a matches SdpAttribute::Rtcpfb(x) && fb_is(splitn_char(4, to_parse@, ' '), x)
@ens C06: r matches Err(e) ==> if e is Unsupported { splitn_char(4, to_parse@, ' ').len() >= 2 && !fb_ok(splitn_char(4, to_parse@, ' ')) } else { splitn_char(4, to_parse@, ' ').len() < 2 || fbt_ok(splitn_char(4, to_parse@, ' ')[1]) }
@at after:tokens: let ghost t = splitn_char(4, to_parse@, ' '); proof { assert(rstrs(tokens@) == t); lemma_splitn_len(4, to_parse@, ' '); }
