@note an attribute line's value: name, optional value, and the parser of that attribute (attribute_type.rs)
@raw
spec fn attr_name(v: Str) -> Str { to_lower(splitn_char(2, v, ':')[0]) }
spec fn attr_has_val(v: Str) -> bool { v.contains(':') }
spec fn attr_val(v: Str) -> Str { if v.contains(':') { trim(splitn_char(2, v, ':')[1]) } else { Seq::empty() } }
// the kind a name denotes
spec fn kfind(n: Str) -> Option<SdpAttributeType> { match kdec(kcode(n)) { Some(t) => if kname(t) == n { Some(t) } else { None }, None => None } }
proof fn lemma_kfind(n: Str) //# C08,C15,C16
    ensures kfind(n) matches Some(t) ==> kname(t) == n, forall|t: SdpAttributeType| #[trigger] kname(t) == n ==> kfind(n) == Some(t)
{
    assert forall|t: SdpAttributeType| #[trigger] kname(t) == n implies kfind(n) == Some(t) by { lemma_kcode(t); }
}
proof fn lemma_knames() //# C08,C15,C16
    ensures kname(SdpAttributeType::BundleOnly) == "bundle-only"@, kname(SdpAttributeType::Candidate) == "candidate"@, kname(SdpAttributeType::DtlsMessage) == "dtls-message"@, kname(SdpAttributeType::EndOfCandidates) == "end-of-candidates"@, kname(SdpAttributeType::Extmap) == "extmap"@, kname(SdpAttributeType::ExtmapAllowMixed) == "extmap-allow-mixed"@, kname(SdpAttributeType::Fingerprint) == "fingerprint"@, kname(SdpAttributeType::Fmtp) == "fmtp"@, kname(SdpAttributeType::FrameRate) == "framerate"@, kname(SdpAttributeType::Group) == "group"@, kname(SdpAttributeType::IceLite) == "ice-lite"@, kname(SdpAttributeType::IceMismatch) == "ice-mismatch"@, kname(SdpAttributeType::IceOptions) == "ice-options"@, kname(SdpAttributeType::IcePacing) == "ice-pacing"@, kname(SdpAttributeType::IcePwd) == "ice-pwd"@, kname(SdpAttributeType::IceUfrag) == "ice-ufrag"@, kname(SdpAttributeType::Identity) == "identity"@, kname(SdpAttributeType::ImageAttr) == "imageattr"@, kname(SdpAttributeType::Inactive) == "inactive"@, kname(SdpAttributeType::Label) == "label"@, kname(SdpAttributeType::MaxMessageSize) == "max-message-size"@, kname(SdpAttributeType::MaxPtime) == "maxptime"@, kname(SdpAttributeType::Mid) == "mid"@, kname(SdpAttributeType::Msid) == "msid"@, kname(SdpAttributeType::MsidSemantic) == "msid-semantic"@, kname(SdpAttributeType::Ptime) == "ptime"@, kname(SdpAttributeType::Rid) == "rid"@, kname(SdpAttributeType::Recvonly) == "recvonly"@, kname(SdpAttributeType::RemoteCandidate) == "remote-candidates"@, kname(SdpAttributeType::Rtpmap) == "rtpmap"@, kname(SdpAttributeType::Rtcp) == "rtcp"@, kname(SdpAttributeType::Rtcpfb) == "rtcp-fb"@, kname(SdpAttributeType::RtcpMux) == "rtcp-mux"@, kname(SdpAttributeType::RtcpMuxOnly) == "rtcp-mux-only"@, kname(SdpAttributeType::RtcpRsize) == "rtcp-rsize"@, kname(SdpAttributeType::Sctpmap) == "sctpmap"@, kname(SdpAttributeType::SctpPort) == "sctp-port"@, kname(SdpAttributeType::Sendonly) == "sendonly"@, kname(SdpAttributeType::Sendrecv) == "sendrecv"@, kname(SdpAttributeType::Setup) == "setup"@, kname(SdpAttributeType::Simulcast) == "simulcast"@, kname(SdpAttributeType::Ssrc) == "ssrc"@, kname(SdpAttributeType::SsrcGroup) == "ssrc-group"@
{ }
proof fn lemma_trim_end(s: Str) //# C16
    ensures trim_end(trim_end(s)) == trim_end(s), trim_end(s).len() <= s.len(), s.len() > 0 && !is_ws(s[0]) ==> trim_end(s).len() > 0 && trim_end(s)[0] == s[0]
    decreases s.len()
{ if s.len() > 0 && is_ws(s.last()) { lemma_trim_end(s.drop_last()); } }
proof fn lemma_trim_idem(s: Str) ensures trim(trim(s)) == trim(s) //# C16
{ let t = trim_start(s); lemma_trim_start_head(s); lemma_trim_end(t); if t.len() == 0 { reveal_with_fuel(trim_start, 2); } }
// the value grammar of each kind
spec fn val_ok(t: SdpAttributeType, v: Str) -> bool {
    match t {
        SdpAttributeType::BundleOnly | SdpAttributeType::EndOfCandidates | SdpAttributeType::ExtmapAllowMixed | SdpAttributeType::IceLite | SdpAttributeType::IceMismatch | SdpAttributeType::Inactive | SdpAttributeType::Recvonly | SdpAttributeType::RtcpMux | SdpAttributeType::RtcpMuxOnly | SdpAttributeType::RtcpRsize | SdpAttributeType::Sendonly | SdpAttributeType::Sendrecv => true,
        SdpAttributeType::IceOptions | SdpAttributeType::IcePwd | SdpAttributeType::IceUfrag | SdpAttributeType::Identity | SdpAttributeType::Label | SdpAttributeType::Mid => v.len() > 0,
        SdpAttributeType::MaxMessageSize | SdpAttributeType::MaxPtime | SdpAttributeType::Ptime => uint_ok(v, u64::MAX as int),
        SdpAttributeType::Msid | SdpAttributeType::MsidSemantic => split_ws(v).len() > 0,
        SdpAttributeType::Candidate => cand_ok(split_ws(v)),
        SdpAttributeType::DtlsMessage => dtls_ok(split_char(v, ' ')),
        SdpAttributeType::Extmap => extmap_ok(split_ws(v)),
        SdpAttributeType::Fingerprint => fp_ok(split_ws(v)),
        SdpAttributeType::Fmtp => fmtp_ok(splitn_char(2, v, ' ')),
        SdpAttributeType::FrameRate => framerate_ok(v),
        SdpAttributeType::Group => split_ws(v).len() > 0 && gsem_ok(split_ws(v)[0]),
        SdpAttributeType::IcePacing => uint_ok(v, u64::MAX as int) && uint_val(v) < 10000000000,
        SdpAttributeType::ImageAttr => imageattr_ok(ia_tokens(v, ' ')),
        SdpAttributeType::Rid => rid_ok(splitn_char(3, v, ' ')),
        SdpAttributeType::RemoteCandidate => rcand_ok(split_ws(v)),
        SdpAttributeType::Rtpmap => rtpmap_ok(split_ws(v)),
        SdpAttributeType::Rtcp => rtcp_ok(split_ws(v)),
        SdpAttributeType::Rtcpfb => fb_ok(splitn_char(4, v, ' ')),
        SdpAttributeType::Sctpmap => sctpmap_ok(split_ws(v)),
        SdpAttributeType::SctpPort => uint_ok(v, u64::MAX as int) && uint_val(v) <= 65535,
        SdpAttributeType::Setup => setup_ok(v),
        SdpAttributeType::Simulcast => simulcast_ok(split_ws(v)),
        SdpAttributeType::Ssrc => ssrc_ok(v),
        SdpAttributeType::SsrcGroup => ssrc_group_ok(split_ws(v)),
    }
}
// the values an attribute has when it was read from v
spec fn val_is(a: SdpAttribute, v: Str) -> bool {
    let t = split_ws(v);
    match a {
        SdpAttribute::BundleOnly | SdpAttribute::EndOfCandidates | SdpAttribute::ExtmapAllowMixed | SdpAttribute::IceLite | SdpAttribute::IceMismatch | SdpAttribute::Inactive | SdpAttribute::Recvonly | SdpAttribute::RtcpMux | SdpAttribute::RtcpMuxOnly | SdpAttribute::RtcpRsize | SdpAttribute::Sendonly | SdpAttribute::Sendrecv => true,
        SdpAttribute::IcePwd(x) => x@ == v,
        SdpAttribute::IceUfrag(x) => x@ == v,
        SdpAttribute::Identity(x) => x@ == v,
        SdpAttribute::Label(x) => x@ == v,
        SdpAttribute::Mid(x) => x@ == v,
        SdpAttribute::IceOptions(x) => strs(x@) == t,
        SdpAttribute::MaxMessageSize(x) => x == uint_val(v),
        SdpAttribute::MaxPtime(x) => x == uint_val(v),
        SdpAttribute::Ptime(x) => x == uint_val(v),
        SdpAttribute::Msid(x) => msid_is(t, x),
        SdpAttribute::MsidSemantic(x) => x.semantic@ == t[0] && strs(x.msids@) == t.skip(1),
        SdpAttribute::Candidate(x) => cand_is(t, x),
        SdpAttribute::DtlsMessage(x) => dtls_is(split_char(v, ' '), x),
        SdpAttribute::Extmap(x) => extmap_is(t, x),
        SdpAttribute::Fingerprint(x) => fp_is(t, x),
        SdpAttribute::Fmtp(x) => fmtp_is(splitn_char(2, v, ' '), x),
        SdpAttribute::FrameRate(x) => x == f64_of(v),
        SdpAttribute::Group(x) => to_upper(t[0]) == gsem_str(x.semantics) && strs(x.tags@) == t.skip(1),
        SdpAttribute::IcePacing(x) => x == uint_val(v),
        SdpAttribute::ImageAttr(x) => imageattr_is(ia_tokens(v, ' '), x),
        SdpAttribute::Rid(x) => rid_is(splitn_char(3, v, ' '), x),
        SdpAttribute::RemoteCandidate(x) => rcand_is(t, x),
        SdpAttribute::Rtpmap(x) => rtpmap_is(t, x),
        SdpAttribute::Rtcp(x) => rtcp_is(t, x),
        SdpAttribute::Rtcpfb(x) => fb_is(splitn_char(4, v, ' '), x),
        SdpAttribute::Sctpmap(x) => x.port == uint_val(t[0]) && x.channels == uint_val(t[2]),
        SdpAttribute::SctpPort(x) => x == uint_val(v),
        SdpAttribute::Setup(x) => to_lower(v) == setup_str(x),
        SdpAttribute::Simulcast(x) => simulcast_is(t, x),
        SdpAttribute::Ssrc(x) => ssrc_is(v, x),
        SdpAttribute::SsrcGroup(m, s) => ssrc_group_is(t, m, s@),
    }
}
spec fn attr_ok(v: Str) -> bool { match kfind(attr_name(v)) { Some(t) => (is_flag(t) ==> !attr_has_val(v)) && val_ok(t, attr_val(v)), None => false } }
spec fn attr_is(v: Str, a: SdpAttribute) -> bool { kfind(attr_name(v)) == Some(kind(a)) && val_is(a, attr_val(v)) }
// a value that names something this library does not implement
spec fn val_unknown(t: SdpAttributeType, v: Str) -> bool {
    match t {
        SdpAttributeType::Fingerprint => split_ws(v).len() == 2 && !hash_known(split_ws(v)[0]),
        SdpAttributeType::Group => split_ws(v).len() > 0 && !gsem_ok(split_ws(v)[0]),
        SdpAttributeType::SsrcGroup => split_ws(v).len() > 0 && !ssem_ok(split_ws(v)[0]),
        SdpAttributeType::Rtcpfb => splitn_char(4, v, ' ').len() >= 2 && !fbt_ok(splitn_char(4, v, ' ')[1]),
        _ => false,
    }
}
// a value outside the grammar that may be reported either way
spec fn val_loose(t: SdpAttributeType, v: Str) -> bool {
    match t {
        SdpAttributeType::Candidate => cand_head_ok(split_ws(v)) && split_ws(v).len() % 2 == 1,
        SdpAttributeType::Fmtp => splitn_char(2, v, ' ').len() != 2,
        SdpAttributeType::Rtcpfb => splitn_char(4, v, ' ').len() >= 2 && !fb_ok(splitn_char(4, v, ' ')),
        _ => false,
    }
}
spec fn attr_unknown(v: Str) -> bool { match kfind(attr_name(v)) { Some(t) => !is_flag(t) && val_unknown(t, attr_val(v)), None => true } }
spec fn attr_malformed(v: Str) -> bool { !attr_ok(v) && match kfind(attr_name(v)) { Some(t) => !val_unknown(t, attr_val(v)) && !val_loose(t, attr_val(v)), None => false } }
@fn <SdpAttribute as FromStr>::from_str
@params line
@lets tokens, name, val
@attr #noreveal
@attr #[verifier::rlimit(200)]
@attr #[verifier::spinoff_prover]
@spec spec fn accepts(s: Str) -> bool { attr_ok(s) }
@spec spec fn value(s: Str, v: Self) -> bool { attr_is(s, v) }
@spec spec fn error(s: Str, e: Self::Err) -> bool { if e is Unsupported { !attr_malformed(s) } else { !attr_unknown(s) } }
@ens C08,C15,C16: r is Ok <==> attr_ok(line@)
@ens C08,C04,C15,C16: r matches Ok(a) ==> attr_is(line@, a)
@ens C06: r matches Err(e) ==> if e is Unsupported { !attr_malformed(line@) } else { !attr_unknown(line@) }
@at after:tokens: proof { lemma_split2(line@, ':'); assert(rstrs(tokens@) == splitn_char(2, line@, ':')); assert(rstrs(tokens@).len() == tokens@.len()); assert(rstrs(tokens@)[0] == tokens@[0]@); if line@.contains(':') { assert(rstrs(tokens@)[1] == tokens@[1]@); } }
@at after:val: proof { assert(name@ == attr_name(line@)); reveal_strlit(""); assert(val@ =~= attr_val(line@)); lemma_kfind(name@); lemma_knames(); }
@fn parse_attribute
@params value
@ens C08,C16: r is Ok <==> attr_ok(trim(value@))
@ens C08,C16: r matches Ok(x) ==> x matches SdpType::Attribute(a) && attr_is(trim(value@), a)
@ens C06: r matches Err(e) ==> if e is Unsupported { !attr_malformed(trim(value@)) } else { !attr_unknown(trim(value@)) }
@raw
