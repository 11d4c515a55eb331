@note attribute kinds, their names and levels, keyword enumerations (attribute_type.rs)
@raw
// the kind of an attribute
pub closed spec fn kind(a: SdpAttribute) -> SdpAttributeType {
    match a {
        SdpAttribute::BundleOnly => SdpAttributeType::BundleOnly,
        SdpAttribute::Candidate(_) => SdpAttributeType::Candidate,
        SdpAttribute::DtlsMessage(_) => SdpAttributeType::DtlsMessage,
        SdpAttribute::EndOfCandidates => SdpAttributeType::EndOfCandidates,
        SdpAttribute::Extmap(_) => SdpAttributeType::Extmap,
        SdpAttribute::ExtmapAllowMixed => SdpAttributeType::ExtmapAllowMixed,
        SdpAttribute::Fingerprint(_) => SdpAttributeType::Fingerprint,
        SdpAttribute::Fmtp(_) => SdpAttributeType::Fmtp,
        SdpAttribute::FrameRate(_) => SdpAttributeType::FrameRate,
        SdpAttribute::Group(_) => SdpAttributeType::Group,
        SdpAttribute::IceLite => SdpAttributeType::IceLite,
        SdpAttribute::IceMismatch => SdpAttributeType::IceMismatch,
        SdpAttribute::IceOptions(_) => SdpAttributeType::IceOptions,
        SdpAttribute::IcePacing(_) => SdpAttributeType::IcePacing,
        SdpAttribute::IcePwd(_) => SdpAttributeType::IcePwd,
        SdpAttribute::IceUfrag(_) => SdpAttributeType::IceUfrag,
        SdpAttribute::Identity(_) => SdpAttributeType::Identity,
        SdpAttribute::ImageAttr(_) => SdpAttributeType::ImageAttr,
        SdpAttribute::Inactive => SdpAttributeType::Inactive,
        SdpAttribute::Label(_) => SdpAttributeType::Label,
        SdpAttribute::MaxMessageSize(_) => SdpAttributeType::MaxMessageSize,
        SdpAttribute::MaxPtime(_) => SdpAttributeType::MaxPtime,
        SdpAttribute::Mid(_) => SdpAttributeType::Mid,
        SdpAttribute::Msid(_) => SdpAttributeType::Msid,
        SdpAttribute::MsidSemantic(_) => SdpAttributeType::MsidSemantic,
        SdpAttribute::Ptime(_) => SdpAttributeType::Ptime,
        SdpAttribute::Rid(_) => SdpAttributeType::Rid,
        SdpAttribute::Recvonly => SdpAttributeType::Recvonly,
        SdpAttribute::RemoteCandidate(_) => SdpAttributeType::RemoteCandidate,
        SdpAttribute::Rtpmap(_) => SdpAttributeType::Rtpmap,
        SdpAttribute::Rtcp(_) => SdpAttributeType::Rtcp,
        SdpAttribute::Rtcpfb(_) => SdpAttributeType::Rtcpfb,
        SdpAttribute::RtcpMux => SdpAttributeType::RtcpMux,
        SdpAttribute::RtcpMuxOnly => SdpAttributeType::RtcpMuxOnly,
        SdpAttribute::RtcpRsize => SdpAttributeType::RtcpRsize,
        SdpAttribute::Sctpmap(_) => SdpAttributeType::Sctpmap,
        SdpAttribute::SctpPort(_) => SdpAttributeType::SctpPort,
        SdpAttribute::Sendonly => SdpAttributeType::Sendonly,
        SdpAttribute::Sendrecv => SdpAttributeType::Sendrecv,
        SdpAttribute::Setup(_) => SdpAttributeType::Setup,
        SdpAttribute::Simulcast(_) => SdpAttributeType::Simulcast,
        SdpAttribute::Ssrc(_) => SdpAttributeType::Ssrc,
        SdpAttribute::SsrcGroup(_, _) => SdpAttributeType::SsrcGroup,
    }
}
// the one name of each kind (the names of the RFCs)
spec fn kname(t: SdpAttributeType) -> Str {
    match t {
        SdpAttributeType::BundleOnly => "bundle-only"@,
        SdpAttributeType::Candidate => "candidate"@,
        SdpAttributeType::DtlsMessage => "dtls-message"@,
        SdpAttributeType::EndOfCandidates => "end-of-candidates"@,
        SdpAttributeType::Extmap => "extmap"@,
        SdpAttributeType::ExtmapAllowMixed => "extmap-allow-mixed"@,
        SdpAttributeType::Fingerprint => "fingerprint"@,
        SdpAttributeType::Fmtp => "fmtp"@,
        SdpAttributeType::FrameRate => "framerate"@,
        SdpAttributeType::Group => "group"@,
        SdpAttributeType::IceLite => "ice-lite"@,
        SdpAttributeType::IceMismatch => "ice-mismatch"@,
        SdpAttributeType::IceOptions => "ice-options"@,
        SdpAttributeType::IcePacing => "ice-pacing"@,
        SdpAttributeType::IcePwd => "ice-pwd"@,
        SdpAttributeType::IceUfrag => "ice-ufrag"@,
        SdpAttributeType::Identity => "identity"@,
        SdpAttributeType::ImageAttr => "imageattr"@,
        SdpAttributeType::Inactive => "inactive"@,
        SdpAttributeType::Label => "label"@,
        SdpAttributeType::MaxMessageSize => "max-message-size"@,
        SdpAttributeType::MaxPtime => "maxptime"@,
        SdpAttributeType::Mid => "mid"@,
        SdpAttributeType::Msid => "msid"@,
        SdpAttributeType::MsidSemantic => "msid-semantic"@,
        SdpAttributeType::Ptime => "ptime"@,
        SdpAttributeType::Rid => "rid"@,
        SdpAttributeType::Recvonly => "recvonly"@,
        SdpAttributeType::RemoteCandidate => "remote-candidates"@,
        SdpAttributeType::Rtpmap => "rtpmap"@,
        SdpAttributeType::Rtcp => "rtcp"@,
        SdpAttributeType::Rtcpfb => "rtcp-fb"@,
        SdpAttributeType::RtcpMux => "rtcp-mux"@,
        SdpAttributeType::RtcpMuxOnly => "rtcp-mux-only"@,
        SdpAttributeType::RtcpRsize => "rtcp-rsize"@,
        SdpAttributeType::Sctpmap => "sctpmap"@,
        SdpAttributeType::SctpPort => "sctp-port"@,
        SdpAttributeType::Sendonly => "sendonly"@,
        SdpAttributeType::Sendrecv => "sendrecv"@,
        SdpAttributeType::Setup => "setup"@,
        SdpAttributeType::Simulcast => "simulcast"@,
        SdpAttributeType::Ssrc => "ssrc"@,
        SdpAttributeType::SsrcGroup => "ssrc-group"@,
    }
}
spec fn is_flag(t: SdpAttributeType) -> bool { match t { SdpAttributeType::BundleOnly | SdpAttributeType::EndOfCandidates | SdpAttributeType::ExtmapAllowMixed | SdpAttributeType::IceLite | SdpAttributeType::IceMismatch | SdpAttributeType::Inactive | SdpAttributeType::Recvonly | SdpAttributeType::RtcpMux | SdpAttributeType::RtcpMuxOnly | SdpAttributeType::RtcpRsize | SdpAttributeType::Sendonly | SdpAttributeType::Sendrecv => true, _ => false } }
// levels (RFC 4566 and the RFC of each attribute)
spec fn session_ok(a: SdpAttribute) -> bool { !(a is BundleOnly || a is Candidate || a is Fmtp || a is FrameRate || a is IceMismatch || a is ImageAttr || a is Label || a is MaxMessageSize || a is MaxPtime || a is Mid || a is Msid || a is Ptime || a is Rid || a is RemoteCandidate || a is Rtpmap || a is Rtcp || a is Rtcpfb || a is RtcpMux || a is RtcpMuxOnly || a is RtcpRsize || a is Sctpmap || a is SctpPort || a is Simulcast || a is Ssrc || a is SsrcGroup) }
spec fn media_ok(a: SdpAttribute) -> bool { !(a is DtlsMessage || a is Group || a is IceLite || a is IcePacing || a is Identity || a is MsidSemantic) }
// names of different kinds differ: a numeric code read off the name determines the kind
spec fn kcode(s: Str) -> int { s.len() + 32 * (s[0] as int) + 4096 * ((if s.len() > 1 { s[1] } else { s[0] }) as int) + 524288 * (s[s.len() - 1] as int) + 67108864 * (s[s.len() - 2] as int) }
spec fn kdec(c: int) -> Option<SdpAttributeType> {
    if c == 7311678539 { Some(SdpAttributeType::BundleOnly) } else if c == 7837981801 { Some(SdpAttributeType::Candidate) } else if c == 6965644428 { Some(SdpAttributeType::DtlsMessage) } else if c == 6838742193 { Some(SdpAttributeType::EndOfCandidates) } else if c == 6568774822 { Some(SdpAttributeType::Extmap) } else if c == 6830918834 { Some(SdpAttributeType::ExtmapAllowMixed) } else if c == 7443225803 { Some(SdpAttributeType::Fingerprint) } else if c == 7843798212 { Some(SdpAttributeType::Fmtp) } else if c == 7838051529 { Some(SdpAttributeType::FrameRate) } else if c == 7910927589 { Some(SdpAttributeType::Group) } else if c == 7837990184 { Some(SdpAttributeType::IceLite) } else if c == 6698712364 { Some(SdpAttributeType::IceMismatch) } else if c == 7442677035 { Some(SdpAttributeType::IceOptions) } else if c == 7436385578 { Some(SdpAttributeType::IcePacing) } else if c == 8038792487 { Some(SdpAttributeType::IcePwd) } else if c == 6563970345 { Some(SdpAttributeType::IceUfrag) } else if c == 7848480040 { Some(SdpAttributeType::Identity) } else if c == 7844846889 { Some(SdpAttributeType::ImageAttr) } else if c == 7972252968 { Some(SdpAttributeType::Inactive) } else if c == 6835019141 { Some(SdpAttributeType::Label) } else if c == 8240635312 { Some(SdpAttributeType::MaxMessageSize) } else if c == 7368220072 { Some(SdpAttributeType::MaxPtime) } else if c == 7099293091 { Some(SdpAttributeType::Mid) } else if c == 7099334052 { Some(SdpAttributeType::Msid) } else if c == 7098809773 { Some(SdpAttributeType::MsidSemantic) } else if c == 7368297989 { Some(SdpAttributeType::Ptime) } else if c == 7099293251 { Some(SdpAttributeType::Rid) } else if c == 7311613512 { Some(SdpAttributeType::Recvonly) } else if c == 6838705745 { Some(SdpAttributeType::RemoteCandidate) } else if c == 6568758854 { Some(SdpAttributeType::Rtpmap) } else if c == 6702976580 { Some(SdpAttributeType::Rtcp) } else if c == 6896963143 { Some(SdpAttributeType::Rtcpfb) } else if c == 7915130440 { Some(SdpAttributeType::RtcpMux) } else if c == 7311674957 { Some(SdpAttributeType::RtcpMuxOnly) } else if c == 8240713290 { Some(SdpAttributeType::RtcpRsize) } else if c == 6568689255 { Some(SdpAttributeType::Sctpmap) } else if c == 7711637097 { Some(SdpAttributeType::SctpPort) } else if c == 7311613544 { Some(SdpAttributeType::Sendonly) } else if c == 6706060904 { Some(SdpAttributeType::Sendrecv) } else if c == 7910874725 { Some(SdpAttributeType::Setup) } else if c == 7778770537 { Some(SdpAttributeType::Simulcast) } else if c == 7702789732 { Some(SdpAttributeType::Ssrc) } else if c == 7910932074 { Some(SdpAttributeType::SsrcGroup) } else { None }
}
proof fn lemma_kcode(t: SdpAttributeType) ensures kdec(kcode(kname(t))) == Some(t), //# C15
{
    match t {
        SdpAttributeType::BundleOnly => { reveal_strlit("bundle-only"); assert(kcode("bundle-only"@) == 7311678539); }
        SdpAttributeType::Candidate => { reveal_strlit("candidate"); assert(kcode("candidate"@) == 7837981801); }
        SdpAttributeType::DtlsMessage => { reveal_strlit("dtls-message"); assert(kcode("dtls-message"@) == 6965644428); }
        SdpAttributeType::EndOfCandidates => { reveal_strlit("end-of-candidates"); assert(kcode("end-of-candidates"@) == 6838742193); }
        SdpAttributeType::Extmap => { reveal_strlit("extmap"); assert(kcode("extmap"@) == 6568774822); }
        SdpAttributeType::ExtmapAllowMixed => { reveal_strlit("extmap-allow-mixed"); assert(kcode("extmap-allow-mixed"@) == 6830918834); }
        SdpAttributeType::Fingerprint => { reveal_strlit("fingerprint"); assert(kcode("fingerprint"@) == 7443225803); }
        SdpAttributeType::Fmtp => { reveal_strlit("fmtp"); assert(kcode("fmtp"@) == 7843798212); }
        SdpAttributeType::FrameRate => { reveal_strlit("framerate"); assert(kcode("framerate"@) == 7838051529); }
        SdpAttributeType::Group => { reveal_strlit("group"); assert(kcode("group"@) == 7910927589); }
        SdpAttributeType::IceLite => { reveal_strlit("ice-lite"); assert(kcode("ice-lite"@) == 7837990184); }
        SdpAttributeType::IceMismatch => { reveal_strlit("ice-mismatch"); assert(kcode("ice-mismatch"@) == 6698712364); }
        SdpAttributeType::IceOptions => { reveal_strlit("ice-options"); assert(kcode("ice-options"@) == 7442677035); }
        SdpAttributeType::IcePacing => { reveal_strlit("ice-pacing"); assert(kcode("ice-pacing"@) == 7436385578); }
        SdpAttributeType::IcePwd => { reveal_strlit("ice-pwd"); assert(kcode("ice-pwd"@) == 8038792487); }
        SdpAttributeType::IceUfrag => { reveal_strlit("ice-ufrag"); assert(kcode("ice-ufrag"@) == 6563970345); }
        SdpAttributeType::Identity => { reveal_strlit("identity"); assert(kcode("identity"@) == 7848480040); }
        SdpAttributeType::ImageAttr => { reveal_strlit("imageattr"); assert(kcode("imageattr"@) == 7844846889); }
        SdpAttributeType::Inactive => { reveal_strlit("inactive"); assert(kcode("inactive"@) == 7972252968); }
        SdpAttributeType::Label => { reveal_strlit("label"); assert(kcode("label"@) == 6835019141); }
        SdpAttributeType::MaxMessageSize => { reveal_strlit("max-message-size"); assert(kcode("max-message-size"@) == 8240635312); }
        SdpAttributeType::MaxPtime => { reveal_strlit("maxptime"); assert(kcode("maxptime"@) == 7368220072); }
        SdpAttributeType::Mid => { reveal_strlit("mid"); assert(kcode("mid"@) == 7099293091); }
        SdpAttributeType::Msid => { reveal_strlit("msid"); assert(kcode("msid"@) == 7099334052); }
        SdpAttributeType::MsidSemantic => { reveal_strlit("msid-semantic"); assert(kcode("msid-semantic"@) == 7098809773); }
        SdpAttributeType::Ptime => { reveal_strlit("ptime"); assert(kcode("ptime"@) == 7368297989); }
        SdpAttributeType::Rid => { reveal_strlit("rid"); assert(kcode("rid"@) == 7099293251); }
        SdpAttributeType::Recvonly => { reveal_strlit("recvonly"); assert(kcode("recvonly"@) == 7311613512); }
        SdpAttributeType::RemoteCandidate => { reveal_strlit("remote-candidates"); assert(kcode("remote-candidates"@) == 6838705745); }
        SdpAttributeType::Rtpmap => { reveal_strlit("rtpmap"); assert(kcode("rtpmap"@) == 6568758854); }
        SdpAttributeType::Rtcp => { reveal_strlit("rtcp"); assert(kcode("rtcp"@) == 6702976580); }
        SdpAttributeType::Rtcpfb => { reveal_strlit("rtcp-fb"); assert(kcode("rtcp-fb"@) == 6896963143); }
        SdpAttributeType::RtcpMux => { reveal_strlit("rtcp-mux"); assert(kcode("rtcp-mux"@) == 7915130440); }
        SdpAttributeType::RtcpMuxOnly => { reveal_strlit("rtcp-mux-only"); assert(kcode("rtcp-mux-only"@) == 7311674957); }
        SdpAttributeType::RtcpRsize => { reveal_strlit("rtcp-rsize"); assert(kcode("rtcp-rsize"@) == 8240713290); }
        SdpAttributeType::Sctpmap => { reveal_strlit("sctpmap"); assert(kcode("sctpmap"@) == 6568689255); }
        SdpAttributeType::SctpPort => { reveal_strlit("sctp-port"); assert(kcode("sctp-port"@) == 7711637097); }
        SdpAttributeType::Sendonly => { reveal_strlit("sendonly"); assert(kcode("sendonly"@) == 7311613544); }
        SdpAttributeType::Sendrecv => { reveal_strlit("sendrecv"); assert(kcode("sendrecv"@) == 6706060904); }
        SdpAttributeType::Setup => { reveal_strlit("setup"); assert(kcode("setup"@) == 7910874725); }
        SdpAttributeType::Simulcast => { reveal_strlit("simulcast"); assert(kcode("simulcast"@) == 7778770537); }
        SdpAttributeType::Ssrc => { reveal_strlit("ssrc"); assert(kcode("ssrc"@) == 7702789732); }
        SdpAttributeType::SsrcGroup => { reveal_strlit("ssrc-group"); assert(kcode("ssrc-group"@) == 7910932074); }
    }
}
proof fn lemma_kname_inj() ensures forall|a: SdpAttributeType, b: SdpAttributeType| #[trigger] kname(a) == #[trigger] kname(b) ==> a == b, //# C15
{
    assert forall|a: SdpAttributeType, b: SdpAttributeType| #[trigger] kname(a) == #[trigger] kname(b) implies a == b by { lemma_kcode(a); lemma_kcode(b); }
}
@fn <SdpAttributeType as From<&SdpAttribute>>::from
@params other
@spec OUT impl<'a> FromSpecImpl<&'a SdpAttribute> for SdpAttributeType { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'a SdpAttribute) -> Self { kind(*v) } }
@ens C15,C13: r == kind(*other)
@fn <SdpAttributeType as fmt::Display>::fmt
@params self, f
@attr #noreveal
@spec spec fn disp(&self) -> Str { kname(*self) }
@ens C15,C09: final(f)@ == old(f)@ + kname(*self)
@fn SdpAttribute::allowed_at_session_level
@params self
@ens C03: r == session_ok(*self)
@fn SdpAttribute::allowed_at_media_level
@params self
@ens C03: r == media_ok(*self)
@raw
spec fn dirn_str(x: SdpSingleDirection) -> Str { match x { SdpSingleDirection::Send => "send"@, SdpSingleDirection::Recv => "recv"@, } }
@fn <SdpSingleDirection as fmt::Display>::fmt
@params self, f
@attr #noreveal
@spec spec fn disp(&self) -> Str { dirn_str(*self) }
@ens C15,C09: final(f)@ == old(f)@ + dirn_str(*self)
@raw
spec fn transp_str(x: SdpAttributeCandidateTransport) -> Str { match x { SdpAttributeCandidateTransport::Udp => "UDP"@, SdpAttributeCandidateTransport::Tcp => "TCP"@, } }
@fn <SdpAttributeCandidateTransport as fmt::Display>::fmt
@params self, f
@attr #noreveal
@spec spec fn disp(&self) -> Str { transp_str(*self) }
@ens C15,C09: final(f)@ == old(f)@ + transp_str(*self)
@raw
spec fn ctype_str(x: SdpAttributeCandidateType) -> Str { match x { SdpAttributeCandidateType::Host => "host"@, SdpAttributeCandidateType::Srflx => "srflx"@, SdpAttributeCandidateType::Prflx => "prflx"@, SdpAttributeCandidateType::Relay => "relay"@, } }
@fn <SdpAttributeCandidateType as fmt::Display>::fmt
@params self, f
@attr #noreveal
@spec spec fn disp(&self) -> Str { ctype_str(*self) }
@ens C15,C09: final(f)@ == old(f)@ + ctype_str(*self)
@raw
spec fn tcpt_str(x: SdpAttributeCandidateTcpType) -> Str { match x { SdpAttributeCandidateTcpType::Active => "active"@, SdpAttributeCandidateTcpType::Passive => "passive"@, SdpAttributeCandidateTcpType::Simultaneous => "so"@, } }
@fn <SdpAttributeCandidateTcpType as fmt::Display>::fmt
@params self, f
@attr #noreveal
@spec spec fn disp(&self) -> Str { tcpt_str(*self) }
@ens C15,C09: final(f)@ == old(f)@ + tcpt_str(*self)
@raw
spec fn fbt_str(x: SdpAttributeRtcpFbType) -> Str { match x { SdpAttributeRtcpFbType::Ack => "ack"@, SdpAttributeRtcpFbType::Ccm => "ccm"@, SdpAttributeRtcpFbType::Nack => "nack"@, SdpAttributeRtcpFbType::TrrInt => "trr-int"@, SdpAttributeRtcpFbType::Remb => "goog-remb"@, SdpAttributeRtcpFbType::TransCc => "transport-cc"@, } }
@fn <SdpAttributeRtcpFbType as fmt::Display>::fmt
@params self, f
@attr #noreveal
@spec spec fn disp(&self) -> Str { fbt_str(*self) }
@ens C15,C09: final(f)@ == old(f)@ + fbt_str(*self)
@raw
spec fn dir_str(x: SdpAttributeDirection) -> Str { match x { SdpAttributeDirection::Recvonly => "recvonly"@, SdpAttributeDirection::Sendonly => "sendonly"@, SdpAttributeDirection::Sendrecv => "sendrecv"@, } }
@fn <SdpAttributeDirection as fmt::Display>::fmt
@params self, f
@attr #noreveal
@spec spec fn disp(&self) -> Str { dir_str(*self) }
@ens C15,C09: final(f)@ == old(f)@ + dir_str(*self)
@raw
spec fn hash_str(x: SdpAttributeFingerprintHashType) -> Str { match x { SdpAttributeFingerprintHashType::Sha1 => "sha-1"@, SdpAttributeFingerprintHashType::Sha224 => "sha-224"@, SdpAttributeFingerprintHashType::Sha256 => "sha-256"@, SdpAttributeFingerprintHashType::Sha384 => "sha-384"@, SdpAttributeFingerprintHashType::Sha512 => "sha-512"@, } }
@fn <SdpAttributeFingerprintHashType as fmt::Display>::fmt
@params self, f
@attr #noreveal
@spec spec fn disp(&self) -> Str { hash_str(*self) }
@ens C15,C09: final(f)@ == old(f)@ + hash_str(*self)
@raw
spec fn gsem_str(x: SdpAttributeGroupSemantic) -> Str { match x { SdpAttributeGroupSemantic::LipSynchronization => "LS"@, SdpAttributeGroupSemantic::FlowIdentification => "FID"@, SdpAttributeGroupSemantic::SingleReservationFlow => "SRF"@, SdpAttributeGroupSemantic::AlternateNetworkAddressType => "ANAT"@, SdpAttributeGroupSemantic::ForwardErrorCorrection => "FEC"@, SdpAttributeGroupSemantic::DecodingDependency => "DDP"@, SdpAttributeGroupSemantic::Bundle => "BUNDLE"@, } }
@fn <SdpAttributeGroupSemantic as fmt::Display>::fmt
@params self, f
@attr #noreveal
@spec spec fn disp(&self) -> Str { gsem_str(*self) }
@ens C15,C09: final(f)@ == old(f)@ + gsem_str(*self)
@raw
spec fn setup_str(x: SdpAttributeSetup) -> Str { match x { SdpAttributeSetup::Active => "active"@, SdpAttributeSetup::Actpass => "actpass"@, SdpAttributeSetup::Holdconn => "holdconn"@, SdpAttributeSetup::Passive => "passive"@, } }
@fn <SdpAttributeSetup as fmt::Display>::fmt
@params self, f
@attr #noreveal
@spec spec fn disp(&self) -> Str { setup_str(*self) }
@ens C15,C09: final(f)@ == old(f)@ + setup_str(*self)
@raw
spec fn ssem_str(x: SdpSsrcGroupSemantic) -> Str { match x { SdpSsrcGroupSemantic::Duplication => "DUP"@, SdpSsrcGroupSemantic::FlowIdentification => "FID"@, SdpSsrcGroupSemantic::ForwardErrorCorrection => "FEC"@, SdpSsrcGroupSemantic::ForwardErrorCorrectionFr => "FEC-FR"@, SdpSsrcGroupSemantic::Sim => "SIM"@, } }
@fn <SdpSsrcGroupSemantic as fmt::Display>::fmt
@params self, f
@attr #noreveal
@spec spec fn disp(&self) -> Str { ssem_str(*self) }
@ens C15,C09: final(f)@ == old(f)@ + ssem_str(*self)
@raw
spec fn media_str(x: SdpMediaValue) -> Str { match x { SdpMediaValue::Audio => "audio"@, SdpMediaValue::Video => "video"@, SdpMediaValue::Application => "application"@, } }
@fn <SdpMediaValue as fmt::Display>::fmt
@params self, f
@attr #noreveal
@spec spec fn disp(&self) -> Str { media_str(*self) }
@ens C15,C09: final(f)@ == old(f)@ + media_str(*self)
@raw
spec fn proto_str(x: SdpProtocolValue) -> Str { match x { SdpProtocolValue::RtpAvp => "RTP/AVP"@, SdpProtocolValue::RtpAvpf => "RTP/AVPF"@, SdpProtocolValue::RtpSavp => "RTP/SAVP"@, SdpProtocolValue::RtpSavpf => "RTP/SAVPF"@, SdpProtocolValue::TcpDtlsRtpSavp => "TCP/DTLS/RTP/SAVP"@, SdpProtocolValue::TcpDtlsRtpSavpf => "TCP/DTLS/RTP/SAVPF"@, SdpProtocolValue::UdpTlsRtpSavp => "UDP/TLS/RTP/SAVP"@, SdpProtocolValue::UdpTlsRtpSavpf => "UDP/TLS/RTP/SAVPF"@, SdpProtocolValue::DtlsSctp => "DTLS/SCTP"@, SdpProtocolValue::UdpDtlsSctp => "UDP/DTLS/SCTP"@, SdpProtocolValue::TcpDtlsSctp => "TCP/DTLS/SCTP"@, } }
@fn <SdpProtocolValue as fmt::Display>::fmt
@params self, f
@attr #noreveal
@spec spec fn disp(&self) -> Str { proto_str(*self) }
@ens C15,C09: final(f)@ == old(f)@ + proto_str(*self)
