@note one line, and the lines that are not attributes
@raw
// ---------------------------------------------------------------- media line
spec fn mvalue_kw(m: SdpMediaValue) -> Str { match m { SdpMediaValue::Audio => "audio"@, SdpMediaValue::Video => "video"@, SdpMediaValue::Application => "application"@ } }
spec fn mvalue_ok(s: Str) -> bool { exists|m: SdpMediaValue| to_lower(s) == #[trigger] mvalue_kw(m) }
spec fn proto_kw(p: SdpProtocolValue) -> Str {
    match p {
        SdpProtocolValue::RtpAvp => "RTP/AVP"@, SdpProtocolValue::RtpAvpf => "RTP/AVPF"@, SdpProtocolValue::RtpSavp => "RTP/SAVP"@, SdpProtocolValue::RtpSavpf => "RTP/SAVPF"@,
        SdpProtocolValue::TcpDtlsRtpSavp => "TCP/DTLS/RTP/SAVP"@, SdpProtocolValue::TcpDtlsRtpSavpf => "TCP/DTLS/RTP/SAVPF"@,
        SdpProtocolValue::UdpTlsRtpSavp => "UDP/TLS/RTP/SAVP"@, SdpProtocolValue::UdpTlsRtpSavpf => "UDP/TLS/RTP/SAVPF"@,
        SdpProtocolValue::DtlsSctp => "DTLS/SCTP"@, SdpProtocolValue::UdpDtlsSctp => "UDP/DTLS/SCTP"@, SdpProtocolValue::TcpDtlsSctp => "TCP/DTLS/SCTP"@,
    }
}
spec fn proto_ok(s: Str) -> bool { exists|p: SdpProtocolValue| to_upper(s) == #[trigger] proto_kw(p) }
@fn parse_media_token
@params value
@ens C15,C16: r matches Ok(m) ==> to_lower(value@) == mvalue_kw(m)
@ens C15,C16: r is Ok <==> mvalue_ok(value@)
@ens C06: r matches Err(e) ==> e is Unsupported
@at start: proof { assert forall|m: SdpMediaValue| true implies #[trigger] mvalue_kw(m) == "audio"@ || mvalue_kw(m) == "video"@ || mvalue_kw(m) == "application"@ by {}
    assert(mvalue_kw(SdpMediaValue::Audio) == "audio"@ && mvalue_kw(SdpMediaValue::Video) == "video"@ && mvalue_kw(SdpMediaValue::Application) == "application"@); }
@fn parse_protocol_token
@params value
@ens C15,C16: r matches Ok(p) ==> to_upper(value@) == proto_kw(p)
@ens C15,C16: r is Ok <==> proto_ok(value@)
@ens C06: r matches Err(e) ==> e is Unsupported
@at start: proof { lemma_protos(to_upper(value@)); }
@raw
proof fn lemma_protos(u: Str)
    ensures (exists|p: SdpProtocolValue| u == #[trigger] proto_kw(p)) <==> u == "RTP/AVP"@ || u == "RTP/AVPF"@ || u == "RTP/SAVP"@ || u == "RTP/SAVPF"@ || u == "TCP/DTLS/RTP/SAVP"@ || u == "TCP/DTLS/RTP/SAVPF"@
        || u == "UDP/TLS/RTP/SAVP"@ || u == "UDP/TLS/RTP/SAVPF"@ || u == "DTLS/SCTP"@ || u == "UDP/DTLS/SCTP"@ || u == "TCP/DTLS/SCTP"@
{
    assert(proto_kw(SdpProtocolValue::RtpAvp) == "RTP/AVP"@ && proto_kw(SdpProtocolValue::RtpAvpf) == "RTP/AVPF"@ && proto_kw(SdpProtocolValue::RtpSavp) == "RTP/SAVP"@ && proto_kw(SdpProtocolValue::RtpSavpf) == "RTP/SAVPF"@);
    assert(proto_kw(SdpProtocolValue::TcpDtlsRtpSavp) == "TCP/DTLS/RTP/SAVP"@ && proto_kw(SdpProtocolValue::TcpDtlsRtpSavpf) == "TCP/DTLS/RTP/SAVPF"@ && proto_kw(SdpProtocolValue::UdpTlsRtpSavp) == "UDP/TLS/RTP/SAVP"@ && proto_kw(SdpProtocolValue::UdpTlsRtpSavpf) == "UDP/TLS/RTP/SAVPF"@);
    assert(proto_kw(SdpProtocolValue::DtlsSctp) == "DTLS/SCTP"@ && proto_kw(SdpProtocolValue::UdpDtlsSctp) == "UDP/DTLS/SCTP"@ && proto_kw(SdpProtocolValue::TcpDtlsSctp) == "TCP/DTLS/SCTP"@);
}
spec fn pt_in_mline(n: int) -> bool { n <= 127 && n != 1 && n != 2 && n != 19 && !(64 <= n <= 95) }
spec fn mport_ok(s: Str) -> bool { let p = split_char(s, '/'); uint_ok(p[0], u32::MAX as int) && uint_val(p[0]) <= 65535 && (p.len() > 1 ==> uint_ok(p[1], u32::MAX as int)) }
spec fn fmt_num_ok(s: Str) -> bool { uint_ok(s, u32::MAX as int) && pt_in_mline(uint_val(s)) }
spec fn is_app(s: Str) -> bool { to_lower(s) == "application"@ }
spec fn mfmts_ok(t: Seq<Str>) -> bool { is_app(t[0]) || forall|i: int| 3 <= i < t.len() ==> fmt_num_ok(#[trigger] t[i]) }
spec fn mtokens_ok(t: Seq<Str>) -> bool { t.len() >= 4 && mvalue_ok(t[0]) && mport_ok(t[1]) && proto_ok(t[2]) && mfmts_ok(t) }
spec fn mline_is(t: Seq<Str>, m: SdpMediaLine) -> bool {
    let p = split_char(t[1], '/');
    &&& to_lower(t[0]) == mvalue_kw(m.media)
    &&& m.port == uint_val(p[0]) && m.port <= 65535
    &&& m.port_count == (if p.len() > 1 { uint_val(p[1]) } else { 0 })
    &&& to_upper(t[2]) == proto_kw(m.proto)
    &&& match m.formats {
        SdpFormatList::Integers(v) => !(m.media is Application) && v@.len() == t.len() - 3 && (forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) as int == uint_val(t[i + 3])) && (forall|i: int| 0 <= i < v@.len() ==> pt_in_mline((#[trigger] v@[i]) as int)),
        SdpFormatList::Strings(v) => m.media is Application && strs(v@) == t.skip(3),
    }
}
// lines that are unsupported for sure, and lines that are malformed for sure
spec fn mtokens_unknown(t: Seq<Str>) -> bool { t.len() >= 4 && mport_ok(t[1]) && (!mvalue_ok(t[0]) || !proto_ok(t[2]) && mfmts_ok(t)) }
spec fn mtokens_malformed(t: Seq<Str>) -> bool { t.len() < 4 || mvalue_ok(t[0]) && proto_ok(t[2]) && !mtokens_ok(t) }
@fn parse_media
@params value
@lets mv, media, ptokens, port, port_count, proto, fmt_slice, formats, fmt_vec, fmt_num, fmt_vec, m
@ens C16,C04: r is Ok <==> mtokens_ok(split_ws(value@))
@ens C16,C04,C05: r matches Ok(x) ==> x matches SdpType::Media(m) && mline_is(split_ws(value@), m)
@ens C06: r matches Err(e) ==> if e is Unsupported { !mtokens_malformed(split_ws(value@)) } else { !mtokens_unknown(split_ws(value@)) }
@at start: let ghost t = split_ws(value@);
@at after:mv: proof { assert(rstrs(mv@) == t); assert forall|i: int| 0 <= i < mv@.len() implies (#[trigger] mv@[i])@ == t[i] by { assert(rstrs(mv@)[i] == mv@[i]@); } }
@at after:media: proof { assert(mvalue_ok(t[0])); assert(is_app(t[0]) <==> media is Application); }
@at after:ptokens: let ghost pt = split_char(t[1], '/'); proof { assert(rstrs(ptokens@) == pt); lemma_split_len(t[1], '/'); assert(rstrs(ptokens@).len() == ptokens@.len()); assert forall|i: int| 0 <= i < ptokens@.len() implies (#[trigger] ptokens@[i])@ == pt[i] by { assert(rstrs(ptokens@)[i] == ptokens@[i]@); } }
@at after:fmt_slice: proof { assert(fmt_slice@.len() == t.len() - 3); assert forall|i: int| 0 <= i < fmt_slice@.len() implies (#[trigger] fmt_slice@[i])@ == t[i + 3] by { assert(fmt_slice@[i] == mv@[i + 3]); } }
@loop 0
@inv *: $src == refs(fmt_slice@)
@inv *: fmt_vec@.len() == $n && forall|i: int| 0 <= i < $n ==> (#[trigger] fmt_vec@[i]) as int == uint_val(t[i + 3])
@inv *: forall|i: int| 3 <= i < $n + 3 ==> fmt_num_ok(#[trigger] t[i])
@inv C04: forall|i: int| 0 <= i < fmt_vec@.len() ==> pt_in_mline((#[trigger] fmt_vec@[i]) as int)
@loop 1
@inv *: $src == refs(fmt_slice@)
@inv *: fmt_vec@.len() == $n && forall|i: int| 0 <= i < $n ==> (#[trigger] fmt_vec@[i])@ == t[i + 3]
@at lb0: proof { assert($src0[$n0 - 1] == num); assert((*num)@ == t[$n0 + 2]); }
@at lb1: proof { assert($src1[$n1 - 1] == token); assert((*token)@ == t[$n1 + 2]); }
@at after:formats: proof { if formats is Strings { assert(strs(formats->Strings_0@) =~= t.skip(3)); } }
@raw
// ---------------------------------------------------------------- version, origin, connection, bandwidth, timing
@fn parse_version
@params value
@lets ver
@ens C16,C04: r is Ok <==> uint_ok(value@, u64::MAX as int) && uint_val(value@) == 0
@ens C16,C04: r matches Ok(x) ==> x == SdpType::Version(0)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@fn parse_session
@params value
@ens C16,C05: r matches Ok(x) && x matches SdpType::Session(t) && t@ == value@
@raw
spec fn origin_ok(t: Seq<Str>) -> bool {
    t.len() >= 6 && uint_ok(t[1], u64::MAX as int) && uint_ok(t[2], u64::MAX as int) && to_upper(t[3]) == "IN"@ && aty_ok(t[4]) && typed_ok(aty_of(t[4]), t[5])
}
spec fn origin_is(t: Seq<Str>, o: SdpOrigin) -> bool {
    o.username@ == t[0] && o.session_id == uint_val(t[1]) && o.session_version == uint_val(t[2]) && o.unicast_addr == typed_of(aty_of(t[4]), t[5]) && typed_family(o.unicast_addr) == aty_of(t[4])
}
@fn parse_origin
@params value
@lets tokens, username, session_id, session_version, addrtype, unicast_addr, o
@ens C16,C14: r is Ok <==> origin_ok(split_ws(value@))
@ens C16,C14: r matches Ok(x) ==> x matches SdpType::Origin(o) && origin_is(split_ws(value@), o)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@at after:tokens: let ghost t = split_ws(value@); proof { assert(rstrs(tokens@) == t); assert(rstrs(tokens@).len() == tokens@.len()); assert forall|i: int| 0 <= i < tokens@.len() implies (#[trigger] tokens@[i])@ == t[i] by { assert(rstrs(tokens@)[i] == tokens@[i]@); } }
@raw
spec fn conn_ok(t: Seq<Str>) -> bool {
    let p = split_char(t[2], '/');
    &&& t.len() == 3 && to_upper(t[0]) == "IN"@ && aty_ok(t[1]) && typed_ok(aty_of(t[1]), p[0])
    &&& p.len() > 1 ==> uint_ok(p[1], u8::MAX as int)
    &&& p.len() > 2 ==> uint_ok(p[2], u32::MAX as int)
}
spec fn conn_is(t: Seq<Str>, c: SdpConnection) -> bool {
    let p = split_char(t[2], '/');
    &&& c.address == typed_of(aty_of(t[1]), p[0]) && typed_family(c.address) == aty_of(t[1])
    &&& (match c.ttl { Some(x) => p.len() > 1 && x == uint_val(p[1]), None => p.len() <= 1 })
    &&& (match c.amount { Some(x) => p.len() > 2 && x == uint_val(p[2]), None => p.len() <= 2 })
}
@fn parse_connection
@params value
@lets cv, addrtype, ttl, amount, addr_token, addr_tokens, address, c
@ens C16,C14: r is Ok <==> conn_ok(split_ws(value@))
@ens C16,C14: r matches Ok(x) ==> x matches SdpType::Connection(c) && conn_is(split_ws(value@), c)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@at after:cv: let ghost t = split_ws(value@); proof { assert(rstrs(cv@) == t); assert(rstrs(cv@).len() == cv@.len()); assert forall|i: int| 0 <= i < cv@.len() implies (#[trigger] cv@[i])@ == t[i] by { assert(rstrs(cv@)[i] == cv@[i]@); } }
@at after:addr_token: let ghost p = split_char(t[2], '/'); proof { lemma_find_char(t[2], '/'); lemma_split_len(t[2], '/'); if !t[2].contains('/') { assert(p =~= seq![t[2]]); } else { let i = find_char(t[2], '/'); lemma_split_len(t[2].subrange(i + 1, t[2].len() as int), '/'); assert(p.len() >= 2); } }
@at after:addr_tokens: proof { assert(rstrs(addr_tokens@) == p); assert(rstrs(addr_tokens@).len() == addr_tokens@.len()); assert forall|i: int| 0 <= i < addr_tokens@.len() implies (#[trigger] addr_tokens@[i])@ == p[i] by { assert(rstrs(addr_tokens@)[i] == addr_tokens@[i]@); } }
@raw
spec fn bw_ok(p: Seq<Str>) -> bool { p.len() == 2 && uint_ok(p[1], u32::MAX as int) }
spec fn bw_is(p: Seq<Str>, b: SdpBandwidth) -> bool {
    let u = to_upper(p[0]);
    match b {
        SdpBandwidth::As(n) => u == "AS"@ && n == uint_val(p[1]),
        SdpBandwidth::Ct(n) => u == "CT"@ && n == uint_val(p[1]),
        SdpBandwidth::Tias(n) => u == "TIAS"@ && n == uint_val(p[1]),
        SdpBandwidth::Unknown(k, n) => u != "AS"@ && u != "CT"@ && u != "TIAS"@ && k@ == p[0] && n == uint_val(p[1]),
    }
}
@fn parse_bandwidth
@params value
@lets bv, bandwidth, bw
@ens C16: r is Ok <==> bw_ok(split_char(value@, ':'))
@ens C16: r matches Ok(x) ==> x matches SdpType::Bandwidth(b) && bw_is(split_char(value@, ':'), b)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@at after:bv: let ghost t = split_char(value@, ':'); proof { assert(rstrs(bv@) == t); assert(rstrs(bv@).len() == bv@.len()); assert forall|i: int| 0 <= i < bv@.len() implies (#[trigger] bv@[i])@ == t[i] by { assert(rstrs(bv@)[i] == bv@[i]@); } }
@raw
spec fn timing_ok(t: Seq<Str>) -> bool { t.len() == 2 && uint_ok(t[0], u64::MAX as int) && uint_ok(t[1], u64::MAX as int) }
spec fn timing_is(t: Seq<Str>, x: SdpTiming) -> bool { x.start == uint_val(t[0]) && x.stop == uint_val(t[1]) }
@fn parse_timing
@params value
@lets tv, start, stop, t
@ens C16: r is Ok <==> timing_ok(split_ws(value@))
@ens C16: r matches Ok(x) ==> x matches SdpType::Timing(t) && timing_is(split_ws(value@), t)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@at after:tv: let ghost g = split_ws(value@); proof { assert(rstrs(tv@) == g); assert(rstrs(tv@).len() == tv@.len()); assert forall|i: int| 0 <= i < tv@.len() implies (#[trigger] tv@[i])@ == g[i] by { assert(rstrs(tv@)[i] == tv@[i]@); } }
@raw
// ---------------------------------------------------------------- one line
spec fn line_head(t: Str) -> Str { trim(t.subrange(0, find_char(t, '='))) }
spec fn line_val(t: Str) -> Str { t.subrange(find_char(t, '=') + 1, t.len() as int) }
spec fn line_type(t: Str) -> Str { to_lower(line_head(t)) }
// the line has the form <type>=<value>
spec fn line_form(t: Str) -> bool { t.contains('=') && blen(line_head(t)) == 1 && (trim(line_val(t)).len() > 0 || line_type(t) == "s"@) }
spec fn body_ok(ty: Str, v: Str) -> bool {
    if ty == "a"@ { attr_ok(trim(v)) } else if ty == "b"@ { bw_ok(split_char(trim(v), ':')) } else if ty == "c"@ { conn_ok(split_ws(trim(v))) }
    else if ty == "m"@ { mtokens_ok(split_ws(trim(v))) } else if ty == "o"@ { origin_ok(split_ws(trim(v))) } else if ty == "s"@ { true }
    else if ty == "t"@ { timing_ok(split_ws(trim(v))) } else if ty == "v"@ { uint_ok(trim(v), u64::MAX as int) && uint_val(trim(v)) == 0 } else { false }
}
spec fn line_ok(t: Str) -> bool { line_form(t) && body_ok(line_type(t), line_val(t)) }
spec fn line_means(t: Str, x: SdpType) -> bool {
    let ty = line_type(t); let v = trim(line_val(t));
    match x {
        SdpType::Attribute(a) => ty == "a"@ && attr_is(v, a),
        SdpType::Bandwidth(b) => ty == "b"@ && bw_is(split_char(v, ':'), b),
        SdpType::Connection(c) => ty == "c"@ && conn_is(split_ws(v), c),
        SdpType::Media(m) => ty == "m"@ && mline_is(split_ws(v), m),
        SdpType::Origin(o) => ty == "o"@ && origin_is(split_ws(v), o),
        SdpType::Session(s) => ty == "s"@ && s@ == line_val(t),
        SdpType::Timing(x) => ty == "t"@ && timing_is(split_ws(v), x),
        SdpType::Version(n) => ty == "v"@ && n == 0,
    }
}
spec fn line_unknown(t: Str) -> bool {
    line_form(t) && (line_type(t) == "a"@ && attr_unknown(trim(line_val(t))) || line_type(t) == "m"@ && mtokens_unknown(split_ws(trim(line_val(t)))))
}
spec fn line_malformed(t: Str) -> bool {
    !line_form(t) || (line_type(t) == "a"@ && attr_malformed(trim(line_val(t)))) || (line_type(t) == "m"@ && mtokens_malformed(split_ws(trim(line_val(t)))))
        || (line_type(t) != "a"@ && line_type(t) != "m"@ && !line_ok(t))
}
@fn parse_sdp_line
@params line, line_number
@lets splitted_line, line_type, trimmed, line_value, untrimmed_line_value, trimmed
@ens C16,C06,C05: line_result(line@, line_number as int, r)
@cl 0 |sdp_type: SdpType| -> (l: SdpLine)
@clens l.line_number == line_number && l.sdp_type == sdp_type && l.text@ == line@
@at start: proof { lemma_find_char(line@, '='); lemma_trim_idem(line_val(line@)); }
@at after:splitted_line: let ghost sp = splitn_char(2, line@, '='); let ghost ty = line_type(line@); proof {
      let i = find_char(line@, '='); reveal_with_fuel(splitn_char, 3);
      assert(sp =~= seq![line@.subrange(0, i), line_val(line@)]);
      assert(rstrs(splitted_line@) == sp); assert(rstrs(splitted_line@).len() == splitted_line@.len());
      assert(rstrs(splitted_line@)[0] == splitted_line@[0]@ && rstrs(splitted_line@)[1] == splitted_line@[1]@);
    }
@at after:trimmed: proof { lemma_blen(trimmed@); }
