//! Oracle: what each line value means, written from the property statements (C04, C08, C15, C16), independent of the
//! code under test: works on whole token lists and returns the expected value, or why the text must be refused.
use std::net::IpAddr;
use webrtc_sdp::address::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum No { Bad, Unsup }
pub type R<T> = Result<T, No>;

fn ws(s: &str) -> Vec<&str> { s.split_whitespace().collect() }
fn uint(s: &str, max: u64) -> R<u64> {
    let b = s.strip_prefix('+').unwrap_or(s);
    if b.is_empty() || !b.bytes().all(|c| c.is_ascii_digit()) { return Err(No::Bad); }
    let t = b.trim_start_matches('0');
    if t.len() > 20 { return Err(No::Bad); }
    let mut v: u128 = 0;
    for c in t.bytes() { v = v * 10 + (c - b'0') as u128; }
    if v > max as u128 { return Err(No::Bad); }
    Ok(v as u64)
}
fn u8_(s: &str) -> R<u8> { uint(s, 255).map(|x| x as u8) }
fn u16_(s: &str) -> R<u16> { uint(s, 65535).map(|x| x as u16) }
fn u32_(s: &str) -> R<u32> { uint(s, u32::MAX as u64).map(|x| x as u32) }
fn u64_(s: &str) -> R<u64> { uint(s, u64::MAX) }
fn f32_(s: &str) -> R<f32> { s.parse::<f32>().map_err(|_| No::Bad) }

pub fn address(s: &str) -> R<Address> {
    if s.contains(':') {
        if let Ok(ip) = s.parse::<IpAddr>() { return Ok(Address::Ip(ip)); }
    }
    match url::Host::parse(s) {
        Ok(url::Host::Domain(d)) => Ok(Address::Fqdn(d)),
        Ok(url::Host::Ipv4(i)) => Ok(Address::Ip(IpAddr::V4(i))),
        Ok(url::Host::Ipv6(i)) => Ok(Address::Ip(IpAddr::V6(i))),
        Err(_) => Err(No::Bad),
    }
}
pub fn typed(fam: AddressType, s: &str) -> R<ExplicitlyTypedAddress> {
    match address(s)? {
        Address::Fqdn(domain) => Ok(ExplicitlyTypedAddress::Fqdn { address_type: fam, domain }),
        Address::Ip(ip) => if ip.is_ipv4() == (fam == AddressType::IpV4) { Ok(ExplicitlyTypedAddress::Ip(ip)) } else { Err(No::Bad) },
    }
}
pub fn family(s: &str) -> R<AddressType> {
    match s.to_uppercase().as_str() { "IP4" => Ok(AddressType::IpV4), "IP6" => Ok(AddressType::IpV6), _ => Err(No::Bad) }
}
pub fn nettype(s: &str) -> R<()> { if s.to_uppercase() == "IN" { Ok(()) } else { Err(No::Bad) } }

fn text(s: &str) -> R<String> { if s.is_empty() { Err(No::Bad) } else { Ok(s.to_string()) } }
fn ptype(s: &str) -> R<SdpAttributePayloadType> {
    if s == "*" { Ok(SdpAttributePayloadType::Wildcard) } else { Ok(SdpAttributePayloadType::PayloadType(u8_(s)?)) }
}
fn dir(s: &str) -> R<SdpSingleDirection> {
    match s { "send" => Ok(SdpSingleDirection::Send), "recv" => Ok(SdpSingleDirection::Recv), _ => Err(No::Bad) }
}

pub const FLAGS: [(&str, SdpAttribute); 12] = [
    ("bundle-only", SdpAttribute::BundleOnly), ("end-of-candidates", SdpAttribute::EndOfCandidates), ("extmap-allow-mixed", SdpAttribute::ExtmapAllowMixed),
    ("ice-lite", SdpAttribute::IceLite), ("ice-mismatch", SdpAttribute::IceMismatch), ("inactive", SdpAttribute::Inactive), ("recvonly", SdpAttribute::Recvonly),
    ("rtcp-mux", SdpAttribute::RtcpMux), ("rtcp-mux-only", SdpAttribute::RtcpMuxOnly), ("rtcp-rsize", SdpAttribute::RtcpRsize),
    ("sendonly", SdpAttribute::Sendonly), ("sendrecv", SdpAttribute::Sendrecv)];
pub const VALUED: [&str; 31] = ["candidate", "dtls-message", "extmap", "fingerprint", "fmtp", "framerate", "group", "ice-options", "ice-pacing", "ice-pwd", "ice-ufrag",
    "identity", "imageattr", "label", "max-message-size", "maxptime", "mid", "msid", "msid-semantic", "ptime", "rid", "remote-candidates", "rtpmap", "rtcp", "rtcp-fb",
    "sctpmap", "sctp-port", "setup", "simulcast", "ssrc", "ssrc-group"];

/// value of an a= line (trimmed)
pub fn attribute(line: &str) -> R<SdpAttribute> {
    let (name, val) = match line.find(':') { Some(i) => (&line[..i], Some(&line[i + 1..])), None => (line, None) };
    let name = name.to_lowercase();
    for (n, a) in FLAGS.iter() {
        if *n == name { return if val.is_some() { Err(No::Bad) } else { Ok(a.clone()) }; }
    }
    let v = val.unwrap_or("").trim();
    use SdpAttribute as A;
    Ok(match name.as_str() {
        "candidate" => A::Candidate(candidate(v)?),
        "dtls-message" => {
            let t: Vec<&str> = v.split(' ').collect();
            if t.len() != 2 { return Err(No::Bad); }
            A::DtlsMessage(match t[0] { "client" => SdpAttributeDtlsMessage::Client(t[1].into()), "server" => SdpAttributeDtlsMessage::Server(t[1].into()), _ => return Err(No::Bad) })
        }
        "extmap" => {
            let t = ws(v);
            if t.len() < 2 { return Err(No::Bad); }
            let (id, direction) = match t[0].split_once('/') {
                None => (u16_(t[0])?, None),
                Some((i, d)) => (u16_(i)?, Some(match d.to_lowercase().as_str() { "recvonly" => SdpAttributeDirection::Recvonly, "sendonly" => SdpAttributeDirection::Sendonly,
                    "sendrecv" => SdpAttributeDirection::Sendrecv, _ => return Err(No::Bad) })),
            };
            let ext = if t.len() > 2 { Some(t[2..].join(" ")) } else { None };
            if let Some(e) = &ext { if e.contains(|c| c == '\0' || c == '\n' || c == '\r') { return Err(No::Bad); } }
            A::Extmap(SdpAttributeExtmap { id, direction, url: t[1].into(), extension_attributes: ext })
        }
        "fingerprint" => {
            let t = ws(v);
            if t.len() != 2 { return Err(No::Bad); }
            use SdpAttributeFingerprintHashType as H;
            let (h, n) = match t[0] { "sha-1" => (H::Sha1, 20), "sha-224" => (H::Sha224, 28), "sha-256" => (H::Sha256, 32), "sha-384" => (H::Sha384, 48), "sha-512" => (H::Sha512, 64), _ => return Err(No::Unsup) };
            let mut b = Vec::new();
            for x in t[1].split(':') { if x.len() != 2 { return Err(No::Bad); } b.push(u8::from_str_radix(x, 16).map_err(|_| No::Bad)?); }
            if b.len() != n { return Err(No::Bad); }
            A::Fingerprint(SdpAttributeFingerprint { hash_algorithm: h, fingerprint: b })
        }
        "fmtp" => A::Fmtp(fmtp(v)?),
        "framerate" => { let f: f64 = v.parse().map_err(|_| No::Bad)?; if !f.is_finite() || !(f > 0.0) { return Err(No::Bad); } A::FrameRate(f) }
        "group" => {
            let t = ws(v);
            if t.is_empty() { return Err(No::Bad); }
            use SdpAttributeGroupSemantic as G;
            let semantics = match t[0].to_uppercase().as_str() { "LS" => G::LipSynchronization, "FID" => G::FlowIdentification, "SRF" => G::SingleReservationFlow, "ANAT" => G::AlternateNetworkAddressType,
                "FEC" => G::ForwardErrorCorrection, "DDP" => G::DecodingDependency, "BUNDLE" => G::Bundle, _ => return Err(No::Unsup) };
            A::Group(SdpAttributeGroup { semantics, tags: t[1..].iter().map(|x| x.to_string()).collect() })
        }
        "ice-options" => { if v.is_empty() { return Err(No::Bad); } A::IceOptions(ws(v).iter().map(|x| x.to_string()).collect()) }
        "ice-pacing" => A::IcePacing(uint(v, 9_999_999_999)?),
        "ice-pwd" => A::IcePwd(text(v)?),
        "ice-ufrag" => A::IceUfrag(text(v)?),
        "identity" => A::Identity(text(v)?),
        "imageattr" => A::ImageAttr(imageattr(v)?),
        "label" => A::Label(text(v)?),
        "max-message-size" => A::MaxMessageSize(u64_(v)?),
        "maxptime" => A::MaxPtime(u64_(v)?),
        "mid" => A::Mid(text(v)?),
        "msid" => { let t = ws(v); if t.is_empty() { return Err(No::Bad); } A::Msid(SdpAttributeMsid { id: t[0].into(), appdata: t.get(1).map(|x| x.to_string()) }) }
        "msid-semantic" => { let t = ws(v); if t.is_empty() { return Err(No::Bad); } A::MsidSemantic(SdpAttributeMsidSemantic { semantic: t[0].into(), msids: t[1..].iter().map(|x| x.to_string()).collect() }) }
        "ptime" => A::Ptime(u64_(v)?),
        "rid" => A::Rid(rid(v)?),
        "remote-candidates" => {
            let t = ws(v);
            if t.len() < 3 { return Err(No::Bad); }
            A::RemoteCandidate(SdpAttributeRemoteCandidate { component: u32_(t[0])?, address: address(t[1])?, port: uint(t[2], 65535)? as u32 })
        }
        "rtpmap" => {
            let t = ws(v);
            if t.len() < 2 { return Err(No::Bad); }
            let pt = uint(t[0], 127)? as u8;
            let p: Vec<&str> = t[1].split('/').collect();
            if p.len() < 2 { return Err(No::Bad); }
            A::Rtpmap(SdpAttributeRtpmap { payload_type: pt, codec_name: p[0].into(), frequency: u32_(p[1])?, channels: match p.get(2) { Some(c) => Some(u32_(c)?), None => None } })
        }
        "rtcp" => {
            let t = ws(v);
            if t.is_empty() { return Err(No::Bad); }
            let port = u16_(t[0])?;
            let unicast_addr = if t.len() == 1 { None } else {
                nettype(t[1])?;
                if t.len() < 4 { return Err(No::Bad); }
                Some(typed(family(t[2])?, t[3])?)
            };
            A::Rtcp(SdpAttributeRtcp { port, unicast_addr })
        }
        "rtcp-fb" => rtcpfb(v)?,
        "sctpmap" => {
            let t = ws(v);
            if t.len() != 3 { return Err(No::Bad); }
            if t[1].to_lowercase() != "webrtc-datachannel" { return Err(No::Bad); }
            A::Sctpmap(SdpAttributeSctpmap { port: u16_(t[0])?, channels: u32_(t[2])? })
        }
        "sctp-port" => A::SctpPort(uint(v, 65535)?),
        "setup" => A::Setup(match v.to_lowercase().as_str() { "active" => SdpAttributeSetup::Active, "actpass" => SdpAttributeSetup::Actpass, "holdconn" => SdpAttributeSetup::Holdconn, "passive" => SdpAttributeSetup::Passive, _ => return Err(No::Bad) }),
        "simulcast" => A::Simulcast(simulcast(v)?),
        "ssrc" => A::Ssrc(ssrc(v)?),
        "ssrc-group" => {
            let t = ws(v);
            if t.is_empty() { return Err(No::Bad); }
            use SdpSsrcGroupSemantic as G;
            let g = match t[0].to_uppercase().as_str() { "DUP" => G::Duplication, "FID" => G::FlowIdentification, "FEC" => G::ForwardErrorCorrection, "FEC-FR" => G::ForwardErrorCorrectionFr, "SIM" => G::Sim, _ => return Err(No::Unsup) };
            let s: R<Vec<_>> = t[1..].iter().map(|x| ssrc(x)).collect();
            let s = s?;
            if s.is_empty() { return Err(No::Bad); }
            A::SsrcGroup(g, s)
        }
        _ => return Err(No::Unsup),
    })
}

fn ssrc(v: &str) -> R<SdpAttributeSsrc> {
    let (id, rest) = match v.find(' ') { Some(i) => (&v[..i], Some(&v[i + 1..])), None => (v, None) };
    let id = u32_(id)?;
    let (attribute, value) = match rest { None => (None, None), Some(r) => match r.find(':') { None => (Some(r.to_string()), None), Some(i) => (Some(r[..i].to_string()), Some(r[i + 1..].to_string())) } };
    Ok(SdpAttributeSsrc { id, attribute, value })
}

fn candidate(v: &str) -> R<SdpAttributeCandidate> {
    let t = ws(v);
    if t.len() < 8 { return Err(No::Bad); }
    let lc = |s: &str| s.to_lowercase();
    let mut c = SdpAttributeCandidate {
        foundation: t[0].into(), component: u32_(t[1])?,
        transport: match lc(t[2]).as_str() { "udp" => SdpAttributeCandidateTransport::Udp, "tcp" => SdpAttributeCandidateTransport::Tcp, _ => return Err(No::Bad) },
        priority: u64_(t[3])?, address: address(t[4])?, port: uint(t[5], 65535)? as u32,
        c_type: match (lc(t[6]).as_str(), lc(t[7]).as_str()) { ("typ", "host") => SdpAttributeCandidateType::Host, ("typ", "srflx") => SdpAttributeCandidateType::Srflx, ("typ", "prflx") => SdpAttributeCandidateType::Prflx, ("typ", "relay") => SdpAttributeCandidateType::Relay, _ => return Err(No::Bad) },
        raddr: None, rport: None, tcp_type: None, generation: None, ufrag: None, networkcost: None, unknown_extensions: vec![],
    };
    for p in t[8..].chunks(2) {
        if p.len() == 1 { return Err(No::Unsup); }
        let (k, x) = (p[0], p[1]);
        match lc(k).as_str() {
            "raddr" => c.raddr = Some(address(x)?),
            "rport" => c.rport = Some(uint(x, 65535)? as u32),
            "tcptype" => c.tcp_type = Some(match lc(x).as_str() { "active" => SdpAttributeCandidateTcpType::Active, "passive" => SdpAttributeCandidateTcpType::Passive, "so" => SdpAttributeCandidateTcpType::Simultaneous, _ => return Err(No::Bad) }),
            "generation" => c.generation = Some(u32_(x)?),
            "ufrag" => c.ufrag = Some(x.into()),
            "network-cost" => c.networkcost = Some(u32_(x)?),
            _ => c.unknown_extensions.push((k.into(), x.into())),
        }
    }
    Ok(c)
}

pub fn fmtp_default() -> SdpAttributeFmtpParameters {
    SdpAttributeFmtpParameters { packetization_mode: 0, level_asymmetry_allowed: false, profile_level_id: 0x42000a, max_fs: 0, max_cpb: 0, max_dpb: 0, max_br: 0, max_mbps: 0, max_fr: 0,
        profile: None, level_idx: None, tier: None, maxplaybackrate: 48000, maxaveragebitrate: 0, usedtx: false, stereo: false, useinbandfec: false, cbr: false, ptime: 0, minptime: 0, maxptime: 0,
        encodings: vec![], dtmf_tones: String::new(), rtx: None, unknown_tokens: vec![] }
}
fn flag(s: &str) -> R<bool> { match u8_(s)? { 0 => Ok(false), 1 => Ok(true), _ => Err(No::Bad) } }
fn tone(s: &str) -> Option<u8> { u8_(s).ok().filter(|x| *x <= 100) }
fn fmtp(v: &str) -> R<SdpAttributeFmtp> {
    let (pt, p) = v.split_once(' ').ok_or(No::Unsup)?;
    let mut o = fmtp_default();
    if p.contains('=') {
        for tok in p.split(';') {
            if tok.is_empty() { continue; }
            let (k, x) = tok.split_once('=').ok_or(No::Bad)?;
            match k.to_uppercase().as_str() {
                "PROFILE-LEVEL-ID" => { let n = u32::from_str_radix(x, 16).map_err(|_| No::Bad)?; if n > 0xffffff { return Err(No::Bad); } o.profile_level_id = n }
                "PACKETIZATION-MODE" => o.packetization_mode = uint(x, 2)? as u32,
                "LEVEL-ASYMMETRY-ALLOWED" => o.level_asymmetry_allowed = flag(x)?,
                "MAX-MBPS" => o.max_mbps = u32_(x)?, "MAX-FS" => o.max_fs = u32_(x)?, "MAX-CPB" => o.max_cpb = u32_(x)?, "MAX-DPB" => o.max_dpb = u32_(x)?, "MAX-BR" => o.max_br = u32_(x)?, "MAX-FR" => o.max_fr = u32_(x)?,
                "PROFILE" => o.profile = Some(uint(x, 2)? as u8), "LEVEL-IDX" => o.level_idx = Some(uint(x, 31)? as u8), "TIER" => o.tier = Some(uint(x, 1)? as u8),
                "MAXPLAYBACKRATE" => o.maxplaybackrate = u32_(x)?, "MAXAVERAGEBITRATE" => o.maxaveragebitrate = u32_(x)?,
                "PTIME" => o.ptime = u32_(x)?, "MAXPTIME" => o.maxptime = u32_(x)?, "MINPTIME" => o.minptime = u32_(x)?,
                "USEDTX" => o.usedtx = flag(x)?, "STEREO" => o.stereo = flag(x)?, "USEINBANDFEC" => o.useinbandfec = flag(x)?, "CBR" => o.cbr = flag(x)?,
                "APT" => o.rtx = Some(RtxFmtpParameters { apt: u8_(x)?, rtx_time: None }),
                "RTX-TIME" => match o.rtx.as_mut() { Some(r) => r.rtx_time = Some(u32_(x)?), None => return Err(No::Bad) },
                _ => o.unknown_tokens.push(tok.into()),
            }
        }
    } else if p.contains('/') {
        for e in p.split('/') { o.encodings.push(uint(e, 128)? as u8); }
    } else {
        let ok = p.split(',').all(|t| match t.split_once('-') { None => tone(t).is_some(), Some((a, b)) => matches!((tone(a), tone(b)), (Some(x), Some(y)) if x < y) });
        o.dtmf_tones = if ok { p.to_string() } else { "0-15".to_string() };
    }
    Ok(SdpAttributeFmtp { payload_type: u8_(pt)?, parameters: o })
}

/// pieces between separators that are outside brackets (one bracket counted per piece, as the format is documented to group)
fn grouped(s: &str, sep: char) -> Vec<String> {
    let mut out: Vec<String> = vec![]; let mut cur: Vec<&str> = vec![]; let mut depth = 0i64;
    for p in s.split(sep) {
        if p.contains('[') { depth += 1; }
        if p.contains(']') { depth -= 1; }
        cur.push(p);
        if depth == 0 { out.push(cur.join(&sep.to_string())); cur.clear(); }
    }
    if !cur.is_empty() { out.push(cur.join(&sep.to_string())); }
    out
}
fn braced(s: &str) -> R<&str> { s.strip_prefix('[').and_then(|x| x.strip_suffix(']')).ok_or(No::Bad) }
fn xyrange(s: &str) -> R<SdpAttributeImageAttrXyRange> {
    use SdpAttributeImageAttrXyRange as X;
    if !s.starts_with('[') { return Ok(X::DiscreteValues(vec![u32_(s)?])); }
    let b = braced(s)?;
    if b.contains(':') {
        let t: Vec<&str> = b.split(':').collect();
        match t.len() { 2 => Ok(X::Range(u32_(t[0])?, u32_(t[1])?, None)), 3 => Ok(X::Range(u32_(t[0])?, u32_(t[2])?, Some(u32_(t[1])?))), _ => Err(No::Bad) }
    } else {
        let v: R<Vec<u32>> = b.split(',').map(u32_).collect();
        let v = v?;
        if v.len() < 2 { Err(No::Bad) } else { Ok(X::DiscreteValues(v)) }
    }
}
fn psrange(s: &str) -> R<(f32, f32)> {
    let t: Vec<&str> = s.split('-').collect();
    if t.len() != 2 { return Err(No::Bad); }
    let (a, b) = (f32_(t[0])?, f32_(t[1])?);
    if a >= b { Err(No::Bad) } else { Ok((a, b)) }
}
fn imgset(s: &str) -> R<SdpAttributeImageAttrSet> {
    let t = grouped(s, ',');
    if t.len() < 2 { return Err(No::Bad); }
    let x = xyrange(t[0].strip_prefix("x=").ok_or(No::Bad)?)?;
    let y = xyrange(t[1].strip_prefix("y=").ok_or(No::Bad)?)?;
    let mut o = SdpAttributeImageAttrSet { x, y, sar: None, par: None, q: None };
    for k in &t[2..] {
        if let Some(v) = k.strip_prefix("sar=") {
            o.sar = Some(if v.starts_with('[') {
                let b = braced(v)?;
                if v.contains('-') { let (a, b) = psrange(b)?; SdpAttributeImageAttrSRange::Range(a, b) }
                else if v.contains(',') {
                    let l: R<Vec<f32>> = b.split(',').map(f32_).collect();
                    let l = l?;
                    if l.len() < 2 { return Err(No::Bad); }
                    let mut last = 0.0f32;
                    for e in &l { if last >= *e { return Err(No::Bad); } last = *e; }
                    SdpAttributeImageAttrSRange::DiscreteValues(l)
                } else { return Err(No::Bad); }
            } else { SdpAttributeImageAttrSRange::DiscreteValues(vec![f32_(v)?]) });
        } else if let Some(v) = k.strip_prefix("par=") {
            let (a, b) = psrange(braced(v)?)?;
            o.par = Some(SdpAttributeImageAttrPRange { min: a, max: b });
        } else if let Some(v) = k.strip_prefix("q=") { o.q = Some(f32_(v)?); }
    }
    Ok(o)
}
fn setlist(t: &[String], i: &mut usize) -> R<SdpAttributeImageAttrSetList> {
    let x = t.get(*i).ok_or(No::Bad)?; *i += 1;
    if x == "*" { return Ok(SdpAttributeImageAttrSetList::Wildcard); }
    let mut v = vec![imgset(braced(x)?)?];
    while *i < t.len() && t[*i].starts_with('[') { v.push(imgset(braced(&t[*i])?)?); *i += 1; }
    Ok(SdpAttributeImageAttrSetList::Sets(v))
}
fn imageattr(v: &str) -> R<SdpAttributeImageAttr> {
    let t = grouped(v, ' ');
    let pt = ptype(t.get(0).ok_or(No::Bad)?)?;
    let d1 = dir(t.get(1).ok_or(No::Bad)?)?;
    let mut i = 2;
    let l1 = setlist(&t, &mut i)?;
    let mut l2 = SdpAttributeImageAttrSetList::Sets(vec![]);
    if i < t.len() { if dir(&t[i])? == d1 { return Err(No::Bad); } i += 1; l2 = setlist(&t, &mut i)?; }
    if i < t.len() { return Err(No::Bad); }
    let (send, recv) = if d1 == SdpSingleDirection::Send { (l1, l2) } else { (l2, l1) };
    Ok(SdpAttributeImageAttr { pt, send, recv })
}
fn rid(v: &str) -> R<SdpAttributeRid> {
    let t: Vec<&str> = v.splitn(3, ' ').collect();
    if t.len() < 2 { return Err(No::Bad); }
    let mut o = SdpAttributeRid { id: t[0].into(), direction: dir(t[1])?, formats: vec![], depends: vec![],
        params: SdpAttributeRidParameters { max_width: 0, max_height: 0, max_fps: 0, max_fs: 0, max_br: 0, max_pps: 0, unknown: vec![] } };
    if let Some(p) = t.get(2) {
        for (n, x) in p.split(';').enumerate() {
            if n == 0 { if let Some(l) = x.strip_prefix("pt=") { for f in l.split(',') { o.formats.push(u16_(f.trim())?); } continue; } }
            let (k, y) = x.split_once('=').ok_or(No::Bad)?;
            match k { "max-width" => o.params.max_width = u32_(y)?, "max-height" => o.params.max_height = u32_(y)?, "max-fps" => o.params.max_fps = u32_(y)?, "max-fs" => o.params.max_fs = u32_(y)?,
                "max-br" => o.params.max_br = u32_(y)?, "max-pps" => o.params.max_pps = u32_(y)?, "depends" => o.depends.extend(y.split(',').map(|s| s.to_string())), _ => o.params.unknown.push(x.into()) }
        }
    }
    Ok(o)
}
fn versions(s: &str) -> R<Vec<SdpAttributeSimulcastVersion>> {
    let l = match s.split_once('=') { Some(("rid", l)) => l, Some(_) => return Err(No::Bad), None => s };
    Ok(l.split(';').map(|a| SdpAttributeSimulcastVersion { ids: a.split(',').map(|i| match i.strip_prefix('~') { Some(x) => SdpAttributeSimulcastId { id: x.into(), paused: true }, None => SdpAttributeSimulcastId { id: i.into(), paused: false } }).collect() }).collect())
}
fn simulcast(v: &str) -> R<SdpAttributeSimulcast> {
    let t = ws(v);
    if t.len() < 2 { return Err(No::Bad); }
    let d = dir(t[0])?;
    let l1 = versions(t[1])?;
    let mut l2 = vec![];
    if t.len() > 2 { if dir(t[2])? == d { return Err(No::Bad); } l2 = versions(t.get(3).ok_or(No::Bad)?)?; }
    Ok(if d == SdpSingleDirection::Send { SdpAttributeSimulcast { send: l1, receive: l2 } } else { SdpAttributeSimulcast { send: l2, receive: l1 } })
}
fn rtcpfb(v: &str) -> R<SdpAttribute> {
    let t: Vec<&str> = v.splitn(4, ' ').collect();
    use SdpAttributeRtcpFbType as F;
    let f = match t.get(1) { None => return Err(No::Bad), Some(&"ack") => F::Ack, Some(&"ccm") => F::Ccm, Some(&"nack") => F::Nack, Some(&"trr-int") => F::TrrInt, Some(&"goog-remb") => F::Remb, Some(&"transport-cc") => F::TransCc, Some(_) => return Err(No::Unsup) };
    let p = t.get(2).copied();
    match (&f, p) {
        (F::Ack, Some("rpsi" | "app")) => {} (F::Ack, _) => return Err(No::Unsup),
        (F::Ccm, None | Some("fir" | "tmmbr" | "tstr" | "vbcm")) => {} (F::Ccm, _) => return Err(No::Unsup),
        (F::Nack, None | Some("sli" | "pli" | "rpsi" | "app")) => {} (F::Nack, _) => return Err(No::Unsup),
        (F::TrrInt, Some(n)) => { u32_(n)?; } (F::TrrInt, None) => return Err(No::Bad),
        (F::Remb | F::TransCc, None) => {} (F::Remb | F::TransCc, _) => return Err(No::Unsup),
    }
    Ok(SdpAttribute::Rtcpfb(SdpAttributeRtcpFb { payload_type: ptype(t[0])?, feedback_type: f, parameter: p.unwrap_or("").into(), extra: t.get(3).unwrap_or(&"").to_string() }))
}

pub fn origin(v: &str) -> R<SdpOrigin> {
    let t = ws(v);
    if t.len() < 6 { return Err(No::Bad); }
    nettype(t[3])?;
    Ok(SdpOrigin { username: t[0].into(), session_id: u64_(t[1])?, session_version: u64_(t[2])?, unicast_addr: typed(family(t[4])?, t[5])? })
}
pub fn connection(v: &str) -> R<SdpConnection> {
    let t = ws(v);
    if t.len() != 3 { return Err(No::Bad); }
    nettype(t[0])?;
    let fam = family(t[1])?;
    let p: Vec<&str> = t[2].split('/').collect();
    let ttl = match p.get(1) { Some(x) => Some(u8_(x)?), None => None };
    let amount = match p.get(2) { Some(x) => Some(u32_(x)?), None => None };
    Ok(SdpConnection { address: typed(fam, p[0])?, ttl, amount })
}
pub const MEDIA: [(&str, SdpMediaValue); 3] = [("audio", SdpMediaValue::Audio), ("video", SdpMediaValue::Video), ("application", SdpMediaValue::Application)];
pub const PROTO: [(&str, SdpProtocolValue); 11] = [("RTP/AVP", SdpProtocolValue::RtpAvp), ("RTP/AVPF", SdpProtocolValue::RtpAvpf), ("RTP/SAVP", SdpProtocolValue::RtpSavp), ("RTP/SAVPF", SdpProtocolValue::RtpSavpf),
    ("TCP/DTLS/RTP/SAVP", SdpProtocolValue::TcpDtlsRtpSavp), ("TCP/DTLS/RTP/SAVPF", SdpProtocolValue::TcpDtlsRtpSavpf), ("UDP/TLS/RTP/SAVP", SdpProtocolValue::UdpTlsRtpSavp), ("UDP/TLS/RTP/SAVPF", SdpProtocolValue::UdpTlsRtpSavpf),
    ("DTLS/SCTP", SdpProtocolValue::DtlsSctp), ("UDP/DTLS/SCTP", SdpProtocolValue::UdpDtlsSctp), ("TCP/DTLS/SCTP", SdpProtocolValue::TcpDtlsSctp)];
pub fn media(v: &str) -> R<SdpMediaLine> {
    let t = ws(v);
    if t.len() < 4 { return Err(No::Bad); }
    let m = MEDIA.iter().find(|x| x.0 == t[0].to_lowercase()).ok_or(No::Unsup)?.1.clone();
    let p: Vec<&str> = t[1].split('/').collect();
    let port = uint(p[0], 65535)? as u32;
    let port_count = match p.get(1) { Some(x) => u32_(x)?, None => 0 };
    let proto = PROTO.iter().find(|x| x.0 == t[2].to_uppercase()).ok_or(No::Unsup)?.1.clone();
    let formats = if m == SdpMediaValue::Application { SdpFormatList::Strings(t[3..].iter().map(|x| x.to_string()).collect()) } else {
        let mut v = vec![];
        for f in &t[3..] { let n = u32_(f)?; if n == 1 || n == 2 || n == 19 || (64..=95).contains(&n) || n > 127 { return Err(No::Bad); } v.push(n); }
        SdpFormatList::Integers(v)
    };
    Ok(SdpMediaLine { media: m, port, port_count, proto, formats })
}
pub fn bandwidth(v: &str) -> R<SdpBandwidth> {
    let t: Vec<&str> = v.split(':').collect();
    if t.len() != 2 { return Err(No::Bad); }
    let n = u32_(t[1])?;
    Ok(match t[0].to_uppercase().as_str() { "AS" => SdpBandwidth::As(n), "CT" => SdpBandwidth::Ct(n), "TIAS" => SdpBandwidth::Tias(n), _ => SdpBandwidth::Unknown(t[0].into(), n) })
}
pub fn timing(v: &str) -> R<SdpTiming> {
    let t = ws(v);
    if t.len() != 2 { return Err(No::Bad); }
    Ok(SdpTiming { start: u64_(t[0])?, stop: u64_(t[1])? })
}
pub fn line(l: &str) -> R<SdpType> {
    let (k, v) = l.split_once('=').ok_or(No::Bad)?;
    let k = k.trim();
    if k.len() != 1 { return Err(No::Bad); }
    let k = k.to_lowercase();
    let t = v.trim();
    if t.is_empty() && k != "s" { return Err(No::Bad); }
    Ok(match k.as_str() {
        "a" => SdpType::Attribute(attribute(t)?),
        "b" => SdpType::Bandwidth(bandwidth(t)?),
        "c" => SdpType::Connection(connection(t)?),
        "m" => SdpType::Media(media(t)?),
        "o" => SdpType::Origin(origin(t)?),
        "s" => SdpType::Session(v.to_string()),
        "t" => SdpType::Timing(timing(t)?),
        "v" => { if u64_(t)? != 0 { return Err(No::Bad); } SdpType::Version(0) }
        _ => return Err(No::Bad),
    })
}
