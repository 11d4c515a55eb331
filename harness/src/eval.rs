//! Each case is (kind, args). `eval` runs the real code on it and says what, if anything, is wrong.
//! Err(Bad { kf: Some(id) }) marks a recorded known finding, recognised by its specific input.
use crate::refdec::{self, FLAGS, MEDIA, PROTO, VALUED};
use std::net::IpAddr;
use std::str::FromStr;
use webrtc_sdp::address::*;
use webrtc_sdp::anonymizer::*;
use webrtc_sdp::attribute_type::*;
use webrtc_sdp::error::*;
use webrtc_sdp::media_type::*;
use webrtc_sdp::*;

pub struct Bad { pub msg: String, pub kf: Option<&'static str> }
pub type Res = Result<bool, Bad>; // Ok(true): a non-trivial case
fn bad(s: String) -> Bad { Bad { msg: s, kf: None } }
macro_rules! fail { ($($a:tt)*) => { return Err(bad(format!($($a)*))) } }
fn dbg<T: std::fmt::Debug>(t: &T) -> String { format!("{t:?}") }

pub fn eval(kind: &str, a: &[String]) -> Res {
    match kind {
        #[cfg(feature = "ser")]
        "ser" => crate::ser::ser(&a[0], a[1] == "strict"),
        "attr" => attr(&a[0]),
        "line" => line(&a[0]),
        "range" => range(&a[0], &a[1]),
        "rt" => rt(&a[0]),
        "structure" => session(&a[0], 'S'),
        "layout" => session(&a[0], 'L'),
        "levels" => session(&a[0], 'V'),
        "policy" => policy(&a[0]),
        "level" => level(&a[0]),
        "sessrt" => sessrt(&a[0]),
        "mask" => mask(&a[0], &a[1..]),
        "maskseq" => maskseq(a),
        "edit" => edit(a),
        "family" => family(&a[0], &a[1], &a[2]),
        "equal" => equal(a),
        "kw" => kw(&a[0], &a[1]),
        "panic" => nopanic(&a[0]),
        _ => panic!("kind {kind}"),
    }
}

// ---------------------------------------------------------------- values
fn attr(text: &str) -> Res {
    let want = refdec::attribute(text);
    let got = SdpAttribute::from_str(text);
    match (&want, &got) {
        (Ok(w), Ok(g)) => { if dbg(w) != dbg(g) { fail!("attribute {text:?} decodes to {g:?}, not to {w:?}") } Ok(true) }
        (Err(_), Err(_)) => Ok(false),
        (Ok(w), Err(e)) => fail!("attribute {text:?} is well-formed ({w:?}) but is rejected: {e}"),
        (Err(_), Ok(g)) => fail!("attribute {text:?} is malformed but is accepted as {g:?}"),
    }
}
fn line(text: &str) -> Res {
    let want = refdec::line(text);
    let got = parse_sdp_line(text, 7);
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            if dbg(w) != dbg(&g.sdp_type) { fail!("line {text:?} decodes to {:?}, not to {w:?}", g.sdp_type) }
            if g.line_number != 7 || g.text != text { fail!("line {text:?} is returned with number {} and text {:?}", g.line_number, g.text) }
            Ok(true)
        }
        (Err(_), Err(_)) => Ok(false),
        (Ok(w), Err(e)) => fail!("line {text:?} is well-formed ({w:?}) but is rejected: {e:?}"),
        (Err(_), Ok(g)) => fail!("line {text:?} is malformed but is accepted as {:?}", g.sdp_type),
    }
}

/// (template with one number left out as @, largest value, smallest value, how to read it back)
pub const RANGES: [(&str, u64, fn(&SdpType) -> Option<u64>); 34] = [
    ("v=@", 0, |t| if let SdpType::Version(v) = t { Some(*v) } else { None }),
    ("m=audio @ RTP/AVP 0", 65535, |t| if let SdpType::Media(m) = t { Some(m.port as u64) } else { None }),
    ("m=video @/2 RTP/AVP 0", 65535, |t| if let SdpType::Media(m) = t { Some(m.port as u64) } else { None }),
    ("m=application @ DTLS/SCTP 5000", 65535, |t| if let SdpType::Media(m) = t { Some(m.port as u64) } else { None }),
    ("m=audio 9 RTP/AVP 0 @", 127, |t| if let SdpType::Media(SdpMediaLine { formats: SdpFormatList::Integers(f), .. }) = t { if f.len() == 2 { Some(f[1] as u64) } else { None } } else { None }),
    ("m=video 9 UDP/TLS/RTP/SAVPF @ 96", 127, |t| if let SdpType::Media(SdpMediaLine { formats: SdpFormatList::Integers(f), .. }) = t { if f.len() == 2 { Some(f[0] as u64) } else { None } } else { None }),
    ("a=rtpmap:@ opus/48000/2", 127, |t| if let SdpType::Attribute(SdpAttribute::Rtpmap(x)) = t { Some(x.payload_type as u64) } else { None }),
    ("a=candidate:0 1 UDP 5 1.2.3.4 @ typ host", 65535, |t| if let SdpType::Attribute(SdpAttribute::Candidate(x)) = t { Some(x.port as u64) } else { None }),
    ("a=candidate:0 1 UDP 5 1.2.3.4 9 typ srflx raddr 4.3.2.1 rport @", 65535, |t| if let SdpType::Attribute(SdpAttribute::Candidate(x)) = t { x.rport.map(|p| p as u64) } else { None }),
    ("a=remote-candidates:1 1.2.3.4 @", 65535, |t| if let SdpType::Attribute(SdpAttribute::RemoteCandidate(x)) = t { Some(x.port as u64) } else { None }),
    ("a=sctp-port:@", 65535, |t| if let SdpType::Attribute(SdpAttribute::SctpPort(x)) = t { Some(*x) } else { None }),
    ("a=sctpmap:@ webrtc-datachannel 256", 65535, |t| if let SdpType::Attribute(SdpAttribute::Sctpmap(x)) = t { Some(x.port as u64) } else { None }),
    ("a=rtcp:@ IN IP4 1.2.3.4", 65535, |t| if let SdpType::Attribute(SdpAttribute::Rtcp(x)) = t { Some(x.port as u64) } else { None }),
    ("a=ice-pacing:@", 9_999_999_999, |t| if let SdpType::Attribute(SdpAttribute::IcePacing(x)) = t { Some(*x) } else { None }),
    ("a=fmtp:96 packetization-mode=@", 2, |t| fm(t).map(|p| p.packetization_mode as u64)),
    ("a=fmtp:96 profile-level-id=42e01f;packetization-mode=@", 2, |t| fm(t).map(|p| p.packetization_mode as u64)),
    ("a=fmtp:96 profile=@", 2, |t| fm(t).and_then(|p| p.profile).map(|x| x as u64)),
    ("a=fmtp:96 level-idx=@", 31, |t| fm(t).and_then(|p| p.level_idx).map(|x| x as u64)),
    ("a=fmtp:96 tier=@", 1, |t| fm(t).and_then(|p| p.tier).map(|x| x as u64)),
    ("a=fmtp:@ tier=1", 255, |t| if let SdpType::Attribute(SdpAttribute::Fmtp(x)) = t { Some(x.payload_type as u64) } else { None }),
    ("a=fmtp:96 max-fs=@", u32::MAX as u64, |t| fm(t).map(|p| p.max_fs as u64)),
    ("a=fmtp:96 max-fr=@", u32::MAX as u64, |t| fm(t).map(|p| p.max_fr as u64)),
    ("a=fmtp:96 maxplaybackrate=@", u32::MAX as u64, |t| fm(t).map(|p| p.maxplaybackrate as u64)),
    ("a=fmtp:96 apt=@", 255, |t| fm(t).and_then(|p| p.rtx).map(|x| x.apt as u64)),
    ("a=fmtp:96 apt=97;rtx-time=@", u32::MAX as u64, |t| fm(t).and_then(|p| p.rtx).and_then(|x| x.rtx_time).map(|x| x as u64)),
    ("a=max-message-size:@", u64::MAX, |t| if let SdpType::Attribute(SdpAttribute::MaxMessageSize(x)) = t { Some(*x) } else { None }),
    ("a=ptime:@", u64::MAX, |t| if let SdpType::Attribute(SdpAttribute::Ptime(x)) = t { Some(*x) } else { None }),
    ("a=maxptime:@", u64::MAX, |t| if let SdpType::Attribute(SdpAttribute::MaxPtime(x)) = t { Some(*x) } else { None }),
    ("a=ssrc:@ cname:x", u32::MAX as u64, |t| if let SdpType::Attribute(SdpAttribute::Ssrc(x)) = t { Some(x.id as u64) } else { None }),
    ("a=extmap:@ urn:x", 65535, |t| if let SdpType::Attribute(SdpAttribute::Extmap(x)) = t { Some(x.id as u64) } else { None }),
    ("a=rid:a send pt=@", 65535, |t| if let SdpType::Attribute(SdpAttribute::Rid(x)) = t { x.formats.get(0).map(|x| *x as u64) } else { None }),
    ("b=AS:@", u32::MAX as u64, |t| if let SdpType::Bandwidth(SdpBandwidth::As(x)) = t { Some(*x as u64) } else { None }),
    ("t=@ 0", u64::MAX, |t| if let SdpType::Timing(x) = t { Some(x.start) } else { None }),
    ("a=rtcp-fb:@ nack", 255, |t| if let SdpType::Attribute(SdpAttribute::Rtcpfb(SdpAttributeRtcpFb { payload_type: SdpAttributePayloadType::PayloadType(x), .. })) = t { Some(*x as u64) } else { None }),
];
fn fm(t: &SdpType) -> Option<SdpAttributeFmtpParameters> { if let SdpType::Attribute(SdpAttribute::Fmtp(x)) = t { Some(x.parameters.clone()) } else { None } }
fn range(which: &str, n: &str) -> Res {
    if n.is_empty() || n.contains(|c: char| c.is_whitespace() || c == '/' || c == ';') { return Ok(false); }
    if which == "framerate" {
        let want = n.parse::<f64>().ok().filter(|f| f.is_finite() && *f > 0.0);
        let got = match parse_sdp_line(&format!("a=framerate:{n}"), 0) { Ok(SdpLine { sdp_type: SdpType::Attribute(SdpAttribute::FrameRate(f)), .. }) => Some(f), _ => None };
        if want != got { fail!("frame rate {n:?}: read as {got:?}, expected {want:?}") }
        return Ok(true);
    }
    if which == "plid" {
        let want = if n.is_empty() || !n.bytes().all(|c| c.is_ascii_hexdigit()) { None } else { let t = n.trim_start_matches('0'); if t.len() > 6 { None } else { Some(u32::from_str_radix(&format!("0{t}"), 16).unwrap()) } };
        let got = parse_sdp_line(&format!("a=fmtp:97 profile-level-id={n}"), 0).ok().and_then(|l| fm(&l.sdp_type)).map(|p| p.profile_level_id);
        if want != got { fail!("profile-level-id {n:?}: read as {got:?}, expected {want:?}") }
        return Ok(true);
    }
    if let Some(h) = which.strip_prefix("fp:") {
        let want = match h { "sha-1" => 20, "sha-224" => 28, "sha-256" => 32, "sha-384" => 48, _ => 64 };
        let k: usize = n.parse().unwrap();
        let t = format!("a=fingerprint:{h} {}", (0..k).map(|i| format!("{:02X}", (i * 37 + 11) % 256)).collect::<Vec<_>>().join(":"));
        let got = match parse_sdp_line(&t, 0) { Ok(SdpLine { sdp_type: SdpType::Attribute(SdpAttribute::Fingerprint(f)), .. }) => Some(f.fingerprint.len()), _ => None };
        let want = if want == k { Some(k) } else { None };
        if want != got { fail!("{h} fingerprint of {k} bytes: {}", if got.is_some() { "accepted" } else { "rejected" }) }
        return Ok(true);
    }
    let (tpl, max, get) = RANGES.iter().find(|r| r.0 == which).ok_or_else(|| bad(format!("unknown range {which}")))?;
    let t = tpl.replace('@', n);
    let digits = n.strip_prefix('+').unwrap_or(n);
    let val = if digits.is_empty() || !digits.bytes().all(|c| c.is_ascii_digit()) { None } else { let d = digits.trim_start_matches('0'); if d.len() > 20 { None } else { d.bytes().fold(0u128, |a, c| a * 10 + (c - b'0') as u128).try_into().ok() } };
    let mut want: Option<u64> = val.filter(|v: &u64| *v <= *max);
    if tpl.starts_with("m=") && *max == 127 { want = want.filter(|v| !(*v == 1 || *v == 2 || *v == 19 || (64..=95).contains(v))); }
    if n == "*" && which.starts_with("a=rtcp-fb") { return Ok(false); }
    let got = parse_sdp_line(&t, 0).ok().map(|l| get(&l.sdp_type));
    match (want, got) {
        (Some(w), Some(Some(g))) if w == g => Ok(true),
        (None, None) => Ok(true),
        (Some(w), None) => fail!("{t:?}: {w} is in range but is rejected"),
        (w, g) => fail!("{t:?}: read as {g:?}, expected {w:?}"),
    }
}

// ---------------------------------------------------------------- round trip
fn parse_attr_line(p: &str) -> Result<SdpAttribute, String> {
    match parse_sdp_line(&format!("a={p}"), 0) { Ok(SdpLine { sdp_type: SdpType::Attribute(b), .. }) => Ok(b), Ok(l) => Err(format!("{:?}", l.sdp_type)), Err(e) => Err(format!("{e:?}")) }
}
/// which recorded finding explains that this very attribute does not survive printing
pub fn known(a: &SdpAttribute) -> Option<&'static str> {
    match a {
        SdpAttribute::Fmtp(f) if a.to_string().is_empty() || dbg(&f.parameters) == dbg(&refdec::fmtp_default()) => Some("KF1"),
        SdpAttribute::MsidSemantic(m) if m.msids.is_empty() => Some("KF2"),
        SdpAttribute::Rid(r) if r.formats.is_empty() && first_rid_param(r).map(|p| p.starts_with("pt=")).unwrap_or(false) => Some("KF3"),
        // an unknown parameter ending in blanks that is printed last
        SdpAttribute::Rid(r) if ends_blank(a) && r.params.unknown.last().map_or(false, |u| u.trim_end() != u) && r.depends.is_empty() => Some("KF5"),
        SdpAttribute::Rid(r) if ends_blank(a) && r.depends.last().map_or(false, |u| u.trim_end() != u) => Some("KF5"),
        SdpAttribute::Fmtp(f) if ends_blank(a) && f.parameters.unknown_tokens.last().map_or(false, |u| u.trim_end() != u) => Some("KF5"),
        _ => None,
    }
}
fn ends_blank(a: &SdpAttribute) -> bool { let p = a.to_string(); p.trim_end() != p }
fn first_rid_param(r: &SdpAttributeRid) -> Option<String> {
    let p = &r.params;
    for (n, v) in [("max-width", p.max_width), ("max-height", p.max_height), ("max-fps", p.max_fps), ("max-fs", p.max_fs), ("max-br", p.max_br), ("max-pps", p.max_pps)] { if v != 0 { return Some(format!("{n}={v}")); } }
    if let Some(u) = p.unknown.first() { return Some(u.clone()); }
    if !r.depends.is_empty() { return Some("depends".into()); }
    None
}
fn rt_attr(a: &SdpAttribute) -> Result<(), Bad> {
    let p = a.to_string();
    let b = match parse_attr_line(&p) { Ok(b) => b, Err(e) => return Err(Bad { msg: format!("{a:?} prints as {p:?}, which is rejected: {e}"), kf: known(a) }) };
    if dbg(a) != dbg(&b) && !nan_equal(a, &b) { return Err(Bad { msg: format!("{a:?} prints as {p:?}, which is read as {b:?}"), kf: known(a) }); }
    if b.to_string() != p { return Err(Bad { msg: format!("printing is not stable: {p:?} then {:?}", b.to_string()), kf: known(a) }); }
    Ok(())
}
fn nan_equal(_: &SdpAttribute, _: &SdpAttribute) -> bool { false }
fn rt(text: &str) -> Res {
    match parse_attr_line(text) { Ok(a) => rt_attr(&a).map(|_| true), Err(_) => Ok(false) }
}

// ---------------------------------------------------------------- whole sessions
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Why { Line, Structure, Order, Level }
pub struct Model { version: u64, origin: String, session: Option<String>, connection: Option<String>, bandwidth: Vec<String>, timing: Option<String>, attribute: Vec<String>, media: Vec<MModel> }
#[derive(Default, PartialEq, Debug, Clone)]
pub struct MModel { line: String, connection: Option<String>, bandwidth: Vec<String>, attribute: Vec<String> }

pub const SESSION_FORBIDDEN: [&str; 25] = ["bundle-only", "candidate", "fmtp", "framerate", "ice-mismatch", "imageattr", "label", "max-message-size", "maxptime", "mid", "msid", "ptime", "rid", "remote-candidates", "rtpmap", "rtcp", "rtcp-fb", "rtcp-mux", "rtcp-mux-only", "rtcp-rsize", "sctpmap", "sctp-port", "simulcast", "ssrc", "ssrc-group"];
pub const MEDIA_FORBIDDEN: [&str; 6] = ["dtls-message", "group", "ice-lite", "ice-pacing", "identity", "msid-semantic"];
/// the attribute's name, by its alternative (not by the code's tables)
pub fn name_of(a: &SdpAttribute) -> &'static str {
    use SdpAttribute::*;
    match a { BundleOnly => "bundle-only", Candidate(..) => "candidate", DtlsMessage(..) => "dtls-message", EndOfCandidates => "end-of-candidates", Extmap(..) => "extmap", ExtmapAllowMixed => "extmap-allow-mixed",
        Fingerprint(..) => "fingerprint", Fmtp(..) => "fmtp", FrameRate(..) => "framerate", Group(..) => "group", IceLite => "ice-lite", IceMismatch => "ice-mismatch", IceOptions(..) => "ice-options", IcePacing(..) => "ice-pacing",
        IcePwd(..) => "ice-pwd", IceUfrag(..) => "ice-ufrag", Identity(..) => "identity", ImageAttr(..) => "imageattr", Inactive => "inactive", Label(..) => "label", MaxMessageSize(..) => "max-message-size", MaxPtime(..) => "maxptime",
        Mid(..) => "mid", Msid(..) => "msid", MsidSemantic(..) => "msid-semantic", Ptime(..) => "ptime", Rid(..) => "rid", Recvonly => "recvonly", RemoteCandidate(..) => "remote-candidates", Rtpmap(..) => "rtpmap", Rtcp(..) => "rtcp",
        Rtcpfb(..) => "rtcp-fb", RtcpMux => "rtcp-mux", RtcpMuxOnly => "rtcp-mux-only", RtcpRsize => "rtcp-rsize", Sctpmap(..) => "sctpmap", SctpPort(..) => "sctp-port", Sendonly => "sendonly", Sendrecv => "sendrecv", Setup(..) => "setup",
        Simulcast(..) => "simulcast", Ssrc(..) => "ssrc", SsrcGroup(..) => "ssrc-group" }
}
/// what the whole text must become, given what each of its lines is on its own
fn assemble(text: &str) -> Result<Model, Why> {
    let mut t = vec![];
    for (n, l) in text.lines().enumerate() {
        if l.trim().is_empty() { continue; }
        match parse_sdp_line(l, n) { Ok(x) => t.push(x.sdp_type), Err(SdpParserError::Unsupported { .. }) => {}, Err(_) => return Err(Why::Line) }
    }
    if text.len() < 51 { return Err(Why::Line); }
    let mut it = t.into_iter();
    let version = match it.next() { Some(SdpType::Version(v)) => v, _ => return Err(Why::Structure) };
    let origin = match it.next() { Some(SdpType::Origin(v)) => dbg(&v), _ => return Err(Why::Structure) };
    let session = match it.next() { Some(SdpType::Session(v)) => { let v = v.trim().to_string(); if v.is_empty() { None } else { Some(v) } }, _ => return Err(Why::Structure) };
    let mut m = Model { version, origin, session, connection: None, bandwidth: vec![], timing: None, attribute: vec![], media: vec![] };
    let mut sess: Vec<SdpAttribute> = vec![]; let mut per: Vec<(SdpMediaLine, Vec<SdpAttribute>)> = vec![];
    let mut level = false;
    for x in it {
        match x {
            SdpType::Media(l) => { m.media.push(MModel { line: dbg(&l), ..Default::default() }); per.push((l, vec![])); }
            SdpType::Version(_) | SdpType::Origin(_) | SdpType::Session(_) => return Err(Why::Order),
            SdpType::Timing(t) => if m.media.is_empty() { m.timing = Some(dbg(&t)) } else { return Err(Why::Order) },
            SdpType::Bandwidth(b) => match m.media.last_mut() { Some(s) => s.bandwidth.push(dbg(&b)), None => m.bandwidth.push(dbg(&b)) },
            SdpType::Connection(c) => match m.media.last_mut() { Some(s) => { if s.connection.is_some() { return Err(Why::Order); } s.connection = Some(dbg(&c)) } None => m.connection = Some(dbg(&c)) },
            SdpType::Attribute(a) => match m.media.last_mut() {
                Some(s) => { if let SdpAttribute::DtlsMessage(_) = a { continue; } if MEDIA_FORBIDDEN.contains(&name_of(&a)) { level = true; } s.attribute.push(dbg(&a)); per.last_mut().unwrap().1.push(a); }
                None => { if SESSION_FORBIDDEN.contains(&name_of(&a)) { level = true; } m.attribute.push(dbg(&a)); sess.push(a); }
            },
        }
    }
    if level { return Err(Why::Level); }
    if m.timing.is_none() { return Err(Why::Structure); }
    if m.connection.is_none() && m.media.iter().any(|s| s.connection.is_none()) { return Err(Why::Structure); }
    if !rules(&sess, &per) { return Err(Why::Structure); }
    Ok(m)
}
fn rules(sess: &[SdpAttribute], per: &[(SdpMediaLine, Vec<SdpAttribute>)]) -> bool {
    let ext = |v: &[SdpAttribute]| v.iter().any(|a| name_of(a) == "extmap");
    for (l, v) in per {
        if ext(sess) && ext(v) { return false; }
        if v.iter().any(|a| name_of(a) == "rtcp-mux-only") && !v.iter().any(|a| name_of(a) == "rtcp-mux") { return false; }
        let rids: Vec<&SdpAttributeRid> = v.iter().filter_map(|a| if let SdpAttribute::Rid(r) = a { Some(r) } else { None }).collect();
        for r in &rids { for f in &r.formats {
            let ok = match &l.formats { SdpFormatList::Integers(i) => i.iter().any(|x| *x == *f as u32), SdpFormatList::Strings(s) => s.iter().any(|x| *x == f.to_string()) };
            if !ok { return false; }
        } }
        // a section's simulcast is its first one
        if let Some(SdpAttribute::Simulcast(s)) = v.iter().find(|a| name_of(a) == "simulcast") {
            for (list, d) in [(&s.send, SdpSingleDirection::Send), (&s.receive, SdpSingleDirection::Recv)] {
                for ver in list { for id in &ver.ids { if !rids.iter().any(|r| r.id == id.id && r.direction == d) { return false; } } }
            }
        }
    }
    true
}
fn session(text: &str, what: char) -> Res {
    let want = assemble(text);
    let got = parse_sdp(text, false);
    match (want, got) {
        (Ok(m), Ok(s)) => {
            if what != 'L' && what != 'V' { return Ok(true); }
            if what == 'V' {
                for a in &s.attribute { if SESSION_FORBIDDEN.contains(&name_of(a)) { fail!("session-level list holds {a:?}") } }
                for x in &s.media { for a in x.get_attributes() { if MEDIA_FORBIDDEN.contains(&name_of(a)) { fail!("media section holds {a:?}") } } }
                return Ok(true);
            }
            if s.version != m.version || dbg(&s.origin) != m.origin { fail!("version or origin differ: {} {:?}, expected {} {}", s.version, s.origin, m.version, m.origin) }
            if s.session != m.session { fail!("session name is {:?}, expected {:?}", s.session, m.session) }
            if s.connection.as_ref().map(dbg) != m.connection { fail!("session connection is {:?}, expected {:?}", s.connection, m.connection) }
            if s.timing.as_ref().map(dbg) != m.timing { fail!("timing is {:?}, expected {:?}", s.timing, m.timing) }
            let v = |x: &[SdpBandwidth]| x.iter().map(dbg).collect::<Vec<_>>();
            if v(&s.bandwidth) != m.bandwidth { fail!("session bandwidths are {:?}, expected {:?}", s.bandwidth, m.bandwidth) }
            if s.attribute.iter().map(dbg).collect::<Vec<_>>() != m.attribute { fail!("session attributes are {:?}, expected {:?}", s.attribute, m.attribute) }
            if s.media.len() != m.media.len() { fail!("{} media sections, expected {}", s.media.len(), m.media.len()) }
            for (i, (x, y)) in s.media.iter().zip(&m.media).enumerate() {
                let z = mmodel(x);
                if z != *y { fail!("media section {i} is {z:?}, expected {y:?}") }
            }
            Ok(true)
        }
        (Err(Why::Line), Err(_)) => Ok(false),
        (Err(_), Err(_)) => Ok(true),
        (Err(w), Ok(_)) => {
            let hit = matches!((what, w), ('S', Why::Structure) | ('L', Why::Order) | ('V', Why::Level));
            if hit { fail!("accepted, though it breaks a rule ({w:?})") }
            Ok(false)
        }
        (Ok(_), Err(e)) => { if what == 'S' { fail!("every line parses and every rule is met, but the session is rejected: {e:?}") } Ok(false) }
    }
}
fn mmodel(x: &SdpMedia) -> MModel {
    let l = SdpMediaLine { media: x.get_type().clone(), port: x.get_port(), port_count: x.get_port_count(), proto: x.get_proto().clone(), formats: x.get_formats().clone() };
    MModel { line: dbg(&l), connection: x.get_connection().as_ref().map(dbg), bandwidth: x.get_bandwidth().iter().map(dbg).collect(), attribute: x.get_attributes().iter().map(dbg).collect() }
}

/// C06. Lines are marked by how they were made: each is ordinary, malformed (from a fixed pool), unsupported (pool) or blank.
pub const MALFORMED: [&str; 22] = ["a=candidate:0", "a=rtcp-mux:1", "a=rtpmap:96", "garbage", "a=", "m=audio 9 RTP/AVP", "m=audio 65536 RTP/AVP 0", "m=audio x RTP/AVP 0", "c=IN IP4", "c=IN IP5 1.2.3.4", "b=AS:x", "b=AS", "x=1", "aa=b",
    "=v", "i=info", "u=http://x", "e=a@b", "t=1", "o=- 1 1 IN IP4 ::1", "a=framerate:0", "a=fmtp:96 packetization-mode=7"];
pub const UNSUPPORTED: [&str; 14] = ["a=x-unknown:1", "a=foo", "a=rtcp-fb:96 ack foo", "a=rtcp-fb:96 bar", "a=group:XYZ 1", "a=ssrc-group:XYZ 1 2", "a=fingerprint:md5 00:11", "m=text 9 RTP/AVP 0", "m=audio 9 FOO 0", "m=image 9 RTP/AVP 0", "a=Foo:bar baz ", "a=rtcp-fb:* nack foo", "a=rtcp-fb:96 ccm xyz", "a=candidates:1"];
fn policy(text: &str) -> Res {
    let l: Vec<&str> = text.lines().collect();
    let is = |pool: &[&str], s: &str| pool.contains(&s);
    let bads: Vec<usize> = (0..l.len()).filter(|i| is(&MALFORMED, l[*i])).collect();
    let uns: Vec<usize> = (0..l.len()).filter(|i| is(&UNSUPPORTED, l[*i])).collect();
    let rest: Vec<&str> = l.iter().filter(|x| !x.trim().is_empty() && !is(&MALFORMED, x) && !is(&UNSUPPORTED, x)).copied().collect();
    // the remaining lines must be fine on their own
    let clean = rest.join("\r\n") + "\r\n";
    let base = match parse_sdp(&clean, true) { Ok(s) => s, Err(_) => return Ok(false) };
    if !base.warnings.is_empty() { return Ok(false); }
    if text.len() < 51 { return Ok(false); }
    for strict in [true, false] {
        let r = parse_sdp(text, strict);
        match r {
            Ok(s) => {
                if !bads.is_empty() { fail!("strict={strict}: accepted though line {} is malformed: {:?}", bads[0], l[bads[0]]) }
                if strict && !uns.is_empty() { fail!("strict mode accepted unsupported line {}: {:?}", uns[0], l[uns[0]]) }
                let w: Vec<Option<(usize, String)>> = s.warnings.iter().map(|w| match w { SdpParserError::Unsupported { line, line_number, .. } => Some((*line_number, line.clone())), _ => None }).collect();
                let x: Vec<Option<(usize, String)>> = uns.iter().map(|i| Some((*i, l[*i].to_string()))).collect();
                if w != x { fail!("warnings are {w:?}, expected {x:?}") }
                let mut a = s.clone(); a.warnings = vec![];
                if dbg(&a) != dbg(&base) { fail!("with unsupported or blank lines added the session becomes {a:?} instead of {base:?}") }
            }
            Err(e) => {
                match &e {
                    SdpParserError::Line { line, line_number, .. } => {
                        if !bads.contains(line_number) || l[*line_number] != line { fail!("strict={strict}: error names line {line_number} {line:?}, but the malformed lines are {bads:?}") }
                    }
                    SdpParserError::Unsupported { line, line_number, .. } => {
                        if !strict { fail!("lenient mode failed with an unsupported line: {e:?}") }
                        if !uns.contains(line_number) || l[*line_number] != line { fail!("strict: error names line {line_number} {line:?}, but the unsupported lines are {uns:?}") }
                        if bads.is_empty() && *line_number != uns[0] { fail!("strict: error names line {line_number}, but the first unsupported line is {}", uns[0]) }
                    }
                    SdpParserError::Sequence { .. } => fail!("strict={strict}: fails with {e:?}"),
                }
            }
        }
    }
    Ok(true)
}

// ---------------------------------------------------------------- levels
fn base_media(m: &str) -> SdpMedia { match parse_sdp_line(m, 0) { Ok(SdpLine { sdp_type: SdpType::Media(l), .. }) => SdpMedia::new(l), _ => SdpMedia::new(SdpMediaLine { media: SdpMediaValue::Audio, port: 9, port_count: 0, proto: SdpProtocolValue::RtpAvp, formats: SdpFormatList::Integers(vec![0]) }) } }
pub fn base_session() -> SdpSession { SdpSession::new(0, SdpOrigin { username: "-".into(), session_id: 1, session_version: 2, unicast_addr: ExplicitlyTypedAddress::Ip(IpAddr::V4([1, 2, 3, 4].into())) }, "-".into()) }
fn level(text: &str) -> Res {
    let a = match refdec::attribute(text) { Ok(a) => a, Err(_) => return Ok(false) };
    let n = name_of(&a);
    let (so, mo) = (!SESSION_FORBIDDEN.contains(&n), !MEDIA_FORBIDDEN.contains(&n));
    let mut s = base_session();
    s.attribute.push(SdpAttribute::Sendrecv); s.attribute.push(SdpAttribute::IceLite);
    let before = dbg(&s);
    if s.add_attribute(a.clone()).is_ok() != so { fail!("{a:?} is {} by the session, though it is {} there", if so { "refused" } else { "taken" }, if so { "permitted" } else { "not permitted" }) }
    if so { let mut t = base_session(); t.attribute = vec![SdpAttribute::Sendrecv, SdpAttribute::IceLite, a.clone()]; if dbg(&t) != dbg(&s) { fail!("adding {a:?} made the session {s:?}") } } else if dbg(&s) != before { fail!("the refused {a:?} changed the session to {s:?}") }
    for set in [false, true] {
        let mut m = base_media("m=audio 9 RTP/AVP 0"); m.add_attribute(SdpAttribute::Sendrecv).map_err(|e| bad(format!("sendrecv refused: {e}")))?; m.add_attribute(SdpAttribute::Mid("x".into())).map_err(|e| bad(format!("mid refused: {e}")))?;
        let before = dbg(&m);
        let r = if set { m.set_attribute(a.clone()) } else { m.add_attribute(a.clone()) };
        if r.is_ok() != mo { fail!("{a:?} is {} by a media section, though it is {} there", if mo { "refused" } else { "taken" }, if mo { "permitted" } else { "not permitted" }) }
        if !mo && dbg(&m) != before { fail!("the refused {a:?} changed the media section to {m:?}") }
        if mo && m.get_attributes().last().map(dbg) != Some(dbg(&a)) { fail!("{a:?} was not added last") }
    }
    // and through parsing
    let head = "v=0\r\no=- 1 2 IN IP4 1.2.3.4\r\ns=-\r\nt=0 0\r\nc=IN IP4 1.2.3.4\r\n";
    let extra = match n { "rtcp-mux-only" => "a=rtcp-mux\r\n", _ => "" };
    let pt = if n == "rid" || n == "simulcast" { return Ok(true) } else { extra };
    let st = format!("{head}a={text}\r\n");
    if parse_sdp(&st, false).is_ok() != so { fail!("{st:?}: {}", if so { "rejected" } else { "accepted" }) }
    let mt = format!("{head}m=audio 9 RTP/AVP 0\r\n{pt}a={text}\r\n");
    let want = mo || n == "dtls-message";
    match parse_sdp(&mt, false) {
        Ok(s) => { if !want { fail!("{mt:?} accepted") } if s.media[0].get_attributes().iter().any(|x| MEDIA_FORBIDDEN.contains(&name_of(x))) { fail!("{mt:?}: media section holds {:?}", s.media[0].get_attributes()) } }
        Err(e) => if want { fail!("{mt:?} rejected: {e:?}") },
    }
    Ok(true)
}

// ---------------------------------------------------------------- printing sessions
fn expected_text(s: &SdpSession) -> String {
    let mut l: Vec<String> = vec![format!("v={}", s.version), format!("o={}", s.origin), format!("s={}", s.session.clone().unwrap_or(" ".into()))];
    if let Some(t) = &s.timing { l.push(format!("t={t}")); }
    for b in &s.bandwidth { l.push(format!("b={b}")); }
    if let Some(c) = &s.connection { l.push(format!("c={c}")); }
    for a in &s.attribute { l.push(format!("a={a}")); }
    for m in &s.media {
        let line = SdpMediaLine { media: m.get_type().clone(), port: m.get_port(), port_count: m.get_port_count(), proto: m.get_proto().clone(), formats: m.get_formats().clone() };
        l.push(format!("m={line}"));
        for b in m.get_bandwidth() { l.push(format!("b={b}")); }
        if let Some(c) = m.get_connection() { l.push(format!("c={c}")); }
        for a in m.get_attributes() { l.push(format!("a={a}")); }
    }
    l.retain(|x| x != "a=");
    l.into_iter().map(|x| x + "\r\n").collect()
}
fn rebuild(s: &SdpSession, keep: &dyn Fn(&SdpAttribute) -> bool) -> SdpSession {
    let mut t = s.clone();
    t.attribute.retain(|a| keep(a));
    t.media = s.media.iter().map(|m| {
        let mut n = SdpMedia::new(SdpMediaLine { media: m.get_type().clone(), port: m.get_port(), port_count: m.get_port_count(), proto: m.get_proto().clone(), formats: m.get_formats().clone() });
        if let Some(c) = m.get_connection() { n.set_connection(c.clone()); }
        for b in m.get_bandwidth() { n.add_bandwidth(b.clone()); }
        for a in m.get_attributes() { if keep(a) { let _ = n.add_attribute(a.clone()); } }
        n
    }).collect();
    t
}
fn sessrt(text: &str) -> Res {
    let mut s = match parse_sdp(text, false) { Ok(s) => s, Err(_) => return Ok(false) };
    s.warnings = vec![];
    let p = s.to_string();
    if s.attribute.iter().chain(s.media.iter().flat_map(|m| m.get_attributes())).all(|a| !a.to_string().is_empty() || known(a).is_some()) {
        let want = expected_text(&s);
        if p != want { fail!("prints as {p:?}, expected {want:?}") }
    }
    let mut found = None;
    for a in s.attribute.iter().chain(s.media.iter().flat_map(|m| m.get_attributes())) { if known(a).is_some() { if let Err(b) = rt_attr(a) { found = Some(b); } } }
    let s = if found.is_some() { rebuild(&s, &|a| known(a).is_none()) } else { s };
    let p = s.to_string();
    let mut t = match parse_sdp(&p, false) { Ok(t) => t, Err(e) => return Err(Bad { msg: format!("prints as {p:?}, which is rejected: {e:?}"), kf: if p.len() < 51 { Some("KF4") } else { None } }) };
    if !t.warnings.is_empty() { fail!("prints as {p:?}, which is read with warnings {:?}", t.warnings) }
    t.warnings = vec![];
    if dbg(&s) != dbg(&t) { fail!("prints as {p:?}, which is read as {t:?} instead of {s:?}") }
    if t.to_string() != p { fail!("printing again gives {:?} instead of {p:?}", t.to_string()) }
    match found { Some(b) => Err(b), None => Ok(true) }
}

// ---------------------------------------------------------------- masking
thread_local! { static SHOWN: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }
fn shown(what: &str, v: &str) { SHOWN.with(|s| { s.borrow_mut().get_or_insert_with(|| format!("{what} {v:?} is its own mask")); }); }
// each of these masks one value by the anonymizer's primitive and notes a value that comes out as it went in and cannot be a counter
fn hide_str(x: &mut StatefulSdpAnonymizer, kind: &str, v: &str) -> String {
    let m = match kind { "ice-user-" => x.mask_ice_user(v), "ice-password-" => x.mask_ice_password(v), "origin-user-" => x.mask_origin_user(v), "cname-" => x.mask_cname(v), _ => x.mask_host(v) };
    if m == v && !v.ends_with(|c: char| c.is_ascii_digit()) { shown(kind, v); }
    m
}
fn hide_ip(x: &mut StatefulSdpAnonymizer, ip: &IpAddr) -> IpAddr {
    let m = x.mask_ip(ip);
    let n = match ip { IpAddr::V4(a) => u32::from(*a) as u128, IpAddr::V6(a) => u128::from(*a) };
    if m == *ip && n > 1_000_000 { shown("address", &ip.to_string()); }
    m
}
fn hide_addr(x: &mut StatefulSdpAnonymizer, a: &Address) -> Address { match a { Address::Fqdn(h) => Address::Fqdn(hide_str(x, "fqdn-", h)), Address::Ip(ip) => Address::Ip(hide_ip(x, ip)) } }
fn hide_typed(x: &mut StatefulSdpAnonymizer, a: &ExplicitlyTypedAddress) -> ExplicitlyTypedAddress {
    match a { ExplicitlyTypedAddress::Fqdn { address_type, domain } => ExplicitlyTypedAddress::Fqdn { address_type: *address_type, domain: hide_str(x, "fqdn-", domain) }, ExplicitlyTypedAddress::Ip(ip) => ExplicitlyTypedAddress::Ip(hide_ip(x, ip)) }
}
fn hide_port(x: &mut StatefulSdpAnonymizer, p: u32) -> u32 { let m = x.mask_port(p); if m == p && p > 20_000 { shown("port", &p.to_string()); } m }
fn hide_fp(x: &mut StatefulSdpAnonymizer, v: &[u8]) -> Vec<u8> { let m = x.mask_cert_finger_print(v); if m == v && v.len() > 8 { shown("fingerprint", &dbg(&v)); } m }
fn mask_attr(a: &SdpAttribute, x: &mut StatefulSdpAnonymizer) -> SdpAttribute {
    let mut a = a.clone();
    match &mut a {
        SdpAttribute::Candidate(c) => {
            c.address = hide_addr(x, &c.address); c.port = hide_port(x, c.port);
            if let Some(r) = &c.raddr { c.raddr = Some(hide_addr(x, r)); }
            if let Some(r) = c.rport { c.rport = Some(hide_port(x, r)); }
            if let Some(u) = &c.ufrag { c.ufrag = Some(hide_str(x, "ice-user-", u)); }
        }
        SdpAttribute::RemoteCandidate(c) => { c.address = hide_addr(x, &c.address); c.port = hide_port(x, c.port); }
        SdpAttribute::Rtcp(c) => { if let Some(r) = &c.unicast_addr { c.unicast_addr = Some(hide_typed(x, r)); } }
        SdpAttribute::IcePwd(p) => *p = hide_str(x, "ice-password-", p),
        SdpAttribute::IceUfrag(p) => *p = hide_str(x, "ice-user-", p),
        SdpAttribute::Fingerprint(f) => f.fingerprint = hide_fp(x, &f.fingerprint),
        SdpAttribute::Ssrc(s) if s.attribute.as_deref().map(|a| a.to_lowercase()).as_deref() == Some("cname") => { if let Some(v) = &s.value { s.value = Some(hide_str(x, "cname-", v)); } }
        _ => {}
    }
    a
}
fn mask_conn(c: &SdpConnection, x: &mut StatefulSdpAnonymizer) -> SdpConnection { let mut c = c.clone(); c.address = hide_typed(x, &c.address); c }
fn mask_model(s: &SdpSession, x: &mut StatefulSdpAnonymizer) -> SdpSession {
    let mut m = s.clone();
    m.warnings = vec![];
    m.origin.username = hide_str(x, "origin-user-", &s.origin.username);
    m.origin.unicast_addr = hide_typed(x, &s.origin.unicast_addr);
    if let Some(c) = &s.connection { m.connection = Some(mask_conn(c, x)); }
    m.attribute = s.attribute.iter().map(|a| mask_attr(a, x)).collect();
    m.media = s.media.iter().map(|o| {
        let mut n = SdpMedia::new(SdpMediaLine { media: o.get_type().clone(), port: o.get_port(), port_count: o.get_port_count(), proto: o.get_proto().clone(), formats: o.get_formats().clone() });
        if let Some(c) = o.get_connection() { n.set_connection(mask_conn(c, x)); }
        for b in o.get_bandwidth() { n.add_bandwidth(b.clone()); }
        for a in o.get_attributes() { let _ = n.add_attribute(mask_attr(a, x)); }
        n
    }).collect();
    m
}
fn mask(text: &str, hist: &[String]) -> Res {
    let s = match parse_sdp(text, false) { Ok(s) => s, Err(_) => return Ok(false) };
    let before = dbg(&s);
    let mut x = StatefulSdpAnonymizer::new();
    for h in hist { if let Ok(h) = parse_sdp(h, false) { let _ = h.masked_clone(&mut x); } }
    let mut m = s.masked_clone(&mut x);
    m.warnings = vec![];
    if dbg(&s) != before { fail!("masking changed the original") }
    SHOWN.with(|s| *s.borrow_mut() = None);
    let w = mask_model(&s, &mut x);
    if let Some(e) = SHOWN.with(|s| s.borrow_mut().take()) { fail!("{e}") }
    if dbg(&m) != dbg(&w) { fail!("the masked copy is {m:?}, expected {w:?}") }
    // the strings that are hidden must be gone from the fields that hid them
    for (o, n) in [(s.origin.username.clone(), m.origin.username.clone())] { if o.len() > 5 && !o.contains('-') && n.contains(&o) { fail!("masked user name {n:?} shows {o:?}") } }
    // masking each part on its own gives the same
    for (a, b) in s.attribute.iter().zip(&m.attribute) { let c = a.masked_clone(&mut x); if dbg(&c) != dbg(b) { fail!("masking {a:?} alone gives {c:?}, within the session {b:?}") } }
    Ok(true)
}
fn mask_op(x: &mut StatefulSdpAnonymizer, k: &str, v: &str) -> Result<(String, String, String), Bad> {
    // (kind, the value as compared, the result)
    let nul = || bad(format!("{k}:{v}"));
    Ok(match k {
        "ip" => { let a: IpAddr = v.parse().map_err(|_| nul())?; let m = x.mask_ip(&a); if m.is_ipv4() != a.is_ipv4() { return Err(bad(format!("{a} is masked as {m}, of the other family"))); } (format!("ip{}", a.is_ipv4()), a.to_string(), m.to_string()) }
        "addr" => { let a = Address::from_str(v).map_err(|_| nul())?; let m = x.mask_address(&a); match (&a, &m) {
            (Address::Ip(i), Address::Ip(j)) if i.is_ipv4() == j.is_ipv4() => (format!("ip{}", i.is_ipv4()), i.to_string(), j.to_string()),
            (Address::Fqdn(i), Address::Fqdn(j)) => ("host".into(), i.clone(), j.clone()),
            _ => return Err(bad(format!("address {a:?} is masked as {m:?}"))) } }
        "typed4" | "typed6" => { let f = if k == "typed4" { AddressType::IpV4 } else { AddressType::IpV6 }; let a = match refdec::typed(f, v) { Ok(a) => a, Err(_) => return Err(nul()) }; let m = x.mask_typed_address(&a); match (&a, &m) {
            (ExplicitlyTypedAddress::Ip(i), ExplicitlyTypedAddress::Ip(j)) if i.is_ipv4() == j.is_ipv4() => (format!("ip{}", i.is_ipv4()), i.to_string(), j.to_string()),
            (ExplicitlyTypedAddress::Fqdn { address_type: f, domain: i }, ExplicitlyTypedAddress::Fqdn { address_type: g, domain: j }) if f == g => ("host".into(), i.clone(), j.clone()),
            _ => return Err(bad(format!("address {a:?} is masked as {m:?}"))) } }
        "host" => ("host".into(), v.into(), x.mask_host(v)),
        "port" => { let p: u32 = v.parse().map_err(|_| nul())?; ("port".into(), p.to_string(), x.mask_port(p).to_string()) }
        "user" => ("user".into(), v.into(), x.mask_origin_user(v)),
        "pwd" => ("pwd".into(), v.into(), x.mask_ice_password(v)),
        "ufrag" => ("ufrag".into(), v.into(), x.mask_ice_user(v)),
        "cname" => ("cname".into(), v.into(), x.mask_cname(v)),
        "fp" => ("fp".into(), v.into(), dbg(&x.mask_cert_finger_print(v.as_bytes()))),
        _ => return Err(nul()),
    })
}
fn expand(ops: &[String]) -> Vec<(String, String)> {
    let mut o = vec![];
    for op in ops {
        if let Some((k, r)) = op.split_once('#') {
            let t: Vec<u64> = r.split('#').filter_map(|x| x.parse().ok()).collect();
            if t.len() == 2 { for i in t[0]..t[0] + t[1].min(200_000) { let v = match k { "ip" => std::net::Ipv4Addr::from(i as u32).to_string(), "ip6" => std::net::Ipv6Addr::from((0x2001u128 << 112) + i as u128).to_string(), "port" => i.to_string(), _ => format!("v{i}") }; o.push((if k == "ip6" { "ip" } else { k }.to_string(), v)); } }
        } else if let Some((k, v)) = op.split_once('=') { o.push((k.into(), v.into())); }
    }
    o
}
fn maskseq(ops: &[String]) -> Res {
    use std::collections::HashMap;
    let ops = expand(ops);
    let mut x = StatefulSdpAnonymizer::new();
    let mut fwd: HashMap<(String, String), String> = HashMap::new();
    let mut back: HashMap<(String, String), String> = HashMap::new();
    let mut log: Vec<(String, usize, String)> = vec![];
    for (i, (k, v)) in ops.iter().enumerate() {
        let (k2, v2, r) = match mask_op(&mut x, k, v) { Ok(t) => t, Err(b) if b.msg == format!("{k}:{v}") => continue, Err(b) => return Err(b) };
        if let Some(o) = fwd.insert((k2.clone(), v2.clone()), r.clone()) { if o != r { fail!("{k2} {v2:?} is masked as {o:?} and later as {r:?}") } }
        if let Some(o) = back.insert((k2.clone(), r.clone()), v2.clone()) { if o != v2 { fail!("{k2} {o:?} and {v2:?} are both masked as {r:?}") } }
        log.push((k2, i, r));
    }
    // another kind's values make no difference
    let kinds: Vec<String> = { let mut k: Vec<String> = log.iter().map(|l| l.0.clone()).collect(); k.sort(); k.dedup(); k };
    if kinds.len() > 1 && log.len() < 400 {
        for k in &kinds {
            let mut y = StatefulSdpAnonymizer::new();
            for (k2, i, r) in log.iter().filter(|l| l.0 == *k) {
                let (_, v2, r2) = mask_op(&mut y, &ops[*i].0, &ops[*i].1)?;
                if *r != r2 { fail!("{k2} {v2:?} is masked as {r:?}, but as {r2:?} when only values of that kind were masked before") }
            }
        }
    }
    Ok(true)
}

// ---------------------------------------------------------------- editing
fn kind_of(n: &str) -> Option<SdpAttributeType> { type_of(n) }
fn edit(ops: &[String]) -> Res {
    #[derive(Clone)]
    struct Mm { l: SdpMediaLine, c: Option<SdpConnection>, b: Vec<SdpBandwidth>, a: Vec<SdpAttribute> }
    let show = |m: &Mm| MModel { line: dbg(&m.l), connection: m.c.as_ref().map(dbg), bandwidth: m.b.iter().map(dbg).collect(), attribute: m.a.iter().map(dbg).collect() };
    let mut s = base_session();
    let (mut sb, mut sa, mut sc, mut st): (Vec<SdpBandwidth>, Vec<SdpAttribute>, Option<SdpConnection>, Option<SdpTiming>) = (vec![], vec![], None, None);
    let mut ms: Vec<Mm> = vec![];
    let mut done = 0;
    for op in ops {
        let (w, arg) = op.split_once(' ').unwrap_or((op, ""));
        let (target, w) = match w.strip_prefix("s.") { Some(x) => (false, x), None => (true, w) };
        let attr = if ["add", "set"].contains(&w) { match refdec::attribute(arg) { Ok(a) => Some(a), Err(_) => continue } } else { None };
        if !target {
            match w {
                "add" => { let a = attr.unwrap(); let ok = !SESSION_FORBIDDEN.contains(&name_of(&a)); let r = s.add_attribute(a.clone()); if r.is_ok() != ok { fail!("{op}: returned {r:?}") } if ok { sa.push(a) } }
                "bw" => { if let Ok(b) = refdec::bandwidth(arg) { s.add_bandwidth(b.clone()); sb.push(b); } }
                "conn" => { if let Ok(c) = refdec::connection(arg) { s.set_connection(c.clone()); sc = Some(c); } }
                "time" => { if let Ok(t) = refdec::timing(arg) { s.set_timing(t.clone()); st = Some(t); } }
                "media" => { // dir port proto media addr
                    let t: Vec<&str> = arg.split(' ').collect();
                    if t.len() != 5 { continue; }
                    let (d, pt, pr, md, ad) = (refdec::attribute(t[0]), t[1].parse::<u32>(), PROTO.iter().find(|p| p.0 == t[2]), MEDIA.iter().find(|p| p.0 == t[3]), refdec::typed(AddressType::IpV4, t[4]));
                    if let (Ok(d), Ok(pt), Some(pr), Some(md), Ok(ad)) = (d, pt, pr, md, ad) {
                        let ok = !MEDIA_FORBIDDEN.contains(&name_of(&d));
                        let r = s.add_media(md.1.clone(), d.clone(), pt, pr.1.clone(), ad.clone());
                        if r.is_ok() != ok { fail!("{op}: returned {r:?}") }
                        if ok { ms.push(Mm { l: SdpMediaLine { media: md.1.clone(), port: pt, port_count: 1, proto: pr.1.clone(), formats: SdpFormatList::Integers(vec![]) }, c: Some(SdpConnection { address: ad, ttl: None, amount: None }), b: vec![], a: vec![d] }); }
                    }
                }
                "ext" => { if let Ok(l) = refdec::media(arg) { s.extend_media(vec![SdpMedia::new(l.clone())]); ms.push(Mm { l, c: None, b: vec![], a: vec![] }); } }
                "q" => if let Some(_) = kind_of(arg) {
                    let w: Vec<&SdpAttribute> = sa.iter().filter(|a| name_of(a) == arg).collect();
                    let g = s.get_attribute(kind_of(arg).unwrap());
                    if g.map(dbg) != w.first().map(|a| dbg(*a)) { fail!("session get_attribute({arg}) gives {g:?}, expected {:?}", w.first()) }
                },
                _ => continue,
            }
        } else {
            if ms.is_empty() { continue; }
            let m = s.media.last_mut().ok_or_else(|| bad("no media section".into()))?;
            let mm = ms.last_mut().unwrap();
            match w {
                "add" => { let a = attr.unwrap(); let ok = !MEDIA_FORBIDDEN.contains(&name_of(&a)); let r = m.add_attribute(a.clone()); if r.is_ok() != ok { fail!("{op}: returned {r:?}") } if ok { mm.a.push(a) } }
                "set" => { let a = attr.unwrap(); let n = name_of(&a); let ok = !MEDIA_FORBIDDEN.contains(&n); let r = m.set_attribute(a.clone()); if r.is_ok() != ok { fail!("{op}: returned {r:?}") } if ok { mm.a.retain(|x| name_of(x) != n); mm.a.push(a) } }
                "rm" => { if let Some(k) = kind_of(arg) { m.remove_attribute(k); mm.a.retain(|x| name_of(x) != arg); } }
                "bw" => { if let Ok(b) = refdec::bandwidth(arg) { m.add_bandwidth(b.clone()); mm.b.push(b); } }
                "conn" => { if let Ok(c) = refdec::connection(arg) { m.set_connection(c.clone()); mm.c = Some(c); } }
                "port" => { if let Ok(p) = arg.parse::<u32>() { m.set_port(p); mm.l.port = p; } }
                "nocodecs" => { m.remove_codecs(); mm.l.formats = match mm.l.formats { SdpFormatList::Integers(_) => SdpFormatList::Integers(vec![]), SdpFormatList::Strings(_) => SdpFormatList::Strings(vec![]) }; mm.a.retain(|x| !["rtpmap", "fmtp", "rtcp-fb", "sctpmap", "sctp-port"].contains(&name_of(x))); }
                "codec" => { if let Ok(SdpAttribute::Rtpmap(r)) = refdec::attribute(&format!("rtpmap:{arg}")) {
                    let e = m.add_codec(r.clone()); if e.is_err() { fail!("{op}: returned {e:?}") }
                    match &mut mm.l.formats { SdpFormatList::Integers(v) => v.push(r.payload_type as u32), SdpFormatList::Strings(v) => v.push(r.payload_type.to_string()) }
                    mm.a.push(SdpAttribute::Rtpmap(r));
                } }
                "dc" => { // name port streams size
                    let t: Vec<&str> = arg.split(' ').collect();
                    if t.len() != 4 { continue; }
                    if let (Ok(p), Ok(n), Ok(z)) = (t[1].parse::<u16>(), t[2].parse::<u16>(), t[3].parse::<u32>()) {
                        let e = m.add_datachannel(t[0].into(), p, n, z); if e.is_err() { fail!("{op}: returned {e:?}") }
                        let put = |mm: &mut Mm, a: SdpAttribute| { let n = name_of(&a); mm.a.retain(|x| name_of(x) != n); mm.a.push(a) };
                        match mm.l.proto {
                            SdpProtocolValue::UdpDtlsSctp | SdpProtocolValue::TcpDtlsSctp => { mm.l.formats = SdpFormatList::Strings(vec![t[0].into()]); put(mm, SdpAttribute::SctpPort(p as u64)); }
                            _ => { mm.l.formats = SdpFormatList::Integers(vec![p as u32]); put(mm, SdpAttribute::Sctpmap(SdpAttributeSctpmap { port: p, channels: n as u32 })); }
                        }
                        if z > 0 { put(mm, SdpAttribute::MaxMessageSize(z as u64)); }
                        mm.l.media = SdpMediaValue::Application;
                    }
                }
                "q" => if let Some(_) = kind_of(arg) {
                    let w: Vec<&SdpAttribute> = mm.a.iter().filter(|a| name_of(a) == arg).collect();
                    let g = m.get_attribute(kind_of(arg).unwrap());
                    if g.map(dbg) != w.first().map(|a| dbg(*a)) { fail!("get_attribute({arg}) gives {g:?}, expected {:?}", w.first()) }
                    let g = m.get_attributes_of_type(kind_of(arg).unwrap());
                    if dbg(&g) != dbg(&w) { fail!("get_attributes_of_type({arg}) gives {g:?}, expected {w:?}") }
                },
                _ => continue,
            }
        }
        done += 1;
        if s.media.len() != ms.len() { fail!("after {op:?}: {} media sections, expected {}", s.media.len(), ms.len()) }
        for (x, y) in s.media.iter().zip(&ms) { if mmodel(x) != show(y) { fail!("after {op:?}: media section is {:?}, expected {:?}", mmodel(x), show(y)) } }
        if dbg(&s.attribute) != dbg(&sa) || dbg(&s.bandwidth) != dbg(&sb) || dbg(&s.connection) != dbg(&sc) || dbg(&s.timing) != dbg(&st) { fail!("after {op:?}: the session level is {:?} {:?} {:?} {:?}, expected {sa:?} {sb:?} {sc:?} {st:?}", s.attribute, s.bandwidth, s.connection, s.timing) }
        if dbg(s.get_connection()) != dbg(&sc) || s.get_version() != 0 || dbg(s.get_origin()) != dbg(&base_session().origin) || s.get_session_text() != "-" || *s.get_session() != Some("-".to_string()) { fail!("after {op:?}: a query of the session gives the wrong answer") }
        if dbg(&(s.version, &s.origin, &s.session, &s.warnings)) != dbg(&{ let b = base_session(); (b.version, b.origin, b.session, b.warnings) }) { fail!("after {op:?}: version, origin, name or warnings changed") }
    }
    Ok(done > 1)
}

// ---------------------------------------------------------------- addresses
fn family(place: &str, fam: &str, ad: &str) -> Res {
    if [fam, ad].iter().any(|s| s.is_empty() || s.contains(|c: char| c.is_whitespace() || c == '/')) { return Ok(false); }
    // the rest of the line, if given, follows the place after a colon: tokens before the family, or for c what follows the address
    let (place, rest) = place.split_once(':').map_or((place, None), |(p, r)| (p, Some(r)));
    let t = match place { "o" => format!("o={} IN {fam} {ad}", rest.unwrap_or("- 1 1")), "c" => format!("c=IN {fam} {ad}{}", rest.unwrap_or("")), _ => format!("a=rtcp:{} IN {fam} {ad}", rest.unwrap_or("9")) };
    let want = refdec::family(fam).and_then(|f| refdec::typed(f, ad).map(|a| (f, a)));
    let got = match parse_sdp_line(&t, 0).map(|l| l.sdp_type) { Ok(SdpType::Origin(o)) => Some(o.unicast_addr), Ok(SdpType::Connection(c)) => Some(c.address), Ok(SdpType::Attribute(SdpAttribute::Rtcp(r))) => r.unicast_addr, _ => None };
    match (want, got) {
        (Ok((f, w)), Some(g)) => { if g.address_type() != f { fail!("{t:?}: declared family {f}, the address says {}", g.address_type()) } if dbg(&g) != dbg(&w) { fail!("{t:?} gives {g:?}, expected {w:?}") } Ok(true) }
        (Err(_), None) => Ok(true),
        (Ok(_), None) => fail!("{t:?} is rejected though family and address agree"),
        (Err(_), Some(g)) => fail!("{t:?} is accepted as {g:?}"),
    }
}
fn equal(a: &[String]) -> Res {
    // each entry: family (4, 6 or - for untyped) then ip:… or host:…
    let mut ty = vec![]; let mut un = vec![];
    for s in a {
        let (f, v) = match s.split_once(' ') { Some(x) => x, None => continue };
        let ip = v.strip_prefix("ip:").and_then(|x| x.parse::<IpAddr>().ok());
        let fam = if f == "6" { AddressType::IpV6 } else { AddressType::IpV4 };
        let (x, y) = match ip { Some(i) => (ExplicitlyTypedAddress::Ip(i), Address::Ip(i)), None => { let d = v.strip_prefix("host:").unwrap_or(v).to_string(); (ExplicitlyTypedAddress::Fqdn { address_type: fam, domain: d.clone() }, Address::Fqdn(d)) } };
        ty.push(x); un.push(y);
    }
    for (i, x) in ty.iter().enumerate() { for (j, y) in ty.iter().enumerate() {
        let want = match (x, y) { (ExplicitlyTypedAddress::Ip(p), ExplicitlyTypedAddress::Ip(q)) => p == q, (ExplicitlyTypedAddress::Fqdn { address_type: f, domain: p }, ExplicitlyTypedAddress::Fqdn { address_type: g, domain: q }) => f == g && p.to_lowercase() == q.to_lowercase(), _ => false };
        if (x == y) != want { fail!("{x:?} == {y:?} is {}, expected {want}", x == y) }
        let (p, q) = (&un[i], &un[j]);
        let want = match (p, q) { (Address::Ip(p), Address::Ip(q)) => p == q, (Address::Fqdn(p), Address::Fqdn(q)) => p.to_lowercase() == q.to_lowercase(), _ => false };
        if (p == q) != want { fail!("{p:?} == {q:?} is {}, expected {want}", p == q) }
        if (x != y) == (x == y) { fail!("{x:?} != {y:?} contradicts ==") }
    } }
    Ok(true)
}

// ---------------------------------------------------------------- keywords
/// one sample value for each attribute
pub fn sample(n: &str) -> String {
    let v = match n { "candidate" => "0 1 UDP 5 1.2.3.4 9 typ host", "dtls-message" => "client abc", "extmap" => "1 urn:x", "fingerprint" => "sha-1 CD:34:D1:62:16:95:7B:B7:EB:74:E2:39:27:97:EB:0B:23:73:AC:BC", "fmtp" => "96 max-fs=1", "framerate" => "25", "group" => "BUNDLE a", "ice-options" => "trickle",
        "imageattr" => "120 send *", "msid-semantic" => "WMS *", "rid" => "a send", "remote-candidates" => "1 1.2.3.4 9", "rtpmap" => "96 VP8/90000", "rtcp" => "9", "rtcp-fb" => "96 nack", "sctpmap" => "5000 webrtc-datachannel 256", "setup" => "active", "simulcast" => "send a", "ssrc" => "1 cname:x", "ssrc-group" => "FID 1 2", _ => "12" };
    if FLAGS.iter().any(|f| f.0 == n) { n.to_string() } else { format!("{n}:{v}") }
}
/// every attribute with its alternative's kind, listed here independently of the code's tables
fn type_of(n: &str) -> Option<SdpAttributeType> {
    use SdpAttributeType as T;
    Some(match n { "bundle-only" => T::BundleOnly, "candidate" => T::Candidate, "dtls-message" => T::DtlsMessage, "end-of-candidates" => T::EndOfCandidates, "extmap" => T::Extmap, "extmap-allow-mixed" => T::ExtmapAllowMixed, "fingerprint" => T::Fingerprint, "fmtp" => T::Fmtp, "framerate" => T::FrameRate, "group" => T::Group,
        "ice-lite" => T::IceLite, "ice-mismatch" => T::IceMismatch, "ice-options" => T::IceOptions, "ice-pacing" => T::IcePacing, "ice-pwd" => T::IcePwd, "ice-ufrag" => T::IceUfrag, "identity" => T::Identity, "imageattr" => T::ImageAttr, "inactive" => T::Inactive, "label" => T::Label, "max-message-size" => T::MaxMessageSize, "maxptime" => T::MaxPtime,
        "mid" => T::Mid, "msid" => T::Msid, "msid-semantic" => T::MsidSemantic, "ptime" => T::Ptime, "rid" => T::Rid, "recvonly" => T::Recvonly, "remote-candidates" => T::RemoteCandidate, "rtpmap" => T::Rtpmap, "rtcp" => T::Rtcp, "rtcp-fb" => T::Rtcpfb, "rtcp-mux" => T::RtcpMux, "rtcp-mux-only" => T::RtcpMuxOnly, "rtcp-rsize" => T::RtcpRsize,
        "sctpmap" => T::Sctpmap, "sctp-port" => T::SctpPort, "sendonly" => T::Sendonly, "sendrecv" => T::Sendrecv, "setup" => T::Setup, "simulcast" => T::Simulcast, "ssrc" => T::Ssrc, "ssrc-group" => T::SsrcGroup, _ => return None })
}
pub fn all_names() -> Vec<&'static str> { FLAGS.iter().map(|f| f.0).chain(VALUED).collect() }
/// table, keyword text (in some letter case)
fn kw(table: &str, word: &str) -> Res {
    let up = word.to_uppercase(); let low = word.to_lowercase();
    macro_rules! check { ($list:expr, $key:expr, $parse:expr) => {{
        let hit = $list.iter().find(|x| x.0 == $key).map(|x| x.1.to_string());
        let got: Option<String> = $parse;
        if got != hit { fail!("{table} keyword {word:?} is read as {got:?}, expected {hit:?}") }
        Ok(true)
    }} }
    let line = |t: String| parse_sdp_line(&t, 0).ok().map(|l| l.sdp_type);
    let at = |t: String| match line(t) { Some(SdpType::Attribute(a)) => Some(a), _ => None };
    match table {
        "name" => {
            let want = type_of(&low);
            if let Some(w) = want {
                if w.to_string() != low { fail!("the kind of {low:?} prints as {:?}", w.to_string()) }
                let t = sample(&low); let t = t.replacen(low.as_str(), word, 1);
                let a = SdpAttribute::from_str(&t).map_err(|e| bad(format!("{t:?} is refused: {e}")))?;
                if name_of(&a) != low { fail!("{t:?} is read as {a:?}") }
                if SdpAttributeType::from(&a) != type_of(&low).unwrap() { fail!("{a:?} reports kind {}", SdpAttributeType::from(&a)) }
                let p = a.to_string();
                if p != low && !p.starts_with(&format!("{low}:")) { fail!("{a:?} prints as {p:?}") }
                for n in all_names() { if n != low && type_of(n) == type_of(&low) { fail!("{n} and {low} are the same kind") } }
                if FLAGS.iter().any(|f| f.0 == low) {
                    if p != low { fail!("flag {low} prints as {p:?}") }
                    for v in ["", "1", " ", "x y", ":"] { if let Ok(a) = SdpAttribute::from_str(&format!("{word}:{v}")) { fail!("flag {word:?} with value {v:?} is accepted as {a:?}") } }
                } else if p == low || p.len() <= low.len() + 1 { fail!("{a:?} prints without its value: {p:?}") }
            } else if let Ok(a) = SdpAttribute::from_str(&format!("{word}:1")) { fail!("unknown attribute {word:?} is accepted as {a:?}") }
            Ok(true)
        }
        "media" => { if word.is_empty() || word.contains(char::is_whitespace) { return Ok(false) } check!(MEDIA.map(|m| (m.0, m.0)), low, match line(format!("m={word} 9 RTP/AVP 0")) { Some(SdpType::Media(m)) => { if MEDIA.iter().any(|x| x.0 == low && x.1 != m.media) { fail!("{word:?} gives {:?}", m.media) } Some(m.media.to_string()) } _ => None }) }
        "proto" => { if word.is_empty() || word.contains(char::is_whitespace) { return Ok(false) } check!(PROTO.map(|m| (m.0, m.0)), up, match line(format!("m=audio 9 {word} 0")) { Some(SdpType::Media(m)) => { if PROTO.iter().any(|x| x.0 == up && x.1 != m.proto) { fail!("{word:?} gives {:?}", m.proto) } Some(m.proto.to_string()) } _ => None }) }
        "ctype" => check!([("host", "host"), ("srflx", "srflx"), ("prflx", "prflx"), ("relay", "relay")], low, match at(format!("a=candidate:0 1 UDP 5 1.2.3.4 9 typ {word}")) { Some(SdpAttribute::Candidate(c)) => { if !matches!((low.as_str(), &c.c_type), ("host", SdpAttributeCandidateType::Host) | ("srflx", SdpAttributeCandidateType::Srflx) | ("prflx", SdpAttributeCandidateType::Prflx) | ("relay", SdpAttributeCandidateType::Relay)) { fail!("{word} read as {:?}", c.c_type) } Some(c.c_type.to_string()) } _ => None }),
        "transport" => check!([("udp", "UDP"), ("tcp", "TCP")], low, match at(format!("a=candidate:0 1 {word} 5 1.2.3.4 9 typ host")) { Some(SdpAttribute::Candidate(c)) => { if !matches!((low.as_str(), &c.transport), ("udp", SdpAttributeCandidateTransport::Udp) | ("tcp", SdpAttributeCandidateTransport::Tcp)) { fail!("{word} read as {:?}", c.transport) } Some(c.transport.to_string()) } _ => None }),
        "tcptype" => check!([("active", "active"), ("passive", "passive"), ("so", "so")], low, match at(format!("a=candidate:0 1 TCP 5 1.2.3.4 9 typ host tcptype {word}")) { Some(SdpAttribute::Candidate(c)) => { if !matches!((low.as_str(), &c.tcp_type), ("active", Some(SdpAttributeCandidateTcpType::Active)) | ("passive", Some(SdpAttributeCandidateTcpType::Passive)) | ("so", Some(SdpAttributeCandidateTcpType::Simultaneous)) | (_, None)) { fail!("{word} read as {:?}", c.tcp_type) } c.tcp_type.map(|x| x.to_string()) } _ => None }),
        "setup" => check!([("active", "active"), ("actpass", "actpass"), ("holdconn", "holdconn"), ("passive", "passive")], low, match at(format!("a=setup:{word}")) { Some(SdpAttribute::Setup(c)) => { if !matches!((low.as_str(), &c), ("active", SdpAttributeSetup::Active) | ("actpass", SdpAttributeSetup::Actpass) | ("holdconn", SdpAttributeSetup::Holdconn) | ("passive", SdpAttributeSetup::Passive)) { fail!("{word} read as {c:?}") } Some(c.to_string()) } _ => None }),
        "direction" => check!([("send", "send"), ("recv", "recv")], word, match at(format!("a=rid:a {word}")) { Some(SdpAttribute::Rid(r)) => { if (r.direction == SdpSingleDirection::Send) != (word == "send") { fail!("{word} read as {:?}", r.direction) } Some(r.direction.to_string()) } _ => None }),
        "extdir" => check!([("sendonly", "sendonly"), ("recvonly", "recvonly"), ("sendrecv", "sendrecv")], low, match at(format!("a=extmap:1/{word} urn:x")) { Some(SdpAttribute::Extmap(r)) => { let d = r.direction.clone(); if !matches!((low.as_str(), &d), ("sendonly", Some(SdpAttributeDirection::Sendonly)) | ("recvonly", Some(SdpAttributeDirection::Recvonly)) | ("sendrecv", Some(SdpAttributeDirection::Sendrecv))) { fail!("{word} read as {d:?}") } d.map(|x| x.to_string()) } _ => None }),
        "ssrcgroup" => check!([("DUP", "DUP"), ("FID", "FID"), ("FEC", "FEC"), ("FEC-FR", "FEC-FR"), ("SIM", "SIM")], up, match at(format!("a=ssrc-group:{word} 1")) { Some(SdpAttribute::SsrcGroup(g, _)) => { use SdpSsrcGroupSemantic as G; if !matches!((up.as_str(), &g), ("DUP", G::Duplication) | ("FID", G::FlowIdentification) | ("FEC", G::ForwardErrorCorrection) | ("FEC-FR", G::ForwardErrorCorrectionFr) | ("SIM", G::Sim)) { fail!("{word} read as {g:?}") } Some(g.to_string()) } _ => None }),
        "group" => check!([("LS", "LS"), ("FID", "FID"), ("SRF", "SRF"), ("ANAT", "ANAT"), ("FEC", "FEC"), ("DDP", "DDP"), ("BUNDLE", "BUNDLE")], up, match at(format!("a=group:{word} 1")) { Some(SdpAttribute::Group(g)) => { use SdpAttributeGroupSemantic as G; let g = g.semantics; if !matches!((up.as_str(), &g), ("LS", G::LipSynchronization) | ("FID", G::FlowIdentification) | ("SRF", G::SingleReservationFlow) | ("ANAT", G::AlternateNetworkAddressType) | ("FEC", G::ForwardErrorCorrection) | ("DDP", G::DecodingDependency) | ("BUNDLE", G::Bundle)) { fail!("{word} read as {g:?}") } Some(g.to_string()) } _ => None }),
        "hash" => { use SdpAttributeFingerprintHashType as H; let n = match word { "sha-1" => 20, "sha-224" => 28, "sha-256" => 32, "sha-384" => 48, "sha-512" => 64, _ => 20 };
            check!([("sha-1", "sha-1"), ("sha-224", "sha-224"), ("sha-256", "sha-256"), ("sha-384", "sha-384"), ("sha-512", "sha-512")], word, match at(format!("a=fingerprint:{word} {}", vec!["0A"; n].join(":"))) { Some(SdpAttribute::Fingerprint(f)) => { let h = f.hash_algorithm; if !matches!((word, &h), ("sha-1", H::Sha1) | ("sha-224", H::Sha224) | ("sha-256", H::Sha256) | ("sha-384", H::Sha384) | ("sha-512", H::Sha512)) { fail!("{word} read as {h:?}") } Some(h.to_string()) } _ => None }) }
        "fb" => { use SdpAttributeRtcpFbType as F; let p = match word { "ack" => " rpsi", "ccm" => " fir", "nack" => " pli", "trr-int" => " 5", _ => "" };
            check!([("ack", "ack"), ("ccm", "ccm"), ("nack", "nack"), ("trr-int", "trr-int"), ("goog-remb", "goog-remb"), ("transport-cc", "transport-cc")], word, match at(format!("a=rtcp-fb:96 {word}{p}")) { Some(SdpAttribute::Rtcpfb(f)) => { let f = f.feedback_type; if !matches!((word, &f), ("ack", F::Ack) | ("ccm", F::Ccm) | ("nack", F::Nack) | ("trr-int", F::TrrInt) | ("goog-remb", F::Remb) | ("transport-cc", F::TransCc)) { fail!("{word} read as {f:?}") } Some(f.to_string()) } _ => None }) }
        "bw" => { let hit = ["AS", "CT", "TIAS"].contains(&up.as_str()); match line(format!("b={word}:5")) { Some(SdpType::Bandwidth(b)) => { let ok = match (&b, hit) { (SdpBandwidth::As(5), true) => up == "AS", (SdpBandwidth::Ct(5), true) => up == "CT", (SdpBandwidth::Tias(5), true) => up == "TIAS", (SdpBandwidth::Unknown(w, 5), false) => w == word, _ => false }; let want = if hit { format!("{up}:5") } else { format!("{word}:5") }; if !ok || b.to_string() != want { fail!("bandwidth {word:?} is read as {b:?}, printed as {:?}", b.to_string()) } Ok(true) } _ if word.contains(':') || word.trim() != word => Ok(false), _ => fail!("bandwidth type {word:?} is refused") } }
        "ext" => { if word.contains(char::is_whitespace) || word.is_empty() || ["raddr", "rport", "tcptype", "generation", "ufrag", "network-cost"].contains(&low.as_str()) { return Ok(false) } match at(format!("a=candidate:0 1 UDP 5 1.2.3.4 9 typ host {word} 7")) { Some(SdpAttribute::Candidate(c)) if c.unknown_extensions == vec![(word.to_string(), "7".to_string())] => Ok(true), o => fail!("unknown candidate extension {word:?} is not kept verbatim: {o:?}") } }
        _ => Ok(false),
    }
}

// ---------------------------------------------------------------- totality
fn nopanic(text: &str) -> Res {
    let mut ok = false;
    for strict in [true, false] {
        let r = parse_sdp(text, strict);
        if let Err(e) = &r { let _ = e.to_string(); }
        if let Ok(s) = r {
            ok = true;
            let _ = s.to_string();
            let mut x = StatefulSdpAnonymizer::new();
            let m = s.masked_clone(&mut x);
            let _ = m.to_string();
            let _ = m.masked_clone(&mut x);
            for w in &s.warnings { let _ = w.to_string(); }
        }
    }
    for (n, l) in text.lines().enumerate() {
        match parse_sdp_line(l, n) { Ok(SdpLine { sdp_type: SdpType::Attribute(a), .. }) => { let _ = a.to_string(); let mut x = StatefulSdpAnonymizer::new(); let _ = a.masked_clone(&mut x).to_string(); ok = true; } Ok(_) => ok = true, Err(e) => { let _ = e.to_string(); } }
        if let Err(e) = SdpAttribute::from_str(l) { let _ = e.to_string(); }
        let _ = Address::from_str(l); let _ = AddressType::from_str(l);
    }
    Ok(ok)
}
