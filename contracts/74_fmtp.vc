@note format parameters (a=fmtp)
@raw
// ---------------------------------------------------------------- fmtp
struct FmtpV {
    packetization_mode: u32, level_asymmetry_allowed: bool, profile_level_id: u32, max_fs: u32, max_cpb: u32, max_dpb: u32, max_br: u32, max_mbps: u32, max_fr: u32,
    profile: Option<u8>, level_idx: Option<u8>, tier: Option<u8>,
    maxplaybackrate: u32, maxaveragebitrate: u32, usedtx: bool, stereo: bool, useinbandfec: bool, cbr: bool, ptime: u32, minptime: u32, maxptime: u32,
    encodings: Seq<u8>, dtmf_tones: Str, rtx: Option<(u8, Option<u32>)>, unknown: Seq<Str>,
}
spec fn rtx_v(r: Option<RtxFmtpParameters>) -> Option<(u8, Option<u32>)> { match r { Some(x) => Some((x.apt, x.rtx_time)), None => None } }
spec fn fmtp_v(p: SdpAttributeFmtpParameters) -> FmtpV { FmtpV {
    packetization_mode: p.packetization_mode, level_asymmetry_allowed: p.level_asymmetry_allowed, profile_level_id: p.profile_level_id, max_fs: p.max_fs, max_cpb: p.max_cpb, max_dpb: p.max_dpb, max_br: p.max_br, max_mbps: p.max_mbps, max_fr: p.max_fr,
    profile: p.profile, level_idx: p.level_idx, tier: p.tier,
    maxplaybackrate: p.maxplaybackrate, maxaveragebitrate: p.maxaveragebitrate, usedtx: p.usedtx, stereo: p.stereo, useinbandfec: p.useinbandfec, cbr: p.cbr, ptime: p.ptime, minptime: p.minptime, maxptime: p.maxptime,
    encodings: p.encodings@, dtmf_tones: p.dtmf_tones@, rtx: rtx_v(p.rtx), unknown: strs(p.unknown_tokens@) } }
// what is stored when the text names none of the parameters
spec fn fmtp_default() -> FmtpV { FmtpV {
    packetization_mode: 0, level_asymmetry_allowed: false, profile_level_id: 0x0042_000A, max_fs: 0, max_cpb: 0, max_dpb: 0, max_br: 0, max_mbps: 0, max_fr: 0,
    profile: None, level_idx: None, tier: None,
    maxplaybackrate: 48000, maxaveragebitrate: 0, usedtx: false, stereo: false, useinbandfec: false, cbr: false, ptime: 0, minptime: 0, maxptime: 0,
    encodings: Seq::empty(), dtmf_tones: ""@, rtx: None, unknown: Seq::empty() } }
spec fn f_u32(s: Str) -> Option<u32> { if uint_ok(s, u32::MAX as int) { Some(uint_val(s) as u32) } else { None } }
spec fn f_u8(s: Str, max: int) -> Option<u8> { if uint_ok(s, u8::MAX as int) && uint_val(s) <= max { Some(uint_val(s) as u8) } else { None } }
spec fn f_bool(s: Str) -> Option<bool> { match f_u8(s, 1) { Some(x) => Some(x == 1), None => None } }
// one "name=value" of the list; the range limits are those of the payload formats
#[verifier::opaque]
spec fn fmtp_step(a: FmtpV, s: Str) -> Option<FmtpV> {
    let p = splitn_char(2, s, '=');
    if p.len() != 2 { None } else { fmtp_set(fmtp_key(to_upper(p[0])), a, p[1], s) }
}
spec fn fmtp_set(k: int, a: FmtpV, v: Str, s: Str) -> Option<FmtpV> {
    if k == 1 /* PROFILE-LEVEL-ID */ { if hex_ok(v, u32::MAX as int) && hex_val(v) <= 0xff_ffff { Some(FmtpV { profile_level_id: hex_val(v) as u32, ..a }) } else { None } }
    else if k == 2 /* PACKETIZATION-MODE */ { match f_u32(v) { Some(n) => if n <= 2 { Some(FmtpV { packetization_mode: n, ..a }) } else { None }, None => None } }
    else if k == 3 /* LEVEL-ASYMMETRY-ALLOWED */ { match f_bool(v) { Some(b) => Some(FmtpV { level_asymmetry_allowed: b, ..a }), None => None } }
    else if k == 4 /* MAX-MBPS */ { match f_u32(v) { Some(n) => Some(FmtpV { max_mbps: n, ..a }), None => None } }
    else if k == 5 /* MAX-FS */ { match f_u32(v) { Some(n) => Some(FmtpV { max_fs: n, ..a }), None => None } }
    else if k == 6 /* MAX-CPB */ { match f_u32(v) { Some(n) => Some(FmtpV { max_cpb: n, ..a }), None => None } }
    else if k == 7 /* MAX-DPB */ { match f_u32(v) { Some(n) => Some(FmtpV { max_dpb: n, ..a }), None => None } }
    else if k == 8 /* MAX-BR */ { match f_u32(v) { Some(n) => Some(FmtpV { max_br: n, ..a }), None => None } }
    else if k == 9 /* MAX-FR */ { match f_u32(v) { Some(n) => Some(FmtpV { max_fr: n, ..a }), None => None } }
    else if k == 10 /* PROFILE */ { match f_u8(v, 2) { Some(n) => Some(FmtpV { profile: Some(n), ..a }), None => None } }
    else if k == 11 /* LEVEL-IDX */ { match f_u8(v, 31) { Some(n) => Some(FmtpV { level_idx: Some(n), ..a }), None => None } }
    else if k == 12 /* TIER */ { match f_u8(v, 1) { Some(n) => Some(FmtpV { tier: Some(n), ..a }), None => None } }
    else if k == 13 /* MAXPLAYBACKRATE */ { match f_u32(v) { Some(n) => Some(FmtpV { maxplaybackrate: n, ..a }), None => None } }
    else if k == 14 /* MAXAVERAGEBITRATE */ { match f_u32(v) { Some(n) => Some(FmtpV { maxaveragebitrate: n, ..a }), None => None } }
    else if k == 15 /* PTIME */ { match f_u32(v) { Some(n) => Some(FmtpV { ptime: n, ..a }), None => None } }
    else if k == 16 /* MAXPTIME */ { match f_u32(v) { Some(n) => Some(FmtpV { maxptime: n, ..a }), None => None } }
    else if k == 17 /* MINPTIME */ { match f_u32(v) { Some(n) => Some(FmtpV { minptime: n, ..a }), None => None } }
    else if k == 18 /* USEDTX */ { match f_bool(v) { Some(b) => Some(FmtpV { usedtx: b, ..a }), None => None } }
    else if k == 19 /* STEREO */ { match f_bool(v) { Some(b) => Some(FmtpV { stereo: b, ..a }), None => None } }
    else if k == 20 /* USEINBANDFEC */ { match f_bool(v) { Some(b) => Some(FmtpV { useinbandfec: b, ..a }), None => None } }
    else if k == 21 /* CBR */ { match f_bool(v) { Some(b) => Some(FmtpV { cbr: b, ..a }), None => None } }
    else if k == 22 /* APT */ { match f_u8(v, 255) { Some(n) => Some(FmtpV { rtx: Some((n, None)), ..a }), None => None } }
    else if k == 23 /* RTX-TIME */ { match (f_u32(v), a.rtx) { (Some(n), Some(x)) => Some(FmtpV { rtx: Some((x.0, Some(n))), ..a }), _ => None } }
    else { Some(FmtpV { unknown: a.unknown.push(s), ..a }) }
}
spec fn fmtp_fold(ps: Seq<Str>, n: int) -> Option<FmtpV> decreases n {
    if n <= 0 { Some(fmtp_default()) } else { match fmtp_fold(ps, n - 1) { Some(a) => fmtp_step(a, ps[n - 1]), None => None } }
}
proof fn lemma_fmtp_none(ps: Seq<Str>, k: int, n: int) requires k <= n, fmtp_fold(ps, k) is None ensures fmtp_fold(ps, n) is None decreases n - k { if k < n { lemma_fmtp_none(ps, k, n - 1); } }
// the names are pairwise different (so the order in which they are compared does not matter)
#[verifier::opaque]
spec fn fmtp_key(s: Str) -> int { if s == "PROFILE-LEVEL-ID"@ { 1 } else if s == "PACKETIZATION-MODE"@ { 2 } else if s == "LEVEL-ASYMMETRY-ALLOWED"@ { 3 } else if s == "MAX-MBPS"@ { 4 } else if s == "MAX-FS"@ { 5 } else if s == "MAX-CPB"@ { 6 } else if s == "MAX-DPB"@ { 7 } else if s == "MAX-BR"@ { 8 } else if s == "MAX-FR"@ { 9 } else if s == "PROFILE"@ { 10 } else if s == "LEVEL-IDX"@ { 11 } else if s == "TIER"@ { 12 } else if s == "MAXPLAYBACKRATE"@ { 13 } else if s == "MAXAVERAGEBITRATE"@ { 14 } else if s == "PTIME"@ { 15 } else if s == "MAXPTIME"@ { 16 } else if s == "MINPTIME"@ { 17 } else if s == "USEDTX"@ { 18 } else if s == "STEREO"@ { 19 } else if s == "USEINBANDFEC"@ { 20 } else if s == "CBR"@ { 21 } else if s == "APT"@ { 22 } else if s == "RTX-TIME"@ { 23 } else { 0 } }
proof fn lemma_fmtp_keys() ensures fmtp_key("PROFILE-LEVEL-ID"@) == 1, fmtp_key("PACKETIZATION-MODE"@) == 2, fmtp_key("LEVEL-ASYMMETRY-ALLOWED"@) == 3, fmtp_key("MAX-MBPS"@) == 4, fmtp_key("MAX-FS"@) == 5, fmtp_key("MAX-CPB"@) == 6, fmtp_key("MAX-DPB"@) == 7, fmtp_key("MAX-BR"@) == 8, fmtp_key("MAX-FR"@) == 9, fmtp_key("PROFILE"@) == 10, fmtp_key("LEVEL-IDX"@) == 11, fmtp_key("TIER"@) == 12, fmtp_key("MAXPLAYBACKRATE"@) == 13, fmtp_key("MAXAVERAGEBITRATE"@) == 14, fmtp_key("PTIME"@) == 15, fmtp_key("MAXPTIME"@) == 16, fmtp_key("MINPTIME"@) == 17, fmtp_key("USEDTX"@) == 18, fmtp_key("STEREO"@) == 19, fmtp_key("USEINBANDFEC"@) == 20, fmtp_key("CBR"@) == 21, fmtp_key("APT"@) == 22, fmtp_key("RTX-TIME"@) == 23
{ reveal(fmtp_key); reveal_strlit("PROFILE-LEVEL-ID"); reveal_strlit("PACKETIZATION-MODE"); reveal_strlit("LEVEL-ASYMMETRY-ALLOWED"); reveal_strlit("MAX-MBPS"); reveal_strlit("MAX-FS"); reveal_strlit("MAX-CPB"); reveal_strlit("MAX-DPB"); reveal_strlit("MAX-BR"); reveal_strlit("MAX-FR"); reveal_strlit("PROFILE"); reveal_strlit("LEVEL-IDX"); reveal_strlit("TIER"); reveal_strlit("MAXPLAYBACKRATE"); reveal_strlit("MAXAVERAGEBITRATE"); reveal_strlit("PTIME"); reveal_strlit("MAXPTIME"); reveal_strlit("MINPTIME"); reveal_strlit("USEDTX"); reveal_strlit("STEREO"); reveal_strlit("USEINBANDFEC"); reveal_strlit("CBR"); reveal_strlit("APT"); reveal_strlit("RTX-TIME"); assert("PROFILE-LEVEL-ID"@.len() == 16); assert("PACKETIZATION-MODE"@.len() == 18); assert("LEVEL-ASYMMETRY-ALLOWED"@.len() == 23); assert("MAX-MBPS"@.len() == 8); assert("MAX-FS"@.len() == 6); assert("MAX-CPB"@.len() == 7); assert("MAX-DPB"@.len() == 7); assert("MAX-BR"@.len() == 6); assert("MAX-FR"@.len() == 6); assert("PROFILE"@.len() == 7); assert("LEVEL-IDX"@.len() == 9); assert("TIER"@.len() == 4); assert("MAXPLAYBACKRATE"@.len() == 15); assert("MAXAVERAGEBITRATE"@.len() == 17); assert("PTIME"@.len() == 5); assert("MAXPTIME"@.len() == 8); assert("MINPTIME"@.len() == 8); assert("USEDTX"@.len() == 6); assert("STEREO"@.len() == 6); assert("USEINBANDFEC"@.len() == 12); assert("CBR"@.len() == 3); assert("APT"@.len() == 3); assert("RTX-TIME"@.len() == 8); assert("MAX-MBPS"@[3] != "MAXPTIME"@[3]); assert("MAX-MBPS"@[1] != "MINPTIME"@[1]); assert("MAX-MBPS"@[0] != "RTX-TIME"@[0]); assert("MAX-FS"@[4] != "MAX-BR"@[4]); assert("MAX-FS"@[5] != "MAX-FR"@[5]); assert("MAX-FS"@[0] != "USEDTX"@[0]); assert("MAX-FS"@[0] != "STEREO"@[0]); assert("MAX-CPB"@[4] != "MAX-DPB"@[4]); assert("MAX-CPB"@[0] != "PROFILE"@[0]); assert("MAX-DPB"@[0] != "PROFILE"@[0]); assert("MAX-BR"@[4] != "MAX-FR"@[4]); assert("MAX-BR"@[0] != "USEDTX"@[0]); assert("MAX-BR"@[0] != "STEREO"@[0]); assert("MAX-FR"@[0] != "USEDTX"@[0]); assert("MAX-FR"@[0] != "STEREO"@[0]); assert("MAXPTIME"@[1] != "MINPTIME"@[1]); assert("MAXPTIME"@[0] != "RTX-TIME"@[0]); assert("MINPTIME"@[0] != "RTX-TIME"@[0]); assert("USEDTX"@[0] != "STEREO"@[0]); assert("CBR"@[0] != "APT"@[0]); }
proof fn lemma_fmtp_key0(s: Str) ensures fmtp_key(s) == 0 || s == "PROFILE-LEVEL-ID"@ || s == "PACKETIZATION-MODE"@ || s == "LEVEL-ASYMMETRY-ALLOWED"@ || s == "MAX-MBPS"@ || s == "MAX-FS"@ || s == "MAX-CPB"@ || s == "MAX-DPB"@ || s == "MAX-BR"@ || s == "MAX-FR"@ || s == "PROFILE"@ || s == "LEVEL-IDX"@ || s == "TIER"@ || s == "MAXPLAYBACKRATE"@ || s == "MAXAVERAGEBITRATE"@ || s == "PTIME"@ || s == "MAXPTIME"@ || s == "MINPTIME"@ || s == "USEDTX"@ || s == "STEREO"@ || s == "USEINBANDFEC"@ || s == "CBR"@ || s == "APT"@ || s == "RTX-TIME"@, 0 <= fmtp_key(s) <= 23
{ reveal(fmtp_key); }
spec fn digit_ok(s: Str) -> bool { uint_ok(s, u8::MAX as int) && uint_val(s) <= 100 }
spec fn tone_ok(s: Str) -> bool { let p = splitn_char(2, s, '-'); if p.len() == 2 { digit_ok(p[0]) && digit_ok(p[1]) && uint_val(p[0]) < uint_val(p[1]) } else { digit_ok(s) } }
spec fn tones_ok(v: Seq<Str>) -> bool { forall|i: int| 0 <= i < v.len() ==> tone_ok(#[trigger] v[i]) }
spec fn red_ok(s: Str) -> bool { uint_ok(s, u8::MAX as int) && uint_val(s) <= 128 }
spec fn reds_ok(v: Seq<Str>, n: int) -> bool { forall|i: int| 0 <= i < n ==> red_ok(#[trigger] v[i]) }
spec fn reds(v: Seq<Str>) -> Seq<u8> { v.map_values(|s: Str| uint_val(s) as u8) }
spec fn fmtp_body(s: Str) -> Option<FmtpV> {
    if s.contains('=') { let ps = nonempty(split_char(s, ';')); fmtp_fold(ps, ps.len() as int) }
    else if s.contains('/') { let v = split_char(s, '/'); if reds_ok(v, v.len() as int) { Some(FmtpV { encodings: reds(v), ..fmtp_default() }) } else { None } }
    else { Some(FmtpV { dtmf_tones: if tones_ok(split_char(s, ',')) { s } else { "0-15"@ }, ..fmtp_default() }) }
}
spec fn fmtp_ok(t: Seq<Str>) -> bool { t.len() == 2 && uint_ok(t[0], u8::MAX as int) && fmtp_body(t[1]) is Some }
spec fn fmtp_is(t: Seq<Str>, x: SdpAttributeFmtp) -> bool { x.payload_type == uint_val(t[0]) && fmtp_body(t[1]) == Some(fmtp_v(x.parameters)) }
@fn parse_fmtp
@attr #noreveal
@attr #isolate
@attr #[verifier::rlimit(250)]
@attr #[verifier::spinoff_prover]
@at start: proof { lemma_fmtp_keys(); reveal_strlit(""); }
@params to_parse
@lets tokens, payload_token, parameters, parameter_tokens, name_value_pair, parse_bool, parameter_name, parameter_val, encodings, dtmf_tones, dtmf_tone_is_ok, validate_digits, dtmf_tone_range
@ens C08: r is Ok <==> fmtp_ok(splitn_char(2, to_parse@, ' '))
@ens C08: r matches Ok(a) ==> a matches SdpAttribute::Fmtp(x) && fmtp_is(splitn_char(2, to_parse@, ' '), x)
@ens C06: r matches Err(e) ==> (e is Unsupported ==> splitn_char(2, to_parse@, ' ').len() != 2)
@cl 0 |val: &str, param_name: &str| -> (o: Result<bool, SdpParserInternalError>)
@clens (match o { Ok(b) => f_bool(val@) == Some(b), Err(e) => f_bool(val@) is None && !(e is Unsupported) })
@cl 1 |digit_option: Option<u8>| -> (o: Option<u8>)
@clens o == (match digit_option { Some(x) => if x <= 100 { Some(x) } else { None }, None => None })
@at after:tokens: let ghost t = splitn_char(2, to_parse@, ' '); proof { assert(rstrs(tokens@) == t); lemma_splitn_len(2, to_parse@, ' '); }
@at after:parameters: proof { assert(strs(parameters.unknown_tokens@) =~= Seq::<Str>::empty()); assert(fmtp_v(parameters) =~= fmtp_default()); }
@loop 0
@lens $n == $src.len()
@inv *: t == splitn_char(2, to_parse@, ' ') && t.len() == 2 && tokens@.len() == 2
@inv *: $src.len() == 1 && $src[0]@ == t[1]
@inv *: $n == 0 ==> fmtp_v(parameters) == fmtp_default()
@inv *: $n == 1 ==> fmtp_body(t[1]) == Some(fmtp_v(parameters))
@at lb0: let ghost s = t[1]; proof { assert($src0[$n0 - 1] == parameter_token); assert(parameter_token@ == s); }
@at le0: proof { if s.contains('=') { } else if s.contains('/') { let ev = split_char(s, '/'); assert(reds(ev).subrange(0, ev.len() as int) =~= reds(ev)); } }
@at after:parameter_tokens: let ghost ps = nonempty(split_char(s, ';')); proof { assert(rstrs(parameter_tokens@) == ps); }
@loop 1
@lens $n == $src.len()
@inv *: t == splitn_char(2, to_parse@, ' ') && t.len() == 2 && s == t[1] && s.contains('=') && ps == nonempty(split_char(s, ';'))
@inv *: $src.len() == ps.len() && forall|i: int| 0 <= i < ps.len() ==> (#[trigger] $src[i])@ == ps[i]
@inv *: fmtp_fold(ps, $n as int) == Some(fmtp_v(parameters))
@at lb1: let ghost p0 = parameters; proof { lemma_fmtp_keys(); assert(parameter_token@ == ps[$n1 - 1]); lemma_split2(parameter_token@, '='); reveal(fmtp_step); lemma_fmtp_key0(to_upper(splitn_char(2, parameter_token@, '=')[0])); if fmtp_fold(ps, $n1 as int) is None { lemma_fmtp_none(ps, $n1 as int, ps.len() as int); } }
@at arm0: proof { assert(fmtp_fold(ps, $n1 as int) == Some(fmtp_v(parameters))); }
@at le1: proof { assert(fmtp_fold(ps, $n1 as int) == Some(fmtp_v(parameters))); }
@at after:encodings: let ghost ev = split_char(s, '/'); proof { assert(rstrs(encodings@) == ev); assert(parameters.encodings@ =~= reds(ev).subrange(0, 0)); }
@loop 2
@lens $n == $src.len()
@inv *: t == splitn_char(2, to_parse@, ' ') && t.len() == 2 && s == t[1] && !s.contains('=') && s.contains('/') && ev == split_char(s, '/')
@inv *: rstrs($src) == ev
@inv *: reds_ok(ev, $n as int) && fmtp_v(parameters) == (FmtpV { encodings: reds(ev).subrange(0, $n as int), ..fmtp_default() })
@at lb2: let ghost e0 = parameters.encodings@; proof { assert($src2[$n2 - 1] == encoding); assert(encoding@ == ev[$n2 - 1]); }
@at le2: proof { assert(parameters.encodings@ =~= reds(ev).subrange(0, $n2 as int)); }
@at after:dtmf_tones: let ghost tv = split_char(s, ','); proof { assert(rstrs(dtmf_tones@) == tv); }
@loop 3
@lens dtmf_tone_is_ok ==> $n == $src.len()
@inv *: tv == split_char(s, ',') && forall|d: Option<u8>, o: Option<u8>| #[trigger] validate_digits.ensures((d,), o) ==> o == (match d { Some(x) => if x <= 100 { Some(x) } else { None }, None => None })
@inv *: forall|d: Option<u8>| #[trigger] validate_digits.requires((d,))
@inv *: rstrs($src) == tv
@invx *: dtmf_tone_is_ok
@inv *: dtmf_tone_is_ok ==> forall|i: int| 0 <= i < $n ==> tone_ok(#[trigger] tv[i])
@inv *: !dtmf_tone_is_ok ==> !tones_ok(tv)
@at lb3: proof { assert($src3[$n3 - 1] == dtmf_tone); assert(dtmf_tone@ == tv[$n3 - 1]); lemma_split2(dtmf_tone@, '-'); }
@raw
