@raw
// ---------------------------------------------------------------- the exact printed text of every value
// the wording of error messages is not part of any property
uninterp spec fn err_str(e: SdpParserInternalError) -> Str;
uninterp spec fn perr_str(e: SdpParserError) -> Str;
@fn <SdpParserInternalError as fmt::Display>::fmt
@mode trusted
@params self, f
@spec spec fn disp(&self) -> Str { err_str(*self) }
@fn <SdpParserError as fmt::Display>::fmt
@mode trusted
@params self, f
@spec spec fn disp(&self) -> Str { perr_str(*self) }

@fn maybe_print_param
@params name, param, default_value
@ens C09,C10: r@ == (if param.eqs(&default_value) { none() } else { name@ + param.disp() })
@fn maybe_print_bool_param
@params name, param, default_value
@ens C09,C10: r@ == bool_str(name@, param, default_value)
@raw
spec fn bool_str(name: Str, v: bool, default_value: bool) -> Str { if v == default_value { none() } else { name + "="@ + dec(if v { 1 } else { 0 }) } }
spec fn num_str(name: Str, v: int, default_value: int) -> Str { if v == default_value { none() } else { name + dec(v) } }

spec fn ext_str(p: (String, String)) -> Str { " "@ + p.0@ + " "@ + p.1@ }
spec fn exts_str(v: Seq<(String, String)>) -> Str { concat_with(v, |p: (String, String)| ext_str(p)) }
spec fn concat_with<T>(v: Seq<T>, g: spec_fn(T) -> Str) -> Str decreases v.len() { if v.len() == 0 { none() } else { concat_with(v.drop_last(), g) + g(v.last()) } }
spec fn ext_step<'a>() -> spec_fn(String, &'a (String, String), String) -> bool { |b: String, x: &'a (String, String), r: String| r@ == b@ + ext_str(*x) }
proof fn lemma_exts_folded<'a>(v: Seq<(String, String)>, init: String, r: String)
    requires folded(refs(v), init, ext_step(), r) ensures r@ == init@ + exts_str(v) decreases v.len()
{
    let g = |p: (String, String)| ext_str(p);
    if v.len() > 0 {
        let m = choose|m: String| folded(refs(v).drop_last(), init, ext_step(), m) && #[trigger] ext_step()(m, refs(v).last(), r);
        assert(refs(v).drop_last() =~= refs(v.drop_last()));
        lemma_exts_folded(v.drop_last(), init, m);
        assert(m@ + ext_str(v.last()) =~= init@ + (concat_with(v.drop_last(), g) + ext_str(v.last())));
    } else { assert(init@ + none() =~= init@); }
}
spec fn opt_addr(pre: Str, a: Option<Address>) -> Str { match a { Some(v) => pre + addr_str(v), None => none() } }
spec fn cand_str(c: SdpAttributeCandidate) -> Str {
    c.foundation@ + " "@ + dec(c.component as int) + " "@ + transp_str(c.transport) + " "@ + dec(c.priority as int) + " "@ + addr_str(c.address) + " "@ + dec(c.port as int)
        + " typ "@ + ctype_str(c.c_type) + opt_addr(" raddr "@, c.raddr) + opt_str(" rport "@, c.rport, none()) + opt_str(" tcptype "@, c.tcp_type, none())
        + opt_str(" generation "@, c.generation, none()) + opt_str(" ufrag "@, c.ufrag, none()) + opt_str(" network-cost "@, c.networkcost, none()) + exts_str(c.unknown_extensions@)
}
@fn <SdpAttributeCandidate as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { cand_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + cand_str(*self)
@cl 0 |__o: String, __p: &(String, String)| -> (o: String)
@clghost ext_step()
@clens ext_step()(__o, __p, o)
@at cb0: broadcast use printing0;
@at start: broadcast use printing0; proof { assert forall|r: String, i: String| folded(refs(self.unknown_extensions@), i, ext_step(), r) implies r@ == i@ + exts_str(self.unknown_extensions@) by { lemma_exts_folded(self.unknown_extensions@, i, r); } }
@raw
spec fn dtls_str(m: SdpAttributeDtlsMessage) -> Str { match m { SdpAttributeDtlsMessage::Client(x) => "client "@ + x@, SdpAttributeDtlsMessage::Server(x) => "server "@ + x@ } }
@fn <SdpAttributeDtlsMessage as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { dtls_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + dtls_str(*self)
@at start: broadcast use printing;
@raw
spec fn rcand_str(c: SdpAttributeRemoteCandidate) -> Str { dec(c.component as int) + " "@ + addr_str(c.address) + " "@ + dec(c.port as int) }
@fn <SdpAttributeRemoteCandidate as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { rcand_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + rcand_str(*self)
@at start: broadcast use printing;
@raw
spec fn scid_str(x: SdpAttributeSimulcastId) -> Str { (if x.paused { "~"@ } else { none() }) + x.id@ }
@fn <SdpAttributeSimulcastId as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { scid_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + scid_str(*self)
@at start: broadcast use printing;
@raw
spec fn scver_str(x: SdpAttributeSimulcastVersion) -> Str { join(disps(x.ids@), ","@) }
@fn <SdpAttributeSimulcastVersion as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { scver_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + scver_str(*self)
@at start: broadcast use printing;
@raw
spec fn scvers_str(d: Str, v: Seq<SdpAttributeSimulcastVersion>) -> Str {
    let l = join(disps(v), ";"@);
    if v.len() == 0 { none() } else if l.len() == 0 || l.contains('=') { d + " rid="@ + l } else { d + " "@ + l }
}
@fn simulcast_versions_to_string
@params direction, versions
@ens C09,C10: r@ == scvers_str(direction@, versions@)
@at start: broadcast use printing;
@raw
spec fn simulcast_str(s: SdpAttributeSimulcast) -> Str { join(nepush(nepush(Seq::empty(), scvers_str("send"@, s.send@)), scvers_str("recv"@, s.receive@)), " "@) }
@fn <SdpAttributeSimulcast as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { simulcast_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + simulcast_str(*self)
@lets temp_vec
@at start: broadcast use printing;
@at after:temp_vec: proof { assert(strs(temp_vec@) =~= Seq::<Str>::empty()); }
@raw
spec fn opt_typed(pre: Str, a: Option<ExplicitlyTypedAddress>) -> Str { match a { Some(v) => pre + typed_str(v), None => none() } }
spec fn rtcp_str(x: SdpAttributeRtcp) -> Str { dec(x.port as int) + opt_typed(" "@, x.unicast_addr) }
@fn <SdpAttributeRtcp as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { rtcp_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + rtcp_str(*self)
@at start: broadcast use printing;
@raw
spec fn ptype_str(x: SdpAttributePayloadType) -> Str { match x { SdpAttributePayloadType::PayloadType(n) => dec(n as int), SdpAttributePayloadType::Wildcard => "*"@ } }
@fn <SdpAttributePayloadType as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { ptype_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + ptype_str(*self)
@raw
spec fn rtcpfb_str(x: SdpAttributeRtcpFb) -> Str {
    ptype_str(x.payload_type) + " "@ + fbt_str(x.feedback_type)
        + (if x.parameter@.len() == 0 { none() } else { " "@ + x.parameter@ + (if x.extra@.len() == 0 { none() } else { " "@ + x.extra@ }) })
}
@fn <SdpAttributeRtcpFb as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { rtcpfb_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + rtcpfb_str(*self)
@at start: broadcast use printing; proof { assert forall|x: Str| #[trigger] x.len() == 0 implies x == ""@ by { assert(x =~= ""@); } }
@raw
spec fn extmap_str(x: SdpAttributeExtmap) -> Str { dec(x.id as int) + opt_str("/"@, x.direction, none()) + " "@ + x.url@ + opt_str(" "@, x.extension_attributes, none()) }
@fn <SdpAttributeExtmap as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { extmap_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + extmap_str(*self)
@at start: broadcast use printing;
@raw
spec fn rtx_str(x: RtxFmtpParameters) -> Str { "apt="@ + dec(x.apt as int) + opt_str(";rtx-time="@, x.rtx_time, none()) }
@fn <RtxFmtpParameters as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { rtx_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + rtx_str(*self)
@at start: broadcast use printing;
@raw
spec fn nelist(items: Seq<Str>) -> Seq<Str> decreases items.len() { if items.len() == 0 { Seq::empty() } else { nepush(nelist(items.drop_last()), items.last()) } }
spec fn nel(items: Seq<Str>, k: int) -> Seq<Str> { nelist(items.subrange(0, k)) }
spec fn nel1(items: Seq<Str>, k: int) -> Seq<Str> { nel(items, k + 1) }
proof fn lemma_nelist(items: Seq<Str>, k: int) requires 0 <= k < items.len() ensures nel1(items, k) == nel(items, k + 1), nel(items, k + 1) == nepush(nel(items, k), items[k]) {
    assert(items.subrange(0, k + 1).drop_last() =~= items.subrange(0, k));
}
#[verifier::opaque]
spec fn fmtp_item(p: SdpAttributeFmtpParameters, k: int) -> Str {
    if k == 0 { opt_str(none(), p.rtx, none()) }
    else if k == 1 { if hex_lower(p.profile_level_id as int, 6) == "42000a"@ { none() } else { "profile-level-id="@ + hex_lower(p.profile_level_id as int, 6) } }
    else if k == 2 { bool_str("level-asymmetry-allowed"@, p.level_asymmetry_allowed, false) }
    else if k == 3 { num_str("packetization-mode="@, p.packetization_mode as int, 0) }
    else if k == 4 { num_str("max-fs="@, p.max_fs as int, 0) }
    else if k == 5 { num_str("max-cpb="@, p.max_cpb as int, 0) }
    else if k == 6 { num_str("max-dpb="@, p.max_dpb as int, 0) }
    else if k == 7 { num_str("max-br="@, p.max_br as int, 0) }
    else if k == 8 { num_str("max-mbps="@, p.max_mbps as int, 0) }
    else if k == 9 { num_str("max-fr="@, p.max_fr as int, 0) }
    else if k == 10 { opt_str("profile="@, p.profile, none()) }
    else if k == 11 { opt_str("level-idx="@, p.level_idx, none()) }
    else if k == 12 { opt_str("tier="@, p.tier, none()) }
    else if k == 13 { num_str("maxplaybackrate="@, p.maxplaybackrate as int, 48000) }
    else if k == 14 { num_str("maxaveragebitrate="@, p.maxaveragebitrate as int, 0) }
    else if k == 15 { num_str("ptime="@, p.ptime as int, 0) }
    else if k == 16 { num_str("minptime="@, p.minptime as int, 0) }
    else if k == 17 { num_str("maxptime="@, p.maxptime as int, 0) }
    else if k == 18 { bool_str("usedtx"@, p.usedtx, false) }
    else if k == 19 { bool_str("stereo"@, p.stereo, false) }
    else if k == 20 { bool_str("useinbandfec"@, p.useinbandfec, false) }
    else if k == 21 { bool_str("cbr"@, p.cbr, false) }
    else { list_str(none(), strs(p.unknown_tokens@), ";"@, none()) }
}
spec fn fmtp_items(p: SdpAttributeFmtpParameters) -> Seq<Str> { Seq::new(23, |k: int| fmtp_item(p, k)) }
spec fn fmtpp_str(p: SdpAttributeFmtpParameters) -> Str {
    if p.dtmf_tones@.len() > 0 { p.dtmf_tones@ } else if p.encodings@.len() > 0 { join(disps(p.encodings@), "/"@) } else { join(nelist(fmtp_items(p)), ";"@) }
}
@fn <SdpAttributeFmtpParameters as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { fmtpp_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + fmtpp_str(*self)
@lets temp_vec
@at start: broadcast use printing0; let ghost its = fmtp_items(*self);
@at after:temp_vec: proof { assert(its.subrange(0, 0) =~= Seq::<Str>::empty()); assert(strs(temp_vec@) =~= Seq::<Str>::empty()); assert(its.len() == 23); assert(its.subrange(0, 23) =~= its); }
@at push: proof { lemma_nelist(its, $k); assert(its[$k] == fmtp_item(*self, $k)); assert(strs(temp_vec@) == nel1(its, $k)) by { reveal(fmtp_item); } }
@raw
spec fn fmtp_str(x: SdpAttributeFmtp) -> Str { if fmtpp_str(x.parameters).len() == 0 { none() } else { dec(x.payload_type as int) + " "@ + fmtpp_str(x.parameters) } }
@fn <SdpAttributeFmtp as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { fmtp_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + fmtp_str(*self)
@at start: broadcast use printing;
@raw
spec fn hexbytes(v: Seq<u8>) -> Seq<Str> { Seq::new(v.len(), |i: int| hex_upper(v[i] as int, 2)) }
spec fn fp_str(x: SdpAttributeFingerprint) -> Str { hash_str(x.hash_algorithm) + " "@ + join(hexbytes(x.fingerprint@), ":"@) }
spec fn is_hexbyte<'a>() -> spec_fn(&'a u8, String) -> bool { |b: &'a u8, o: String| o@ == hex_upper(*b as int, 2) }
@fn <SdpAttributeFingerprint as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { fp_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + fp_str(*self)
@cl 0 |__b: &u8| -> (o: String)
@clghost is_hexbyte()
@clens is_hexbyte()(__b, o)
@at cb0: broadcast use printing;
@at start: broadcast use printing; proof { assert forall|v: Seq<String>| v.len() == self.fingerprint@.len() && (forall|i: int| 0 <= i < v.len() ==> is_hexbyte()(refs(self.fingerprint@)[i], #[trigger] v[i])) implies #[trigger] strs(v) == hexbytes(self.fingerprint@) by { assert(strs(v) =~= hexbytes(self.fingerprint@)); } }
@raw
spec fn dval_str<T: VDisplay>(v: Seq<T>) -> Str { if v.len() == 1 { v[0].disp() } else { "["@ + join(disps(v), ","@) + "]"@ } }
@fn imageattr_discrete_value_list_to_string
@params values
@ens C09,C10: r@ == dval_str(values@)
@at start: broadcast use printing;
@raw
spec fn xy_str(x: SdpAttributeImageAttrXyRange) -> Str {
    match x {
        SdpAttributeImageAttrXyRange::Range(min, max, step) => "["@ + dec(min as int) + ":"@ + (match step { Some(s) => dec(s as int) + ":"@, None => none() }) + dec(max as int) + "]"@,
        SdpAttributeImageAttrXyRange::DiscreteValues(v) => dval_str(v@),
    }
}
proof fn lemma_xy(x: SdpAttributeImageAttrXyRange)
    ensures x matches SdpAttributeImageAttrXyRange::Range(min, max, step) ==> xy_str(x) == ("["@ + dec(min as int) + ":"@) + (match step { Some(s) => dec(s as int) + ":"@, None => none() }) + (dec(max as int) + "]"@)
{ match x { SdpAttributeImageAttrXyRange::Range(min, max, step) => { assert(xy_str(x) =~= ("["@ + dec(min as int) + ":"@) + (match step { Some(s) => dec(s as int) + ":"@, None => none() }) + (dec(max as int) + "]"@)); }, _ => {} } }
@fn <SdpAttributeImageAttrXyRange as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { xy_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + xy_str(*self)
@at start: broadcast use printing; proof { lemma_xy(*self); }
@at post: proof { assert(f@ == old(f)@ + xy_str(*self)); assert(xy_str(*self) == self.disp()); }
@raw
spec fn srange_str(x: SdpAttributeImageAttrSRange) -> Str {
    match x {
        SdpAttributeImageAttrSRange::Range(min, max) => "["@ + f32_str(min) + "-"@ + f32_str(max) + "]"@,
        SdpAttributeImageAttrSRange::DiscreteValues(v) => dval_str(v@),
    }
}
@fn <SdpAttributeImageAttrSRange as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { srange_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + srange_str(*self)
@at start: broadcast use printing;
@raw
spec fn prange_str(x: SdpAttributeImageAttrPRange) -> Str { "["@ + f32_str(x.min) + "-"@ + f32_str(x.max) + "]"@ }
@fn <SdpAttributeImageAttrPRange as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { prange_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + prange_str(*self)
@at start: broadcast use printing;
@raw
spec fn iaset_str(x: SdpAttributeImageAttrSet) -> Str {
    "[x="@ + xy_str(x.x) + ",y="@ + xy_str(x.y) + opt_str(",sar="@, x.sar, none()) + opt_str(",par="@, x.par, none()) + opt_str(",q="@, x.q, none()) + "]"@
}
@fn <SdpAttributeImageAttrSet as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { iaset_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + iaset_str(*self)
@at start: broadcast use printing;
@raw
spec fn iasets_str(x: SdpAttributeImageAttrSetList) -> Str {
    match x { SdpAttributeImageAttrSetList::Sets(v) => join(disps(v@), " "@), SdpAttributeImageAttrSetList::Wildcard => "*"@ }
}
spec fn iasets_empty(x: SdpAttributeImageAttrSetList) -> bool { x matches SdpAttributeImageAttrSetList::Sets(v) && v@.len() == 0 }
spec fn iadir_str(pre: Str, x: SdpAttributeImageAttrSetList) -> Str { if iasets_empty(x) { none() } else { pre + iasets_str(x) } }
@fn <SdpAttributeImageAttrSetList as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { iasets_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + iasets_str(*self)
@at start: broadcast use printing;
@raw
spec fn imageattr_str(x: SdpAttributeImageAttr) -> Str { ptype_str(x.pt) + iadir_str(" send "@, x.send) + iadir_str(" recv "@, x.recv) }
@fn <SdpAttributeImageAttr as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { imageattr_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + imageattr_str(*self)
@cl 0 |set_list: SdpAttributeImageAttrSetList| -> (o: Option<SdpAttributeImageAttrSetList>)
@clens o == (if iasets_empty(set_list) { None } else { Some(set_list) })
@at start: broadcast use printing;
@raw
spec fn sctpmap_str(x: SdpAttributeSctpmap) -> Str { dec(x.port as int) + " webrtc-datachannel "@ + dec(x.channels as int) }
@fn <SdpAttributeSctpmap as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { sctpmap_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + sctpmap_str(*self)
@at start: broadcast use printing;
@raw
spec fn group_str(x: SdpAttributeGroup) -> Str { gsem_str(x.semantics) + list_str(" "@, strs(x.tags@), " "@, none()) }
@fn <SdpAttributeGroup as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { group_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + group_str(*self)
@at start: broadcast use printing;
@raw
spec fn msid_str(x: SdpAttributeMsid) -> Str { x.id@ + opt_str(" "@, x.appdata, none()) }
@fn <SdpAttributeMsid as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { msid_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + msid_str(*self)
@at start: broadcast use printing;
@raw
spec fn msidsem_str(x: SdpAttributeMsidSemantic) -> Str { x.semantic@ + " "@ + (if x.msids@.len() == 0 { "*"@ } else { join(strs(x.msids@), " "@) }) }
@fn <SdpAttributeMsidSemantic as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { msidsem_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + msidsem_str(*self)
@at start: broadcast use printing;
@raw
spec fn ridp_items(p: SdpAttributeRidParameters) -> Seq<Str> {
    seq![
        num_str("max-width="@, p.max_width as int, 0), num_str("max-height="@, p.max_height as int, 0), num_str("max-fps="@, p.max_fps as int, 0),
        num_str("max-fs="@, p.max_fs as int, 0), num_str("max-br="@, p.max_br as int, 0), num_str("max-pps="@, p.max_pps as int, 0),
        list_str(none(), strs(p.unknown@), ";"@, none())
    ]
}
spec fn ridp_str(p: SdpAttributeRidParameters) -> Str { join(nelist(ridp_items(p)), ";"@) }
@fn <SdpAttributeRidParameters as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { ridp_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + ridp_str(*self)
@lets temp_vec
@at start: broadcast use printing; let ghost its = ridp_items(*self);
@at after:temp_vec: proof { assert(its.subrange(0, 0) =~= Seq::<Str>::empty()); assert(strs(temp_vec@) =~= Seq::<Str>::empty()); assert(its.len() == 7); assert(its.subrange(0, 7) =~= its); }
@at push: proof { lemma_nelist(its, $k); assert(strs(temp_vec@) == nel1(its, $k)); }
@raw
spec fn rid_items(x: SdpAttributeRid) -> Seq<Str> {
    seq![list_str("pt="@, disps(x.formats@), ","@, none()), ridp_str(x.params), if x.depends@.len() == 0 { none() } else { "depends="@ + join(strs(x.depends@), ","@) }]
}
spec fn rid_str(x: SdpAttributeRid) -> Str {
    let l = join(nelist(rid_items(x)), ";"@);
    x.id@ + " "@ + dirn_str(x.direction) + (if l.len() == 0 { none() } else { " "@ + l })
}
@fn <SdpAttributeRid as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { rid_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + rid_str(*self)
@lets temp_vec
@at start: broadcast use printing; proof { assert forall|x: Str| #[trigger] x.len() == 0 implies x == ""@ by { assert(x =~= ""@); } } let ghost its = rid_items(*self);
@at after:temp_vec: proof { assert(its.subrange(0, 0) =~= Seq::<Str>::empty()); assert(strs(temp_vec@) =~= Seq::<Str>::empty()); assert(its.len() == 3); assert(its.subrange(0, 3) =~= its); }
@at push: proof { lemma_nelist(its, $k); assert(strs(temp_vec@) == nel1(its, $k)); }
@raw
spec fn rtpmap_str(x: SdpAttributeRtpmap) -> Str { dec(x.payload_type as int) + " "@ + x.codec_name@ + "/"@ + dec(x.frequency as int) + opt_str("/"@, x.channels, none()) }
@fn <SdpAttributeRtpmap as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { rtpmap_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + rtpmap_str(*self)
@at start: broadcast use printing;
@raw
spec fn ssrc_str(x: SdpAttributeSsrc) -> Str { dec(x.id as int) + opt_str(" "@, x.attribute, none()) + opt_str(":"@, x.value, none()) }
@fn <SdpAttributeSsrc as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { ssrc_str(*self) }
@ens C09,C10: final(f)@ == old(f)@ + ssrc_str(*self)
@at start: broadcast use printing;
@raw
/// the value printed after the name of an attribute (nothing for a flag)
spec fn body_str(a: SdpAttribute) -> Str {
    match a {
        SdpAttribute::Candidate(x) => cand_str(x), SdpAttribute::DtlsMessage(x) => dtls_str(x), SdpAttribute::Extmap(x) => extmap_str(x), SdpAttribute::Fingerprint(x) => fp_str(x),
        SdpAttribute::Fmtp(x) => fmtp_str(x), SdpAttribute::FrameRate(x) => f64_str(x), SdpAttribute::Group(x) => group_str(x), SdpAttribute::IceOptions(x) => join(strs(x@), " "@),
        SdpAttribute::IcePacing(x) => dec(x as int), SdpAttribute::IcePwd(x) => x@, SdpAttribute::IceUfrag(x) => x@, SdpAttribute::Identity(x) => x@, SdpAttribute::ImageAttr(x) => imageattr_str(x),
        SdpAttribute::Label(x) => x@, SdpAttribute::MaxMessageSize(x) => dec(x as int), SdpAttribute::MaxPtime(x) => dec(x as int), SdpAttribute::Mid(x) => x@, SdpAttribute::Msid(x) => msid_str(x),
        SdpAttribute::MsidSemantic(x) => msidsem_str(x), SdpAttribute::Ptime(x) => dec(x as int), SdpAttribute::Rid(x) => rid_str(x), SdpAttribute::RemoteCandidate(x) => rcand_str(x),
        SdpAttribute::Rtpmap(x) => rtpmap_str(x), SdpAttribute::Rtcp(x) => rtcp_str(x), SdpAttribute::Rtcpfb(x) => rtcpfb_str(x), SdpAttribute::Sctpmap(x) => sctpmap_str(x),
        SdpAttribute::SctpPort(x) => dec(x as int), SdpAttribute::Setup(x) => setup_str(x), SdpAttribute::Simulcast(x) => simulcast_str(x), SdpAttribute::Ssrc(x) => ssrc_str(x),
        SdpAttribute::SsrcGroup(x, l) => ssem_str(x) + " "@ + join(disps(l@), " "@),
        _ => none(),
    }
}
proof fn lemma_ssem_len(x: SdpSsrcGroupSemantic) ensures ssem_str(x).len() > 0
{ reveal_strlit("DUP"); reveal_strlit("FID"); reveal_strlit("FEC"); reveal_strlit("FEC-FR"); reveal_strlit("SIM"); }
/// an attribute that carries a value prints as name:value, or as nothing when its value prints as nothing; a flag prints as its name
spec fn attr_str(a: SdpAttribute) -> Str {
    if is_flag(kind(a)) { kname(kind(a)) } else if body_str(a).len() == 0 { none() } else { kname(kind(a)) + ":"@ + body_str(a) }
}
@fn <SdpAttribute as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { attr_str(*self) }
@ens C09,C10,C15: final(f)@ == old(f)@ + attr_str(*self)
@lets attr_type_name, attr_to_string
@at start: broadcast use printing, lemma_is_disp; proof { assert(""@ =~= none()); match self { SdpAttribute::SsrcGroup(x, l) => lemma_ssem_len(*x), _ => {} } }
@cl 0 |attr_str: String| -> (o: String)
@at cb0: proof { assert(""@ =~= none()); }
@clens o@ == (if attr_str@.len() == 0 { none() } else { attr_type_name@ + ":"@ + attr_str@ })
@cl 1 |__s: &SdpAttributeSsrc| -> (o: String)
@clghost is_disp()
@clens is_disp()(__s, o)
@raw
spec fn is_disp<'a, T: VDisplay>() -> spec_fn(&'a T, String) -> bool { |b: &'a T, o: String| o@ == b.disp() }
broadcast proof fn lemma_is_disp<'a, T: VDisplay>(v: Seq<T>, o: Seq<String>)
    requires v.len() == o.len(), forall|i: int| #![trigger v[i]] #![trigger o[i]] 0 <= i < v.len() ==> is_disp()(&v[i], o[i])
    ensures #![trigger disps(v), strs(o)] strs(o) == disps(v)
{ assert(strs(o) =~= disps(v)) by { assert forall|i: int| 0 <= i < v.len() implies strs(o)[i] == disps(v)[i] by { assert(is_disp()(&v[i], o[i])); } } }

spec fn fmts_str(x: SdpFormatList) -> Str { match x { SdpFormatList::Integers(v) => list_str(none(), disps(v@), " "@, none()), SdpFormatList::Strings(v) => join(strs(v@), " "@) } }
@fn <SdpFormatList as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { fmts_str(*self) }
@ens C10: final(f)@ == old(f)@ + fmts_str(*self)
@at start: broadcast use printing;
@raw
spec fn mline_str(x: SdpMediaLine) -> Str { media_str(x.media) + " "@ + dec(x.port as int) + num_str("/"@, x.port_count as int, 0) + " "@ + proto_str(x.proto) + " "@ + fmts_str(x.formats) }
@fn <SdpMediaLine as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { mline_str(*self) }
@ens C10: final(f)@ == old(f)@ + mline_str(*self)
@at start: broadcast use printing;
@raw
spec fn bw_str(x: SdpBandwidth) -> Str {
    match x { SdpBandwidth::As(n) => "AS"@ + ":"@ + dec(n as int), SdpBandwidth::Ct(n) => "CT"@ + ":"@ + dec(n as int), SdpBandwidth::Tias(n) => "TIAS"@ + ":"@ + dec(n as int),
        SdpBandwidth::Unknown(t, n) => t@ + ":"@ + dec(n as int) }
}
@fn <SdpBandwidth as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { bw_str(*self) }
@ens C10: final(f)@ == old(f)@ + bw_str(*self)
@at start: broadcast use printing;
@raw
spec fn conn_str(x: SdpConnection) -> Str { typed_str(x.address) + opt_str("/"@, x.ttl, none()) + opt_str("/"@, x.amount, none()) }
@fn <SdpConnection as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { conn_str(*self) }
@ens C10: final(f)@ == old(f)@ + conn_str(*self)
@at start: broadcast use printing;
@raw
spec fn origin_str(x: SdpOrigin) -> Str { x.username@ + " "@ + dec(x.session_id as int) + " "@ + dec(x.session_version as int) + " "@ + typed_str(x.unicast_addr) }
@fn <SdpOrigin as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { origin_str(*self) }
@ens C10: final(f)@ == old(f)@ + origin_str(*self)
@at start: broadcast use printing;
@raw
spec fn timing_str(x: SdpTiming) -> Str { dec(x.start as int) + " "@ + dec(x.stop as int) }
@fn <SdpTiming as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { timing_str(*self) }
@ens C10: final(f)@ == old(f)@ + timing_str(*self)
@at start: broadcast use printing;
@raw
spec fn conn_line(c: Option<SdpConnection>) -> Str { match c { Some(v) => "c="@ + conn_str(v) + "\r\n"@, None => none() } }
spec fn media_section_str(x: SdpMedia) -> Str {
    "m="@ + mline_str(x.media) + "\r\n"@ + list_str("b="@, disps(x.bandwidth@), "\r\nb="@, "\r\n"@) + conn_line(x.connection) + list_str("a="@, attr_texts(x.attribute@), "\r\na="@, "\r\n"@)
}
@fn <SdpMedia as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { media_section_str(*self) }
@ens C10: final(f)@ == old(f)@ + media_section_str(*self)
@at start: broadcast use printing; proof { assert(disps(self.attribute@) =~= attr_texts(self.attribute@)); }
@raw
spec fn media_texts(v: Seq<SdpMedia>) -> Seq<Str> { Seq::new(v.len(), |i: int| media_section_str(v[i])) }
spec fn attr_texts(v: Seq<SdpAttribute>) -> Seq<Str> { Seq::new(v.len(), |i: int| attr_str(v[i])) }
spec fn session_str(x: SdpSession) -> Str {
    "v="@ + dec(x.version as int) + "\r\no="@ + origin_str(x.origin) + "\r\ns="@ + (match x.session { Some(s) => s@, None => " "@ }) + "\r\n"@ + opt_str("t="@, x.timing, "\r\n"@)
        + list_str("b="@, disps(x.bandwidth@), "\r\nb="@, "\r\n"@) + conn_line(x.connection) + list_str("a="@, attr_texts(x.attribute@), "\r\na="@, "\r\n"@) + concat(media_texts(x.media@))
}
@fn <SdpSession as fmt::Display>::fmt
@params self, f
@attr #acc
@spec spec fn disp(&self) -> Str { session_str(*self) }
@ens C10: final(f)@ == old(f)@ + session_str(*self)
@cl 0 |__s: &SdpMedia| -> (o: String)
@clghost is_disp()
@clens is_disp()(__s, o)
@at start: broadcast use printing0, lemma_is_disp; proof { assert(""@ =~= none()); assert(disps(self.media@) =~= media_texts(self.media@)); assert(disps(self.attribute@) =~= attr_texts(self.attribute@)); }
