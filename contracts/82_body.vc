@note lemmas (C10): the printed value of an attribute contains no line feed
@raw
// ---------------------------------------------------------------- the printed value of an attribute has no line feed
broadcast proof fn nl_small(s: Str) requires small(s) ensures #[trigger] nl(s) { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '\n' by { assert(33 <= s[i] as u32); } }
broadcast proof fn nl_big(s: Str) requires big(s) ensures #[trigger] nl(s) { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '\n' by { assert(33 <= s[i] as u32); } }
proof fn nl_lits() ensures nl(" "@), nl(":"@), nl("/"@), nl(";"@), nl(","@), nl("="@), nl("~"@), nl("*"@), nl("["@), nl("]"@), nl("-"@), nl(none()) {
    reveal_strlit(" "); reveal_strlit(":"); reveal_strlit("/"); reveal_strlit(";"); reveal_strlit(","); reveal_strlit("="); reveal_strlit("~"); reveal_strlit("*"); reveal_strlit("["); reveal_strlit("]"); reveal_strlit("-"); }
proof fn nl_disps(v: Seq<u32>) ensures nls(disps(v)) { assert forall|i: int| 0 <= i < v.len() implies nl(#[trigger] disps(v)[i]) by { nl_dec(v[i] as int); assert(disps(v)[i] == dec(v[i] as int)); } }
proof fn nl_toks_of(s: Str) ensures nls(split_ws(s)), toks(split_ws(s)) { rt_split_toks(s); nl_toks(split_ws(s)); }
proof fn nl_skip(v: Seq<Str>, k: int) requires nls(v), 0 <= k <= v.len() ensures nls(v.skip(k)) { let u = v.skip(k); assert forall|i: int| 0 <= i < u.len() implies nl(#[trigger] u[i]) by { assert(u[i] == v[i + k]); } }
proof fn nl_addr(s: Str) requires addr_ok(s) ensures nl(addr_str(addr_of(s))) { rt_addr(s); nl_nows(addr_str(addr_of(s))); }
proof fn nl_ptype(p: SdpAttributePayloadType) ensures nl(ptype_str(p)) { nl_lits(); match p { SdpAttributePayloadType::PayloadType(n) => nl_dec(n as int), _ => {} } }
proof fn nl_lists(p: Str, v: Seq<Str>, s: Str) requires nls(v), nl(p), nl(s) ensures nl(list_str(p, v, s, none())) { broadcast use nl_add; nl_lits(); nl_filt(v); nl_join(nonempty(v), s); }
proof fn nl_filt(v: Seq<Str>) requires nls(v) ensures nls(nonempty(v)) { let w = nonempty(v); let f = |s: Str| s.len() > 0; assert forall|i: int| 0 <= i < w.len() implies nl(#[trigger] w[i]) by { assert(v.filter(f).contains(w[i])); v.lemma_filter_contains_rev(f, w[i]); } }
proof fn nl_nelist(v: Seq<Str>) requires nls(v) ensures nls(nelist(v)) decreases v.len() {
    if v.len() > 0 { let d = v.drop_last(); assert forall|i: int| 0 <= i < d.len() implies nl(#[trigger] d[i]) by { assert(d[i] == v[i]); } nl_nelist(d); assert(nl(v[v.len() - 1])); let w = nelist(v); assert forall|i: int| 0 <= i < w.len() implies nl(#[trigger] w[i]) by { if i < nelist(d).len() { assert(w[i] == nelist(d)[i]); } else { assert(w[i] == v.last()); } } }
}
proof fn nl_exts(v: Seq<(String, String)>) requires forall|i: int| 0 <= i < v.len() ==> tok((#[trigger] v[i]).0@) && tok(v[i].1@) ensures nl(exts_str(v)) decreases v.len() {
    nl_lits(); broadcast use nl_add, nl_nows; let g = |p: (String, String)| ext_str(p);
    if v.len() > 0 { let d = v.drop_last(); assert forall|i: int| 0 <= i < d.len() implies tok((#[trigger] d[i]).0@) && tok(d[i].1@) by { assert(d[i] == v[i]); } nl_exts(d); let p = v[v.len() - 1]; assert(tok(p.0@) && tok(p.1@)); assert(nl(ext_str(p))); assert(exts_str(v) == concat_with(d, g) + g(v.last())); assert(exts_str(d) == concat_with(d, g)); }
}
proof fn nb_cand(v: Str, c: SdpAttributeCandidate) requires cand_ok(split_ws(v)), cand_is(split_ws(v), c) ensures nl(cand_str(c))
{
    let t = split_ws(v); rt_split_toks(v); rt_cand_inv(t, cand_next(t)); let x = cand_ext(c); assert(ce_ok(x)); nl_lits(); broadcast use nl_add, nl_nows;
    assert(c.foundation@ == t[0] && tok(t[0])); nl_dec(c.component as int); nl_dec(c.priority as int); nl_dec(c.port as int); nl_addr(t[4]); rt_transp(c.transport); rt_ctype(c.c_type); reveal_strlit(" typ "); assert(nl(" typ "@));
    assert(nl(rt_cand_head_str(c)));
    reveal_strlit(" raddr "); assert(nl(" raddr "@)); assert(nl(opt_addr(" raddr "@, c.raddr))) by { match c.raddr { Some(a) => { let s = choose|s: Str| #[trigger] addr_ok(s) && addr_of(s) == a; nl_addr(s); }, None => {} } }
    reveal_strlit(" rport "); assert(nl(" rport "@)); assert(nl(opt_str(" rport "@, c.rport, none()))) by { match c.rport { Some(n) => { nl_dec(n as int); }, None => {} } }
    reveal_strlit(" tcptype "); assert(nl(" tcptype "@)); assert(nl(opt_str(" tcptype "@, c.tcp_type, none()))) by { match c.tcp_type { Some(n) => { rt_tcpt(n); }, None => {} } }
    reveal_strlit(" generation "); assert(nl(" generation "@)); assert(nl(opt_str(" generation "@, c.generation, none()))) by { match c.generation { Some(n) => { nl_dec(n as int); }, None => {} } }
    reveal_strlit(" ufrag "); assert(nl(" ufrag "@)); assert(nl(opt_str(" ufrag "@, c.ufrag, none()))) by { match c.ufrag { Some(n) => { assert(tok(n@)); }, None => {} } }
    reveal_strlit(" network-cost "); assert(nl(" network-cost "@)); assert(nl(opt_str(" network-cost "@, c.networkcost, none()))) by { match c.networkcost { Some(n) => { nl_dec(n as int); }, None => {} } }
    let us = c.unknown_extensions@; assert forall|i: int| 0 <= i < us.len() implies tok((#[trigger] us[i]).0@) && tok(us[i].1@) by { assert(x.unknown[i] == (us[i].0@, us[i].1@)); }
    nl_exts(us);
}
proof fn nb_extmap(v: Str, x: SdpAttributeExtmap) requires extmap_ok(split_ws(v)), extmap_is(split_ws(v), x) ensures nl(extmap_str(x)) {
    let t = split_ws(v); nl_toks_of(v); nl_lits(); broadcast use nl_add, nl_small; assert(nl(t[1])); nl_dec(x.id as int);
    match x.direction { Some(d) => rt_kw_dir(d), None => {} }
    match x.extension_attributes { Some(e) => { nl_skip(t, 2); nl_join(t.skip(2), " "@); rt_sp(); }, None => {} }
}
proof fn nb_fingerprint(x: SdpAttributeFingerprint) ensures nl(fp_str(x)) {
    nl_lits(); broadcast use nl_add, nl_small; rt_kw_hash(x.hash_algorithm); let b = x.fingerprint@; let o = hexbytes(b);
    assert forall|i: int| 0 <= i < o.len() implies nl(#[trigger] o[i]) by { rt_octet(b[i] as int); nl_nows(o[i]); } nl_join(o, ":"@);
}
proof fn nb_group(v: Str, x: SdpAttributeGroup) requires val_ok(SdpAttributeType::Group, v), val_is(SdpAttribute::Group(x), v) ensures nl(group_str(x)) {
    nl_lits(); broadcast use nl_add, nl_big; rt_kw_gsem(x.semantics); nl_toks_of(v); nl_skip(split_ws(v), 1); nl_lists(" "@, strs(x.tags@), " "@);
}
proof fn nb_ice_options(v: Str, x: Vec<String>) requires strs(x@) == split_ws(v) ensures nl(join(strs(x@), " "@)) { nl_lits(); nl_toks_of(v); nl_join(strs(x@), " "@); }
proof fn nb_msid(v: Str, x: SdpAttributeMsid) requires split_ws(v).len() > 0, msid_is(split_ws(v), x) ensures nl(msid_str(x)) { nl_lits(); broadcast use nl_add; nl_toks_of(v); let t = split_ws(v); assert(nl(t[0])); if t.len() > 1 { assert(nl(t[1])); } match x.appdata { Some(a) => {}, None => {} } }
proof fn nb_msidsem(v: Str, x: SdpAttributeMsidSemantic) requires val_ok(SdpAttributeType::MsidSemantic, v), val_is(SdpAttribute::MsidSemantic(x), v) ensures nl(msidsem_str(x)) { nl_lits(); broadcast use nl_add; nl_toks_of(v); let t = split_ws(v); assert(nl(t[0])); nl_skip(t, 1); nl_join(strs(x.msids@), " "@); }
proof fn nb_rcand(v: Str, x: SdpAttributeRemoteCandidate) requires rcand_ok(split_ws(v)), rcand_is(split_ws(v), x) ensures nl(rcand_str(x)) { nl_lits(); broadcast use nl_add; nl_dec(x.component as int); nl_dec(x.port as int); nl_addr(split_ws(v)[1]); }
proof fn nb_rtpmap(v: Str, x: SdpAttributeRtpmap) requires rtpmap_ok(split_ws(v)), rtpmap_is(split_ws(v), x) ensures nl(rtpmap_str(x)) {
    nl_lits(); broadcast use nl_add; nl_toks_of(v); let t = split_ws(v); assert(nl(t[1])); nl_split(t[1], '/'); lemma_split_len(t[1], '/'); assert(nl(split_char(t[1], '/')[0])); nl_dec(x.payload_type as int); nl_dec(x.frequency as int); match x.channels { Some(n) => nl_dec(n as int), None => {} }
}
proof fn nb_typed(a: ExplicitlyTypedAddress, t: AddressType, s: Str) requires typed_ok(t, s), a == typed_of(t, s) ensures nl(typed_str(a)) { rt_typed(t, s); ls_in(); nl_lits(); rt_sp(); broadcast use nl_add, nl_nows, nl_big; rt_kw_aty(t); assert(nl("IN"@)); assert(nl("IN "@)) by { assert("IN "@ =~= "IN"@ + " "@); } assert(nl(addr_str(addr_of(s)))); assert(nl(aty_str(t))); }
proof fn nb_rtcp(v: Str, x: SdpAttributeRtcp) requires rtcp_ok(split_ws(v)), rtcp_is(split_ws(v), x) ensures nl(rtcp_str(x)) {
    nl_lits(); broadcast use nl_add; nl_dec(x.port as int); let t = split_ws(v); match x.unicast_addr { Some(a) => { nb_typed(a, rtcp_aty_of(t[2]), t[3]); }, None => {} }
}
proof fn nb_rtcpfb(v: Str, x: SdpAttributeRtcpFb) requires fb_ok(splitn_char(4, v, ' ')), fb_is(splitn_char(4, v, ' '), x), nl(v) ensures nl(rtcpfb_str(x)) {
    nl_lits(); broadcast use nl_add, nl_small; nl_ptype(x.payload_type); rt_kw_fbt(x.feedback_type); let p = splitn_char(4, v, ' '); nl_splitn(4, v, ' ');
    if p.len() > 2 { assert(nl(p[2])); } if p.len() > 3 { assert(nl(p[3])); } reveal_strlit("");
}
proof fn nb_sctpmap(x: SdpAttributeSctpmap) ensures nl(sctpmap_str(x)) { broadcast use nl_add; nl_dec(x.port as int); nl_dec(x.channels as int); reveal_strlit(" webrtc-datachannel "); assert(nl(" webrtc-datachannel "@)); }
proof fn nb_ssrc(v: Str, x: SdpAttributeSsrc) requires ssrc_ok(v), ssrc_is(v, x), nl(v) ensures nl(ssrc_str(x)) {
    nl_lits(); broadcast use nl_add; nl_dec(x.id as int); let p = splitn_char(2, v, ' '); nl_splitn(2, v, ' '); lemma_split2(v, ' ');
    assert(x.attribute matches Some(a) ==> nl(a@)) by { if p.len() > 1 { assert(nl(p[1])); let q = splitn_char(2, p[1], ':'); nl_splitn(2, p[1], ':'); lemma_split2(p[1], ':'); assert(nl(q[0])); } }
    assert(x.value matches Some(a) ==> nl(a@)) by { if p.len() > 1 && p[1].contains(':') { assert(nl(p[1])); let q = splitn_char(2, p[1], ':'); nl_splitn(2, p[1], ':'); lemma_split2(p[1], ':'); assert(nl(q[1])); } }
    match x.attribute { Some(a) => {}, None => {} } match x.value { Some(a) => {}, None => {} }
}
proof fn nb_ssrc_group(v: Str, m: SdpSsrcGroupSemantic, l: Vec<SdpAttributeSsrc>) requires ssrc_group_ok(split_ws(v)), ssrc_group_is(split_ws(v), m, l@) ensures nl(body_str(SdpAttribute::SsrcGroup(m, l))) {
    nl_lits(); broadcast use nl_add, nl_big; let t = split_ws(v); nl_toks_of(v); rt_kw_ssem(m); let d = disps(l@);
    assert forall|i: int| 0 <= i < d.len() implies nl(#[trigger] d[i]) by { assert(ssrc_is(t[i + 1], l@[i])); assert(nl(t[i + 1])); nb_ssrc(t[i + 1], l@[i]); assert(d[i] == l@[i].disp()); } nl_join(d, " "@);
}
proof fn nb_simulcast(v: Str, x: SdpAttributeSimulcast) requires simulcast_ok(split_ws(v)), simulcast_is(split_ws(v), x) ensures nl(simulcast_str(x)) {
    nl_lits(); broadcast use nl_add, nl_nows; let t = split_ws(v); nl_toks_of(v); reveal_strlit("send"); reveal_strlit("recv"); assert(nl("send"@)); assert(nl("recv"@)); rt_sp();
    let a = scvers_str("send"@, x.send@); let b = scvers_str("recv"@, x.receive@); assert(tok(t[1])); if t.len() > 3 { assert(tok(t[3])); }
    assert(nl(a)) by { if x.send@.len() > 0 { nb_scl(t, x.send@); assert(a == "send"@ + sp() + sc_list(x.send@)); } }
    assert(nl(b)) by { if x.receive@.len() > 0 { nb_scl(t, x.receive@); assert(b == "recv"@ + sp() + sc_list(x.receive@)); } }
    let e = Seq::<Str>::empty(); let w = nepush(nepush(e, a), b); assert(nls(w)); nl_join(w, " "@);
}
spec fn in_list(t: Seq<Str>, v: Seq<SdpAttributeSimulcastVersion>) -> bool { (t.len() > 1 && tok(t[1]) && svers_are(slist_body(t[1]), v)) || (t.len() > 3 && tok(t[3]) && svers_are(slist_body(t[3]), v)) }
proof fn nb_scl(t: Seq<Str>, v: Seq<SdpAttributeSimulcastVersion>) requires in_list(t, v) ensures nl(sc_list(v)), forall|d: Str| #[trigger] scvers_str(d, v) == d + sp() + sc_list(v) {
    if t.len() > 1 && tok(t[1]) && svers_are(slist_body(t[1]), v) { rt_sclist(t[1], v); } else { rt_sclist(t[3], v); } nl_nows(sc_list(v));
}
// ---- imageattr
proof fn nl_numlike(s: Str) requires numlike(s) ensures nl(s) { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '\n' by { assert(nch(s[i])); } }
proof fn nl_f32(x: f32) requires fsrc(x), !x.is_nan_spec() ensures nl(f32_str(x)) { let s = choose|s: Str| #[trigger] f32_ok(s) && f32_of(s) == x; ax_f32_print(s); nl_numlike(f32_str(x)); }
proof fn nl_fpos(x: f32) requires fpos(x), !x.is_nan_spec() ensures nl(f32_str(x)) { let s = choose|s: Str| #[trigger] f32_ok(s) && f32_of(s) == x && noc(s, '-'); nl_f32(x); }
proof fn nb_xy(x: SdpAttributeImageAttrXyRange) ensures nl(xy_str(x)) {
    nl_lits(); broadcast use nl_add;
    match x { SdpAttributeImageAttrXyRange::Range(a, b, c) => { nl_dec(a as int); nl_dec(b as int); match c { Some(k) => nl_dec(k as int), None => {} } }, SdpAttributeImageAttrXyRange::DiscreteValues(v) => { nl_disps(v@); nl_join(disps(v@), ","@); if v@.len() == 1 { nl_dec(v@[0] as int); } } }
}
proof fn nb_sar(x: SdpAttributeImageAttrSRange) requires sar_good(sar_v(x)) ensures nl(srange_str(x)) {
    nl_lits(); broadcast use nl_add;
    match x { SdpAttributeImageAttrSRange::Range(a, b) => { nl_fpos(a); nl_fpos(b); },
        SdpAttributeImageAttrSRange::DiscreteValues(v) => { let d = disps(v@); assert forall|i: int| 0 <= i < d.len() implies nl(#[trigger] d[i]) && d[i] == f32_str(v@[i]) by { assert(!v@[i].is_nan_spec()); if v@.len() == 1 { assert(i == 0); nl_f32(v@[0]); } else { assert(fpos(v@[i])); nl_fpos(v@[i]); } } nl_join(d, ","@); if v@.len() == 1 { assert(nl(d[0])); } } }
}
proof fn nb_set(x: SdpAttributeImageAttrSet) requires set_good(x) ensures nl(iaset_str(x)) {
    nl_lits(); broadcast use nl_add; reveal_strlit("[x="); reveal_strlit(",y="); reveal_strlit(",sar="); reveal_strlit(",par="); reveal_strlit(",q="); assert(nl("[x="@) && nl(",y="@) && nl(",sar="@) && nl(",par="@) && nl(",q="@)); nb_xy(x.x); nb_xy(x.y);
    assert(nl(opt_str(",sar="@, x.sar, none()))) by { match x.sar { Some(y) => nb_sar(y), None => {} } }
    assert(nl(opt_str(",par="@, x.par, none()))) by { match x.par { Some(y) => { nl_fpos(y.min); nl_fpos(y.max); }, None => {} } }
    assert(nl(opt_str(",q="@, x.q, none()))) by { match x.q { Some(y) => nl_f32(y), None => {} } }
}
proof fn nb_il(x: SdpAttributeImageAttrSetList) requires il_good(x) ensures nl(iasets_str(x)) {
    nl_lits(); match x { SdpAttributeImageAttrSetList::Wildcard => {}, SdpAttributeImageAttrSetList::Sets(v) => { let d = disps(v@); assert forall|i: int| 0 <= i < d.len() implies nl(#[trigger] d[i]) by { assert(set_good(v@[i])); nb_set(v@[i]); assert(d[i] == v@[i].disp()); } nl_join(d, " "@); } }
}
proof fn nb_imageattr(v: Str, x: SdpAttributeImageAttr) requires imageattr_ok(ia_tokens(v, ' ')), imageattr_is(ia_tokens(v, ' '), x), !il_nan(x.send), !il_nan(x.recv) ensures nl(imageattr_str(x)) {
    nl_lits(); broadcast use nl_add; nl_ptype(x.pt); reveal_strlit(" send "); reveal_strlit(" recv "); assert(nl(" send "@) && nl(" recv "@)); let t = ia_tokens(v, ' ');
    let u = t.subrange(2, t.len() as int); let r = imageattr_rest(t); let (a, b) = if t[1] == "send"@ { (x.send, x.recv) } else { (x.recv, x.send) }; rt_il_inv(u, a); if r.len() > 0 { rt_il_inv(r.drop_first(), b); }
    assert(iasets_empty(b) || il_good(b)); assert(iasets_empty(x.send) || il_good(x.send)); assert(iasets_empty(x.recv) || il_good(x.recv));
    if !iasets_empty(x.send) { nb_il(x.send); } if !iasets_empty(x.recv) { nb_il(x.recv); }
}
// ---- rid
spec fn nl_ra(a: RidAcc) -> bool { nls(a.unknown) && nls(a.depends) }
proof fn nb_rid_inv(v: Seq<Str>, n: int) requires nls(v), 0 <= n <= v.len(), rid_fold(v, n) is Some ensures nl_ra(rid_fold(v, n)->Some_0) decreases n {
    if n > 0 {
        if rid_fold(v, n - 1) is None { lemma_rid_none(v, n - 1, n); } nb_rid_inv(v, n - 1); let e = rid_fold(v, n - 1)->Some_0; let f = rid_fold(v, n)->Some_0; let s = v[n - 1]; assert(nl(s)); assert(rid_step(e, s) == Some(f)); lemma_split2(s, '='); nl_splitn(2, s, '='); let p = splitn_char(2, s, '='); assert(nl(p[1])); nl_split(p[1], ',');
        assert(nls(f.unknown)) by { assert forall|i: int| 0 <= i < f.unknown.len() implies nl(#[trigger] f.unknown[i]) by { if i < e.unknown.len() { assert(f.unknown[i] == e.unknown[i]); } else { assert(f.unknown[i] == s); } } }
        assert(nls(f.depends)) by { assert forall|i: int| 0 <= i < f.depends.len() implies nl(#[trigger] f.depends[i]) by { if i < e.depends.len() { assert(f.depends[i] == e.depends[i]); } else { assert(f.depends[i] == split_char(p[1], ',')[i - e.depends.len()]); } } }
    }
}
proof fn nl_num(p: Str, n: int, d: int) requires nl(p), n >= 0 ensures nl(num_str(p, n, d)) { broadcast use nl_add; nl_dec(n); nl_lits(); }
proof fn nb_ridp(p: SdpAttributeRidParameters) requires nls(strs(p.unknown@)) ensures nl(ridp_str(p)) {
    nl_lits(); reveal_strlit("max-width="); reveal_strlit("max-height="); reveal_strlit("max-fps="); reveal_strlit("max-fs="); reveal_strlit("max-br="); reveal_strlit("max-pps=");
    nl_num("max-width="@, p.max_width as int, 0); nl_num("max-height="@, p.max_height as int, 0); nl_num("max-fps="@, p.max_fps as int, 0); nl_num("max-fs="@, p.max_fs as int, 0); nl_num("max-br="@, p.max_br as int, 0); nl_num("max-pps="@, p.max_pps as int, 0);
    nl_lists(none(), strs(p.unknown@), ";"@); let w = ridp_items(p); assert(nls(w)); nl_nelist(w); nl_join(nelist(w), ";"@);
}
proof fn nb_rid(v: Str, x: SdpAttributeRid) requires rid_ok(splitn_char(3, v, ' ')), rid_is(splitn_char(3, v, ' '), x), nl(v) ensures nl(rid_str(x)) {
    nl_lits(); broadcast use nl_add; let t = splitn_char(3, v, ' '); nl_splitn(3, v, ' '); assert(nl(t[0])); rt_kw_dirn(x.direction); nl_small(dirn_str(x.direction));
    let ps = rid_params(t); assert(nls(ps)) by { if t.len() > 2 { assert(nl(t[2])); let c = split_char(t[2], ';'); nl_split(t[2], ';'); assert forall|i: int| 0 <= i < ps.len() implies nl(#[trigger] ps[i]) by { if rid_pt(t) { assert(ps[i] == c[i + 1]); } } } }
    nb_rid_inv(ps, ps.len() as int); let a = rid_acc(x.params, x.depends@); assert(nls(a.unknown) && nls(a.depends)); nb_ridp(x.params); reveal_strlit("pt="); reveal_strlit("depends="); assert(nl("pt="@) && nl("depends="@));
    let fl = disps(x.formats@); assert forall|i: int| 0 <= i < fl.len() implies nl(#[trigger] fl[i]) by { nl_dec(x.formats@[i] as int); assert(fl[i] == x.formats@[i].disp()); } nl_lists("pt="@, fl, ","@); nl_join(strs(x.depends@), ","@);
    let w = rid_items(x); assert(nls(w)); nl_nelist(w); nl_join(nelist(w), ";"@);
}
// ---- fmtp
proof fn nb_fm_inv(v: Seq<Str>, n: int) requires nls(v), 0 <= n <= v.len(), fmtp_fold(v, n) is Some ensures nls(fmtp_fold(v, n)->Some_0.unknown) decreases n {
    if n > 0 {
        if fmtp_fold(v, n - 1) is None { lemma_fmtp_none(v, n - 1, n); } nb_fm_inv(v, n - 1); let e = fmtp_fold(v, n - 1)->Some_0; let f = fmtp_fold(v, n)->Some_0; let s = v[n - 1]; assert(nl(s)); assert(fmtp_step(e, s) == Some(f)); reveal(fmtp_step);
        assert forall|i: int| 0 <= i < f.unknown.len() implies nl(#[trigger] f.unknown[i]) by { if i < e.unknown.len() { assert(f.unknown[i] == e.unknown[i]); } else { assert(f.unknown[i] == s); } }
    }
}
proof fn nl_opt8(p: Str, x: Option<u8>) requires nl(p) ensures nl(opt_str(p, x, none())) { broadcast use nl_add; nl_lits(); match x { Some(n) => nl_dec(n as int), None => {} } }
proof fn nl_bool(p: Str, v: bool) requires nl(p) ensures nl(bool_str(p, v, false)) { broadcast use nl_add; nl_lits(); nl_dec(0); nl_dec(1); }
proof fn nb_item_a(p: SdpAttributeFmtpParameters, k: int) requires 0 <= k <= 5, p.profile_level_id <= 0xff_ffff ensures nl(fmtp_item(p, k)) {
    reveal(fmtp_item); nl_lits(); broadcast use nl_add;
    if k == 0 { reveal_strlit("apt="); reveal_strlit(";rtx-time="); assert(nl("apt="@) && nl(";rtx-time="@)); match p.rtx { Some(r) => { nl_dec(r.apt as int); match r.rtx_time { Some(n) => nl_dec(n as int), None => {} } }, None => {} } }
    else if k == 1 { reveal_strlit("profile-level-id="); assert(nl("profile-level-id="@)); nl_hex(p.profile_level_id); }
    else if k == 2 { reveal_strlit("level-asymmetry-allowed"); nl_bool("level-asymmetry-allowed"@, p.level_asymmetry_allowed); }
    else if k == 3 { reveal_strlit("packetization-mode="); nl_num("packetization-mode="@, p.packetization_mode as int, 0); }
    else if k == 4 { reveal_strlit("max-fs="); nl_num("max-fs="@, p.max_fs as int, 0); }
    else { reveal_strlit("max-cpb="); nl_num("max-cpb="@, p.max_cpb as int, 0); }
}
proof fn nb_item_b(p: SdpAttributeFmtpParameters, k: int) requires 6 <= k <= 12 ensures nl(fmtp_item(p, k)) {
    reveal(fmtp_item); nl_lits();
    if k == 6 { reveal_strlit("max-dpb="); nl_num("max-dpb="@, p.max_dpb as int, 0); }
    else if k == 7 { reveal_strlit("max-br="); nl_num("max-br="@, p.max_br as int, 0); }
    else if k == 8 { reveal_strlit("max-mbps="); nl_num("max-mbps="@, p.max_mbps as int, 0); }
    else if k == 9 { reveal_strlit("max-fr="); nl_num("max-fr="@, p.max_fr as int, 0); }
    else if k == 10 { reveal_strlit("profile="); nl_opt8("profile="@, p.profile); }
    else if k == 11 { reveal_strlit("level-idx="); nl_opt8("level-idx="@, p.level_idx); }
    else { reveal_strlit("tier="); nl_opt8("tier="@, p.tier); }
}
proof fn nb_item_c(p: SdpAttributeFmtpParameters, k: int) requires 13 <= k <= 22, nls(strs(p.unknown_tokens@)) ensures nl(fmtp_item(p, k)) {
    reveal(fmtp_item); nl_lits();
    if k == 13 { reveal_strlit("maxplaybackrate="); nl_num("maxplaybackrate="@, p.maxplaybackrate as int, 48000); }
    else if k == 14 { reveal_strlit("maxaveragebitrate="); nl_num("maxaveragebitrate="@, p.maxaveragebitrate as int, 0); }
    else if k == 15 { reveal_strlit("ptime="); nl_num("ptime="@, p.ptime as int, 0); }
    else if k == 16 { reveal_strlit("minptime="); nl_num("minptime="@, p.minptime as int, 0); }
    else if k == 17 { reveal_strlit("maxptime="); nl_num("maxptime="@, p.maxptime as int, 0); }
    else if k == 18 { reveal_strlit("usedtx"); nl_bool("usedtx"@, p.usedtx); }
    else if k == 19 { reveal_strlit("stereo"); nl_bool("stereo"@, p.stereo); }
    else if k == 20 { reveal_strlit("useinbandfec"); nl_bool("useinbandfec"@, p.useinbandfec); }
    else if k == 21 { reveal_strlit("cbr"); nl_bool("cbr"@, p.cbr); }
    else { nl_lists(none(), strs(p.unknown_tokens@), ";"@); }
}
proof fn nl_hex(n: u32) requires n <= 0xff_ffff ensures nl(hex_lower(n as int, 6)) {
    reveal(hex_lower); reveal_with_fuel(pow16, 7); rt_hexpad(n as int, 6, false); let s = hex_lower(n as int, 6); assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '\n' by { assert(hexd(s[i]) >= 0); }
}
proof fn nb_fmtp(v: Str, x: SdpAttributeFmtp) requires fmtp_ok(splitn_char(2, v, ' ')), fmtp_is(splitn_char(2, v, ' '), x), nl(v) ensures nl(fmtp_str(x)) {
    nl_lits(); broadcast use nl_add; let t = splitn_char(2, v, ' '); nl_splitn(2, v, ' '); let s = t[1]; assert(nl(s)); let p = x.parameters; let fv = fmtp_v(p); nl_dec(x.payload_type as int); reveal_strlit("0-15"); reveal_strlit("");
    let d = disps(p.encodings@); assert forall|i: int| 0 <= i < d.len() implies nl(#[trigger] d[i]) by { nl_dec(p.encodings@[i] as int); assert(d[i] == p.encodings@[i].disp()); } nl_join(d, "/"@);
    assert(nl(p.dtmf_tones@)) by { assert(p.dtmf_tones@ == fv.dtmf_tones); if s.contains('=') { let ps = nonempty(split_char(s, ';')); rt_split_nocs(s, ';'); rt_nonempty_nocs(split_char(s, ';'), ';'); rt_fm_inv(ps, ps.len() as int); } }
    assert(nls(fv.unknown) && fv.profile_level_id <= 0xff_ffff) by { if s.contains('=') { let ps = nonempty(split_char(s, ';')); rt_split_nocs(s, ';'); rt_nonempty_nocs(split_char(s, ';'), ';'); rt_fm_inv(ps, ps.len() as int); nl_split(s, ';'); nl_filt(split_char(s, ';')); nb_fm_inv(ps, ps.len() as int); } }
    let w = fmtp_items(p); assert(nls(w)) by { assert forall|i: int| 0 <= i < w.len() implies nl(#[trigger] w[i]) by { if i <= 5 { nb_item_a(p, i); } else if i <= 12 { nb_item_b(p, i); } else { nb_item_c(p, i); } } } nl_nelist(w); nl_join(nelist(w), ";"@);
}
// ---- every kind of attribute
proof fn nl_body(a: SdpAttribute, v: Str) //# C10
    requires val_ok(kind(a), v), val_is(a, v), trimmed(v), !is_flag(kind(a)), !excluded(a), nl(v)
    ensures nl(body_str(a))
{
    match a {
        SdpAttribute::Candidate(x) => nb_cand(v, x), SdpAttribute::DtlsMessage(x) => rt_dtls(v, x), SdpAttribute::Extmap(x) => nb_extmap(v, x), SdpAttribute::Fingerprint(x) => nb_fingerprint(x), SdpAttribute::Fmtp(x) => nb_fmtp(v, x),
        SdpAttribute::FrameRate(x) => { ax_f64_print(x); nl_nows(f64_str(x)); }, SdpAttribute::Group(x) => nb_group(v, x), SdpAttribute::IceOptions(x) => nb_ice_options(v, x), SdpAttribute::IcePacing(x) => nl_dec(x as int),
        SdpAttribute::ImageAttr(x) => nb_imageattr(v, x), SdpAttribute::MaxMessageSize(x) => nl_dec(x as int), SdpAttribute::MaxPtime(x) => nl_dec(x as int), SdpAttribute::Msid(x) => nb_msid(v, x), SdpAttribute::MsidSemantic(x) => nb_msidsem(v, x),
        SdpAttribute::Ptime(x) => nl_dec(x as int), SdpAttribute::Rid(x) => nb_rid(v, x), SdpAttribute::RemoteCandidate(x) => nb_rcand(v, x), SdpAttribute::Rtpmap(x) => nb_rtpmap(v, x), SdpAttribute::Rtcp(x) => nb_rtcp(v, x), SdpAttribute::Rtcpfb(x) => nb_rtcpfb(v, x),
        SdpAttribute::Sctpmap(x) => nb_sctpmap(x), SdpAttribute::SctpPort(x) => nl_dec(x as int), SdpAttribute::Setup(x) => { rt_kw_setup(x); nl_small(setup_str(x)); }, SdpAttribute::Simulcast(x) => nb_simulcast(v, x), SdpAttribute::Ssrc(x) => nb_ssrc(v, x),
        SdpAttribute::SsrcGroup(m, l) => nb_ssrc_group(v, m, l), _ => {}
    }
}
// an attribute line: printed, it is accepted, means the same, and is one line
proof fn ls_attr(v: Str, a: SdpAttribute) //# C10
    requires attr_ok(v), attr_is(v, a), !excluded(a), nl(v), trimmed(v)
    ensures ({ let q = attr_str(a); attr_ok(q) && attr_is(q, a) && solid(q) && nl(q) })
{
    rt_attr(v, a); let q = attr_str(a); assert(!is_ws(q[0]) && !is_ws(q.last())) by { rt_text(q); }
    let w = attr_val(v); let k = kname(kind(a)); rt_kname(kind(a)); nl_small(k); lemma_split2(v, ':');
    nl_splitn(2, v, ':'); if v.contains(':') { nl_trim(splitn_char(2, v, ':')[1]); rt_trimmed_trim(splitn_char(2, v, ':')[1]); }
    if !is_flag(kind(a)) { nl_body(a, w); nl_lits(); broadcast use nl_add; }
}
