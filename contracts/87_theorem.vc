@note lemmas (C10): a session that was read from a text, printed and read again is the same session
@raw
spec fn lsames(a: Seq<SdpLine>, b: Seq<SdpLine>) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> same(a[i].sdp_type, b[i].sdp_type) }
spec fn attrs_same(a: Seq<SdpAttribute>, b: Seq<SdpAttribute>) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> attr_same(a[i], b[i]) }
proof fn wt_k3(a: SdpAttribute) ensures a is DtlsMessage <==> kind(a) == SdpAttributeType::DtlsMessage, a is Rid <==> kind(a) == SdpAttributeType::Rid, a is Simulcast <==> kind(a) == SdpAttributeType::Simulcast, session_ok(a) == session_kind(kind(a)), media_ok(a) == media_kind(kind(a)) {}
spec fn session_kind(t: SdpAttributeType) -> bool { !(t is BundleOnly || t is Candidate || t is Fmtp || t is FrameRate || t is IceMismatch || t is ImageAttr || t is Label || t is MaxMessageSize || t is MaxPtime || t is Mid || t is Msid || t is Ptime || t is Rid || t is RemoteCandidate || t is Rtpmap || t is Rtcp || t is Rtcpfb || t is RtcpMux || t is RtcpMuxOnly || t is RtcpRsize || t is Sctpmap || t is SctpPort || t is Simulcast || t is Ssrc || t is SsrcGroup) }
spec fn media_kind(t: SdpAttributeType) -> bool { !(t is DtlsMessage || t is Group || t is IceLite || t is IcePacing || t is Identity || t is MsidSemantic) }
proof fn wt_kind(a: SdpAttribute, b: SdpAttribute) requires attr_same(a, b) ensures kind(a) == kind(b), a is DtlsMessage <==> b is DtlsMessage, a is Rid <==> b is Rid, a is Simulcast <==> b is Simulcast, session_ok(a) == session_ok(b), media_ok(a) == media_ok(b) { hide(val_is); hide(kind); hide(session_ok); hide(media_ok); wt_k3(a); wt_k3(b); }
proof fn wt_push(a: Seq<SdpAttribute>, b: Seq<SdpAttribute>, x: SdpAttribute, y: SdpAttribute) requires attrs_same(a, b), attr_same(x, y) ensures attrs_same(a.push(x), b.push(y)) {
    let p = a.push(x); let q = b.push(y); assert forall|i: int| #![trigger p[i]] #![trigger q[i]] 0 <= i < p.len() implies attr_same(p[i], q[i]) by { if i < a.len() { assert(p[i] == a[i]); assert(q[i] == b[i]); } }
}
proof fn wt_sub(a: Seq<SdpLine>, b: Seq<SdpLine>, i: int, j: int) requires lsames(a, b), 0 <= i <= j <= a.len() ensures lsames(a.subrange(i, j), b.subrange(i, j)) {
    let p = a.subrange(i, j); let q = b.subrange(i, j); assert forall|k: int| #![trigger p[k]] #![trigger q[k]] 0 <= k < p.len() implies same(p[k].sdp_type, q[k].sdp_type) by { assert(p[k] == a[i + k]); assert(q[k] == b[i + k]); }
}
proof fn wt_last(a: Seq<SdpLine>, b: Seq<SdpLine>) requires lsames(a, b), a.len() > 0 ensures lsames(a.drop_last(), b.drop_last()), same(a.last().sdp_type, b.last().sdp_type) {
    wt_sub(a, b, 0, a.len() - 1); assert(a.drop_last() =~= a.subrange(0, a.len() - 1)); assert(b.drop_last() =~= b.subrange(0, a.len() - 1)); assert(a[a.len() - 1] == a.last()); assert(b[a.len() - 1] == b.last());
}
proof fn wt_parts(a: Seq<SdpLine>, b: Seq<SdpLine>) requires lsames(a, b) ensures attrs_same(attrs_of(a), attrs_of(b)), attrs_same(mattrs_of(a), mattrs_of(b)), bws_of(a) == bws_of(b), last_conn(a) == last_conn(b), last_timing(a) == last_timing(b) decreases a.len() {
    if a.len() > 0 {
        wt_last(a, b); let (p, q) = (a.drop_last(), b.drop_last()); wt_parts(p, q);
        match (a.last().sdp_type, b.last().sdp_type) { (SdpType::Attribute(x), SdpType::Attribute(y)) => { wt_kind(x, y); wt_push(attrs_of(p), attrs_of(q), x, y); wt_push(mattrs_of(p), mattrs_of(q), x, y); }, _ => {} }
    }
}
spec fn secs_same(a: Seq<Seq<SdpLine>>, b: Seq<Seq<SdpLine>>) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> lsames(a[i], b[i]) }
proof fn wt_lpush(a: Seq<SdpLine>, b: Seq<SdpLine>, x: SdpLine, y: SdpLine) requires lsames(a, b), same(x.sdp_type, y.sdp_type) ensures lsames(a.push(x), b.push(y)) {
    let p = a.push(x); let q = b.push(y); assert forall|i: int| #![trigger p[i]] #![trigger q[i]] 0 <= i < p.len() implies same(p[i].sdp_type, q[i].sdp_type) by { if i < a.len() { assert(p[i] == a[i]); assert(q[i] == b[i]); } }
}
proof fn wt_secs(a: Seq<SdpLine>, b: Seq<SdpLine>) requires lsames(a, b) ensures secs_same(sections(a), sections(b)) decreases a.len() {
    if a.len() > 0 {
        wt_last(a, b); let (x, y) = (a.last(), b.last()); wt_secs(a.drop_last(), b.drop_last()); let (p, q) = (sections(a.drop_last()), sections(b.drop_last())); let (v, w) = (sections(a), sections(b)); assert(is_media_line(x) <==> is_media_line(y));
        let e = Seq::<SdpLine>::empty(); wt_lpush(e, e, x, y); assert(e.push(x) =~= seq![x]); assert(e.push(y) =~= seq![y]);
        if p.len() > 0 { assert(p.last() == p[p.len() - 1] && q.last() == q[p.len() - 1]); assert(lsames(p[p.len() - 1], q[p.len() - 1])); wt_lpush(p.last(), q.last(), x, y); }
        assert forall|i: int| #![trigger v[i]] #![trigger w[i]] 0 <= i < v.len() implies lsames(v[i], w[i]) by { if i < v.len() - 1 { assert(v[i] == p[i]); assert(w[i] == q[i]); } }
    }
}
proof fn wt_mlines(a: Seq<SdpLine>, b: Seq<SdpLine>) requires lsames(a, b), mlines_ok(a) ensures mlines_ok(b) decreases a.len() {
    if a.len() == 1 { assert(same(a[0].sdp_type, b[0].sdp_type)); }
    else if a.len() > 1 {
        wt_last(a, b); let (c, d) = (a.drop_last(), b.drop_last()); wt_mlines(c, d); wt_secs(c, d); let (p, q) = (sections(c), sections(d)); lemma_sections(c); lemma_sections(d); assert(p.last() == p[p.len() - 1] && q.last() == q[p.len() - 1]); assert(lsames(p[p.len() - 1], q[p.len() - 1])); wt_parts(p.last(), q.last());
        match (a.last().sdp_type, b.last().sdp_type) { (SdpType::Attribute(x), SdpType::Attribute(y)) => { wt_kind(x, y); }, _ => {} }
    }
}
proof fn wt_head_ok(a: Seq<SdpLine>, b: Seq<SdpLine>) requires lsames(a, b), sess_lines_ok(a) ensures sess_lines_ok(b) {
    assert forall|i: int| 0 <= i < b.len() implies sess_line_ok(#[trigger] b[i]) by { assert(sess_line_ok(a[i])); match (a[i].sdp_type, b[i].sdp_type) { (SdpType::Attribute(x), SdpType::Attribute(y)) => { wt_kind(x, y); }, _ => {} } }
}
proof fn wt_pos(h: Seq<SdpLine>, m: Seq<SdpLine>) requires forall|i: int| 0 <= i < h.len() ==> !is_media_line(#[trigger] h[i]), m.len() > 0 ==> is_media_line(m[0]) ensures media_pos(h + m) == h.len() {
    let w = h + m; lemma_media_pos(w); let p = media_pos(w); if p < h.len() { assert(w[p] == h[p]); } if p > h.len() { assert(w[h.len() as int] == m[0]); }
}
// ---------------------------------------------------------------- consistency carries over
spec fn med_same(m: SdpMedia, n: SdpMedia) -> bool { mline_same(m.media, n.media) && attrs_same(m.attribute@, n.attribute@) && m.bandwidth@ == n.bandwidth@ && m.connection == n.connection }
spec fn meds_same(a: Seq<SdpMedia>, b: Seq<SdpMedia>) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> med_same(a[i], b[i]) }
spec fn sess_same(x: SdpSession, y: SdpSession) -> bool {
    x.version == y.version && x.origin == y.origin && x.session == y.session && x.timing == y.timing && x.connection == y.connection && x.bandwidth@ == y.bandwidth@ && attrs_same(x.attribute@, y.attribute@) && meds_same(x.media@, y.media@)
}
proof fn wt_has(a: Seq<SdpAttribute>, b: Seq<SdpAttribute>, t: SdpAttributeType) requires attrs_same(a, b) ensures has_kind(a, t) == has_kind(b, t) {
    reveal(has_kind); if has_kind(a, t) { let i = choose|i: int| 0 <= i < a.len() && kind(#[trigger] a[i]) == t; wt_kind(a[i], b[i]); assert(kind(b[i]) == t); } if has_kind(b, t) { let i = choose|i: int| 0 <= i < b.len() && kind(#[trigger] b[i]) == t; wt_kind(a[i], b[i]); assert(kind(a[i]) == t); }
}
proof fn wt_rid(a: SdpAttribute, b: SdpAttribute) requires attr_same(a, b), a is Rid ensures b is Rid, (a->Rid_0).id@ == (b->Rid_0).id@, (a->Rid_0).direction == (b->Rid_0).direction, (a->Rid_0).formats@ == (b->Rid_0).formats@ {
    wt_kind(a, b); let (x, y) = (a->Rid_0, b->Rid_0); let v = splitn_char(3, attr_val(attr_str(a)), ' '); assert(rid_is(v, x) && rid_is(v, y)); reveal_strlit("send"); reveal_strlit("recv"); assert("send"@[0] == 's' && "recv"@[0] == 'r');
    let (f, g) = (x.formats@, y.formats@); assert forall|i: int| 0 <= i < f.len() implies f[i] == g[i] by { assert(f[i] as int == uint_val(trim(ridv_fmts(v)[i]))); assert(g[i] as int == uint_val(trim(ridv_fmts(v)[i]))); } assert(f =~= g);
}
proof fn wt_listed(f: SdpFormatList, g: SdpFormatList, n: u16) requires fmts_same(f, g) ensures fmt_listed(f, n) == fmt_listed(g, n) {}
proof fn wt_rid_fmts(m: SdpMedia, n: SdpMedia) requires med_same(m, n), rid_fmts_ok(m) ensures rid_fmts_ok(n) {
    reveal(rid_fmts_ok); let (a, b) = (m.attribute@, n.attribute@);
    assert forall|i: int, j: int| #![trigger (b[i]->Rid_0).formats@[j]] 0 <= i < b.len() && b[i] is Rid && 0 <= j < (b[i]->Rid_0).formats@.len() implies fmt_listed(n.media.formats, (b[i]->Rid_0).formats@[j]) by { assert(attr_same(a[i], b[i])); wt_kind(a[i], b[i]); wt_rid(a[i], b[i]); let z = (a[i]->Rid_0).formats@[j]; wt_listed(m.media.formats, n.media.formats, z); }
}
proof fn wt_declared(a: Seq<SdpAttribute>, b: Seq<SdpAttribute>, id: Str, send: bool) requires attrs_same(a, b), rid_declared(a, id, send) ensures rid_declared(b, id, send) {
    reveal(rid_declared); let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]) is Rid && (a[i]->Rid_0).id@ == id && is_send((a[i]->Rid_0).direction) == send; wt_rid(a[i], b[i]); assert(b[i] is Rid);
}
// two readings of one simulcast list have the same identifiers
spec fn vers_same(l: Seq<SdpAttributeSimulcastVersion>, k: Seq<SdpAttributeSimulcastVersion>) -> bool { l.len() == k.len() && forall|i: int| #![trigger l[i]] #![trigger k[i]] 0 <= i < l.len() ==> l[i].ids@.len() == k[i].ids@.len() && forall|j: int| #![trigger l[i].ids@[j]] #![trigger k[i].ids@[j]] 0 <= j < l[i].ids@.len() ==> l[i].ids@[j].id@ == k[i].ids@[j].id@ }
proof fn wt_svers(s: Str, l: Seq<SdpAttributeSimulcastVersion>, k: Seq<SdpAttributeSimulcastVersion>) requires svers_are(s, l), svers_are(s, k) ensures vers_same(l, k) {
    let p = split_char(s, ';');
    assert forall|i: int| #![trigger l[i]] #![trigger k[i]] 0 <= i < l.len() implies l[i].ids@.len() == k[i].ids@.len() && forall|j: int| #![trigger l[i].ids@[j]] #![trigger k[i].ids@[j]] 0 <= j < l[i].ids@.len() ==> l[i].ids@[j].id@ == k[i].ids@[j].id@ by {
        assert(sver_is(p[i], l[i]) && sver_is(p[i], k[i])); let q = split_char(p[i], ',');
        assert forall|j: int| #![trigger l[i].ids@[j]] #![trigger k[i].ids@[j]] 0 <= j < l[i].ids@.len() implies l[i].ids@[j].id@ == k[i].ids@[j].id@ by { assert(sid_is(q[j], l[i].ids@[j]) && sid_is(q[j], k[i].ids@[j])); }
    }
}
proof fn wt_simulcast(a: SdpAttribute, b: SdpAttribute) requires attr_same(a, b), a is Simulcast ensures b is Simulcast, vers_same((a->Simulcast_0).send@, (b->Simulcast_0).send@), vers_same((a->Simulcast_0).receive@, (b->Simulcast_0).receive@) {
    wt_kind(a, b); let (x, y) = (a->Simulcast_0, b->Simulcast_0); let t = split_ws(attr_val(attr_str(a))); assert(simulcast_is(t, x) && simulcast_is(t, y)); let p = slist_body(t[1]); let q = slist_body(t[3]);
    let (xa, xb) = if t[0] == "send"@ { (x.send@, x.receive@) } else { (x.receive@, x.send@) }; let (ya, yb) = if t[0] == "send"@ { (y.send@, y.receive@) } else { (y.receive@, y.send@) }; wt_svers(p, xa, ya); if t.len() > 2 { wt_svers(q, xb, yb); }
}
proof fn wt_vers(a: Seq<SdpAttribute>, b: Seq<SdpAttribute>, l: Seq<SdpAttributeSimulcastVersion>, k: Seq<SdpAttributeSimulcastVersion>, send: bool) requires attrs_same(a, b), vers_same(l, k), vers_ok(a, l, send) ensures vers_ok(b, k, send) {
    reveal(vers_ok); assert forall|i: int, j: int| #![trigger k[i].ids@[j]] 0 <= i < k.len() && 0 <= j < k[i].ids@.len() implies rid_declared(b, k[i].ids@[j].id@, send) by { assert(l[i].ids@.len() == k[i].ids@.len()); assert(rid_declared(a, l[i].ids@[j].id@, send)); wt_declared(a, b, l[i].ids@[j].id@, send); }
}
proof fn wt_sim(a: Seq<SdpAttribute>, b: Seq<SdpAttribute>) requires attrs_same(a, b), sim_ok(a) ensures sim_ok(b) {
    reveal(sim_ok);
    assert forall|k: int| #![trigger b[k]] 0 <= k < b.len() && b[k] is Simulcast && (forall|j: int| 0 <= j < k ==> !(#[trigger] b[j] is Simulcast)) implies vers_ok(b, (b[k]->Simulcast_0).send@, true) && vers_ok(b, (b[k]->Simulcast_0).receive@, false) by {
        wt_kind(a[k], b[k]); assert forall|j: int| 0 <= j < k implies !(#[trigger] a[j] is Simulcast) by { wt_kind(a[j], b[j]); assert(!(b[j] is Simulcast)); } wt_simulcast(a[k], b[k]);
        wt_vers(a, b, (a[k]->Simulcast_0).send@, (b[k]->Simulcast_0).send@, true); wt_vers(a, b, (a[k]->Simulcast_0).receive@, (b[k]->Simulcast_0).receive@, false);
    }
}
proof fn wt_sane(x: SdpSession, y: SdpSession) requires sess_same(x, y), sane(x) ensures sane(y) {
    wt_has(x.attribute@, y.attribute@, SdpAttributeType::Extmap); let (p, q) = (x.media@, y.media@);
    assert(conn_sane(y.connection, q)) by { reveal(conn_sane); assert forall|i: int| y.connection is None && 0 <= i < q.len() implies (#[trigger] q[i]).connection is Some by { assert(med_same(p[i], q[i])); } }
    assert(extmap_sane(y)) by { assert forall|i: int| has_kind(y.attribute@, SdpAttributeType::Extmap) && 0 <= i < q.len() implies !has_kind((#[trigger] q[i]).attribute@, SdpAttributeType::Extmap) by { assert(med_same(p[i], q[i])); assert(!has_kind(p[i].attribute@, SdpAttributeType::Extmap)); wt_has(p[i].attribute@, q[i].attribute@, SdpAttributeType::Extmap); } }
    assert forall|i: int| 0 <= i < q.len() implies media_sane(#[trigger] q[i]) by { let (m, n) = (p[i], q[i]); assert(med_same(m, n)); assert(media_sane(m)); wt_has(m.attribute@, n.attribute@, SdpAttributeType::RtcpMux); wt_has(m.attribute@, n.attribute@, SdpAttributeType::RtcpMuxOnly); wt_rid_fmts(m, n); wt_sim(m.attribute@, n.attribute@); }
}
// ---------------------------------------------------------------- the theorem
spec fn session_plain(x: SdpSession) -> bool { plain(x.attribute@) && plains(x.media@) }
// lines of which the body reads as the body of x
proof fn ww_body(x: SdpSession, g: Seq<SdpLine>)
    requires g.len() == 3 + l_body(x).len(), lsames(l_body(x), g.skip(3)) ensures lsames(l_head(x), head_of(g)), lsames(l_meds(x.media@), media_of(g))
{
    let b = g.skip(3); let (h, m) = (l_head(x), l_meds(x.media@)); let w = h + m; wb_nomedia(x); wb_secs(x.media@); wt_pos(h, m);
    lemma_media_pos(b); let n = h.len() as int; assert(same(w[0].sdp_type, b[0].sdp_type) || w.len() == 0);
    assert(media_pos(b) == n) by { let p = media_pos(b); if p < n { assert(same(w[p].sdp_type, b[p].sdp_type)); assert(w[p] == h[p]); } if p > n { assert(same(w[n].sdp_type, b[n].sdp_type)); assert(w[n] == m[0]); } }
    wt_sub(w, b, 0, n); wt_sub(w, b, n, w.len() as int); assert(w.subrange(0, n) =~= h); assert(w.subrange(n, w.len() as int) =~= m); assert(head_of(g) =~= b.subrange(0, n)); assert(media_of(g) =~= b.subrange(n, w.len() as int));
}
proof fn ww_ok(x: SdpSession, g: Seq<SdpLine>)
    requires sane(x), all_session_ok(x.attribute@), levels_ok(x.media@), g.len() == 3 + l_body(x).len(), lsames(l_body(x), g.skip(3)), g[0].sdp_type is Version, g[1].sdp_type is Origin, g[2].sdp_type is Session
    ensures lines_ok(g)
{
    ww_body(x, g); wb_head_ok(x); wt_head_ok(l_head(x), head_of(g)); wb_meds_ok(x.media@); wt_mlines(l_meds(x.media@), media_of(g)); assert(l_t(x.timing).len() == 1); assert(l_head(x).len() >= 1);
}
proof fn ww_same(x: SdpSession, y: SdpSession, g: Seq<SdpLine>)
    requires src_session(x), g.len() == 3 + l_body(x).len(), lsames(l_body(x), g.skip(3)), built(y, g), y.version == 0, y.origin == x.origin, y.session == x.session
    ensures sess_same(x, y)
{
    ww_body(x, g); wb_head(x); wt_parts(l_head(x), head_of(g)); wb_secs(x.media@); wt_secs(l_meds(x.media@), media_of(g)); let (s, q) = (l_secs(x.media@), sections(media_of(g)));
    let (u, v) = (x.media@, y.media@); assert(u.len() == v.len());
    assert forall|i: int| #![trigger u[i]] #![trigger v[i]] 0 <= i < u.len() implies med_same(u[i], v[i]) by { assert(sec_is(v[i], q[i])); assert(lsames(s[i], q[i])); let w = l_med(u[i]); assert(s[i] == w); assert(src_media(u[i])); wb_med(u[i]); wt_parts(w, q[i]); let h = seq![mk(SdpType::Media(u[i].media))]; assert(w[0] == h[0]); assert(same(w[0].sdp_type, q[i][0].sdp_type)); }
}
// every body line is one of the parts
proof fn ww_head_src(x: SdpSession) requires src_session(x), plain(x.attribute@) ensures forall|i: int| 0 <= i < l_head(x).len() ==> src_type((#[trigger] l_head(x)[i]).sdp_type) && !excl_line(l_head(x)[i].sdp_type) {
    let s = l_head(x); assert forall|i: int| 0 <= i < s.len() implies src_type((#[trigger] s[i]).sdp_type) && !excl_line(s[i].sdp_type) by {
        let (t, b, c, a) = (l_t(x.timing), l_bs(x.bandwidth@), l_c(x.connection), l_as(x.attribute@)); let k = t.len(); let n = k + b.len(); let m = n + c.len();
        if i < k { assert(s[i] == t[i]); } else if i < n { assert(s[i] == b[i - k]); assert(src_bw(x.bandwidth@[i - k])); } else if i < m { assert(s[i] == c[i - n]); } else { assert(s[i] == a[i - m]); assert(src_attr(x.attribute@[i - m]) && !excluded(x.attribute@[i - m])); } }
}
proof fn ww_med_src(m: SdpMedia) requires src_media(m), plain(m.attribute@) ensures forall|i: int| 0 <= i < l_med(m).len() ==> src_type((#[trigger] l_med(m)[i]).sdp_type) && !excl_line(l_med(m)[i].sdp_type) {
    let s = l_med(m); let h = seq![mk(SdpType::Media(m.media))]; assert forall|i: int| 0 <= i < s.len() implies src_type((#[trigger] s[i]).sdp_type) && !excl_line(s[i].sdp_type) by {
        let (b, c, a) = (l_bs(m.bandwidth@), l_c(m.connection), l_as(m.attribute@)); let n = 1 + b.len(); let k = n + c.len();
        if i < 1 { assert(s[i] == h[i]); } else if i < n { assert(s[i] == b[i - 1]); assert(src_bw(m.bandwidth@[i - 1])); } else if i < k { assert(s[i] == c[i - n]); } else { assert(s[i] == a[i - k]); assert(src_attr(m.attribute@[i - k]) && !excluded(m.attribute@[i - k])); } }
}
proof fn ww_meds_src(v: Seq<SdpMedia>) requires src_medias(v), plains(v) ensures forall|i: int| 0 <= i < l_meds(v).len() ==> src_type((#[trigger] l_meds(v)[i]).sdp_type) && !excl_line(l_meds(v)[i].sdp_type) decreases v.len() {
    if v.len() > 0 {
        let d = v.drop_last(); let m = v.last(); assert(v[v.len() - 1] == m); assert forall|i: int| 0 <= i < d.len() implies src_media(#[trigger] d[i]) by { assert(d[i] == v[i]); } assert forall|i: int| 0 <= i < d.len() implies plain((#[trigger] d[i]).attribute@) by { assert(d[i] == v[i]); } ww_meds_src(d); ww_med_src(m);
        let s = l_meds(v); let n = l_meds(d).len(); assert forall|i: int| 0 <= i < s.len() implies src_type((#[trigger] s[i]).sdp_type) && !excl_line(s[i].sdp_type) by { if i < n { assert(s[i] == l_meds(d)[i]); } else { assert(s[i] == l_med(m)[i - n]); } }
    }
}
proof fn ww_texts(x: SdpSession) requires src_session(x), session_plain(x)
    ensures nls(all_texts(x)), oks(all_texts(x)), forall|g: Seq<SdpLine>| #[trigger] reads(all_texts(x), g) ==> g.len() == 3 + l_body(x).len() && lsames(l_body(x), g.skip(3)) && g[0].sdp_type is Version && g[1].sdp_type == SdpType::Origin(x.origin) && g[2].sdp_type is Session && forall|m: Option<String>| #[trigger] name_is(m, ((g[2].sdp_type)->Session_0)@) ==> m == x.session
{
    let t = all_texts(x); let b = l_body(x); ww_head_src(x); ww_meds_src(x.media@); wl_v(); wl_o(x.origin); wl_s(x.session); let n = l_head(x).len(); let f = seq!["v="@ + dec(0), "o="@ + origin_str(x.origin), "s="@ + name_str(x.session)];
    assert forall|i: int| 0 <= i < b.len() implies back(bt(#[trigger] b[i].sdp_type), b[i].sdp_type) by { if i < n { assert(b[i] == l_head(x)[i]); } else { assert(b[i] == l_meds(x.media@)[i - n]); } wl_line(b[i].sdp_type); }
    assert forall|i: int| 0 <= i < t.len() implies nl(#[trigger] t[i]) && line_ok(t[i]) && !blank(t[i]) by { if i < 3 { assert(t[i] == f[i]); } else { assert(t[i] == bt(b[i - 3].sdp_type)); assert(back(bt(b[i - 3].sdp_type), b[i - 3].sdp_type)); } }
    assert forall|g: Seq<SdpLine>| #[trigger] reads(t, g) implies g.len() == 3 + b.len() && lsames(b, g.skip(3)) && g[0].sdp_type is Version && g[1].sdp_type == SdpType::Origin(x.origin) && g[2].sdp_type is Session && forall|m: Option<String>| #[trigger] name_is(m, ((g[2].sdp_type)->Session_0)@) ==> m == x.session by {
        assert(t[0] == f[0] && t[1] == f[1] && t[2] == f[2]); assert(line_means(t[0], g[0].sdp_type)); assert(line_means(t[1], g[1].sdp_type)); assert(line_means(t[2], g[2].sdp_type)); let q = g.skip(3);
        assert forall|i: int| #![trigger b[i]] #![trigger q[i]] 0 <= i < b.len() implies same(b[i].sdp_type, q[i].sdp_type) by { assert(q[i] == g[i + 3]); assert(t[i + 3] == bt(b[i].sdp_type)); assert(line_means(t[i + 3], g[i + 3].sdp_type)); assert(back(bt(b[i].sdp_type), b[i].sdp_type)); }
    }
}
// where a session that was read comes from
proof fn ww_read(s0: Str, rs: Seq<LineRes>, strict: bool, x: SdpSession)
    requires outcomes(lines_of(s0), rs), policy(lines_of(s0), rs, strict, Ok::<SdpSession, SdpParserError>(x)) ensures src_session(x), sane(x), all_session_ok(x.attribute@), levels_ok(x.media@)
{ let ls = lines_of(s0); ws_lines_nl(s0); ws_goods(ls, rs); let g = goods(ls, rs); assert(built(x, g) && lines_ok(g)); ws_source(x, g); lemma_levels(x, g); }
// a session that was read, without the excluded attributes, is printed as a text that every reading accepts, with the same content and without warnings
proof fn ww_session(s0: Str, rs0: Seq<LineRes>, strict0: bool, x: SdpSession, rs: Seq<LineRes>, strict: bool, r: Result<SdpSession, SdpParserError>) //# C10
    requires
        outcomes(lines_of(s0), rs0), policy(lines_of(s0), rs0, strict0, Ok::<SdpSession, SdpParserError>(x)), session_plain(x),
        outcomes(lines_of(session_str(x)), rs), policy(lines_of(session_str(x)), rs, strict, r),
    ensures r is Ok && sess_same(x, r->Ok_0) && (r->Ok_0).warnings@.len() == 0, //# C10
{
    ww_read(s0, rs0, strict0, x); wp_session(x); ww_texts(x); ws_lines_cat(all_texts(x)); let ls = all_texts(x); assert(lines_of(session_str(x)) == ls); ws_all_good(ls, rs); let g = goods(ls, rs); assert(reads(ls, g));
    ww_ok(x, g);
    assert forall|y: SdpSession| #[trigger] built(y, g) implies sess_same(x, y) && sane(y) by {
        assert(line_means(ls[0], g[0].sdp_type)); match g[2].sdp_type { SdpType::Session(z) => { assert(name_is(y.session, z@)); }, _ => {} } assert(y.origin == x.origin); ww_same(x, y, g); wt_sane(x, y);
    }
}
