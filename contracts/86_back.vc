@note lemmas (C10): collecting the attributes, bandwidths, connections, timing and sections of printed lines
@raw
proof fn wb_drop(s: Seq<SdpLine>, l: SdpLine) ensures s.push(l).drop_last() == s, s.push(l).last() == l { assert(s.push(l).drop_last() =~= s); }
proof fn wb_as(s: Seq<SdpLine>, v: Seq<SdpAttribute>)
    ensures ({ let w = s + l_as(v); attrs_of(w) == attrs_of(s) + v && (no_dtls(v) ==> mattrs_of(w) == mattrs_of(s) + v) && bws_of(w) == bws_of(s) && last_conn(w) == last_conn(s) && last_timing(w) == last_timing(s) })
    decreases v.len()
{
    if v.len() > 0 {
        let d = v.drop_last(); let l = mk(SdpType::Attribute(v.last())); wb_as(s, d); wb_drop(s + l_as(d), l); assert(l_as(v) =~= l_as(d).push(l)); assert(s + l_as(v) =~= (s + l_as(d)).push(l)); assert(attrs_of(s) + v =~= (attrs_of(s) + d).push(v.last()));
        if no_dtls(v) { assert(no_dtls(d)) by { assert forall|i: int| 0 <= i < d.len() implies !((#[trigger] d[i]) is DtlsMessage) by { assert(d[i] == v[i]); } } assert(!(v[v.len() - 1] is DtlsMessage)); assert(mattrs_of(s) + v =~= (mattrs_of(s) + d).push(v.last())); }
    } else { assert(l_as(v) =~= Seq::<SdpLine>::empty()); assert(s + l_as(v) =~= s); assert(attrs_of(s) + v =~= attrs_of(s)); assert(mattrs_of(s) + v =~= mattrs_of(s)); }
}
proof fn wb_bs(s: Seq<SdpLine>, v: Seq<SdpBandwidth>)
    ensures ({ let w = s + l_bs(v); attrs_of(w) == attrs_of(s) && mattrs_of(w) == mattrs_of(s) && bws_of(w) == bws_of(s) + v && last_conn(w) == last_conn(s) && last_timing(w) == last_timing(s) })
    decreases v.len()
{
    if v.len() > 0 {
        let d = v.drop_last(); let l = mk(SdpType::Bandwidth(v.last())); wb_bs(s, d); wb_drop(s + l_bs(d), l); assert(l_bs(v) =~= l_bs(d).push(l)); assert(s + l_bs(v) =~= (s + l_bs(d)).push(l)); assert(bws_of(s) + v =~= (bws_of(s) + d).push(v.last()));
    } else { assert(l_bs(v) =~= Seq::<SdpLine>::empty()); assert(s + l_bs(v) =~= s); assert(bws_of(s) + v =~= bws_of(s)); }
}
proof fn wb_c(s: Seq<SdpLine>, c: Option<SdpConnection>)
    ensures ({ let w = s + l_c(c); attrs_of(w) == attrs_of(s) && mattrs_of(w) == mattrs_of(s) && bws_of(w) == bws_of(s) && last_conn(w) == (if c is Some { c } else { last_conn(s) }) && last_timing(w) == last_timing(s) })
{ match c { Some(x) => { let l = mk(SdpType::Connection(x)); wb_drop(s, l); assert(s + l_c(c) =~= s.push(l)); }, None => { assert(s + l_c(c) =~= s); } } }
proof fn wb_head(x: SdpSession)
    ensures ({ let w = l_head(x); attrs_of(w) == x.attribute@ && bws_of(w) == x.bandwidth@ && last_conn(w) == x.connection && last_timing(w) == x.timing })
{
    let e = Seq::<SdpLine>::empty(); assert(attrs_of(e) == Seq::<SdpAttribute>::empty() && mattrs_of(e) == Seq::<SdpAttribute>::empty() && bws_of(e) == Seq::<SdpBandwidth>::empty() && last_conn(e) is None && last_timing(e) is None); let t = l_t(x.timing); match x.timing { Some(y) => { let l = mk(SdpType::Timing(y)); wb_drop(e, l); assert(t =~= e.push(l)); }, None => { assert(t =~= e); } }
    assert(attrs_of(t) =~= Seq::<SdpAttribute>::empty() && bws_of(t) =~= Seq::<SdpBandwidth>::empty() && last_conn(t) is None && last_timing(t) == x.timing);
    wb_bs(t, x.bandwidth@); wb_c(t + l_bs(x.bandwidth@), x.connection); wb_as(t + l_bs(x.bandwidth@) + l_c(x.connection), x.attribute@);
    assert(Seq::<SdpAttribute>::empty() + x.attribute@ =~= x.attribute@); assert(Seq::<SdpBandwidth>::empty() + x.bandwidth@ =~= x.bandwidth@);
}
proof fn wb_med(m: SdpMedia) requires no_dtls(m.attribute@)
    ensures ({ let w = l_med(m); mattrs_of(w) == m.attribute@ && bws_of(w) == m.bandwidth@ && last_conn(w) == m.connection })
{
    let e = Seq::<SdpLine>::empty(); assert(attrs_of(e) == Seq::<SdpAttribute>::empty() && mattrs_of(e) == Seq::<SdpAttribute>::empty() && bws_of(e) == Seq::<SdpBandwidth>::empty() && last_conn(e) is None && last_timing(e) is None); let l = mk(SdpType::Media(m.media)); let t = seq![l]; wb_drop(e, l); assert(t =~= e.push(l));
    assert(mattrs_of(t) =~= Seq::<SdpAttribute>::empty() && bws_of(t) =~= Seq::<SdpBandwidth>::empty() && last_conn(t) is None);
    wb_bs(t, m.bandwidth@); wb_c(t + l_bs(m.bandwidth@), m.connection); wb_as(t + l_bs(m.bandwidth@) + l_c(m.connection), m.attribute@);
    assert(Seq::<SdpAttribute>::empty() + m.attribute@ =~= m.attribute@); assert(Seq::<SdpBandwidth>::empty() + m.bandwidth@ =~= m.bandwidth@);
}
// ---------------------------------------------------------------- sections
spec fn one_sec(s: Seq<SdpLine>) -> bool { s.len() > 0 && is_media_line(s[0]) && forall|i: int| 1 <= i < s.len() ==> !is_media_line(#[trigger] s[i]) }
proof fn wb_sec(a: Seq<SdpLine>, s: Seq<SdpLine>) requires one_sec(s) ensures sections(a + s) == sections(a).push(s) decreases s.len() {
    let l = s.last(); let d = s.drop_last(); let w = a + s; assert(w =~= (a + d).push(l)); wb_drop(a + d, l);
    if s.len() == 1 { assert(a + d =~= a); assert(s =~= seq![l]); assert(is_media_line(s[0])); }
    else {
        assert(!is_media_line(s[s.len() - 1])); assert(one_sec(d)) by { assert(d[0] == s[0]); assert forall|i: int| 1 <= i < d.len() implies !is_media_line(#[trigger] d[i]) by { assert(d[i] == s[i]); } } wb_sec(a, d);
        let p = sections(a + d); assert(p.drop_last() =~= sections(a)); assert(p.last() == d); assert(d.push(l) =~= s);
    }
}
proof fn wb_one(m: SdpMedia) ensures one_sec(l_med(m)) { let s = l_med(m); let h = seq![mk(SdpType::Media(m.media))]; assert(s[0] == h[0]); assert forall|i: int| 1 <= i < s.len() implies !is_media_line(#[trigger] s[i]) by {
        let (b, c, a) = (l_bs(m.bandwidth@), l_c(m.connection), l_as(m.attribute@)); let n = 1 + b.len(); let k = n + c.len();
        if i < n { assert(s[i] == b[i - 1]); } else if i < k { assert(s[i] == c[i - n]); } else { assert(s[i] == a[i - k]); } } }
spec fn l_secs(v: Seq<SdpMedia>) -> Seq<Seq<SdpLine>> { Seq::new(v.len(), |i: int| l_med(v[i])) }
proof fn wb_secs(v: Seq<SdpMedia>) ensures sections(l_meds(v)) == l_secs(v), v.len() > 0 ==> l_meds(v).len() > 0 && is_media_line(l_meds(v)[0]), v.len() == 0 ==> l_meds(v).len() == 0 decreases v.len() {
    if v.len() > 0 {
        let d = v.drop_last(); wb_secs(d); wb_one(v.last()); wb_sec(l_meds(d), l_med(v.last())); assert(l_secs(v) =~= l_secs(d).push(l_med(v.last()))); let w = l_meds(v);
        if d.len() > 0 { assert(w[0] == l_meds(d)[0]); } else { assert(w =~= l_med(v.last())); }
    } else { assert(l_secs(v) =~= Seq::<Seq<SdpLine>>::empty()); }
}
// ---------------------------------------------------------------- the line order is acceptable
proof fn wb_head_ok(x: SdpSession) requires all_session_ok(x.attribute@) ensures sess_lines_ok(l_head(x)) {
    let s = l_head(x); assert forall|i: int| 0 <= i < s.len() implies sess_line_ok(#[trigger] s[i]) by {
        let (t, b, c, a) = (l_t(x.timing), l_bs(x.bandwidth@), l_c(x.connection), l_as(x.attribute@)); let k = t.len(); let n = k + b.len(); let m = n + c.len();
        if i < k { assert(s[i] == t[i]); } else if i < n { assert(s[i] == b[i - k]); } else if i < m { assert(s[i] == c[i - n]); } else { assert(s[i] == a[i - m]); assert(session_ok(x.attribute@[i - m])); } }
}
proof fn wb_nomedia(x: SdpSession) ensures forall|i: int| 0 <= i < l_head(x).len() ==> !is_media_line(#[trigger] l_head(x)[i]) {
    let s = l_head(x); assert forall|i: int| 0 <= i < s.len() implies !is_media_line(#[trigger] s[i]) by {
        let (t, b, c, a) = (l_t(x.timing), l_bs(x.bandwidth@), l_c(x.connection), l_as(x.attribute@)); let k = t.len(); let n = k + b.len(); let m = n + c.len();
        if i < k { assert(s[i] == t[i]); } else if i < n { assert(s[i] == b[i - k]); } else if i < m { assert(s[i] == c[i - n]); } else { assert(s[i] == a[i - m]); } }
}
// appending lines to acceptable media lines
proof fn wb_push(w: Seq<SdpLine>, l: SdpLine) requires w.len() == 0 ==> is_media_line(l), mlines_ok(w), w.len() > 0 ==> mline_ok(sections(w).last(), l) ensures mlines_ok(w.push(l)) { wb_drop(w, l); if w.len() == 0 { assert(w.push(l)[0] == l); } }
proof fn wb_sec_ok(w: Seq<SdpLine>, m: SdpMedia, k: int) requires mlines_ok(w), all_media_ok(m.attribute@), 0 <= k <= l_med(m).len() ensures mlines_ok(w + l_med(m).subrange(0, k)) decreases k {
    let s = l_med(m); let (b, c, a) = (l_bs(m.bandwidth@), l_c(m.connection), l_as(m.attribute@)); let n = 1 + b.len() as int; let z = n + c.len();
    if k == 0 { assert(w + s.subrange(0, 0) =~= w); }
    else {
        wb_sec_ok(w, m, k - 1); let p = s.subrange(0, k - 1); let l = s[k - 1]; assert(w + s.subrange(0, k) =~= (w + p).push(l)); wb_one(m); let i = k - 1;
        if i > 0 {
            assert(one_sec(p)) by { assert(p[0] == s[0]); assert forall|j: int| 1 <= j < p.len() implies !is_media_line(#[trigger] p[j]) by { assert(p[j] == s[j]); } } wb_sec(w, p); assert(sections(w + p).last() == p);
            if i < n { assert(l == b[i - 1]); } else if i < z {
                assert(l == c[i - n]); let h = seq![mk(SdpType::Media(m.media))]; assert(p =~= h + b); wb_bs(h, m.bandwidth@); let e = Seq::<SdpLine>::empty(); wb_drop(e, h[0]); assert(h =~= e.push(h[0])); assert(last_conn(e) is None); assert(last_conn(h) is None);
            } else { assert(l == a[i - z]); assert(media_ok(m.attribute@[i - z])); }
        } else if w.len() > 0 { assert(is_media_line(l)); }
        wb_push(w + p, l);
    }
}
spec fn levels_ok(v: Seq<SdpMedia>) -> bool { forall|i: int| 0 <= i < v.len() ==> all_media_ok((#[trigger] v[i]).attribute@) }
proof fn wb_meds_ok(v: Seq<SdpMedia>) requires levels_ok(v) ensures mlines_ok(l_meds(v)) decreases v.len() {
    if v.len() > 0 { let d = v.drop_last(); assert forall|i: int| 0 <= i < d.len() implies all_media_ok((#[trigger] d[i]).attribute@) by { assert(d[i] == v[i]); } wb_meds_ok(d); assert(v[v.len() - 1] == v.last()); let s = l_med(v.last()); wb_sec_ok(l_meds(d), v.last(), s.len() as int); assert(s.subrange(0, s.len() as int) =~= s); }
}
