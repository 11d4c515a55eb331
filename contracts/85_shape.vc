@note lemmas (C10): the lines of a printed session, put together again, give the parts that were printed
@raw
uninterp spec fn no_text() -> String;
spec fn mk(t: SdpType) -> SdpLine { SdpLine { line_number: 0, sdp_type: t, text: no_text() } }
spec fn l_as(v: Seq<SdpAttribute>) -> Seq<SdpLine> { Seq::new(v.len(), |i: int| mk(SdpType::Attribute(v[i]))) }
spec fn l_bs(v: Seq<SdpBandwidth>) -> Seq<SdpLine> { Seq::new(v.len(), |i: int| mk(SdpType::Bandwidth(v[i]))) }
spec fn l_c(c: Option<SdpConnection>) -> Seq<SdpLine> { match c { Some(x) => seq![mk(SdpType::Connection(x))], None => Seq::empty() } }
spec fn l_t(t: Option<SdpTiming>) -> Seq<SdpLine> { match t { Some(x) => seq![mk(SdpType::Timing(x))], None => Seq::empty() } }
// the lines of the session part and of a media section, in the order in which they are printed
spec fn l_head(x: SdpSession) -> Seq<SdpLine> { l_t(x.timing) + l_bs(x.bandwidth@) + l_c(x.connection) + l_as(x.attribute@) }
spec fn l_med(m: SdpMedia) -> Seq<SdpLine> { seq![mk(SdpType::Media(m.media))] + l_bs(m.bandwidth@) + l_c(m.connection) + l_as(m.attribute@) }
spec fn l_meds(v: Seq<SdpMedia>) -> Seq<SdpLine> decreases v.len() { if v.len() == 0 { Seq::empty() } else { l_meds(v.drop_last()) + l_med(v.last()) } }
spec fn btexts(g: Seq<SdpLine>) -> Seq<Str> { Seq::new(g.len(), |i: int| bt(g[i].sdp_type)) }
// ---------------------------------------------------------------- the text is these lines
proof fn wp_btexts_add(a: Seq<SdpLine>, b: Seq<SdpLine>) ensures btexts(a + b) == btexts(a) + btexts(b) { assert(btexts(a + b) =~= btexts(a) + btexts(b)); }
proof fn wp_cat1(s: Str) ensures cat(seq![s]) == s + crlf() { let v = seq![s]; assert(v.drop_first() =~= Seq::<Str>::empty()); assert(cat(v.drop_first()) =~= none()); assert(cat(v) =~= s + crlf()); }
spec fn pre_all(k: Str, v: Seq<Str>) -> Seq<Str> { Seq::new(v.len(), |i: int| k + v[i]) }
proof fn wp_join(k: Str, v: Seq<Str>) requires v.len() > 0 ensures k + join(v, crlf() + k) + crlf() == cat(pre_all(k, v)) decreases v.len() {
    let w = pre_all(k, v); let r = v.drop_first(); assert(w.drop_first() =~= pre_all(k, r)); assert(w[0] == k + v[0]);
    if v.len() == 1 { assert(w =~= seq![k + v[0]]); wp_cat1(k + v[0]); } else { wp_join(k, r); assert(k + join(v, crlf() + k) + crlf() =~= (k + v[0]) + crlf() + (k + join(r, crlf() + k) + crlf())); }
}
proof fn wp_seps() ensures "\r\n"@ == crlf(), "\r\nb="@ == crlf() + "b="@, "\r\na="@ == crlf() + "a="@, "\r\no="@ == crlf() + "o="@, "\r\ns="@ == crlf() + "s="@ {
    reveal_strlit("\r\n"); reveal_strlit("\r\nb="); reveal_strlit("\r\na="); reveal_strlit("\r\no="); reveal_strlit("\r\ns="); reveal_strlit("a="); reveal_strlit("b="); reveal_strlit("o="); reveal_strlit("s=");
    assert("\r\n"@ =~= crlf()); assert("\r\nb="@ =~= crlf() + "b="@); assert("\r\na="@ =~= crlf() + "a="@); assert("\r\no="@ =~= crlf() + "o="@); assert("\r\ns="@ =~= crlf() + "s="@);
}
proof fn wp_list(k: Str, v: Seq<Str>) requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).len() > 0 ensures list_str(k, v, crlf() + k, crlf()) == cat(pre_all(k, v)) {
    rt_nonempty(v); if v.len() > 0 { wp_join(k, v); } else { assert(pre_all(k, v) =~= Seq::<Str>::empty()); }
}
proof fn wp_attrs(v: Seq<SdpAttribute>) requires src_attrs(v), forall|i: int| 0 <= i < v.len() ==> !excluded(#[trigger] v[i]) ensures list_str("a="@, attr_texts(v), "\r\na="@, "\r\n"@) == cat(btexts(l_as(v))) {
    let w = attr_texts(v); assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).len() > 0 by { assert(w[i] == attr_str(v[i])); assert(src_attr(v[i])); let z = choose|z: Str| #[trigger] s_attr(v[i], z); ls_attr(z, v[i]); }
    wp_list("a="@, w); wp_seps(); assert(pre_all("a="@, w) =~= btexts(l_as(v)));
}
proof fn wp_bws(v: Seq<SdpBandwidth>) requires src_bws(v) ensures list_str("b="@, disps(v), "\r\nb="@, "\r\n"@) == cat(btexts(l_bs(v))) {
    let w = disps(v); assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).len() > 0 by { assert(w[i] == bw_str(v[i])); assert(src_bw(v[i])); let z = choose|z: Str| #[trigger] s_bw(v[i], z); ls_bw(z, v[i]); }
    wp_list("b="@, w); wp_seps(); assert(pre_all("b="@, w) =~= btexts(l_bs(v)));
}
proof fn wp_conn(c: Option<SdpConnection>) ensures conn_line(c) == cat(btexts(l_c(c))) { wp_seps(); match c { Some(x) => { let s = "c="@ + conn_str(x); wp_cat1(s); assert(btexts(l_c(c)) =~= seq![s]); }, None => { assert(btexts(l_c(c)) =~= Seq::<Str>::empty()); } } }
proof fn wp_timing(t: Option<SdpTiming>) ensures opt_str("t="@, t, "\r\n"@) == cat(btexts(l_t(t))) { wp_seps(); match t { Some(x) => { let s = "t="@ + timing_str(x); wp_cat1(s); assert(btexts(l_t(t)) =~= seq![s]); }, None => { assert(btexts(l_t(t)) =~= Seq::<Str>::empty()); } } }
spec fn plain(v: Seq<SdpAttribute>) -> bool { forall|i: int| 0 <= i < v.len() ==> !excluded(#[trigger] v[i]) }
proof fn wp_med(m: SdpMedia) //# C10
    requires src_media(m), plain(m.attribute@) ensures media_section_str(m) == cat(btexts(l_med(m)))
{
    wp_seps(); wp_attrs(m.attribute@); wp_bws(m.bandwidth@); wp_conn(m.connection); let h = seq![mk(SdpType::Media(m.media))]; let s = "m="@ + mline_str(m.media); wp_cat1(s); assert(btexts(h) =~= seq![s]);
    let (b, c, a) = (l_bs(m.bandwidth@), l_c(m.connection), l_as(m.attribute@)); wp_btexts_add(h, b); wp_btexts_add(h + b, c); wp_btexts_add(h + b + c, a); ws_cat_add(btexts(h), btexts(b)); ws_cat_add(btexts(h + b), btexts(c)); ws_cat_add(btexts(h + b + c), btexts(a));
}
proof fn wp_concat_push(v: Seq<Str>, s: Str) ensures concat(v.push(s)) == concat(v) + s decreases v.len() {
    let w = v.push(s); if v.len() == 0 { assert(w.drop_first() =~= Seq::<Str>::empty()); assert(concat(w.drop_first()) =~= none()); assert(concat(w) =~= s); assert(concat(v) + s =~= s); } else { wp_concat_push(v.drop_first(), s); assert(w.drop_first() =~= v.drop_first().push(s)); assert(concat(w) =~= concat(v) + s); }
}
spec fn plains(v: Seq<SdpMedia>) -> bool { forall|i: int| 0 <= i < v.len() ==> plain((#[trigger] v[i]).attribute@) }
proof fn wp_meds(v: Seq<SdpMedia>) requires src_medias(v), plains(v) ensures concat(media_texts(v)) == cat(btexts(l_meds(v))) decreases v.len() {
    if v.len() > 0 {
        let d = v.drop_last(); assert forall|i: int| 0 <= i < d.len() implies src_media(#[trigger] d[i]) by { assert(d[i] == v[i]); } assert forall|i: int| 0 <= i < d.len() implies plain((#[trigger] d[i]).attribute@) by { assert(d[i] == v[i]); } wp_meds(d);
        let m = v.last(); assert(v[v.len() - 1] == m); wp_med(m); assert(media_texts(v) =~= media_texts(d).push(media_section_str(m))); wp_concat_push(media_texts(d), media_section_str(m)); wp_btexts_add(l_meds(d), l_med(m)); ws_cat_add(btexts(l_meds(d)), btexts(l_med(m)));
    } else { assert(media_texts(v) =~= Seq::<Str>::empty()); assert(btexts(l_meds(v)) =~= Seq::<Str>::empty()); }
}
spec fn l_body(x: SdpSession) -> Seq<SdpLine> { l_head(x) + l_meds(x.media@) }
spec fn all_texts(x: SdpSession) -> Seq<Str> { seq!["v="@ + dec(0), "o="@ + origin_str(x.origin), "s="@ + name_str(x.session)] + btexts(l_body(x)) }
proof fn wp_head(x: SdpSession) requires src_session(x), plain(x.attribute@)
    ensures opt_str("t="@, x.timing, "\r\n"@) + list_str("b="@, disps(x.bandwidth@), "\r\nb="@, "\r\n"@) + conn_line(x.connection) + list_str("a="@, attr_texts(x.attribute@), "\r\na="@, "\r\n"@) == cat(btexts(l_head(x)))
{
    wp_attrs(x.attribute@); wp_bws(x.bandwidth@); wp_conn(x.connection); wp_timing(x.timing);
    let (t, b, c, a) = (l_t(x.timing), l_bs(x.bandwidth@), l_c(x.connection), l_as(x.attribute@)); wp_btexts_add(t, b); wp_btexts_add(t + b, c); wp_btexts_add(t + b + c, a); ws_cat_add(btexts(t), btexts(b)); ws_cat_add(btexts(t + b), btexts(c)); ws_cat_add(btexts(t + b + c), btexts(a));
}
proof fn wp_session(x: SdpSession) //# C10
    requires src_session(x), plain(x.attribute@), plains(x.media@) ensures session_str(x) == cat(all_texts(x))
{
    wp_seps(); wp_head(x); wp_meds(x.media@); let h = l_head(x); let m = l_meds(x.media@); wp_btexts_add(h, m); ws_cat_add(btexts(h), btexts(m));
    let v = "v="@ + dec(0); let o = "o="@ + origin_str(x.origin); let s = "s="@ + name_str(x.session); let f = seq![v, o, s]; ws_cat_add(f, btexts(l_body(x)));
    assert(f =~= seq![v] + (seq![o] + seq![s])); ws_cat_add(seq![v], seq![o] + seq![s]); ws_cat_add(seq![o], seq![s]); wp_cat1(v); wp_cat1(o); wp_cat1(s);
    let (pt, pb, pc, pa) = (opt_str("t="@, x.timing, "\r\n"@), list_str("b="@, disps(x.bandwidth@), "\r\nb="@, "\r\n"@), conn_line(x.connection), list_str("a="@, attr_texts(x.attribute@), "\r\na="@, "\r\n"@)); let pm = concat(media_texts(x.media@));
    let l = "v="@ + dec(x.version as int) + "\r\no="@ + origin_str(x.origin) + "\r\ns="@ + name_str(x.session) + "\r\n"@; assert(l =~= v + crlf() + (o + crlf() + (s + crlf())));
    assert(session_str(x) == l + pt + pb + pc + pa + pm); assert(session_str(x) =~= l + ((pt + pb + pc + pa) + pm));
}
