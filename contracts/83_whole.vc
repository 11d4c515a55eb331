@note lemmas (C10): reading a printed session gives the session that was printed
@raw
// ---------------------------------------------------------------- lines of a text
proof fn ws_lines_nl(s: Str) ensures nls(lines_of(s)) decreases s.len() {
    let i = find_char(s, '\n'); lemma_find_char(s, '\n');
    if 0 <= i < s.len() {
        let a = s.subrange(0, i); let b = s.subrange(i + 1, s.len() as int); ws_lines_nl(b); assert(nl(a)) by { assert forall|k: int| 0 <= k < a.len() implies #[trigger] a[k] != '\n' by { assert(a[k] == s[k]); } }
        let l = strip_cr(a); assert(nl(l)) by { assert forall|k: int| 0 <= k < l.len() implies #[trigger] l[k] != '\n' by { assert(l[k] == a[k]); } }
        let v = lines_of(s); let w = lines_of(b); assert(v == seq![l] + w); assert forall|k: int| 0 <= k < v.len() implies nl(#[trigger] v[k]) by { if k == 0 { assert(v[k] == l); } else { assert(v[k] == w[k - 1]); } }
    } else { assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != '\n' by { if s[k] == '\n' { assert(s.contains('\n')); } } assert(nl(s)); let v = lines_of(s); assert forall|k: int| 0 <= k < v.len() implies nl(#[trigger] v[k]) by { assert(v[k] == s); } }
}
spec fn crlf() -> Str { seq!['\r', '\n'] }
// lines one after the other, each ended by carriage return and line feed
spec fn cat(v: Seq<Str>) -> Str decreases v.len() { if v.len() == 0 { Seq::empty() } else { v[0] + crlf() + cat(v.drop_first()) } }
proof fn ws_cat_add(a: Seq<Str>, b: Seq<Str>) ensures cat(a + b) == cat(a) + cat(b) decreases a.len() {
    if a.len() == 0 { assert(a + b =~= b); assert(cat(a) + cat(b) =~= cat(b)); } else { ws_cat_add(a.drop_first(), b); let w = a + b; assert(w.drop_first() =~= a.drop_first() + b); assert(w[0] == a[0]); assert(cat(w) =~= cat(a) + cat(b)); }
}
proof fn ws_lines_cat(v: Seq<Str>) requires nls(v) ensures lines_of(cat(v)) == v decreases v.len() {
    if v.len() > 0 {
        let l = v[0]; let r = v.drop_first(); assert(nl(l)); assert forall|i: int| 0 <= i < r.len() implies nl(#[trigger] r[i]) by { assert(r[i] == v[i + 1]); } ws_lines_cat(r);
        let c = cat(v); let k: int = l.len() as int + 1; assert(c[k] == '\n'); assert forall|i: int| 0 <= i < k implies c[i] != '\n' by { if i < l.len() { assert(c[i] == l[i]); } else { assert(c[i] == '\r'); } }
        rt_find(c, '\n', k); let a = c.subrange(0, k); assert(a =~= l + seq!['\r']); assert(a.last() == '\r'); assert(strip_cr(a) =~= l); assert(c.subrange(k + 1, c.len() as int) =~= cat(r)); assert(lines_of(c) =~= seq![l] + r); assert(seq![l] + r =~= v);
    } else { assert(lines_of(cat(v)) =~= v); }
}
// ---------------------------------------------------------------- outcomes of lines
spec fn goodl(l: SdpLine) -> bool { line_ok(l.text@) && line_means(l.text@, l.sdp_type) && nl(l.text@) }
spec fn goodls(g: Seq<SdpLine>) -> bool { forall|i: int| 0 <= i < g.len() ==> goodl(#[trigger] g[i]) }
proof fn ws_out_pre(ls: Seq<Str>, rs: Seq<LineRes>) requires outcomes(ls, rs), ls.len() > 0 ensures outcomes(ls.drop_last(), rs.drop_last()), !blank(ls.last()) ==> line_result(ls.last(), ls.len() - 1, rs.last()) {
    let a = ls.drop_last(); let b = rs.drop_last(); assert forall|i: int| 0 <= i < a.len() && !blank(#[trigger] a[i]) implies line_result(a[i], i, b[i]) by { assert(a[i] == ls[i]); assert(b[i] == rs[i]); assert(!blank(ls[i])); }
    assert(ls[ls.len() - 1] == ls.last());
}
proof fn ws_goods(ls: Seq<Str>, rs: Seq<LineRes>) requires outcomes(ls, rs), nls(ls) ensures goodls(goods(ls, rs)) decreases ls.len() {
    if ls.len() > 0 {
        ws_out_pre(ls, rs); let a = ls.drop_last(); assert forall|i: int| 0 <= i < a.len() implies nl(#[trigger] a[i]) by { assert(a[i] == ls[i]); } ws_goods(a, rs.drop_last()); let p = goods(a, rs.drop_last()); assert(nl(ls[ls.len() - 1]));
        let g = goods(ls, rs); assert forall|i: int| 0 <= i < g.len() implies goodl(#[trigger] g[i]) by { if i < p.len() { assert(g[i] == p[i]); } }
    }
}
spec fn oks(ls: Seq<Str>) -> bool { forall|i: int| 0 <= i < ls.len() ==> line_ok(#[trigger] ls[i]) && !blank(ls[i]) }
spec fn reads(ls: Seq<Str>, g: Seq<SdpLine>) -> bool { g.len() == ls.len() && forall|i: int| #![trigger g[i]] #![trigger ls[i]] 0 <= i < ls.len() ==> line_means(ls[i], g[i].sdp_type) }
proof fn ws_all_good(ls: Seq<Str>, rs: Seq<LineRes>) requires outcomes(ls, rs), oks(ls) ensures reads(ls, goods(ls, rs)), bads(ls, rs).len() == 0, warns(ls, rs).len() == 0 decreases ls.len() {
    if ls.len() > 0 {
        ws_out_pre(ls, rs); let a = ls.drop_last(); assert forall|i: int| 0 <= i < a.len() implies line_ok(#[trigger] a[i]) && !blank(a[i]) by { assert(a[i] == ls[i]); assert(line_ok(ls[i])); } ws_all_good(a, rs.drop_last()); let p = goods(a, rs.drop_last()); assert(line_ok(ls[ls.len() - 1]));
        let g = goods(ls, rs); assert forall|i: int| #![trigger g[i]] #![trigger ls[i]] 0 <= i < ls.len() implies line_means(ls[i], g[i].sdp_type) by { if i < p.len() { assert(g[i] == p[i]); assert(ls[i] == a[i]); } }
    }
}
// ---------------------------------------------------------------- where the parts of a session come from
spec fn s_attr(a: SdpAttribute, v: Str) -> bool { attr_ok(v) && attr_is(v, a) && nl(v) && trimmed(v) }
spec fn src_attr(a: SdpAttribute) -> bool { exists|v: Str| #[trigger] s_attr(a, v) }
spec fn src_attrs(s: Seq<SdpAttribute>) -> bool { forall|i: int| 0 <= i < s.len() ==> src_attr(#[trigger] s[i]) }
spec fn s_bw(b: SdpBandwidth, v: Str) -> bool { bw_ok(split_char(v, ':')) && bw_is(split_char(v, ':'), b) && nl(v) && trimmed(v) }
spec fn src_bw(b: SdpBandwidth) -> bool { exists|v: Str| #[trigger] s_bw(b, v) }
spec fn src_bws(s: Seq<SdpBandwidth>) -> bool { forall|i: int| 0 <= i < s.len() ==> src_bw(#[trigger] s[i]) }
spec fn src_conn(c: SdpConnection) -> bool { exists|t: Seq<Str>| #[trigger] conn_ok(t) && conn_is(t, c) && toks(t) }
spec fn src_oconn(c: Option<SdpConnection>) -> bool { c matches Some(x) ==> src_conn(x) }
spec fn src_mline(m: SdpMediaLine) -> bool { exists|t: Seq<Str>| #[trigger] mtokens_ok(t) && mline_is(t, m) && toks(t) }
spec fn src_origin(o: SdpOrigin) -> bool { exists|t: Seq<Str>| #[trigger] origin_ok(t) && origin_is(t, o) && toks(t) }
spec fn src_name(s: Option<String>) -> bool { s matches Some(z) ==> trimmed(z@) && nl(z@) && z@.len() > 0 }
proof fn ws_val(t: Str) requires nl(t) ensures nl(line_val(t)) || !t.contains('='), t.contains('=') ==> nl(trim(line_val(t))) && trimmed(trim(line_val(t))) {
    lemma_find_char(t, '='); if t.contains('=') { nl_sub(t, find_char(t, '=') + 1, t.len() as int); nl_trim(line_val(t)); rt_trimmed_trim(line_val(t)); }
}
proof fn ws_types() ensures "a"@ != "b"@, "a"@ != "c"@, "a"@ != "m"@, "a"@ != "o"@, "a"@ != "s"@, "a"@ != "t"@, "a"@ != "v"@, "b"@ != "c"@, "b"@ != "m"@, "b"@ != "o"@, "b"@ != "s"@, "b"@ != "t"@, "b"@ != "v"@, "c"@ != "m"@, "c"@ != "o"@, "c"@ != "s"@, "c"@ != "t"@, "c"@ != "v"@, "m"@ != "o"@, "m"@ != "s"@, "m"@ != "t"@, "m"@ != "v"@, "o"@ != "s"@, "o"@ != "t"@, "o"@ != "v"@, "s"@ != "t"@, "s"@ != "v"@, "t"@ != "v"@ {
    reveal_strlit("a"); reveal_strlit("b"); reveal_strlit("c"); reveal_strlit("m"); reveal_strlit("o"); reveal_strlit("s"); reveal_strlit("t"); reveal_strlit("v");
    assert("a"@[0] == 'a' && "b"@[0] == 'b' && "c"@[0] == 'c' && "m"@[0] == 'm' && "o"@[0] == 'o' && "s"@[0] == 's' && "t"@[0] == 't' && "v"@[0] == 'v');
}
proof fn ws_src(l: SdpLine) requires goodl(l) ensures match l.sdp_type { SdpType::Attribute(a) => src_attr(a), SdpType::Bandwidth(b) => src_bw(b), SdpType::Connection(c) => src_conn(c), SdpType::Media(m) => src_mline(m), SdpType::Origin(o) => src_origin(o), SdpType::Session(s) => nl(s@), SdpType::Version(n) => n == 0, _ => true } {
    let t = l.text@; ws_val(t); let v = trim(line_val(t)); rt_split_toks(v); ws_types();
    match l.sdp_type { SdpType::Attribute(a) => { assert(s_attr(a, v)); }, SdpType::Bandwidth(b) => { assert(s_bw(b, v)); }, SdpType::Connection(c) => { assert(conn_ok(split_ws(v))); }, SdpType::Media(m) => { assert(mtokens_ok(split_ws(v))); }, SdpType::Origin(o) => { assert(origin_ok(split_ws(v))); }, _ => {} }
}
spec fn src_parts(g: Seq<SdpLine>) -> bool { src_attrs(attrs_of(g)) && src_attrs(mattrs_of(g)) && src_bws(bws_of(g)) && src_oconn(last_conn(g)) }
spec fn no_dtls(s: Seq<SdpAttribute>) -> bool { forall|i: int| 0 <= i < s.len() ==> !((#[trigger] s[i]) is DtlsMessage) }
proof fn ws_parts(g: Seq<SdpLine>) requires goodls(g) ensures src_parts(g), no_dtls(mattrs_of(g)) decreases g.len() {
    if g.len() > 0 {
        let d = g.drop_last(); assert forall|i: int| 0 <= i < d.len() implies goodl(#[trigger] d[i]) by { assert(d[i] == g[i]); } ws_parts(d); let l = g[g.len() - 1]; assert(goodl(l)); ws_src(l); assert(l == g.last());
        let (p, q) = (attrs_of(d), attrs_of(g)); assert forall|i: int| 0 <= i < q.len() implies src_attr(#[trigger] q[i]) by { if i < p.len() { assert(q[i] == p[i]); } }
        let (p, q) = (mattrs_of(d), mattrs_of(g)); assert forall|i: int| 0 <= i < q.len() implies src_attr(#[trigger] q[i]) && !(q[i] is DtlsMessage) by { if i < p.len() { assert(q[i] == p[i]); } }
        let (p, q) = (bws_of(d), bws_of(g)); assert forall|i: int| 0 <= i < q.len() implies src_bw(#[trigger] q[i]) by { if i < p.len() { assert(q[i] == p[i]); } }
    }
}
spec fn src_media(m: SdpMedia) -> bool { src_mline(m.media) && src_attrs(m.attribute@) && src_bws(m.bandwidth@) && src_oconn(m.connection) && no_dtls(m.attribute@) }
spec fn src_medias(v: Seq<SdpMedia>) -> bool { forall|i: int| 0 <= i < v.len() ==> src_media(#[trigger] v[i]) }
spec fn src_session(x: SdpSession) -> bool { x.version == 0 && src_origin(x.origin) && src_name(x.session) && src_attrs(x.attribute@) && src_bws(x.bandwidth@) && src_oconn(x.connection) && src_medias(x.media@) }
proof fn ws_good_sub(g: Seq<SdpLine>, a: int, b: int) requires goodls(g), 0 <= a <= b <= g.len() ensures goodls(g.subrange(a, b)) { let d = g.subrange(a, b); assert forall|i: int| 0 <= i < d.len() implies goodl(#[trigger] d[i]) by { assert(d[i] == g[a + i]); } }
proof fn ws_good_secs(g: Seq<SdpLine>) requires goodls(g) ensures forall|i: int| 0 <= i < sections(g).len() ==> goodls(#[trigger] sections(g)[i]) decreases g.len() {
    if g.len() > 0 {
        let d = g.drop_last(); ws_good_sub(g, 0, g.len() - 1); assert(d =~= g.subrange(0, g.len() - 1)); ws_good_secs(d); let p = sections(d); let q = sections(g); assert(goodl(g[g.len() - 1]));
        assert forall|i: int| 0 <= i < q.len() implies goodls(#[trigger] q[i]) by {
            if i < p.len() - 1 { assert(q[i] == p[i]); }
            else if is_media_line(g.last()) || p.len() == 0 { if i < p.len() { assert(q[i] == p[i]); } else { assert(q[i] =~= seq![g.last()]); } }
            else { let c = p[p.len() - 1]; assert(goodls(c)); assert(q[i] == c.push(g.last())); assert forall|j: int| 0 <= j < q[i].len() implies goodl(#[trigger] q[i][j]) by { if j < c.len() { assert(q[i][j] == c[j]); } } }
        }
    }
}
proof fn ws_source(x: SdpSession, g: Seq<SdpLine>) requires built(x, g), goodls(g) ensures src_session(x) {
    assert(goodl(g[0]) && goodl(g[1]) && goodl(g[2])); ws_src(g[0]); ws_src(g[1]); ws_src(g[2]);
    let b = g.skip(3); assert(b =~= g.subrange(3, g.len() as int)); ws_good_sub(g, 3, g.len() as int); lemma_media_pos(b); let p = media_pos(b); ws_good_sub(b, 0, p); ws_good_sub(b, p, b.len() as int); assert(head_of(g) =~= b.subrange(0, p)); assert(media_of(g) =~= b.subrange(p, b.len() as int)); ws_parts(head_of(g));
    match (g[2].sdp_type, x.session) { (SdpType::Session(t), Some(z)) => { nl_trim(t@); rt_trimmed_trim(t@); }, _ => {} }
    let h = media_of(g); let q = sections(h); ws_good_secs(h);
    assert forall|i: int| 0 <= i < x.media@.len() implies src_media(#[trigger] x.media@[i]) by { assert(sec_is(x.media@[i], q[i])); assert(goodls(q[i])); ws_parts(q[i]); assert(goodl(q[i][0])); ws_src(q[i][0]); }
}
