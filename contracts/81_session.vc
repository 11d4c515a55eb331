@note lemmas (C10): a printed line is accepted and means what was printed; the lines of a printed session put together give that session
@raw
// ---------------------------------------------------------------- texts without line feed
spec fn nl(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n' }
spec fn nls(v: Seq<Str>) -> bool { forall|i: int| 0 <= i < v.len() ==> nl(#[trigger] v[i]) }
broadcast proof fn nl_add(a: Str, b: Str) ensures #[trigger] nl(a + b) <==> nl(a) && nl(b) {
    let c = a + b;
    if nl(c) { assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != '\n' by { assert(c[i] == a[i]); } assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != '\n' by { assert(c[a.len() + i] == b[i]); } }
    if nl(a) && nl(b) { assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] != '\n' by { if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); } } }
}
broadcast proof fn nl_nows(s: Str) requires nows(s) ensures #[trigger] nl(s) { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '\n' by { assert(!is_ws(s[i])); } }
broadcast proof fn nl_dec(n: int) requires n >= 0 ensures #[trigger] nl(dec(n)) { rt_dec(n, n); nl_nows(dec(n)); }
proof fn nl_sub(s: Str, a: int, b: int) requires nl(s), 0 <= a <= b <= s.len() ensures nl(s.subrange(a, b)) { let r = s.subrange(a, b); assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != '\n' by { assert(r[i] == s[a + i]); } }
proof fn nl_start(s: Str) requires nl(s) ensures nl(trim_start(s)) decreases s.len() { if s.len() > 0 { nl_sub(s, 1, s.len() as int); assert(s.drop_first() =~= s.subrange(1, s.len() as int)); nl_start(s.drop_first()); } }
proof fn nl_end(s: Str) requires nl(s) ensures nl(trim_end(s)) decreases s.len() { if s.len() > 0 { nl_sub(s, 0, s.len() - 1); assert(s.drop_last() =~= s.subrange(0, s.len() - 1)); nl_end(s.drop_last()); } }
proof fn nl_trim(s: Str) requires nl(s) ensures nl(trim(s)) { nl_start(s); nl_end(trim_start(s)); }
proof fn nl_find(s: Str) ensures nl(s) ==> !s.contains('\n'), noc(s, '\n') ==> nl(s) { if noc(s, '\n') { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '\n' by { if s[i] == '\n' { assert(s.contains('\n')); } } } }
proof fn nl_split(s: Str, c: char) requires nl(s) ensures nls(split_char(s, c)) {
    nl_find(s); rt_split_sub(s, c, '\n'); let v = split_char(s, c); assert forall|i: int| 0 <= i < v.len() implies nl(#[trigger] v[i]) by { nl_find(v[i]); }
}
proof fn nl_splitn(n: nat, s: Str, c: char) requires nl(s) ensures nls(splitn_char(n, s, c)) decreases n {
    lemma_find_char(s, c); let i = find_char(s, c); let v = splitn_char(n, s, c);
    if n >= 2 && 0 <= i < s.len() {
        let r = s.subrange(i + 1, s.len() as int); nl_sub(s, 0, i); nl_sub(s, i + 1, s.len() as int); nl_splitn((n - 1) as nat, r, c);
        assert forall|j: int| 0 <= j < v.len() implies nl(#[trigger] v[j]) by { if j > 0 { assert(v[j] == splitn_char((n - 1) as nat, r, c)[j - 1]); } }
    }
}
proof fn nl_toks(v: Seq<Str>) requires toks(v) ensures nls(v) { assert forall|i: int| 0 <= i < v.len() implies nl(#[trigger] v[i]) by { nl_nows(v[i]); } }
proof fn nl_join(v: Seq<Str>, s: Str) requires nls(v), nl(s) ensures nl(join(v, s)) decreases v.len() {
    if v.len() > 0 { assert(nl(v[0])); let u = v.drop_first(); if v.len() > 1 { assert forall|i: int| 0 <= i < u.len() implies nl(#[trigger] u[i]) by { assert(u[i] == v[i + 1]); } nl_join(u, s); nl_add(v[0], s); nl_add(v[0] + s, join(u, s)); } }
}
// ---------------------------------------------------------------- lines that are not attributes
proof fn ls_timing(x: SdpTiming) //# C10
    ensures ({ let q = timing_str(x); timing_ok(split_ws(q)) && timing_is(split_ws(q), x) && solid(q) && nl(q) })
{
    let a = dec(x.start as int); let b = dec(x.stop as int); rt_dec(x.start as int, u64::MAX as int); rt_dec(x.stop as int, u64::MAX as int); rt_sp();
    rt_sim1(a, b); broadcast use nl_add, nl_nows; assert(nl(sp()));
}
proof fn ls_bw(v: Str, x: SdpBandwidth) //# C10
    requires bw_ok(split_char(v, ':')), bw_is(split_char(v, ':'), x), trimmed(v), nl(v)
    ensures ({ let q = bw_str(x); bw_ok(split_char(q, ':')) && bw_is(split_char(q, ':'), x) && solid(q) && nl(q) })
{
    let (k, n) = match x { SdpBandwidth::As(n) => ("AS"@, n), SdpBandwidth::Ct(n) => ("CT"@, n), SdpBandwidth::Tias(n) => ("TIAS"@, n), SdpBandwidth::Unknown(t, n) => (t@, n) };
    reveal_strlit("AS"); reveal_strlit("CT"); reveal_strlit("TIAS"); reveal_strlit(":"); assert(":"@ =~= seq![':']); let c = seq![':'];
    let p = split_char(v, ':'); rt_split_nocs(v, ':'); nl_split(v, ':'); lemma_find_char(v, ':');
    if x is Unknown { assert(noc(p[0], ':')); assert(nl(p[0])); if k.len() > 0 { assert(k[0] == v[0]); } }
    else { ax_upper_id(k); assert forall|i: int| 0 <= i < k.len() implies k[i] != '\n' && k[i] != ':' && !is_ws(k[i]) by { assert(65 <= k[i] as u32 <= 90); } assert(noc(k, ':')); assert(nl(k)); }
    let d = dec(n as int); rt_dec(n as int, u32::MAX as int); rt_num_noc(d, ':'); rt_split_noc(d, ':'); rt_split_noc(k, ':');
    rt_split_c(k, d, ':'); let q = bw_str(x); assert(q == k + c + d); assert(split_char(q, ':') =~= seq![k, d]);
    broadcast use nl_add, nl_nows; assert(nl(c)); assert(q.last() == d.last()); if k.len() > 0 { assert(q[0] == k[0]); } else { assert(q[0] == ':'); }
}
proof fn ls_kw_media(x: SdpMediaValue) ensures small(media_str(x)), media_str(x).len() > 0, media_str(x) == mvalue_kw(x) { reveal_strlit("audio"); reveal_strlit("video"); reveal_strlit("application"); }
proof fn ls_kw_proto(x: SdpProtocolValue) ensures big(proto_str(x)), proto_str(x).len() > 0, proto_str(x) == proto_kw(x) {
    reveal_strlit("RTP/AVP"); reveal_strlit("RTP/AVPF"); reveal_strlit("RTP/SAVP"); reveal_strlit("RTP/SAVPF"); reveal_strlit("TCP/DTLS/RTP/SAVP"); reveal_strlit("TCP/DTLS/RTP/SAVPF"); reveal_strlit("UDP/TLS/RTP/SAVP"); reveal_strlit("UDP/TLS/RTP/SAVPF"); reveal_strlit("DTLS/SCTP"); reveal_strlit("UDP/DTLS/SCTP"); reveal_strlit("TCP/DTLS/SCTP");
}
proof fn ls_in() ensures "IN "@ == seq!['I', 'N'] + sp(), "IN"@ == seq!['I', 'N'], tok("IN"@), big("IN"@), to_upper("IN"@) == "IN"@ { reveal_strlit("IN "); reveal_strlit("IN"); assert("IN "@ =~= seq!['I', 'N'] + sp()); assert("IN"@ =~= seq!['I', 'N']); rt_big("IN"@); }
proof fn ls_slash() ensures "/"@ == seq!['/'] { reveal_strlit("/"); assert("/"@ =~= seq!['/']); }
// a printed address of a line: IN, the family, the address
proof fn ls_typed(t: AddressType, s: Str, a: ExplicitlyTypedAddress, q: Str)
    requires typed_ok(t, s), a == typed_of(t, s), typed_family(a) == t, q == addr_str(addr_of(s))
    ensures typed_str(a) == "IN"@ + sp() + (aty_str(t) + sp() + q), tok(q), noc(q, '/'), typed_ok(t, q), typed_of(t, q) == a, tok(aty_str(t)), to_upper(aty_str(t)) == aty_str(t), aty_ok(aty_str(t)), aty_of(aty_str(t)) == t
{
    rt_typed(t, s); rt_sp(); ls_in(); rt_kw_aty(t); rt_big(aty_str(t)); assert(typed_str(a) =~= "IN"@ + sp() + (aty_str(t) + sp() + q));
    reveal_strlit("IP4"); reveal_strlit("IP6"); assert("IP4"@[2] == '4' && "IP6"@[2] == '6');
}
proof fn ls_origin(t: Seq<Str>, x: SdpOrigin) //# C10
    requires origin_ok(t), origin_is(t, x), toks(t)
    ensures ({ let q = origin_str(x); origin_ok(split_ws(q)) && origin_is(split_ws(q), x) && solid(q) && nl(q) })
{
    let f = aty_of(t[4]); let p = addr_str(addr_of(t[5])); ls_typed(f, t[5], x.unicast_addr, p); rt_sp(); ls_in();
    let a = dec(x.session_id as int); let b = dec(x.session_version as int); rt_dec(x.session_id as int, u64::MAX as int); rt_dec(x.session_version as int, u64::MAX as int);
    let u = x.username@; assert(tok(t[0])); let v = seq![u, a, b, "IN"@, aty_str(f), p]; let q = origin_str(x);
    let r5 = p; let r4 = aty_str(f) + sp() + r5; let r3 = "IN"@ + sp() + r4; let r2 = b + sp() + r3; let r1 = a + sp() + r2; let r0 = u + sp() + r1;
    assert(q =~= r0); rt_split_tok(p); rt_split_tok(aty_str(f)); rt_split_tok("IN"@); rt_split_tok(a); rt_split_tok(b); rt_split_tok(u);
    rt_split_sp(aty_str(f), r5); rt_split_sp("IN"@, r4); rt_split_sp(b, r3); rt_split_sp(a, r2); rt_split_sp(u, r1);
    assert(split_ws(q) =~= v); assert(q[0] == u[0]); assert(q.last() == p.last());
    broadcast use nl_add, nl_nows; assert(nl(sp())); assert(nl(r5) && nl(r4) && nl(r3) && nl(r2) && nl(r1) && nl(r0));
}
proof fn ls_conn(t: Seq<Str>, x: SdpConnection) //# C10
    requires conn_ok(t), conn_is(t, x), toks(t)
    ensures ({ let q = conn_str(x); conn_ok(split_ws(q)) && conn_is(split_ws(q), x) && solid(q) && nl(q) })
{
    let s = split_char(t[2], '/'); let f = aty_of(t[1]); let p = addr_str(addr_of(s[0])); ls_typed(f, s[0], x.address, p); rt_sp(); ls_in(); ls_slash(); lemma_split_len(t[2], '/');
    let c = seq!['/']; let e1 = match x.ttl { Some(n) => c + dec(n as int), None => none() }; let e2 = match x.amount { Some(n) => c + dec(n as int), None => none() };
    let z = p + e1 + e2; broadcast use nl_add, nl_nows; assert(nl(sp())); assert(nl(c)); assert(nows(c)) by { assert(!is_ws('/')); } rt_split_noc(p, '/');
    let w: Seq<Str> = match (x.ttl, x.amount) { (Some(n), Some(m)) => seq![p, dec(n as int), dec(m as int)], (Some(n), None) => seq![p, dec(n as int)], _ => seq![p] };
    match x.ttl {
        Some(n) => {
            let d = dec(n as int); rt_dec(n as int, u8::MAX as int); rt_num_noc(d, '/'); rt_split_noc(d, '/');
            match x.amount {
                Some(m) => { let g = dec(m as int); rt_dec(m as int, u32::MAX as int); rt_num_noc(g, '/'); rt_split_noc(g, '/'); rt_split_c(d, g, '/'); rt_split_c(p, d + c + g, '/'); assert(z =~= p + c + (d + c + g)); rt_nows_add(d, c); rt_nows_add(d + c, g); rt_nows_add(p, c); rt_nows_add(p + c, d + c + g); },
                None => { rt_split_c(p, d, '/'); assert(z =~= p + c + d); rt_nows_add(p, c); rt_nows_add(p + c, d); }
            }
        },
        None => { assert(z =~= p); }
    }
    assert(split_char(z, '/') =~= w); assert(tok(z));
    let r1 = aty_str(f) + sp() + z; let r0 = "IN"@ + sp() + r1; let q = conn_str(x); assert(q =~= r0) by { let o1 = opt_str("/"@, x.ttl, none()); let o2 = opt_str("/"@, x.amount, none()); assert(o1 =~= e1); assert(o2 =~= e2); }
    rt_split_tok(z); rt_split_tok(aty_str(f)); rt_split_tok("IN"@); rt_split_sp(aty_str(f), z); rt_split_sp("IN"@, r1); assert(split_ws(q) =~= seq!["IN"@, aty_str(f), z]);
    assert(q[0] == "IN"@[0]); assert(q.last() == z.last()); assert(nl(z) && nl(r1) && nl(r0));
}
proof fn ls_disps(v: Seq<u32>) ensures toks(disps(v)), disps(v).len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] disps(v)[i] == dec(v[i] as int) && uint_ok(disps(v)[i], u32::MAX as int) && uint_val(disps(v)[i]) == v[i]
{ assert forall|i: int| 0 <= i < v.len() implies #[trigger] disps(v)[i] == dec(v[i] as int) && uint_ok(disps(v)[i], u32::MAX as int) && uint_val(disps(v)[i]) == v[i] && tok(disps(v)[i]) by { rt_dec(v[i] as int, u32::MAX as int); } }
spec fn fmt_texts(x: SdpFormatList) -> Seq<Str> { match x { SdpFormatList::Integers(v) => disps(v@), SdpFormatList::Strings(v) => strs(v@) } }
proof fn ls_fmts(t: Seq<Str>, m: SdpMediaLine)
    requires mtokens_ok(t), mline_is(t, m), toks(t)
    ensures toks(fmt_texts(m.formats)), fmt_texts(m.formats).len() == t.len() - 3, fmts_str(m.formats) == join(fmt_texts(m.formats), sp()), m.formats is Integers ==> forall|i: int| 0 <= i < t.len() - 3 ==> fmt_num_ok(#[trigger] fmt_texts(m.formats)[i])
{
    rt_sp(); let w = fmt_texts(m.formats);
    match m.formats {
        SdpFormatList::Integers(v) => { ls_disps(v@); rt_nonempty(disps(v@)); assert(none() + join(w, sp()) + none() =~= join(w, sp())); assert forall|i: int| 0 <= i < t.len() - 3 implies fmt_num_ok(#[trigger] w[i]) by { assert(pt_in_mline(v@[i] as int)); } },
        SdpFormatList::Strings(v) => { rt_toks_sub(t, 3); },
    }
}
proof fn ls_port(s: Str, m: SdpMediaLine, q: Str)
    requires mport_ok(s), ({ let p = split_char(s, '/'); m.port == uint_val(p[0]) && m.port <= 65535 && m.port_count == (if p.len() > 1 { uint_val(p[1]) } else { 0 }) }), q == dec(m.port as int) + num_str("/"@, m.port_count as int, 0)
    ensures tok(q), mport_ok(q), ({ let p = split_char(q, '/'); m.port == uint_val(p[0]) && m.port_count == (if p.len() > 1 { uint_val(p[1]) } else { 0 }) })
{
    let a = dec(m.port as int); let b = dec(m.port_count as int); rt_dec(m.port as int, u32::MAX as int); rt_dec(m.port_count as int, u32::MAX as int); rt_num_noc(a, '/'); rt_num_noc(b, '/'); rt_split_noc(a, '/'); rt_split_noc(b, '/'); ls_slash(); let c = seq!['/'];
    assert(nows(c)) by { assert(!is_ws('/')); }
    if m.port_count == 0 { assert(q =~= a); } else { assert(q =~= a + c + b); rt_split_c(a, b, '/'); assert(split_char(q, '/') =~= seq![a, b]); rt_nows_add(a, c); rt_nows_add(a + c, b); }
}
proof fn ls_mline(t: Seq<Str>, m: SdpMediaLine) //# C10
    requires mtokens_ok(t), mline_is(t, m), toks(t)
    ensures ({ let q = mline_str(m); mtokens_ok(split_ws(q)) && mline_is(split_ws(q), m) && solid(q) && nl(q) })
{
    let p = dec(m.port as int) + num_str("/"@, m.port_count as int, 0); ls_port(t[1], m, p); ls_kw_media(m.media); ls_kw_proto(m.proto); rt_small(media_str(m.media)); rt_big(proto_str(m.proto)); rt_sp(); ls_fmts(t, m);
    let k = media_str(m.media); let o = proto_str(m.proto); let w = fmt_texts(m.formats); let r3 = join(w, sp()); let r2 = o + sp() + r3; let r1 = p + sp() + r2; let r0 = k + sp() + r1; let q = mline_str(m);
    assert(q =~= r0); rt_split_ws_join(w); rt_split_tok(k); rt_split_tok(p); rt_split_tok(o); rt_split_sp(o, r3); rt_split_sp(p, r2); rt_split_sp(k, r1);
    let u = split_ws(q); assert(u =~= seq![k, p, o] + w); rt_join_solid(w); assert(q[0] == k[0]); assert(q.last() == r3.last());
    assert(u.skip(3) =~= w); assert forall|i: int| 3 <= i < u.len() implies u[i] == w[i - 3] by {}
    assert(mvalue_ok(u[0])); assert(proto_ok(u[2])); assert(is_app(t[0]) <==> m.media is Application) by { ls_kw_media(m.media); assert(mvalue_kw(SdpMediaValue::Audio) == "audio"@); reveal_strlit("audio"); reveal_strlit("video"); reveal_strlit("application"); assert("audio"@.len() == 5 && "video"@.len() == 5 && "application"@.len() == 11); }
    if m.formats is Integers { assert forall|i: int| 3 <= i < u.len() implies fmt_num_ok(#[trigger] u[i]) by { assert(fmt_num_ok(w[i - 3])); } }
    match m.formats { SdpFormatList::Integers(v) => { ls_disps(v@); assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]) as int == uint_val(u[i + 3]) by { assert(disps(v@)[i] == u[i + 3]); } }, _ => {} }
    nl_toks(w); broadcast use nl_add, nl_nows; assert(nl(sp())); nl_join(w, sp()); assert(nl(r3) && nl(r2) && nl(r1) && nl(r0));
}
