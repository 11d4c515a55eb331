@note lemmas (C10): each printed line of a session is accepted and means the part that was printed
@raw
spec fn excl_line(t: SdpType) -> bool { match t { SdpType::Attribute(a) => excluded(a), _ => false } }
spec fn src_type(t: SdpType) -> bool {
    match t { SdpType::Attribute(a) => src_attr(a), SdpType::Bandwidth(b) => src_bw(b), SdpType::Connection(c) => src_conn(c), SdpType::Media(m) => src_mline(m), SdpType::Timing(_) => true, _ => false }
}
// the text of a body line
spec fn bt(t: SdpType) -> Str {
    match t { SdpType::Attribute(a) => "a="@ + attr_str(a), SdpType::Bandwidth(b) => "b="@ + bw_str(b), SdpType::Connection(c) => "c="@ + conn_str(c), SdpType::Media(m) => "m="@ + mline_str(m), SdpType::Timing(x) => "t="@ + timing_str(x), _ => none() }
}
// two readings of one printed attribute
spec fn attr_same(a: SdpAttribute, b: SdpAttribute) -> bool { attr_is(attr_str(a), a) && attr_is(attr_str(a), b) }
spec fn fmts_same(a: SdpFormatList, b: SdpFormatList) -> bool { match (a, b) { (SdpFormatList::Integers(v), SdpFormatList::Integers(w)) => v@ == w@, (SdpFormatList::Strings(v), SdpFormatList::Strings(w)) => strs(v@) == strs(w@), _ => false } }
spec fn mline_same(a: SdpMediaLine, b: SdpMediaLine) -> bool { a.media == b.media && a.port == b.port && a.port_count == b.port_count && a.proto == b.proto && fmts_same(a.formats, b.formats) }
spec fn same(t: SdpType, u: SdpType) -> bool {
    match (t, u) { (SdpType::Attribute(a), SdpType::Attribute(b)) => attr_same(a, b), (SdpType::Bandwidth(a), SdpType::Bandwidth(b)) => a == b, (SdpType::Connection(a), SdpType::Connection(b)) => a == b, (SdpType::Media(a), SdpType::Media(b)) => mline_same(a, b), (SdpType::Timing(a), SdpType::Timing(b)) => a == b, _ => false }
}
proof fn wl_u_bw(t: Seq<Str>, a: SdpBandwidth, b: SdpBandwidth) requires bw_is(t, a), bw_is(t, b) ensures a == b {
    reveal_strlit("AS"); reveal_strlit("CT"); reveal_strlit("TIAS"); assert("AS"@.len() == 2 && "CT"@.len() == 2 && "TIAS"@.len() == 4 && "AS"@[0] == 'A' && "CT"@[0] == 'C');
    match (a, b) { (SdpBandwidth::Unknown(x, m), SdpBandwidth::Unknown(y, n)) => { assert(string_of(x@) == string_of(y@)); assert(x == y); }, _ => {} }
}
proof fn wl_u_conn(t: Seq<Str>, a: SdpConnection, b: SdpConnection) requires conn_is(t, a), conn_is(t, b) ensures a == b {}
proof fn wl_u_timing(t: Seq<Str>, a: SdpTiming, b: SdpTiming) requires timing_is(t, a), timing_is(t, b) ensures a == b {}
proof fn wl_u_origin(t: Seq<Str>, a: SdpOrigin, b: SdpOrigin) requires origin_is(t, a), origin_is(t, b) ensures a == b { let (x, y) = (a.username, b.username); assert(string_of(x@) == string_of(y@)); assert(x == y); }
proof fn wl_kw_media(a: SdpMediaValue, b: SdpMediaValue) requires mvalue_kw(a) == mvalue_kw(b) ensures a == b { reveal_strlit("audio"); reveal_strlit("video"); reveal_strlit("application"); assert("audio"@[0] == 'a' && "video"@[0] == 'v' && "application"@[1] == 'p' && "audio"@[1] == 'u'); assert("application"@[0] == 'a'); }
proof fn wl_kw_proto(a: SdpProtocolValue, b: SdpProtocolValue) requires proto_kw(a) == proto_kw(b) ensures a == b {
    reveal_strlit("RTP/AVP"); reveal_strlit("RTP/AVPF"); reveal_strlit("RTP/SAVP"); reveal_strlit("RTP/SAVPF"); reveal_strlit("TCP/DTLS/RTP/SAVP"); reveal_strlit("TCP/DTLS/RTP/SAVPF"); reveal_strlit("UDP/TLS/RTP/SAVP"); reveal_strlit("UDP/TLS/RTP/SAVPF"); reveal_strlit("DTLS/SCTP"); reveal_strlit("UDP/DTLS/SCTP"); reveal_strlit("TCP/DTLS/SCTP");
    let (x, y) = (proto_kw(a), proto_kw(b)); assert("RTP/AVPF"@[4] == 'A' && "RTP/SAVP"@[4] == 'S'); assert("UDP/TLS/RTP/SAVP"@[0] == 'U' && "UDP/DTLS/SCTP"@[0] == 'U' && "TCP/DTLS/SCTP"@[0] == 'T' && "DTLS/SCTP"@[0] == 'D' && "RTP/SAVPF"@[0] == 'R' && "TCP/DTLS/RTP/SAVP"@[0] == 'T' && "TCP/DTLS/RTP/SAVPF"@[0] == 'T' && "UDP/TLS/RTP/SAVPF"@[0] == 'U');
    assert("RTP/AVP"@.len() == 7 && "RTP/AVPF"@.len() == 8 && "RTP/SAVP"@.len() == 8 && "RTP/SAVPF"@.len() == 9 && "TCP/DTLS/RTP/SAVP"@.len() == 17 && "TCP/DTLS/RTP/SAVPF"@.len() == 18 && "UDP/TLS/RTP/SAVP"@.len() == 16 && "UDP/TLS/RTP/SAVPF"@.len() == 17 && "DTLS/SCTP"@.len() == 9 && "UDP/DTLS/SCTP"@.len() == 13 && "TCP/DTLS/SCTP"@.len() == 13);
}
proof fn wl_u_mline(t: Seq<Str>, a: SdpMediaLine, b: SdpMediaLine) requires mline_is(t, a), mline_is(t, b) ensures mline_same(a, b) {
    wl_kw_media(a.media, b.media); wl_kw_proto(a.proto, b.proto);
    match (a.formats, b.formats) { (SdpFormatList::Integers(v), SdpFormatList::Integers(w)) => { assert forall|i: int| 0 <= i < v@.len() implies v@[i] == w@[i] by { assert(v@[i] as int == uint_val(t[i + 3])); assert(w@[i] as int == uint_val(t[i + 3])); } assert(v@ =~= w@); }, _ => {} }
}
// a line written as type letter, '=', value
proof fn wl_form(k: Str, q: Str)
    requires k.len() == 1, small(k), k[0] != '=', nl(q), solid(q)
    ensures ({ let t = k + seq!['='] + q; line_form(t) && line_type(t) == k && trim(line_val(t)) == q && line_val(t) == q && !blank(t) && nl(t) })
{
    let c = seq!['=']; let t = k + c + q; rt_small(k); assert(!is_ws(k[0])); rt_find(t, '=', 1); assert(t[1] == '='); assert(t.contains('='));
    assert(t.subrange(0, 1) =~= k); assert(line_val(t) =~= q); rt_trim_id(q); rt_trim_id(k); assert(line_head(t) == k); lemma_blen_ascii(k); assert(t[0] == k[0] && t.last() == q.last()); rt_trim_id(t); assert(trim(t) == t);
    assert(nl(k)) by { assert forall|i: int| 0 <= i < k.len() implies #[trigger] k[i] != '\n' by { assert(i == 0); assert(is_ws('\n')); } } broadcast use nl_add; assert(nl(c));
}
proof fn wl_keys() ensures "a="@ == "a"@ + seq!['='], "b="@ == "b"@ + seq!['='], "c="@ == "c"@ + seq!['='], "m="@ == "m"@ + seq!['='], "o="@ == "o"@ + seq!['='], "s="@ == "s"@ + seq!['='], "t="@ == "t"@ + seq!['='], "v="@ == "v"@ + seq!['='], small("a"@), small("b"@), small("c"@), small("m"@), small("o"@), small("s"@), small("t"@), small("v"@), "a"@.len() == 1, "b"@.len() == 1, "c"@.len() == 1, "m"@.len() == 1, "o"@.len() == 1, "s"@.len() == 1, "t"@.len() == 1, "v"@.len() == 1, "a"@[0] != '=', "b"@[0] != '=', "c"@[0] != '=', "m"@[0] != '=', "o"@[0] != '=', "s"@[0] != '=', "t"@[0] != '=', "v"@[0] != '=' {
    reveal_strlit("a"); reveal_strlit("b"); reveal_strlit("c"); reveal_strlit("m"); reveal_strlit("o"); reveal_strlit("s"); reveal_strlit("t"); reveal_strlit("v"); reveal_strlit("a="); reveal_strlit("b="); reveal_strlit("c="); reveal_strlit("m="); reveal_strlit("o="); reveal_strlit("s="); reveal_strlit("t="); reveal_strlit("v=");
    assert("a="@ =~= "a"@ + seq!['=']); assert("b="@ =~= "b"@ + seq!['=']); assert("c="@ =~= "c"@ + seq!['=']); assert("m="@ =~= "m"@ + seq!['=']); assert("o="@ =~= "o"@ + seq!['=']); assert("s="@ =~= "s"@ + seq!['=']); assert("t="@ =~= "t"@ + seq!['=']); assert("v="@ =~= "v"@ + seq!['=']);
}
// what a line with this text means is what was printed
spec fn back(s: Str, t: SdpType) -> bool { line_ok(s) && !blank(s) && nl(s) && forall|y: SdpType| #[trigger] line_means(s, y) ==> same(t, y) }
proof fn wl_attr(a: SdpAttribute) //# C10
    requires src_attr(a), !excluded(a) ensures back(bt(SdpType::Attribute(a)), SdpType::Attribute(a))
{
    let v = choose|v: Str| #[trigger] s_attr(a, v); ls_attr(v, a); let q = attr_str(a); wl_keys(); ws_types(); wl_form("a"@, q); let s = bt(SdpType::Attribute(a)); assert(s =~= "a"@ + seq!['='] + q);
    assert forall|y: SdpType| #[trigger] line_means(s, y) implies same(SdpType::Attribute(a), y) by {}
}
proof fn wl_bw(b: SdpBandwidth) //# C10
    requires src_bw(b) ensures back(bt(SdpType::Bandwidth(b)), SdpType::Bandwidth(b))
{
    let v = choose|v: Str| #[trigger] s_bw(b, v); ls_bw(v, b); let q = bw_str(b); wl_keys(); ws_types(); wl_form("b"@, q); let s = bt(SdpType::Bandwidth(b)); assert(s =~= "b"@ + seq!['='] + q);
    assert forall|y: SdpType| #[trigger] line_means(s, y) implies same(SdpType::Bandwidth(b), y) by { match y { SdpType::Bandwidth(d) => wl_u_bw(split_char(q, ':'), b, d), _ => {} } }
}
proof fn wl_conn(c: SdpConnection) //# C10
    requires src_conn(c) ensures back(bt(SdpType::Connection(c)), SdpType::Connection(c))
{
    let v = choose|v: Seq<Str>| #[trigger] conn_ok(v) && conn_is(v, c) && toks(v); ls_conn(v, c); let q = conn_str(c); wl_keys(); ws_types(); wl_form("c"@, q); let s = bt(SdpType::Connection(c)); assert(s =~= "c"@ + seq!['='] + q);
    assert forall|y: SdpType| #[trigger] line_means(s, y) implies same(SdpType::Connection(c), y) by { match y { SdpType::Connection(d) => wl_u_conn(split_ws(q), c, d), _ => {} } }
}
proof fn wl_media(m: SdpMediaLine) //# C10
    requires src_mline(m) ensures back(bt(SdpType::Media(m)), SdpType::Media(m))
{
    let v = choose|v: Seq<Str>| #[trigger] mtokens_ok(v) && mline_is(v, m) && toks(v); ls_mline(v, m); let q = mline_str(m); wl_keys(); ws_types(); wl_form("m"@, q); let s = bt(SdpType::Media(m)); assert(s =~= "m"@ + seq!['='] + q);
    assert forall|y: SdpType| #[trigger] line_means(s, y) implies same(SdpType::Media(m), y) by { match y { SdpType::Media(d) => wl_u_mline(split_ws(q), m, d), _ => {} } }
}
proof fn wl_timing(x: SdpTiming) //# C10
    ensures back(bt(SdpType::Timing(x)), SdpType::Timing(x))
{
    ls_timing(x); let q = timing_str(x); wl_keys(); ws_types(); wl_form("t"@, q); let s = bt(SdpType::Timing(x)); assert(s =~= "t"@ + seq!['='] + q);
    assert forall|y: SdpType| #[trigger] line_means(s, y) implies same(SdpType::Timing(x), y) by { match y { SdpType::Timing(d) => wl_u_timing(split_ws(q), x, d), _ => {} } }
}
proof fn wl_line(t: SdpType) requires src_type(t), !excl_line(t) ensures back(bt(t), t) {
    match t { SdpType::Attribute(a) => wl_attr(a), SdpType::Bandwidth(b) => wl_bw(b), SdpType::Connection(c) => wl_conn(c), SdpType::Media(m) => wl_media(m), SdpType::Timing(x) => wl_timing(x), _ => {} }
}
// the first three lines
proof fn wl_v() ensures ({ let s = "v="@ + dec(0); line_ok(s) && !blank(s) && nl(s) && forall|y: SdpType| #[trigger] line_means(s, y) ==> y is Version }) {
    let q = dec(0); rt_dec(0, u64::MAX as int); assert(solid(q)) by { assert(tok(q)); } nl_nows(q); wl_keys(); ws_types(); wl_form("v"@, q); let s = "v="@ + q; assert(s =~= "v"@ + seq!['='] + q);
}
proof fn wl_o(o: SdpOrigin) //# C10
    requires src_origin(o) ensures ({ let s = "o="@ + origin_str(o); line_ok(s) && !blank(s) && nl(s) && forall|y: SdpType| #[trigger] line_means(s, y) ==> y == SdpType::Origin(o) })
{
    let v = choose|v: Seq<Str>| #[trigger] origin_ok(v) && origin_is(v, o) && toks(v); ls_origin(v, o); let q = origin_str(o); wl_keys(); ws_types(); wl_form("o"@, q); let s = "o="@ + q; assert(s =~= "o"@ + seq!['='] + q);
    assert forall|y: SdpType| #[trigger] line_means(s, y) implies y == SdpType::Origin(o) by { match y { SdpType::Origin(d) => wl_u_origin(split_ws(q), o, d), _ => {} } }
}
spec fn name_str(n: Option<String>) -> Str { match n { Some(s) => s@, None => " "@ } }
spec fn name_is(n: Option<String>, t: Str) -> bool { match n { None => trim(t).len() == 0, Some(x) => trim(t).len() > 0 && x@ == trim(t) } }
proof fn wl_s(n: Option<String>) //# C10
    requires src_name(n) ensures ({ let s = "s="@ + name_str(n); line_ok(s) && !blank(s) && nl(s) && forall|y: SdpType| #[trigger] line_means(s, y) ==> y is Session && forall|m: Option<String>| #[trigger] name_is(m, (y->Session_0)@) ==> m == n })
{
    let q = name_str(n); wl_keys(); ws_types(); let s = "s="@ + q; assert(s =~= "s"@ + seq!['='] + q); let k = "s"@;
    match n {
        Some(z) => { rt_text(q); wl_form(k, q); },
        None => {
            reveal_strlit(" "); assert(q =~= seq![' ']); assert(is_ws(' ')); rt_small(k); rt_find(s, '=', 1); assert(s[1] == '='); assert(s.contains('=')); assert(s.subrange(0, 1) =~= k); assert(line_val(s) =~= q); assert(!is_ws(k[0])); rt_trim_id(k); assert(line_head(s) == k); lemma_blen_ascii(k); assert(to_lower(k) == k);
            let p = s.drop_last(); assert(p =~= k + seq!['=']); assert(s[0] == k[0]); assert(trim_start(s) == s); assert(s.last() == ' '); assert(trim_end(s) == trim_end(p)); assert(!is_ws('=')); assert(p.last() == '='); assert(trim_end(p) == p); assert(trim(s).len() == 2);
            assert(q.drop_first().len() == 0); assert(trim_start(q) == trim_start(q.drop_first())); assert(trim(q).len() == 0);
            assert(nl(s)) by { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '\n' by { if i == 0 { assert(s[i] == k[0]); assert(is_ws('\n')); } } }
        }
    }
    assert forall|y: SdpType| #[trigger] line_means(s, y) implies y is Session && forall|m: Option<String>| #[trigger] name_is(m, (y->Session_0)@) ==> m == n by {
        assert forall|m: Option<String>| #[trigger] name_is(m, (y->Session_0)@) implies m == n by { match (m, n) { (Some(a), Some(b)) => { rt_trim_id(q); assert(string_of(a@) == string_of(b@)); assert(a == b); }, _ => {} } if n is Some { rt_trim_id(q); } }
    }
}
