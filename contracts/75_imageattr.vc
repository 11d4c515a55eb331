@note image attributes (a=imageattr)
@raw
// ---------------------------------------------------------------- imageattr
// texts are shorter than 2^31 characters, so that the bracket counter (i32) cannot overflow
axiom fn ax_text_size(s: &str) ensures s@.len() < i32::MAX;
proof fn lemma_split_count(s: Str, c: char) ensures split_char(s, c).len() <= s.len() + 1 decreases s.len() {
    lemma_find_char(s, c);
    let i = find_char(s, c);
    if 0 <= i < s.len() { lemma_split_count(s.subrange(i + 1, s.len() as int), c); }
}
// pieces are glued together until the brackets are balanced
struct IaTok { done: Seq<Str>, cur: Seq<Str>, depth: int }
spec fn ia_part(st: IaTok, p: Str, sep: Str) -> IaTok {
    let d = st.depth + (if p.contains('[') { 1int } else { 0 }) - (if p.contains(']') { 1int } else { 0 });
    if d == 0 { IaTok { done: st.done.push(join(st.cur.push(p), sep)), cur: Seq::empty(), depth: 0 } } else { IaTok { done: st.done, cur: st.cur.push(p), depth: d } }
}
spec fn ia_parts(v: Seq<Str>, n: int, sep: Str) -> IaTok decreases n {
    if n <= 0 { IaTok { done: Seq::empty(), cur: Seq::empty(), depth: 0 } } else { ia_part(ia_parts(v, n - 1, sep), v[n - 1], sep) }
}
spec fn ia_tokens(s: Str, c: char) -> Seq<Str> {
    let v = split_char(s, c); let st = ia_parts(v, v.len() as int, seq![c]);
    if st.cur.len() > 0 { st.done.push(join(st.cur, seq![c])) } else { st.done }
}
@fn parse_imageattr_tokens
@params to_parse, separator
@lets tokens, open_braces_counter, current_tokens
@ens C08: strs(r@) == ia_tokens(to_parse@, separator)
@at start: let ghost v = split_char(to_parse@, separator); proof { ax_text_size(to_parse); lemma_split_count(to_parse@, separator); }
@at after:current_tokens: proof { assert(strs(tokens@) =~= Seq::<Str>::empty()); assert(strs(current_tokens@) =~= Seq::<Str>::empty()); }
@loop 0
@inv *: rstrs($src) == v
@inv *: ia_parts(v, $n as int, seq![separator]) == (IaTok { done: strs(tokens@), cur: strs(current_tokens@), depth: open_braces_counter as int }) && -$n <= open_braces_counter <= $n
@at lb0: let ghost t0 = strs(tokens@); let ghost c0 = strs(current_tokens@); proof { assert($src0[$n0 - 1] == token); assert(token@ == v[$n0 - 1]); }
@at le0: proof { assert(strs(current_tokens@) =~= c0.push(token@) || strs(current_tokens@) =~= Seq::<Str>::empty()); assert(strs(tokens@) =~= t0 || strs(tokens@) =~= t0.push(join(c0.push(token@), seq![separator]))); }
@at tail: proof { let st = ia_parts(v, v.len() as int, seq![separator]); assert(strs(tokens@) =~= st.done || strs(tokens@) =~= st.done.push(join(st.cur, seq![separator]))); }
@raw
spec fn braced(s: Str) -> bool { s.len() >= 2 && s[0] == '[' && s.last() == ']' }
spec fn inner(s: Str) -> Str { s.subrange(1, s.len() - 1) }
spec fn open_br(s: Str) -> bool { s.len() > 0 && s[0] == '[' }
proof fn lemma_open(s: Str) ensures has_prefix(s, seq!['[']) == open_br(s), has_suffix(s, seq![']']) == (s.len() > 0 && s.last() == ']') {
    if s.len() > 0 { assert(s.subrange(0, 1) =~= seq![s[0]]); assert(s.subrange(s.len() - 1, s.len() as int) =~= seq![s.last()]); assert(seq![s[0]][0] == s[0]); assert(seq![s.last()][0] == s.last()); assert(seq!['['][0] == '[' && seq![']'][0] == ']'); }
}
@fn parse_imagettr_braced_token
@params to_parse
@ens C08: match r { Some(t) => braced(to_parse@) && t@ == inner(to_parse@), None => !braced(to_parse@) }
@at start: proof { let s = to_parse@; lemma_open(s); if s.len() > 0 && s.last() == ']' { lemma_cut_last(s); } if open_br(s) { lemma_cut_head(s, 1); } }
@raw
spec fn u32s_ok(v: Seq<Str>) -> bool { forall|i: int| 0 <= i < v.len() ==> uint_ok(#[trigger] v[i], u32::MAX as int) }
spec fn u32s_are(v: Seq<Str>, r: Seq<u32>) -> bool { r.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] r[i]) as int == uint_val(v[i]) }
spec fn xy_ok(s: Str) -> bool {
    if open_br(s) { braced(s) && if s.contains(':') { let p = split_char(inner(s), ':'); (p.len() == 2 || p.len() == 3) && u32s_ok(p) } else { let p = split_char(inner(s), ','); p.len() >= 2 && u32s_ok(p) } }
    else { uint_ok(s, u32::MAX as int) }
}
spec fn xy_is(s: Str, x: SdpAttributeImageAttrXyRange) -> bool {
    if open_br(s) && s.contains(':') {
        let p = split_char(inner(s), ':');
        match x { SdpAttributeImageAttrXyRange::Range(lo, hi, step) => lo == uint_val(p[0]) && hi == uint_val(p.last()) && (match step { None => p.len() == 2, Some(k) => p.len() == 3 && k == uint_val(p[1]) }), _ => false }
    } else {
        match x { SdpAttributeImageAttrXyRange::DiscreteValues(v) => if open_br(s) { u32s_are(split_char(inner(s), ','), v@) } else { v@.len() == 1 && v@[0] == uint_val(s) }, _ => false }
    }
}
@fn parse_image_attr_xyrange
@params to_parse
@lets value_tokens, range_tokens, values
@ens C08: r is Ok <==> xy_ok(to_parse@)
@ens C08: r matches Ok(x) ==> xy_is(to_parse@, x)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@cl 0 |__x: &str| -> (o: Result<u32, ParseIntError>)
@clghost |x: &str, o: Result<u32, ParseIntError>| (o is Ok <==> uint_ok(x@, u32::MAX as int)) && (o matches Ok(n) ==> n == uint_val(x@))
@clens (o is Ok <==> uint_ok(__x@, u32::MAX as int)) && (o matches Ok(n) ==> n == uint_val(__x@))
@at start: proof { lemma_open(to_parse@); }
@at after:value_tokens: let ghost p = split_char(inner(to_parse@), ','); let ghost q = split_char(inner(to_parse@), ':');
@raw
// ---- sample and picture aspect ratios
enum SarV { Range(f32, f32), Vals(Seq<f32>) }
spec fn sar_v(x: SdpAttributeImageAttrSRange) -> SarV { match x { SdpAttributeImageAttrSRange::Range(a, b) => SarV::Range(a, b), SdpAttributeImageAttrSRange::DiscreteValues(v) => SarV::Vals(v@) } }
spec fn osar(x: Option<SdpAttributeImageAttrSRange>) -> Option<SarV> { match x { Some(x) => Some(sar_v(x)), None => None } }
spec fn opar(x: Option<SdpAttributeImageAttrPRange>) -> Option<(f32, f32)> { match x { Some(x) => Some((x.min, x.max)), None => None } }
spec fn f32s_ok(v: Seq<Str>) -> bool { forall|i: int| 0 <= i < v.len() ==> f32_ok(#[trigger] v[i]) }
spec fn f32s(v: Seq<Str>) -> Seq<f32> { v.map_values(|s: Str| f32_of(s)) }
// each value is not below the one before; the first not below 0 (a NaN compares as neither)
spec fn ascending(v: Seq<f32>, n: int) -> bool { forall|i: int| 0 <= i < n ==> !ge32(if i == 0 { 0.0f32 } else { v[i - 1] }, #[trigger] v[i]) }
spec fn ps_range(s: Str) -> Option<(f32, f32)> {
    let p = split_char(s, '-');
    if p.len() == 2 && f32_ok(p[0]) && f32_ok(p[1]) && !ge32(f32_of(p[0]), f32_of(p[1])) { Some((f32_of(p[0]), f32_of(p[1]))) } else { None }
}
spec fn sar_of(s: Str) -> Option<SarV> {
    if open_br(s) {
        if !braced(s) { None }
        else if s.contains('-') { match ps_range(inner(s)) { Some(x) => Some(SarV::Range(x.0, x.1)), None => None } }
        else if s.contains(',') { let p = split_char(inner(s), ','); if f32s_ok(p) && p.len() >= 2 && ascending(f32s(p), p.len() as int) { Some(SarV::Vals(f32s(p))) } else { None } }
        else { None }
    } else if f32_ok(s) { Some(SarV::Vals(seq![f32_of(s)])) } else { None }
}
struct IaV { sar: Option<SarV>, par: Option<(f32, f32)>, q: Option<f32> }
spec fn after_eq(t: Str, k: Str) -> Str { t.subrange(k.len() as int, t.len() as int) }
spec fn ia_step(a: IaV, t: Str) -> Option<IaV> {
    if has_prefix(t, "sar="@) { match sar_of(after_eq(t, "sar="@)) { Some(x) => Some(IaV { sar: Some(x), ..a }), None => None } }
    else if has_prefix(t, "par="@) { let v = after_eq(t, "par="@); match ps_range(inner(v)) { Some(x) => if braced(v) { Some(IaV { par: Some(x), ..a }) } else { None }, None => None } }
    else if has_prefix(t, "q="@) { let v = after_eq(t, "q="@); if f32_ok(v) { Some(IaV { q: Some(f32_of(v)), ..a }) } else { None } }
    else { Some(a) }
}
spec fn ia_fold(v: Seq<Str>, n: int) -> Option<IaV> decreases n {
    if n <= 2 { Some(IaV { sar: None, par: None, q: None }) } else { match ia_fold(v, n - 1) { Some(a) => ia_step(a, v[n - 1]), None => None } }
}
proof fn lemma_ia_none(v: Seq<Str>, k: int, n: int) requires k <= n, ia_fold(v, k) is None ensures ia_fold(v, n) is None decreases n - k { if k < n { lemma_ia_none(v, k, n - 1); } }
spec fn iaset_ok(s: Str) -> bool {
    let v = ia_tokens(s, ',');
    v.len() >= 2 && has_prefix(v[0], "x="@) && xy_ok(after_eq(v[0], "x="@)) && has_prefix(v[1], "y="@) && xy_ok(after_eq(v[1], "y="@)) && ia_fold(v, v.len() as int) is Some
}
spec fn iaset_is(s: Str, x: SdpAttributeImageAttrSet) -> bool {
    let v = ia_tokens(s, ',');
    xy_is(after_eq(v[0], "x="@), x.x) && xy_is(after_eq(v[1], "y="@), x.y) && ia_fold(v, v.len() as int) == Some(IaV { sar: osar(x.sar), par: opar(x.par), q: x.q })
}
proof fn lemma_cut2(s: Str, k: Str) requires k.len() == 2, ascii(k), has_prefix(s, k) ensures bcut(s, 2, 2) { assert(s.subrange(0, 2) =~= k); lemma_cut_head(s, 2); }
@fn parse_image_attr_set
@attr #isolate
@attr #noreveal
@params to_parse
@lets tokens, x_token, x, y_token, y, sar, par, q, parse_ps_range, minmax_pair, min, max, sar_values, range, values, last_value, par_values, range
@ens C08: r is Ok <==> iaset_ok(to_parse@)
@ens C08: r matches Ok(x) ==> iaset_is(to_parse@, x)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@cl 0 |resolution_range: &str| -> (o: Result<(f32, f32), SdpParserInternalError>)
@clens (match o { Ok(x) => ps_range(resolution_range@) == Some(x), Err(e) => ps_range(resolution_range@) is None && !(e is Unsupported) })
@cl 1 |__x: &str| -> (o: Result<f32, ParseFloatError>)
@clghost |x: &str, o: Result<f32, ParseFloatError>| (o is Ok <==> f32_ok(x@)) && (o matches Ok(n) ==> n == f32_of(x@))
@clens (o is Ok <==> f32_ok(__x@)) && (o matches Ok(n) ==> n == f32_of(__x@))
@at after:tokens: let ghost v = ia_tokens(to_parse@, ','); proof { assert(strs(tokens@) == v); }
@at after:x_token: proof { assert(x_token@ == v[0]); reveal_strlit("x="); if has_prefix(v[0], "x="@) { lemma_cut2(v[0], "x="@); } }
@at after:y_token: proof { assert(y_token@ == v[1]); reveal_strlit("y="); if has_prefix(v[1], "y="@) { lemma_cut2(v[1], "y="@); } }
@loop 0
@lens $n == $src.len()
@inv *: v == ia_tokens(to_parse@, ',') && $src.len() == v.len() - 2 && forall|i: int| 0 <= i < $src.len() ==> (#[trigger] $src[i])@ == v[i + 2]
@inv *: has_prefix(v[0], "x="@) && xy_ok(after_eq(v[0], "x="@)) && has_prefix(v[1], "y="@) && xy_ok(after_eq(v[1], "y="@))
@inv *: forall|s: &str, o: Result<(f32, f32), SdpParserInternalError>| #[trigger] parse_ps_range.ensures((s,), o) ==> (match o { Ok(x) => ps_range(s@) == Some(x), Err(e) => ps_range(s@) is None && !(e is Unsupported) })
@inv *: forall|s: &str| #[trigger] parse_ps_range.requires((s,))
@inv *: ia_fold(v, $n + 2) == Some(IaV { sar: osar(sar), par: opar(par), q: q })
@at lb0: proof { assert($src0[$n0 - 1] == current_token); assert(current_token@ == v[$n0 + 1]); let t = current_token@; lemma_open(after_eq(t, "sar="@)); lemma_open(after_eq(t, "par="@)); if ia_fold(v, $n0 + 2) is None { lemma_ia_none(v, $n0 + 2, v.len() as int); } }
@at after:values: let ghost pv = split_char(inner(value_token@), ','); proof { assert(values@ =~= f32s(pv)); assert(f32s_ok(pv)); }
@loop 1
@lens $n == $src.len()
@inv *: ascending(values@, values@.len() as int) || !iaset_ok(to_parse@)
@inv *: $src.len() == values@.len() && forall|i: int| 0 <= i < $src.len() ==> *(#[trigger] $src[i]) == values@[i]
@inv *: ascending(values@, $n as int) && last_value == (if $n == 0 { 0.0f32 } else { values@[$n - 1] })
@at lb1: proof { assert($src1[$n1 - 1] == value); assert(*value == values@[$n1 - 1]); }
@raw
// ---- lists of sets: "*" or sets as long as they start with '['
spec fn ias_ok(s: Str) -> bool { braced(s) && iaset_ok(inner(s)) }
spec fn run_len(t: Seq<Str>) -> nat decreases t.len() { if t.len() > 0 && open_br(t[0]) { 1 + run_len(t.drop_first()) } else { 0 } }
proof fn lemma_run_len(t: Seq<Str>) ensures run_len(t) <= t.len(), forall|i: int| 0 <= i < run_len(t) ==> open_br(#[trigger] t[i]), run_len(t) < t.len() ==> !open_br(t[run_len(t) as int]) decreases t.len() {
    if t.len() > 0 && open_br(t[0]) { let u = t.drop_first(); lemma_run_len(u); assert forall|i: int| 0 <= i < run_len(t) implies open_br(#[trigger] t[i]) by { if i > 0 { assert(u[i - 1] == t[i]); } } }
}
proof fn lemma_run_is(t: Seq<Str>, n: int) requires 0 <= n <= t.len(), forall|i: int| 0 <= i < n ==> open_br(#[trigger] t[i]), n < t.len() ==> !open_br(t[n]) ensures run_len(t) == n decreases n {
    if n > 0 { assert(open_br(t[0])); let u = t.drop_first(); assert forall|i: int| 0 <= i < n - 1 implies open_br(#[trigger] u[i]) by { assert(u[i] == t[i + 1]); } lemma_run_is(u, n - 1); }
}
spec fn il_len(t: Seq<Str>) -> int { if t[0] == "*"@ { 1 } else { 1 + run_len(t.drop_first()) as int } }
spec fn ias_all(t: Seq<Str>, n: int) -> bool { forall|i: int| 0 <= i < n ==> ias_ok(#[trigger] t[i]) }
spec fn il_ok(t: Seq<Str>) -> bool { t.len() > 0 && (t[0] == "*"@ || ias_all(t, il_len(t))) }
spec fn sets_are(t: Seq<Str>, v: Seq<SdpAttributeImageAttrSet>) -> bool { forall|i: int| 0 <= i < v.len() ==> iaset_is(inner(t[i]), #[trigger] v[i]) }
spec fn il_is(t: Seq<Str>, x: SdpAttributeImageAttrSetList) -> bool {
    match x { SdpAttributeImageAttrSetList::Wildcard => t[0] == "*"@, SdpAttributeImageAttrSetList::Sets(v) => t[0] != "*"@ && v@.len() == il_len(t) && sets_are(t, v@) }
}
@fn parse_image_attr_set_list
@params tokens
@lets parse_set, sets
@ens C08: r is Ok <==> il_ok(strs(old(tokens)@))
@ens C08: r matches Ok(x) ==> il_is(strs(old(tokens)@), x) && il_len(strs(old(tokens)@)) <= old(tokens)@.len() && strs(final(tokens)@) == strs(old(tokens)@).subrange(il_len(strs(old(tokens)@)), old(tokens)@.len() as int)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@cl 0 |set_token: &str| -> (o: Result<SdpAttributeImageAttrSet, SdpParserInternalError>)
@clens (match o { Ok(x) => ias_ok(set_token@) && iaset_is(inner(set_token@), x), Err(e) => !ias_ok(set_token@) && !(e is Unsupported) })
@at start: let ghost t = strs(tokens@); let ghost z = tokens@; proof { if t.len() > 0 { lemma_run_len(t.drop_first()); assert(forall|i: int| 0 <= i < t.len() - 1 ==> #[trigger] t.drop_first()[i] == t[i + 1]); } }
@at after:sets: proof { assert(tokens@ =~= z.subrange(1, z.len() as int)); assert(z[0]@ == t[0]); }
@loop 0
@inv *: 1 <= sets@.len() <= il_len(t) && t.len() > 0 && t[0] != "*"@ && tokens@ == z.subrange(sets@.len() as int, z.len() as int) && il_len(t) <= t.len()
@inv *: sets_are(t, sets@) && ias_all(t, sets@.len() as int)
@lens sets@.len() == il_len(t)
@dec tokens@.len()
@at lb0: let ghost n = sets@.len() as int; proof { if n < t.len() { assert(z[n]@ == t[n]); assert(tokens@[0] == z[n]); lemma_open(t[n]); assert(t.drop_first()[n - 1] == t[n]); assert(tokens@.drop_first() =~= z.subrange(n + 1, z.len() as int)); } }
@raw
spec fn imageattr_rest(t: Seq<Str>) -> Seq<Str> { let u = t.subrange(2, t.len() as int); u.subrange(il_len(u), u.len() as int) }
spec fn imageattr_ok(t: Seq<Str>) -> bool {
    &&& t.len() >= 3 && ptype_ok(t[0]) && sdirn_ok(t[1]) && il_ok(t.subrange(2, t.len() as int))
    &&& { let r = imageattr_rest(t); r.len() > 0 ==> sdirn_ok(r[0]) && r[0] != t[1] && il_ok(r.drop_first()) && il_len(r.drop_first()) == r.len() - 1 }
}
spec fn imageattr_is(t: Seq<Str>, x: SdpAttributeImageAttr) -> bool {
    let (a, b) = if t[1] == "send"@ { (x.send, x.recv) } else { (x.recv, x.send) };
    let r = imageattr_rest(t);
    ptype_is(t[0], x.pt) && il_is(t.subrange(2, t.len() as int), a) && (if r.len() > 0 { il_is(r.drop_first(), b) } else { b matches SdpAttributeImageAttrSetList::Sets(v) && v@.len() == 0 })
}
@fn parse_image_attr
@params to_parse
@lets tokens, pt, first_direction, first_set_list, second_set_list
@ens C08: r is Ok <==> imageattr_ok(ia_tokens(to_parse@, ' '))
@ens C08: r matches Ok(a) ==> a matches SdpAttribute::ImageAttr(x) && imageattr_is(ia_tokens(to_parse@, ' '), x)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@at start: proof { reveal_strlit("send"); reveal_strlit("recv"); assert("send"@[0] != "recv"@[0]); }
@at after:tokens: let ghost t = ia_tokens(to_parse@, ' '); proof { assert(strs(tokens@) == t); }
@at after:first_direction: proof { assert(strs(tokens@) =~= t.subrange(2, t.len() as int)); }
@at after:first_set_list: let ghost rest = imageattr_rest(t); proof { assert(strs(tokens@) == rest); }
@raw
