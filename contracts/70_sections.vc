@note how lines are put together into sessions and media sections; the final consistency check
@raw
// ---------------------------------------------------------------- consistency rules
#[verifier::opaque]
spec fn has_kind(s: Seq<SdpAttribute>, t: SdpAttributeType) -> bool { exists|i: int| 0 <= i < s.len() && kind(#[trigger] s[i]) == t }
spec fn fmt_listed(f: SdpFormatList, pt: u16) -> bool {
    match f { SdpFormatList::Integers(v) => v@.contains(pt as u32), SdpFormatList::Strings(v) => strs(v@).contains(dec(pt as int)) }
}
#[verifier::opaque]
spec fn rid_fmts_ok(m: SdpMedia) -> bool {
    forall|i: int, j: int| #![trigger (m.attribute@[i]->Rid_0).formats@[j]]
        0 <= i < m.attribute@.len() && m.attribute@[i] is Rid && 0 <= j < (m.attribute@[i]->Rid_0).formats@.len()
        ==> fmt_listed(m.media.formats, (m.attribute@[i]->Rid_0).formats@[j])
}
spec fn is_send(d: SdpSingleDirection) -> bool { d is Send }
#[verifier::opaque]
spec fn rid_declared(s: Seq<SdpAttribute>, id: Str, send: bool) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Rid && (s[i]->Rid_0).id@ == id && is_send((s[i]->Rid_0).direction) == send
}
#[verifier::opaque]
spec fn vers_ok(s: Seq<SdpAttribute>, l: Seq<SdpAttributeSimulcastVersion>, send: bool) -> bool {
    forall|i: int, j: int| #![trigger l[i].ids@[j]] 0 <= i < l.len() && 0 <= j < l[i].ids@.len() ==> rid_declared(s, l[i].ids@[j].id@, send)
}
// the section's simulcast is its first simulcast attribute
#[verifier::opaque]
spec fn sim_ok(s: Seq<SdpAttribute>) -> bool {
    forall|k: int| #![trigger s[k]] 0 <= k < s.len() && s[k] is Simulcast && (forall|j: int| 0 <= j < k ==> !(#[trigger] s[j] is Simulcast))
        ==> vers_ok(s, (s[k]->Simulcast_0).send@, true) && vers_ok(s, (s[k]->Simulcast_0).receive@, false)
}
spec fn media_sane(m: SdpMedia) -> bool {
    &&& has_kind(m.attribute@, SdpAttributeType::RtcpMuxOnly) ==> has_kind(m.attribute@, SdpAttributeType::RtcpMux)
    &&& rid_fmts_ok(m)
    &&& sim_ok(m.attribute@)
}
spec fn extmap_sane(s: SdpSession) -> bool {
    has_kind(s.attribute@, SdpAttributeType::Extmap) ==> forall|i: int| 0 <= i < s.media@.len() ==> !has_kind((#[trigger] s.media@[i]).attribute@, SdpAttributeType::Extmap)
}
#[verifier::opaque]
spec fn conn_sane(c: Option<SdpConnection>, media: Seq<SdpMedia>) -> bool {
    c is Some || forall|i: int| 0 <= i < media.len() ==> (#[trigger] media[i]).connection is Some
}
spec fn sane(s: SdpSession) -> bool {
    s.timing is Some && conn_sane(s.connection, s.media@) && extmap_sane(s) && forall|i: int| 0 <= i < s.media@.len() ==> media_sane(#[trigger] s.media@[i])
}
// ---------------------------------------------------------------- ghost closures of the check
spec fn has_conn<'a>() -> spec_fn(&'a SdpMedia) -> bool { |m: &'a SdpMedia| m.connection is Some }
spec fn rid_ref<'a>() -> spec_fn(&'a SdpAttribute) -> Option<&'a SdpAttributeRid> { |a: &'a SdpAttribute| match *a { SdpAttribute::Rid(_) => Some(&(a->Rid_0)), _ => None } }
spec fn rid_id<'a, 'b>(send: bool) -> spec_fn(&'b &'a SdpAttributeRid) -> Option<&'a str> { |r: &'b &'a SdpAttributeRid| if is_send(r.direction) == send { Some(str_of(r.id@)) } else { None } }
spec fn rid_fmts<'a, 'b>() -> spec_fn(&'b &'a SdpAttributeRid) -> &'a Vec<u16> { |r: &'b &'a SdpAttributeRid| &r.formats }
spec fn ver_ids<'a>() -> spec_fn(&'a SdpAttributeSimulcastVersion) -> &'a Vec<SdpAttributeSimulcastId> { |v: &'a SdpAttributeSimulcastVersion| &v.ids }
proof fn lemma_somes<T, B>(s: Seq<T>, g: spec_fn(T) -> Option<B>)
    ensures
        forall|j: int| 0 <= j < somes(s, g).len() ==> exists|i: int| 0 <= i < s.len() && g(#[trigger] s[i]) == Some(#[trigger] somes(s, g)[j]),
        forall|i: int| 0 <= i < s.len() && g(#[trigger] s[i]) is Some ==> somes(s, g).contains(g(s[i])->Some_0),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); let p = somes(t, g); let q = somes(s, g);
        lemma_somes(t, g);
        assert forall|j: int| 0 <= j < q.len() implies exists|i: int| 0 <= i < s.len() && g(#[trigger] s[i]) == Some(#[trigger] q[j]) by {
            if j < p.len() { assert(q[j] == p[j]); let i = choose|i: int| 0 <= i < t.len() && g(#[trigger] t[i]) == Some(p[j]); assert(s[i] == t[i]); }
            else { assert(g(s[s.len() - 1]) == Some(q[j])); }
        }
        assert forall|i: int| 0 <= i < s.len() && g(#[trigger] s[i]) is Some implies q.contains(g(s[i])->Some_0) by {
            if i < t.len() { assert(t[i] == s[i]); assert(p.contains(g(t[i])->Some_0)); let k = choose|k: int| 0 <= k < p.len() && p[k] == g(t[i])->Some_0; assert(q[k] == p[k]); }
            else { assert(q[q.len() - 1] == g(s[i])->Some_0); }
        }
    }
}
spec fn in_lists<'a, T, B>(s: Seq<T>, g: spec_fn(T) -> &'a Vec<B>, x: B) -> bool { exists|i: int, j: int| 0 <= i < s.len() && 0 <= j < g(s[i])@.len() && x == #[trigger] g(s[i])@[j] }
spec fn in_refs<'a, B>(q: Seq<&'a B>, x: B) -> bool { exists|k: int| 0 <= k < q.len() && *(#[trigger] q[k]) == x }
proof fn lemma_flat<'a, T, B>(s: Seq<T>, g: spec_fn(T) -> &'a Vec<B>)
    ensures forall|x: B| #![trigger in_refs(flat_refs(s, g), x)] #![trigger in_lists(s, g, x)] in_refs(flat_refs(s, g), x) <==> in_lists(s, g, x),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); let p = flat_refs(t, g); let q = flat_refs(s, g); let l = g(s.last())@; let n = t.len() as int;
        lemma_flat(t, g);
        assert forall|x: B| in_refs(q, x) <==> in_lists(s, g, x) by {
            if in_refs(q, x) {
                let k = choose|k: int| 0 <= k < q.len() && *(#[trigger] q[k]) == x;
                if k < p.len() {
                    assert(*p[k] == x); assert(in_refs(p, x)); assert(in_lists(t, g, x));
                    let (i, j) = choose|i: int, j: int| 0 <= i < t.len() && 0 <= j < g(t[i])@.len() && x == #[trigger] g(t[i])@[j];
                    assert(s[i] == t[i]); assert(x == g(s[i])@[j]);
                } else { assert(*q[k] == l[k - p.len()]); assert(x == g(s[n])@[k - p.len()]); }
            }
            if in_lists(s, g, x) {
                let (i, j) = choose|i: int, j: int| 0 <= i < s.len() && 0 <= j < g(s[i])@.len() && x == #[trigger] g(s[i])@[j];
                if i < n {
                    assert(s[i] == t[i]); assert(x == g(t[i])@[j]); assert(in_lists(t, g, x)); assert(in_refs(p, x));
                    let k = choose|k: int| 0 <= k < p.len() && *(#[trigger] p[k]) == x; assert(*q[k] == x);
                } else { assert(*q[p.len() + j] == x); }
            }
        }
    } else {
        assert forall|x: B| in_refs(flat_refs(s, g), x) <==> in_lists(s, g, x) by {}
    }
}
#[verifier::opaque]
spec fn ids_ok(l: Seq<SdpAttributeSimulcastVersion>, ids: Seq<Str>) -> bool {
    forall|i: int, j: int| #![trigger l[i].ids@[j]] 0 <= i < l.len() && 0 <= j < l[i].ids@.len() ==> ids.contains(l[i].ids@[j].id@)
}
proof fn lemma_has_kind(s: Seq<SdpAttribute>, t: SdpAttributeType, r: Option<&SdpAttribute>)
    requires first_match(refs(s), ref_of_kind(t), r)
    ensures r is Some <==> has_kind(s, t), r matches Some(a) ==> kind(*a) == t
{
    reveal(has_kind);
    if r is Some { let k = choose|k: int| 0 <= k < refs(s).len() && refs(s)[k] == r->Some_0 && ref_of_kind(t)(r->Some_0); assert(kind(s[k]) == t); }
    else { assert forall|i: int| 0 <= i < s.len() implies kind(#[trigger] s[i]) != t by { assert(!ref_of_kind(t)(refs(s)[i])); } }
}
// the ids collected are those of the rids declared for a direction
proof fn lemma_rids(s: Seq<SdpAttribute>, rids: Seq<&SdpAttributeRid>, ids: Seq<&str>, send: bool)
    requires rids == somes(refs(s), rid_ref()), ids == somes(refs(rids), rid_id(send))
    ensures forall|l: Seq<SdpAttributeSimulcastVersion>| #![trigger ids_ok(l, rstrs(ids))] #![trigger vers_ok(s, l, send)] ids_ok(l, rstrs(ids)) <==> vers_ok(s, l, send)
{
    reveal(rid_declared); reveal(ids_ok); reveal(vers_ok);
    lemma_somes(refs(s), rid_ref());
    lemma_somes(refs(rids), rid_id(send));
    assert forall|id: Str| #[trigger] rstrs(ids).contains(id) <==> rid_declared(s, id, send) by {
        if rstrs(ids).contains(id) {
            let j = choose|j: int| 0 <= j < ids.len() && rstrs(ids)[j] == id;
            assert(ids[j]@ == id);
            let i = choose|i: int| 0 <= i < refs(rids).len() && rid_id(send)(#[trigger] refs(rids)[i]) == Some(ids[j]);
            let k = choose|k: int| 0 <= k < refs(s).len() && rid_ref()(#[trigger] refs(s)[k]) == Some(rids[i]);
            assert(s[k] is Rid);
        }
        if rid_declared(s, id, send) {
            let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Rid && (s[k]->Rid_0).id@ == id && is_send((s[k]->Rid_0).direction) == send;
            assert(rid_ref()(refs(s)[k]) is Some);
            let i = choose|i: int| 0 <= i < rids.len() && rids[i] == rid_ref()(refs(s)[k])->Some_0;
            assert(rid_id(send)(refs(rids)[i]) is Some);
            let j = choose|j: int| 0 <= j < ids.len() && ids[j] == rid_id(send)(refs(rids)[i])->Some_0;
            assert(rstrs(ids)[j] == id);
        }
    }
    assert forall|l: Seq<SdpAttributeSimulcastVersion>| ids_ok(l, rstrs(ids)) <==> vers_ok(s, l, send) by {}
}
proof fn lemma_rid_fmts(m: SdpMedia, rids: Seq<&SdpAttributeRid>)
    requires rids == somes(refs(m.attribute@), rid_ref())
    ensures rid_fmts_ok(m) <==> forall|k: int| 0 <= k < flat_refs(refs(rids), rid_fmts()).len() ==> fmt_listed(m.media.formats, *(#[trigger] flat_refs(refs(rids), rid_fmts())[k]))
{
    reveal(rid_fmts_ok);
    let s = m.attribute@; let q = flat_refs(refs(rids), rid_fmts());
    lemma_somes(refs(s), rid_ref());
    lemma_flat(refs(rids), rid_fmts());
    if rid_fmts_ok(m) {
        assert forall|k: int| 0 <= k < q.len() implies fmt_listed(m.media.formats, *(#[trigger] q[k])) by {
            let x = *q[k];
            assert(in_refs(q, x)); assert(in_lists(refs(rids), rid_fmts(), x));
            let (i, j) = choose|i: int, j: int| 0 <= i < refs(rids).len() && 0 <= j < rid_fmts()(refs(rids)[i])@.len() && x == #[trigger] rid_fmts()(refs(rids)[i])@[j];
            assert(rids[i] == rids[i]);
            let a = choose|a: int| 0 <= a < refs(s).len() && rid_ref()(#[trigger] refs(s)[a]) == Some(rids[i]);
            assert(s[a] is Rid); assert((s[a]->Rid_0).formats@[j] == x);
        }
    }
    if forall|k: int| 0 <= k < q.len() ==> fmt_listed(m.media.formats, *(#[trigger] q[k])) {
        assert forall|i: int, j: int| #![trigger (s[i]->Rid_0).formats@[j]] 0 <= i < s.len() && s[i] is Rid && 0 <= j < (s[i]->Rid_0).formats@.len() implies fmt_listed(m.media.formats, (s[i]->Rid_0).formats@[j]) by {
            let x = (s[i]->Rid_0).formats@[j];
            assert(rid_ref()(refs(s)[i]) is Some);
            let a = choose|a: int| 0 <= a < rids.len() && rids[a] == rid_ref()(refs(s)[i])->Some_0;
            assert(rid_fmts()(refs(rids)[a])@[j] == x);
            assert(in_lists(refs(rids), rid_fmts(), x)); assert(in_refs(q, x));
        }
    }
}
proof fn lemma_ver_ids(l: Seq<SdpAttributeSimulcastVersion>, ids: Seq<Str>)
    ensures ids_ok(l, ids) <==> forall|k: int| 0 <= k < flat_refs(refs(l), ver_ids()).len() ==> ids.contains((#[trigger] flat_refs(refs(l), ver_ids())[k]).id@)
{
    reveal(ids_ok);
    let q = flat_refs(refs(l), ver_ids());
    lemma_flat(refs(l), ver_ids());
    if ids_ok(l, ids) {
        assert forall|k: int| 0 <= k < q.len() implies ids.contains((#[trigger] q[k]).id@) by {
            let x = *q[k];
            assert(in_refs(q, x)); assert(in_lists(refs(l), ver_ids(), x));
            let (i, j) = choose|i: int, j: int| 0 <= i < refs(l).len() && 0 <= j < ver_ids()(refs(l)[i])@.len() && x == #[trigger] ver_ids()(refs(l)[i])@[j];
            assert(l[i].ids@[j] == x);
        }
    }
    if forall|k: int| 0 <= k < q.len() ==> ids.contains((#[trigger] q[k]).id@) {
        assert forall|i: int, j: int| #![trigger l[i].ids@[j]] 0 <= i < l.len() && 0 <= j < l[i].ids@.len() implies ids.contains(l[i].ids@[j].id@) by {
            let x = l[i].ids@[j];
            assert(ver_ids()(refs(l)[i])@[j] == x);
            assert(in_lists(refs(l), ver_ids(), x)); assert(in_refs(q, x));
        }
    }
}
proof fn lemma_sim(s: Seq<SdpAttribute>, r: Option<&SdpAttribute>)
    requires first_match(refs(s), ref_of_kind(SdpAttributeType::Simulcast), r)
    ensures
        r is None ==> sim_ok(s),
        r matches Some(a) ==> *a is Simulcast && (sim_ok(s) <==> vers_ok(s, ((*a)->Simulcast_0).send@, true) && vers_ok(s, ((*a)->Simulcast_0).receive@, false)),
{
    reveal(sim_ok);
    let t = SdpAttributeType::Simulcast;
    if r is None { assert forall|i: int| 0 <= i < s.len() implies !(#[trigger] s[i] is Simulcast) by { assert(!ref_of_kind(t)(refs(s)[i])); } }
    else {
        let k = choose|k: int| 0 <= k < refs(s).len() && refs(s)[k] == r->Some_0 && ref_of_kind(t)(r->Some_0) && (forall|i: int| 0 <= i < k ==> !ref_of_kind(t)(#[trigger] refs(s)[i]));
        assert(s[k] is Simulcast);
        assert forall|j: int| 0 <= j < k implies !(#[trigger] s[j] is Simulcast) by { assert(!ref_of_kind(t)(refs(s)[j])); }
    }
}
@fn sanity_check_sdp_session
@params session
@lets make_seq_error, media_cons, rids, recv_rids, send_rids, check_defined_rids
@ens C02: r is Ok <==> sane(*session)
@ens C06: r matches Err(e) ==> e is Sequence
@cl 0 |x: &str| -> (e: SdpParserError)
@clens e is Sequence
@cl 1 |m: &SdpMedia| -> (b: bool)
@clghost has_conn()
@clens b == (m.connection is Some)
@cl 2 |attr: &SdpAttribute| -> (o: Option<&SdpAttributeRid>)
@clghost rid_ref()
@clens o == rid_ref()(attr)
@cl 3 |rid: &&SdpAttributeRid| -> (o: Option<&str>)
@clghost rid_id(false)
@clens o == rid_id(false)(rid)
@cl 4 |rid: &&SdpAttributeRid| -> (o: Option<&str>)
@clghost rid_id(true)
@clens o == rid_id(true)(rid)
@cl 5 |rid: &&SdpAttributeRid| -> (v: &Vec<u16>)
@clghost rid_fmts()
@clens v == rid_fmts()(rid)
@cl 6 |l: &Vec<SdpAttributeSimulcastVersion>, ids: &[&str]| -> (e: Result<(), SdpParserError>)
@clens e is Ok <==> ids_ok(l@, rstrs(ids@))
@clens e matches Err(x) ==> x is Sequence
@cl 7 |x: &SdpAttributeSimulcastVersion| -> (v: &Vec<SdpAttributeSimulcastId>)
@clghost ver_ids()
@clens v == ver_ids()(x)
@loop 0
@inv *: $src == refs(session.media@)
@inv *: forall|i: int| 0 <= i < $n ==> !has_kind((#[trigger] session.media@[i]).attribute@, SdpAttributeType::Extmap)
@loop 1
@inv *: $src == refs(session.media@)
@inv *: forall|i: int| 0 <= i < $n ==> media_sane(#[trigger] session.media@[i])
@loop 2
@inv *: forall|k: int| 0 <= k < $n ==> fmt_listed(msection.media.formats, *(#[trigger] $src[k]))
@loop 3
@inv *: forall|k: int| 0 <= k < $n ==> rstrs(ids@).contains((#[trigger] $src[k]).id@)
@at after:media_cons: proof {
    reveal(conn_sane);
    assert(refs(session.media@).len() == session.media@.len());
    if *media_cons { assert forall|i: int| 0 <= i < session.media@.len() implies (#[trigger] session.media@[i]).connection is Some by { assert(has_conn()(refs(session.media@)[i])); } }
    else if session.connection is None { let i = choose|i: int| 0 <= i < refs(session.media@).len() && !has_conn()(#[trigger] refs(session.media@)[i]); assert(session.media@[i].connection is None); }
    assert(*media_cons || session.connection is Some <==> conn_sane(session.connection, session.media@));
  }
@at lb0: assert(*msection == session.media@[$n0 - 1]);
@at lb1: assert(*msection == session.media@[$n1 - 1]);
    proof {
      assert forall|r: Option<&SdpAttribute>| #[trigger] first_match(refs(msection.attribute@), ref_of_kind(SdpAttributeType::Simulcast), r) implies
        (r is None ==> sim_ok(msection.attribute@)) && (r matches Some(a) ==> *a is Simulcast && (sim_ok(msection.attribute@) <==> vers_ok(msection.attribute@, ((*a)->Simulcast_0).send@, true) && vers_ok(msection.attribute@, ((*a)->Simulcast_0).receive@, false))) by { lemma_sim(msection.attribute@, r); }
    }
@at after:rids: proof { lemma_rid_fmts(*msection, rids@); }
@at after:recv_rids: proof { lemma_rids(msection.attribute@, rids@, recv_rids@, false); }
@at after:send_rids: proof { lemma_rids(msection.attribute@, rids@, send_rids@, true); }
@at lp3: proof { lemma_ver_ids(l@, rstrs(ids@)); }
@at le1: assert(media_sane(*msection));
@raw
// ---------------------------------------------------------------- lines to session and sections
spec fn attrs_of(ls: Seq<SdpLine>) -> Seq<SdpAttribute> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else { match ls.last().sdp_type { SdpType::Attribute(a) => attrs_of(ls.drop_last()).push(a), _ => attrs_of(ls.drop_last()) } }
}
// inside a media section dtls-message lines are dropped
spec fn mattrs_of(ls: Seq<SdpLine>) -> Seq<SdpAttribute> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else { match ls.last().sdp_type { SdpType::Attribute(a) => if a is DtlsMessage { mattrs_of(ls.drop_last()) } else { mattrs_of(ls.drop_last()).push(a) }, _ => mattrs_of(ls.drop_last()) } }
}
spec fn bws_of(ls: Seq<SdpLine>) -> Seq<SdpBandwidth> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else { match ls.last().sdp_type { SdpType::Bandwidth(b) => bws_of(ls.drop_last()).push(b), _ => bws_of(ls.drop_last()) } }
}
spec fn last_conn(ls: Seq<SdpLine>) -> Option<SdpConnection> decreases ls.len() {
    if ls.len() == 0 { None } else { match ls.last().sdp_type { SdpType::Connection(c) => Some(c), _ => last_conn(ls.drop_last()) } }
}
spec fn last_timing(ls: Seq<SdpLine>) -> Option<SdpTiming> decreases ls.len() {
    if ls.len() == 0 { None } else { match ls.last().sdp_type { SdpType::Timing(t) => Some(t), _ => last_timing(ls.drop_last()) } }
}
spec fn or_conn(a: Option<SdpConnection>, b: Option<SdpConnection>) -> Option<SdpConnection> { if a is Some { a } else { b } }
spec fn or_timing(a: Option<SdpTiming>, b: Option<SdpTiming>) -> Option<SdpTiming> { if a is Some { a } else { b } }
spec fn sess_line_ok(l: SdpLine) -> bool {
    match l.sdp_type { SdpType::Attribute(a) => session_ok(a), SdpType::Bandwidth(_) => true, SdpType::Timing(_) => true, SdpType::Connection(_) => true, _ => false }
}
spec fn sess_lines_ok(ls: Seq<SdpLine>) -> bool { forall|i: int| 0 <= i < ls.len() ==> sess_line_ok(#[trigger] ls[i]) }
proof fn lemma_attrs_ok(ls: Seq<SdpLine>) requires sess_lines_ok(ls) ensures all_session_ok(attrs_of(ls)) decreases ls.len() //# C03
{
    if ls.len() > 0 {
        assert forall|i: int| 0 <= i < ls.drop_last().len() implies sess_line_ok(#[trigger] ls.drop_last()[i]) by { assert(sess_line_ok(ls[i])); }
        lemma_attrs_ok(ls.drop_last()); assert(sess_line_ok(ls[ls.len() - 1]));
    }
}
spec fn is_media_line(l: SdpLine) -> bool { l.sdp_type is Media }
// the lines of each media section: a media line and all lines up to the next one
spec fn sections(ls: Seq<SdpLine>) -> Seq<Seq<SdpLine>> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else {
        let p = sections(ls.drop_last());
        if is_media_line(ls.last()) || p.len() == 0 { p.push(seq![ls.last()]) } else { p.drop_last().push(p.last().push(ls.last())) }
    }
}
spec fn flatten(v: Seq<Seq<SdpLine>>) -> Seq<SdpLine> decreases v.len() { if v.len() == 0 { Seq::empty() } else { flatten(v.drop_last()) + v.last() } }
// sections() is the split at the media lines: nothing lost, nothing duplicated, order kept
proof fn lemma_sections(ls: Seq<SdpLine>)
    ensures flatten(sections(ls)) == ls, ls.len() > 0 <==> sections(ls).len() > 0, //# C05
        forall|i: int| 0 <= i < sections(ls).len() ==> (#[trigger] sections(ls)[i]).len() > 0 && forall|j: int| 1 <= j < sections(ls)[i].len() ==> !is_media_line(#[trigger] sections(ls)[i][j]), //# C05
        ls.len() > 0 && is_media_line(ls[0]) ==> forall|i: int| 0 <= i < sections(ls).len() ==> is_media_line((#[trigger] sections(ls)[i])[0]), //# C05
    decreases ls.len()
{
    if ls.len() > 0 {
        let p = sections(ls.drop_last()); let q = sections(ls);
        lemma_sections(ls.drop_last());
        if is_media_line(ls.last()) || p.len() == 0 { assert(q.drop_last() =~= p); assert(flatten(q) =~= ls.drop_last() + seq![ls.last()]); }
        else {
            assert(q.drop_last() =~= p.drop_last());
            assert(flatten(q) == flatten(p.drop_last()) + p.last().push(ls.last()));
            assert(flatten(p) == flatten(p.drop_last()) + p.last());
            assert(flatten(q) =~= flatten(p).push(ls.last()));
        }
        assert(flatten(q) =~= ls);
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).len() > 0 && forall|j: int| 1 <= j < q[i].len() ==> !is_media_line(#[trigger] q[i][j]) by {
            if i < q.len() - 1 { assert(q[i] == p[i]); }
            else if !(is_media_line(ls.last()) || p.len() == 0) { assert forall|j: int| 1 <= j < q[i].len() implies !is_media_line(#[trigger] q[i][j]) by { if j < q[i].len() - 1 { assert(q[i][j] == p[i][j]); } } }
        }
        if is_media_line(ls[0]) {
            assert forall|i: int| 0 <= i < q.len() implies is_media_line((#[trigger] q[i])[0]) by {
                if i < q.len() - 1 { assert(q[i] == p[i]); assert(ls.drop_last()[0] == ls[0]); }
                else if !(is_media_line(ls.last()) || p.len() == 0) { assert(q[i][0] == p[i][0]); assert(ls.drop_last()[0] == ls[0]); }
                else if p.len() == 0 { assert(ls.len() == 1); }
            }
        }
    }
}
// a media section read from its lines
spec fn sec_is(m: SdpMedia, ls: Seq<SdpLine>) -> bool {
    &&& ls.len() > 0 && ls[0].sdp_type == SdpType::Media(m.media)
    &&& m.attribute@ == mattrs_of(ls) && m.bandwidth@ == bws_of(ls) && m.connection == last_conn(ls)
}
spec fn secs_are(v: Seq<SdpMedia>, s: Seq<Seq<SdpLine>>) -> bool { v.len() == s.len() && forall|i: int| #![trigger v[i]] #![trigger s[i]] 0 <= i < v.len() ==> sec_is(v[i], s[i]) }
spec fn mline_ok(cur: Seq<SdpLine>, l: SdpLine) -> bool {
    match l.sdp_type { SdpType::Attribute(a) => a is DtlsMessage || media_ok(a), SdpType::Bandwidth(_) => true, SdpType::Media(_) => true, SdpType::Connection(_) => last_conn(cur) is None, _ => false }
}
spec fn mlines_ok(ls: Seq<SdpLine>) -> bool decreases ls.len() {
    if ls.len() == 0 { true } else if ls.len() == 1 { is_media_line(ls[0]) } else { mlines_ok(ls.drop_last()) && mline_ok(sections(ls.drop_last()).last(), ls.last()) }
}
proof fn lemma_mlines_prefix(ls: Seq<SdpLine>, k: int) requires mlines_ok(ls), 0 <= k <= ls.len() ensures mlines_ok(ls.take(k)) decreases ls.len() - k
{
    if k < ls.len() {
        lemma_mlines_prefix(ls, k + 1);
        let t = ls.take(k + 1); assert(t.drop_last() =~= ls.take(k));
        if k == 1 { lemma_mlines_first(t); assert(ls.take(1)[0] == t[0]); }
    } else { assert(ls.take(k) =~= ls); }
}
proof fn lemma_mlines_first(ls: Seq<SdpLine>) requires mlines_ok(ls), ls.len() > 0 ensures is_media_line(ls[0]) decreases ls.len()
{
    if ls.len() > 1 { lemma_mlines_first(ls.drop_last()); assert(ls.drop_last()[0] == ls[0]); }
}
proof fn lemma_mattrs_ok(ls: Seq<SdpLine>) requires mlines_ok(ls) ensures forall|i: int| 0 <= i < sections(ls).len() ==> all_media_ok(mattrs_of(#[trigger] sections(ls)[i])) decreases ls.len() //# C03
{
    if ls.len() > 0 {
        let p = sections(ls.drop_last()); let q = sections(ls);
        if ls.len() == 1 { assert(p.len() == 0); assert(q =~= seq![seq![ls[0]]]); assert(seq![ls[0]].drop_last() =~= Seq::<SdpLine>::empty()); assert(mattrs_of(q[0]) =~= mattrs_of(q[0].drop_last())); }
        else {
            lemma_mattrs_ok(ls.drop_last()); lemma_sections(ls.drop_last());
            assert forall|i: int| 0 <= i < q.len() implies all_media_ok(mattrs_of(#[trigger] q[i])) by {
                if i < q.len() - 1 { assert(q[i] == p[i]); }
                else if is_media_line(ls.last()) { assert(q[i].drop_last() =~= Seq::<SdpLine>::empty()); assert(mattrs_of(q[i]) =~= mattrs_of(q[i].drop_last())); }
                else { assert(q[i].drop_last() =~= p.last()); assert(all_media_ok(mattrs_of(p[p.len() - 1]))); }
            }
        }
    }
}
proof fn lemma_sec_one(m: SdpMedia, l: SdpLine)
    requires l.sdp_type == SdpType::Media(m.media), m.connection is None, m.bandwidth@.len() == 0, m.attribute@.len() == 0
    ensures sec_is(m, seq![l])
{
    let c = seq![l];
    assert(c.drop_last() =~= Seq::<SdpLine>::empty());
    reveal_with_fuel(mattrs_of, 2); reveal_with_fuel(bws_of, 2); reveal_with_fuel(last_conn, 2);
    assert(m.attribute@ =~= mattrs_of(c)); assert(m.bandwidth@ =~= bws_of(c));
}
spec fn after_line(m: SdpMedia, n: SdpMedia, l: SdpLine) -> bool {
    &&& n.media == m.media
    &&& n.connection == (match l.sdp_type { SdpType::Connection(c) => Some(c), _ => m.connection })
    &&& n.bandwidth@ == (match l.sdp_type { SdpType::Bandwidth(b) => m.bandwidth@.push(b), _ => m.bandwidth@ })
    &&& n.attribute@ == (match l.sdp_type { SdpType::Attribute(a) => if a is DtlsMessage { m.attribute@ } else { m.attribute@.push(a) }, _ => m.attribute@ })
}
proof fn lemma_sec_push(m: SdpMedia, n: SdpMedia, c: Seq<SdpLine>, l: SdpLine)
    requires sec_is(m, c), after_line(m, n, l)
    ensures sec_is(n, c.push(l))
{
    assert(c.push(l).drop_last() =~= c);
}
proof fn lemma_secs_new(v: Seq<SdpMedia>, s: Seq<Seq<SdpLine>>, m: SdpMedia, c: Seq<SdpLine>)
    requires secs_are(v, s), sec_is(m, c) ensures secs_are(v.push(m), s.push(c))
{
    assert forall|i: int| #![trigger v.push(m)[i]] #![trigger s.push(c)[i]] 0 <= i < v.len() + 1 implies sec_is(v.push(m)[i], s.push(c)[i]) by { if i < v.len() { assert(sec_is(v[i], s[i])); } }
}
proof fn lemma_secs_upd(v: Seq<SdpMedia>, cur: SdpMedia, s: Seq<Seq<SdpLine>>, m: SdpMedia, c: Seq<SdpLine>)
    requires secs_are(v.push(cur), s), sec_is(m, c) ensures secs_are(v.push(m), s.drop_last().push(c))
{
    let t = s.drop_last();
    assert forall|i: int| #![trigger v.push(m)[i]] #![trigger t.push(c)[i]] 0 <= i < v.len() + 1 implies sec_is(v.push(m)[i], t.push(c)[i]) by { if i < v.len() { assert(v.push(cur)[i] == v[i]); assert(sec_is(v.push(cur)[i], s[i])); } }
}
@fn SdpSession::parse_session_vector
@params self, lines
@lets line, _line_number, e
@ens C05,C03: r is Ok <==> sess_lines_ok(old(lines)@)
@ens C05,C03: r is Ok ==> final(self).attribute@ == old(self).attribute@ + attrs_of(old(lines)@)
@ens C05: r is Ok ==> final(self).bandwidth@ == old(self).bandwidth@ + bws_of(old(lines)@)
@ens C05,C02: r is Ok ==> final(self).connection == or_conn(last_conn(old(lines)@), old(self).connection) && final(self).timing == or_timing(last_timing(old(lines)@), old(self).timing)
@ens C05: r is Ok ==> final(self).version == old(self).version && final(self).origin == old(self).origin && final(self).session == old(self).session && final(self).media@ == old(self).media@ && final(self).warnings@ == old(self).warnings@
@ens C06: r matches Err(e) ==> e is Sequence
@at start: let ghost o = lines@; let ghost mut k: int = 0; proof { assert(o.take(0) =~= Seq::<SdpLine>::empty()); }
@loop 0
@inv *: 0 <= k <= o.len() && lines@ == o.skip(k)
@inv *: forall|i: int| 0 <= i < k ==> sess_line_ok(#[trigger] o[i])
@inv *: self.attribute@ == old(self).attribute@ + attrs_of(o.take(k)) && self.bandwidth@ == old(self).bandwidth@ + bws_of(o.take(k))
@inv *: self.connection == or_conn(last_conn(o.take(k)), old(self).connection) && self.timing == or_timing(last_timing(o.take(k)), old(self).timing)
@inv *: self.version == old(self).version && self.origin == old(self).origin && self.session == old(self).session && self.media@ == old(self).media@ && self.warnings@ == old(self).warnings@
@dec lines@.len()
@at after:line: proof {
      k = k + 1;
      assert(line == o[k - 1]); assert(lines@ =~= o.skip(k));
      assert(o.take(k).drop_last() =~= o.take(k - 1)); assert(o.take(k).last() == line);
    }
@at tail: proof { assert(o.take(k) =~= o); }
@fn parse_media_vector
@params lines
@lets media_sections, media_line, sdp_media, line, _line_number, e
@req old(lines)@.len() > 0
@ens C05,C03: r is Ok <==> mlines_ok(old(lines)@)
@ens C05: r matches Ok(v) ==> secs_are(v@, sections(old(lines)@))
@ens C06: r matches Err(e) ==> e is Sequence
@at start: let ghost o = lines@; let ghost mut k: int = 1; proof { if mlines_ok(o) { lemma_mlines_first(o); } }
@at after:sdp_media: proof {
    assert(lines@ =~= o.skip(1)); assert(o.take(1) =~= seq![o[0]]); assert(o.take(1).drop_last() =~= Seq::<SdpLine>::empty());
    reveal_with_fuel(sections, 2); assert(sections(o.take(1)) =~= seq![seq![o[0]]]);
    lemma_sec_one(sdp_media, o[0]); lemma_secs_new(Seq::empty(), Seq::empty(), sdp_media, seq![o[0]]);
    assert(media_sections@.push(sdp_media) =~= Seq::<SdpMedia>::empty().push(sdp_media)); assert(sections(o.take(1)) =~= Seq::<Seq<SdpLine>>::empty().push(seq![o[0]]));
  }
@loop 0
@inv *: 1 <= k <= o.len() && lines@ == o.skip(k)
@inv *: mlines_ok(o.take(k))
@inv *: secs_are(media_sections@.push(sdp_media), sections(o.take(k)))
@dec lines@.len()
@at lb0: let ghost cur = sdp_media; let ghost done = media_sections@; let ghost psec = sections(o.take(k));
@at after:line: proof {
      k = k + 1;
      assert(line == o[k - 1]); assert(lines@ =~= o.skip(k));
      assert(o.take(k).drop_last() =~= o.take(k - 1)); assert(o.take(k).last() == line);
      assert(done.push(cur).last() == cur); assert(sec_is(cur, psec.last()));
      if mlines_ok(o) { lemma_mlines_prefix(o, k); }
    }
@at le0: proof {
      if is_media_line(o[k - 1]) { lemma_sec_one(sdp_media, o[k - 1]); lemma_secs_new(done.push(cur), psec, sdp_media, seq![o[k - 1]]); }
      else { lemma_sec_push(cur, sdp_media, psec.last(), o[k - 1]); lemma_secs_upd(done, cur, psec, sdp_media, psec.last().push(o[k - 1])); }
    }
@at tail: proof { assert(o.take(k) =~= o); }
@raw
// ---------------------------------------------------------------- the whole description
spec fn media_line_test<'a>() -> spec_fn(&'a SdpLine) -> bool { |l: &'a SdpLine| is_media_line(*l) }
spec fn media_pos(ls: Seq<SdpLine>) -> int decreases ls.len() {
    if ls.len() == 0 { 0 } else if is_media_line(ls[0]) { 0 } else { 1 + media_pos(ls.drop_first()) }
}
proof fn lemma_media_pos(ls: Seq<SdpLine>)
    ensures 0 <= media_pos(ls) <= ls.len(), forall|i: int| 0 <= i < media_pos(ls) ==> !is_media_line(#[trigger] ls[i]), media_pos(ls) < ls.len() ==> is_media_line(ls[media_pos(ls)]),
    decreases ls.len()
{
    if ls.len() > 0 && !is_media_line(ls[0]) {
        let t = ls.drop_first(); lemma_media_pos(t);
        assert forall|i: int| 0 <= i < media_pos(ls) implies !is_media_line(#[trigger] ls[i]) by { if i > 0 { assert(ls[i] == t[i - 1]); } }
    }
}
spec fn head_of(ls: Seq<SdpLine>) -> Seq<SdpLine> { ls.skip(3).take(media_pos(ls.skip(3))) }
spec fn media_of(ls: Seq<SdpLine>) -> Seq<SdpLine> { ls.skip(3).skip(media_pos(ls.skip(3))) }
spec fn lines_ok(ls: Seq<SdpLine>) -> bool {
    ls.len() >= 4 && ls[0].sdp_type is Version && ls[1].sdp_type is Origin && ls[2].sdp_type is Session && sess_lines_ok(head_of(ls)) && mlines_ok(media_of(ls))
}
spec fn built(s: SdpSession, ls: Seq<SdpLine>) -> bool {
    &&& ls.len() >= 4
    &&& ls[0].sdp_type == SdpType::Version(s.version)
    &&& ls[1].sdp_type == SdpType::Origin(s.origin)
    &&& ls[2].sdp_type matches SdpType::Session(t) && (match s.session { None => trim(t@).len() == 0, Some(x) => trim(t@).len() > 0 && x@ == trim(t@) })
    &&& s.attribute@ == attrs_of(head_of(ls)) && s.bandwidth@ == bws_of(head_of(ls))
    &&& s.connection == last_conn(head_of(ls)) && s.timing == last_timing(head_of(ls))
    &&& secs_are(s.media@, sections(media_of(ls)))
}
proof fn lemma_levels(s: SdpSession, ls: Seq<SdpLine>)
    requires built(s, ls), lines_ok(ls)
    ensures all_session_ok(s.attribute@), forall|i: int| 0 <= i < s.media@.len() ==> all_media_ok((#[trigger] s.media@[i]).attribute@), //# C03
{
    lemma_attrs_ok(head_of(ls)); lemma_mattrs_ok(media_of(ls));
    assert forall|i: int| 0 <= i < s.media@.len() implies all_media_ok((#[trigger] s.media@[i]).attribute@) by { assert(sec_is(s.media@[i], sections(media_of(ls))[i])); }
}
@fn parse_sdp_vector
@params lines
@lets version, origin, session, sdp_session, _media_pos, media
@ens C02,C05: r is Ok ==> lines_ok(old(lines)@)
@ens C05,C16: r matches Ok(s) ==> built(s, old(lines)@) && s.warnings@.len() == 0
@ens C02: r matches Ok(s) ==> sane(s)
@ens C02: r is Err && lines_ok(old(lines)@) ==> exists|s: SdpSession| built(s, old(lines)@) && !sane(s)
@ens C03: r matches Ok(s) ==> all_session_ok(s.attribute@) && forall|i: int| 0 <= i < s.media@.len() ==> all_media_ok((#[trigger] s.media@[i]).attribute@)
@ens C06: r matches Err(e) ==> e is Sequence
@cl 0 |l: &SdpLine| -> (b: bool)
@clghost media_line_test()
@clens b == is_media_line(*l)
@at start: let ghost o = lines@; 
@at after:sdp_session: let ghost b = lines@; proof { assert(b =~= o.skip(3)); assert(refs(b).len() == b.len()); lemma_media_pos(b); }
@at after:_media_pos: proof {
    let p = media_pos(b);
    match _media_pos {
        Some(q) => { assert(media_line_test()(refs(b)[q as int])); if p < q { assert(!media_line_test()(refs(b)[p])); } assert(p == q); },
        None => { if p < b.len() { assert(!media_line_test()(refs(b)[p])); } assert(b.take(p) =~= b); assert(b.skip(p) =~= Seq::<SdpLine>::empty()); },
    }
    assert(Seq::<SdpAttribute>::empty() + attrs_of(head_of(o)) =~= attrs_of(head_of(o)));
    assert(Seq::<SdpBandwidth>::empty() + bws_of(head_of(o)) =~= bws_of(head_of(o)));
    assert(sdp_session.attribute@ =~= Seq::<SdpAttribute>::empty()); assert(sdp_session.bandwidth@ =~= Seq::<SdpBandwidth>::empty()); assert(sdp_session.media@ =~= Seq::<SdpMedia>::empty());
  }
@at after:media: proof { assert(media@ =~= media_of(o)); assert(lines@ =~= head_of(o)); lemma_sections(media@); assert(forall|v: Seq<SdpMedia>| #![trigger Seq::<SdpMedia>::empty() + v] Seq::<SdpMedia>::empty() + v =~= v); }
@at tail: proof { assert(built(sdp_session, o)); assert(lines_ok(o)); lemma_levels(sdp_session, o); }
@raw
// ---------------------------------------------------------------- lines, errors and warnings of a whole text
type LineRes = Result<SdpLine, SdpParserError>;
spec fn blank(s: Str) -> bool { trim(s).len() == 0 }
// what parse_sdp_line says about one line
spec fn line_result(t: Str, n: int, r: LineRes) -> bool {
    match r {
        Ok(l) => line_ok(t) && line_means(t, l.sdp_type) && l.line_number == n && l.text@ == t,
        Err(SdpParserError::Line { error, line, line_number }) => !line_ok(t) && !line_unknown(t) && line@ == t && line_number == n,
        Err(SdpParserError::Unsupported { error, line, line_number }) => !line_ok(t) && !line_malformed(t) && line@ == t && line_number == n,
        Err(SdpParserError::Sequence { message, line_number }) => false,
    }
}
spec fn outcomes(ls: Seq<Str>, rs: Seq<LineRes>) -> bool { rs.len() == ls.len() && forall|i: int| 0 <= i < ls.len() && !blank(#[trigger] ls[i]) ==> line_result(ls[i], i, rs[i]) }
spec fn goods(ls: Seq<Str>, rs: Seq<LineRes>) -> Seq<SdpLine> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else { let p = goods(ls.drop_last(), rs.drop_last()); match rs.last() { Ok(l) => if blank(ls.last()) { p } else { p.push(l) }, _ => p } }
}
spec fn bads(ls: Seq<Str>, rs: Seq<LineRes>) -> Seq<SdpParserError> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else { let p = bads(ls.drop_last(), rs.drop_last()); match rs.last() { Err(SdpParserError::Unsupported { .. }) => p, Err(e) => if blank(ls.last()) { p } else { p.push(e) }, _ => p } }
}
spec fn warns(ls: Seq<Str>, rs: Seq<LineRes>) -> Seq<SdpParserError> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else { let p = warns(ls.drop_last(), rs.drop_last()); match rs.last() { Err(SdpParserError::Unsupported { error, line, line_number }) => if blank(ls.last()) { p } else { p.push(SdpParserError::Unsupported { error, line, line_number }) }, _ => p } }
}
// the policy for a whole text with these line outcomes
spec fn policy(ls: Seq<Str>, rs: Seq<LineRes>, strict: bool, r: Result<SdpSession, SdpParserError>) -> bool {
    let w = warns(ls, rs); let b = bads(ls, rs); let g = goods(ls, rs);
    if strict && w.len() > 0 { r == Err::<SdpSession, SdpParserError>(w[0]) }
    else if b.len() > 0 { r == Err::<SdpSession, SdpParserError>(b.last()) }
    else { match r {
        Ok(s) => s.warnings@ == w && lines_ok(g) && built(s, g) && sane(s),
        Err(e) => e is Sequence && (lines_ok(g) ==> exists|s: SdpSession| built(s, g) && !sane(s)),
    } }
}
@fn parse_sdp
@params sdp, fail_on_warning
@lets lines, errors, warnings, sdp_lines, stripped_line, session
@ens C06: blen(sdp@) < 51 ==> r is Err
@ens C06,C05,C02: blen(sdp@) >= 51 ==> exists|rs: Seq<LineRes>| #[trigger] outcomes(lines_of(sdp@), rs) && policy(lines_of(sdp@), rs, fail_on_warning, r)
@ens C02: r matches Ok(s) ==> sane(s)
@ens C03: r matches Ok(s) ==> all_session_ok(s.attribute@) && forall|i: int| 0 <= i < s.media@.len() ==> all_media_ok((#[trigger] s.media@[i]).attribute@)
@at start: let ghost ls = lines_of(sdp@); let ghost mut rs: Seq<LineRes> = Seq::empty(); proof { lemma_blen(sdp@); assert(sdp.spec_bytes().len() >= sdp@.len()); assert(ls.take(0) =~= Seq::<Str>::empty()); }
@loop 0
@inv *: $src.len() == ls.len() && ls.len() <= usize::MAX && forall|i: int| 0 <= i < ls.len() ==> (#[trigger] $src[i]).0 == i && $src[i].1@ == ls[i]
@inv *: outcomes(ls.take($n), rs)
@inv *: sdp_lines@ == goods(ls.take($n), rs) && errors@ == bads(ls.take($n), rs) && warnings@ == warns(ls.take($n), rs)
@at lb0: let ghost rs0 = rs; let ghost (g0, b0, w0) = (sdp_lines@, errors@, warnings@);
    proof {
      assert($src0[$n0 - 1] == (line_number, line)); assert(line@ == ls[$n0 - 1]); assert(line_number == $n0 - 1);
      assert(ls.take($n0).drop_last() =~= ls.take($n0 - 1)); assert(ls.take($n0).last() == line@);
      let x: LineRes = Err(SdpParserError::Sequence { message: arbitrary(), line_number: 0 });
      rs = rs0.push(x); assert(rs.drop_last() =~= rs0);
      if blank(line@) { assert forall|i: int| 0 <= i < $n0 && !blank(#[trigger] ls.take($n0)[i]) implies line_result(ls.take($n0)[i], i, rs[i]) by { assert(ls.take($n0 - 1)[i] == ls[i]); } }
    }
@at le0: proof {
      let x: LineRes = if sdp_lines@.len() > g0.len() { Ok(sdp_lines@.last()) } else if errors@.len() > b0.len() { Err(errors@.last()) } else { Err(warnings@.last()) };
      rs = rs0.push(x); assert(rs.drop_last() =~= rs0);
      assert forall|i: int| 0 <= i < $n0 && !blank(#[trigger] ls.take($n0)[i]) implies line_result(ls.take($n0)[i], i, rs[i]) by { if i < $n0 - 1 { assert(ls.take($n0 - 1)[i] == ls[i]); } }
    }
@loop 1
@at lp0: proof { assert(ls.take(ls.len() as int) =~= ls); assert forall|i: int| 0 <= i < ls.len() implies (#[trigger] $src0[i]).0 == i && $src0[i].1@ == ls[i] by {} }
