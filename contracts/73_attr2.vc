@note the attribute parsers with repeated parts
@raw
// ---------------------------------------------------------------- candidate
spec fn tr_kw(t: SdpAttributeCandidateTransport) -> Str { match t { SdpAttributeCandidateTransport::Udp => "udp"@, SdpAttributeCandidateTransport::Tcp => "tcp"@ } }
spec fn ctype_ok(s: Str) -> bool { let l = to_lower(s); l == "host"@ || l == "srflx"@ || l == "prflx"@ || l == "relay"@ }
struct CandExt { raddr: Option<Address>, rport: Option<u32>, tcp: Option<SdpAttributeCandidateTcpType>, generation: Option<u32>, ufrag: Option<Str>, cost: Option<u32>, unknown: Seq<(Str, Str)> }
spec fn sviews(v: Seq<(String, String)>) -> Seq<(Str, Str)> { v.map_values(|p: (String, String)| (p.0@, p.1@)) }
spec fn cand_ext(c: SdpAttributeCandidate) -> CandExt { CandExt { raddr: c.raddr, rport: c.rport, tcp: c.tcp_type, generation: c.generation, ufrag: otext(c.ufrag), cost: c.networkcost, unknown: sviews(c.unknown_extensions@) } }
spec fn tcpt_of(s: Str) -> Option<SdpAttributeCandidateTcpType> { let l = to_lower(s); if l == "active"@ { Some(SdpAttributeCandidateTcpType::Active) } else if l == "passive"@ { Some(SdpAttributeCandidateTcpType::Passive) } else if l == "so"@ { Some(SdpAttributeCandidateTcpType::Simultaneous) } else { None } }
// one extension "k v" after the mandatory part
spec fn cand_step(e: CandExt, k: Str, v: Str) -> Option<CandExt> {
    let l = to_lower(k);
    if l == "generation"@ { if uint_ok(v, u32::MAX as int) { Some(CandExt { generation: Some(uint_val(v) as u32), ..e }) } else { None } }
    else if l == "network-cost"@ { if uint_ok(v, u32::MAX as int) { Some(CandExt { cost: Some(uint_val(v) as u32), ..e }) } else { None } }
    else if l == "raddr"@ { if addr_ok(v) { Some(CandExt { raddr: Some(addr_of(v)), ..e }) } else { None } }
    else if l == "rport"@ { if uint_ok(v, u32::MAX as int) && uint_val(v) <= 65535 { Some(CandExt { rport: Some(uint_val(v) as u32), ..e }) } else { None } }
    else if l == "tcptype"@ { match tcpt_of(v) { Some(x) => Some(CandExt { tcp: Some(x), ..e }), None => None } }
    else if l == "ufrag"@ { Some(CandExt { ufrag: Some(v), ..e }) }
    else { Some(CandExt { unknown: e.unknown.push((k, v)), ..e }) }
}
// the first n extensions
spec fn cand_fold(t: Seq<Str>, n: int) -> Option<CandExt> decreases n {
    if n <= 0 { Some(CandExt { raddr: None, rport: None, tcp: None, generation: None, ufrag: None, cost: None, unknown: Seq::empty() }) }
    else { match cand_fold(t, n - 1) { Some(e) => cand_step(e, t[6 + 2 * n], t[7 + 2 * n]), None => None } }
}
proof fn lemma_cand_none(t: Seq<Str>, k: int, n: int) requires k <= n, cand_fold(t, k) is None ensures cand_fold(t, n) is None decreases n - k { if k < n { lemma_cand_none(t, k, n - 1); } }
spec fn cand_head_ok(t: Seq<Str>) -> bool {
    &&& t.len() >= 8 && uint_ok(t[1], u32::MAX as int) && (to_lower(t[2]) == "udp"@ || to_lower(t[2]) == "tcp"@) && uint_ok(t[3], u64::MAX as int)
    &&& addr_ok(t[4]) && uint_ok(t[5], u32::MAX as int) && uint_val(t[5]) <= 65535 && to_lower(t[6]) == "typ"@ && ctype_ok(t[7])
}
spec fn cand_next(t: Seq<Str>) -> int { (t.len() - 8) / 2 }
spec fn cand_ok(t: Seq<Str>) -> bool { cand_head_ok(t) && t.len() % 2 == 0 && cand_fold(t, cand_next(t)) is Some }
spec fn cand_head_is(t: Seq<Str>, c: SdpAttributeCandidate) -> bool {
    &&& c.foundation@ == t[0] && c.component == uint_val(t[1]) && to_lower(t[2]) == tr_kw(c.transport) && c.priority == uint_val(t[3])
    &&& c.address == addr_of(t[4]) && c.port == uint_val(t[5]) && c.port <= 65535 && to_lower(t[7]) == ctype_str(c.c_type)
}
spec fn cand_is(t: Seq<Str>, c: SdpAttributeCandidate) -> bool { cand_head_is(t, c) && cand_fold(t, cand_next(t)) == Some(cand_ext(c)) }
@fn SdpAttributeCandidate::new
@params foundation, component, transport, priority, address, port, c_type
@ens C08: r.foundation == foundation && r.component == component && r.transport == transport && r.priority == priority && r.address == address && r.port == port && r.c_type == c_type
@ens C08: r.raddr is None && r.rport is None && r.tcp_type is None && r.generation is None && r.ufrag is None && r.networkcost is None && r.unknown_extensions@.len() == 0
@fn SdpAttributeCandidate::set_remote_address
@params self, addr
@ens C08: *final(self) == (SdpAttributeCandidate { raddr: Some(addr), ..*old(self) })
@fn SdpAttributeCandidate::set_remote_port
@params self, p
@ens C08: *final(self) == (SdpAttributeCandidate { rport: Some(p), ..*old(self) })
@fn SdpAttributeCandidate::set_tcp_type
@params self, t
@ens C08: *final(self) == (SdpAttributeCandidate { tcp_type: Some(t), ..*old(self) })
@fn SdpAttributeCandidate::set_generation
@params self, g
@ens C08: *final(self) == (SdpAttributeCandidate { generation: Some(g), ..*old(self) })
@fn SdpAttributeCandidate::set_ufrag
@params self, u
@ens C08: *final(self) == (SdpAttributeCandidate { ufrag: Some(u), ..*old(self) })
@fn SdpAttributeCandidate::set_network_cost
@params self, n
@ens C08: *final(self) == (SdpAttributeCandidate { networkcost: Some(n), ..*old(self) })
@fn SdpAttributeCandidate::add_unknown_extension
@params self, name, value
@ens C08: *final(self) == (SdpAttributeCandidate { unknown_extensions: final(self).unknown_extensions, ..*old(self) }) && final(self).unknown_extensions@ == old(self).unknown_extensions@.push((name, value))
@fn parse_candidate
@params to_parse
@lets tokens, component, transport, priority, address, port, cand_type, cand, index, generation, cost, addr, port, ufrag, name, value
@ens C08,C04: r is Ok <==> cand_ok(split_ws(to_parse@))
@ens C08,C04,C15: r matches Ok(a) ==> a matches SdpAttribute::Candidate(c) && cand_is(split_ws(to_parse@), c)
@ens C06: r matches Err(e) ==> (e is Unsupported ==> cand_head_ok(split_ws(to_parse@)) && split_ws(to_parse@).len() % 2 == 1)
@at after:tokens: let ghost t = split_ws(to_parse@); proof { assert(rstrs(tokens@) == t); }
@at after:cand: proof { assert(cand_head_ok(t)); assert(cand_head_is(t, cand)); assert(sviews(cand.unknown_extensions@) =~= Seq::<(Str, Str)>::empty()); assert(cand_fold(t, 0) == Some(cand_ext(cand))); }
@loop 0
@inv *: 8 <= index <= tokens@.len() && index % 2 == 0
@inv *: cand_head_is(t, cand)
@inv *: cand_fold(t, (index - 8) / 2) == Some(cand_ext(cand))
@dec tokens.len() - index
@at lb0: let ghost c0 = cand; let ghost n = (index - 8) / 2 + 1; proof { assert(t[6 + 2 * n] == t[index as int] && t[7 + 2 * n] == t[index + 1]); if cand_fold(t, n) is None { lemma_cand_none(t, n, cand_next(t)); } }
@at le0: proof { assert(sviews(cand.unknown_extensions@) =~= cand_ext(c0).unknown || sviews(cand.unknown_extensions@) =~= cand_ext(c0).unknown.push((t[index - 2], t[index - 1]))); assert(n == (index - 8) / 2); }
@raw
// ---------------------------------------------------------------- simulcast
spec fn sid_is(s: Str, x: SdpAttributeSimulcastId) -> bool { if s.len() > 0 && s[0] == '~' { x.paused && x.id@ == s.drop_first() } else { !x.paused && x.id@ == s } }
spec fn sver_is(s: Str, v: SdpAttributeSimulcastVersion) -> bool { let p = split_char(s, ','); v.ids@.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> sid_is(p[i], #[trigger] v.ids@[i]) }
spec fn svers_are(s: Str, v: Seq<SdpAttributeSimulcastVersion>) -> bool { let p = split_char(s, ';'); v.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> sver_is(p[i], #[trigger] v[i]) }
spec fn slist_ok(s: Str) -> bool { s.contains('=') ==> splitn_char(2, s, '=')[0] == "rid"@ }
spec fn slist_body(s: Str) -> Str { if s.contains('=') { splitn_char(2, s, '=')[1] } else { s } }
spec fn simulcast_ok(t: Seq<Str>) -> bool {
    &&& t.len() >= 2 && sdirn_ok(t[0]) && slist_ok(t[1])
    &&& t.len() > 2 ==> sdirn_ok(t[2]) && t[2] != t[0] && t.len() >= 4 && slist_ok(t[3])
}
spec fn simulcast_is(t: Seq<Str>, x: SdpAttributeSimulcast) -> bool {
    let a = if t[0] == "send"@ { x.send@ } else { x.receive@ };
    let b = if t[0] == "send"@ { x.receive@ } else { x.send@ };
    svers_are(slist_body(t[1]), a) && if t.len() > 2 { svers_are(slist_body(t[3]), b) } else { b.len() == 0 }
}
@fn SdpAttributeSimulcastId::new
@params idstr
@ens C08: sid_is(idstr@, r)
@at start: proof { reveal_strlit("~"); assert(idstr@.len() > 0 ==> (idstr@.subrange(0, 1) == seq!['~'] <==> idstr@[0] == '~')) by { if idstr@.len() > 0 { assert(idstr@.subrange(0, 1) =~= seq![idstr@[0]]); assert(seq![idstr@[0]][0] == idstr@[0] && seq!['~'][0] == '~'); } } if idstr@.len() > 0 { assert(idstr@.subrange(1, idstr@.len() as int) =~= idstr@.drop_first()); } }
@fn SdpAttributeSimulcastVersion::new
@params idlist
@ens C08: sver_is(idlist@, r)
@cl 0 |__x: &str| -> (o: SdpAttributeSimulcastId)
@clghost |x: &str, o: SdpAttributeSimulcastId| sid_is(x@, o)
@clens sid_is(__x@, o)
@fn parse_simulcast_version_list
@params to_parse
@lets make_version_list, descriptor_versionlist_pair
@ens C08: r is Ok <==> slist_ok(to_parse@)
@ens C08: r matches Ok(v) ==> svers_are(slist_body(to_parse@), v@)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@at start: proof { lemma_split2(to_parse@, '='); }
@cl 0 |to_parse: &str| -> (o: Vec<SdpAttributeSimulcastVersion>)
@clens svers_are(to_parse@, o@)
@cl 1 |__x: &str| -> (o: SdpAttributeSimulcastVersion)
@clghost |x: &str, o: SdpAttributeSimulcastVersion| sver_is(x@, o)
@clens sver_is(__x@, o)
@fn parse_simulcast
@params to_parse
@lets tokens, first_direction, first_version_list, second_version_list
@ens C08: r is Ok <==> simulcast_ok(split_ws(to_parse@))
@ens C08: r matches Ok(a) ==> a matches SdpAttribute::Simulcast(x) && simulcast_is(split_ws(to_parse@), x)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@at start: proof { reveal_strlit("send"); reveal_strlit("recv"); assert("send"@[0] != "recv"@[0]); }
@at after:tokens: let ghost t = split_ws(to_parse@); let ghost v0 = tokens@;
@raw
// ---------------------------------------------------------------- rid
struct RidAcc { width: u32, height: u32, fps: u32, fs: u32, br: u32, pps: u32, unknown: Seq<Str>, depends: Seq<Str> }
spec fn rid_acc(p: SdpAttributeRidParameters, d: Seq<String>) -> RidAcc { RidAcc { width: p.max_width, height: p.max_height, fps: p.max_fps, fs: p.max_fs, br: p.max_br, pps: p.max_pps, unknown: strs(p.unknown@), depends: strs(d) } }
spec fn rid_step(a: RidAcc, s: Str) -> Option<RidAcc> {
    let p = splitn_char(2, s, '=');
    if p.len() != 2 { None }
    else if p[0] == "depends"@ { Some(RidAcc { depends: a.depends + split_char(p[1], ','), ..a }) }
    else if p[0] == "max-width"@ || p[0] == "max-height"@ || p[0] == "max-fps"@ || p[0] == "max-fs"@ || p[0] == "max-br"@ || p[0] == "max-pps"@ {
        if !uint_ok(p[1], u32::MAX as int) { None } else {
            let n = uint_val(p[1]) as u32;
            Some(if p[0] == "max-width"@ { RidAcc { width: n, ..a } } else if p[0] == "max-height"@ { RidAcc { height: n, ..a } } else if p[0] == "max-fps"@ { RidAcc { fps: n, ..a } }
                else if p[0] == "max-fs"@ { RidAcc { fs: n, ..a } } else if p[0] == "max-br"@ { RidAcc { br: n, ..a } } else { RidAcc { pps: n, ..a } })
        }
    } else { Some(RidAcc { unknown: a.unknown.push(s), ..a }) }
}
spec fn rid_fold(ps: Seq<Str>, n: int) -> Option<RidAcc> decreases n {
    if n <= 0 { Some(RidAcc { width: 0, height: 0, fps: 0, fs: 0, br: 0, pps: 0, unknown: Seq::empty(), depends: Seq::empty() }) }
    else { match rid_fold(ps, n - 1) { Some(a) => rid_step(a, ps[n - 1]), None => None } }
}
proof fn lemma_rid_none(ps: Seq<Str>, k: int, n: int) requires k <= n, rid_fold(ps, k) is None ensures rid_fold(ps, n) is None decreases n - k { if k < n { lemma_rid_none(ps, k, n - 1); } }
spec fn rid_pt(v: Seq<Str>) -> bool { v.len() > 2 && has_prefix(split_char(v[2], ';')[0], "pt="@) }
spec fn ridv_fmts(v: Seq<Str>) -> Seq<Str> { if rid_pt(v) { let s = split_char(v[2], ';')[0]; split_char(s.subrange("pt="@.len() as int, s.len() as int), ',') } else { Seq::empty() } }
spec fn rid_params(v: Seq<Str>) -> Seq<Str> { if v.len() <= 2 { Seq::empty() } else if rid_pt(v) { split_char(v[2], ';').drop_first() } else { split_char(v[2], ';') } }
spec fn ridv_fmt_ok(s: Str) -> bool { uint_ok(trim(s), u16::MAX as int) }
spec fn ridv_fmts_ok(f: Seq<Str>) -> bool { forall|i: int| 0 <= i < f.len() ==> ridv_fmt_ok(#[trigger] f[i]) }
spec fn ridv_fmts_are(f: Seq<Str>, v: Seq<u16>) -> bool { v.len() == f.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) as int == uint_val(trim(f[i])) }
spec fn rid_ok(v: Seq<Str>) -> bool { v.len() >= 2 && sdirn_ok(v[1]) && ridv_fmts_ok(ridv_fmts(v)) && rid_fold(rid_params(v), rid_params(v).len() as int) is Some }
spec fn rid_is(v: Seq<Str>, x: SdpAttributeRid) -> bool {
    &&& x.id@ == v[0] && v[1] == dirn_str(x.direction) && ridv_fmts_are(ridv_fmts(v), x.formats@)
    &&& rid_fold(rid_params(v), rid_params(v).len() as int) == Some(rid_acc(x.params, x.depends@))
}
@fn parse_rid
@params to_parse
@lets tokens, params, formats, depends, parameters, param_value_pair
@ens C08: r is Ok <==> rid_ok(splitn_char(3, to_parse@, ' '))
@ens C08: r matches Ok(a) ==> a matches SdpAttribute::Rid(x) && rid_is(splitn_char(3, to_parse@, ' '), x)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@at after:tokens: let ghost v = splitn_char(3, to_parse@, ' '); proof { assert(rstrs(tokens@) == v); lemma_splitn_len(3, to_parse@, ' '); if v.len() > 2 { lemma_split_len(v[2], ';'); } }
@at after:depends: let ghost ps = rid_params(v); proof { assert(strs(params.unknown@) =~= Seq::<Str>::empty()); assert(strs(depends@) =~= Seq::<Str>::empty()); }
@at after:parameters: let ghost par0 = parameters@;
@loop 0
@inv *: rstrs($src) == ridv_fmts(v)
@inv *: formats@.len() == $n && (forall|i: int| 0 <= i < $n ==> (#[trigger] formats@[i]) as int == uint_val(trim(ridv_fmts(v)[i]))) && forall|i: int| 0 <= i < $n ==> ridv_fmt_ok(#[trigger] ridv_fmts(v)[i])
@at lb0: proof { assert($src0[$n0 - 1] == fmt); assert(fmt@ == ridv_fmts(v)[$n0 - 1]); }
@loop 1
@inv *: rstrs($src) == ps
@inv *: rid_fold(ps, $n as int) == Some(rid_acc(params, depends@))
@at lb1: let ghost p0 = params; let ghost d0 = depends@; proof { assert($src1[$n1 - 1] == param); assert(param@ == ps[$n1 - 1]); lemma_split2(param@, '='); if rid_fold(ps, $n1 as int) is None { lemma_rid_none(ps, $n1 as int, ps.len() as int); } }
@at le1: proof { assert(strs(params.unknown@) =~= strs(p0.unknown@) || strs(params.unknown@) =~= strs(p0.unknown@).push(param@)); assert(strs(depends@) =~= strs(d0) || strs(depends@) =~= strs(d0) + split_char(splitn_char(2, param@, '=')[1], ',')); }
@raw
