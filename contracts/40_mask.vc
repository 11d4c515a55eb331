@note masked copies
@raw
// the sensitive parts of r are the masks a holds for those of x, the other parts are equal
spec fn mk_opt<T>(x: Option<T>, r: Option<T>, p: spec_fn(T, T) -> bool) -> bool { match (x, r) { (None, None) => true, (Some(v), Some(w)) => p(v, w), _ => false } }
spec fn mk_cand(x: SdpAttributeCandidate, r: SdpAttributeCandidate, a: &StatefulSdpAnonymizer) -> bool {
    &&& a.has_addr(x.address, r.address) && a.has_port(x.port, r.port)
    &&& mk_opt(x.raddr, r.raddr, |v: Address, w: Address| a.has_addr(v, w))
    &&& mk_opt(x.rport, r.rport, |v: u32, w: u32| a.has_port(v, w))
    &&& mk_opt(x.ufrag, r.ufrag, |v: String, w: String| a.has_iuser(v@, w@))
    &&& r.foundation == x.foundation && r.component == x.component && r.transport == x.transport && r.priority == x.priority
    &&& r.c_type == x.c_type && r.tcp_type == x.tcp_type && r.generation == x.generation && r.networkcost == x.networkcost
    &&& r.unknown_extensions == x.unknown_extensions
}
spec fn mk_remote(x: SdpAttributeRemoteCandidate, r: SdpAttributeRemoteCandidate, a: &StatefulSdpAnonymizer) -> bool {
    a.has_addr(x.address, r.address) && a.has_port(x.port, r.port) && r.component == x.component
}
spec fn mk_rtcp(x: SdpAttributeRtcp, r: SdpAttributeRtcp, a: &StatefulSdpAnonymizer) -> bool {
    r.port == x.port && mk_opt(x.unicast_addr, r.unicast_addr, |v: ExplicitlyTypedAddress, w: ExplicitlyTypedAddress| a.has_taddr(v, w))
}
spec fn mk_fp(x: SdpAttributeFingerprint, r: SdpAttributeFingerprint, a: &StatefulSdpAnonymizer) -> bool {
    r.hash_algorithm == x.hash_algorithm && a.has_fp(x.fingerprint@, r.fingerprint@)
}
spec fn mk_ssrc(x: SdpAttributeSsrc, r: SdpAttributeSsrc, a: &StatefulSdpAnonymizer) -> bool {
    &&& r.id == x.id && r.attribute == x.attribute
    &&& match (x.attribute, x.value) {
        (Some(n), Some(v)) => if to_lower(n@) == "cname"@ { r.value is Some && a.has_cname(v@, r.value->Some_0@) } else { r.value == x.value },
        (None, Some(v)) => true, // a value without a name does not exist (see set_attribute)
        (_, None) => r.value is None,
    }
}
spec fn mk_conn(x: SdpConnection, r: SdpConnection, a: &StatefulSdpAnonymizer) -> bool {
    a.has_taddr(x.address, r.address) && r.ttl == x.ttl && r.amount == x.amount
}
spec fn mk_origin(x: SdpOrigin, r: SdpOrigin, a: &StatefulSdpAnonymizer) -> bool {
    a.has_ouser(x.username@, r.username@) && a.has_taddr(x.unicast_addr, r.unicast_addr) && r.session_id == x.session_id && r.session_version == x.session_version
}
spec fn mk_attr(x: SdpAttribute, r: SdpAttribute, a: &StatefulSdpAnonymizer) -> bool {
    match x {
        SdpAttribute::Candidate(i) => r is Candidate && mk_cand(i, r->Candidate_0, a),
        SdpAttribute::Fingerprint(i) => r is Fingerprint && mk_fp(i, r->Fingerprint_0, a),
        SdpAttribute::IcePwd(i) => r is IcePwd && a.has_pwd(i@, r->IcePwd_0@),
        SdpAttribute::IceUfrag(i) => r is IceUfrag && a.has_iuser(i@, r->IceUfrag_0@),
        SdpAttribute::RemoteCandidate(i) => r is RemoteCandidate && mk_remote(i, r->RemoteCandidate_0, a),
        SdpAttribute::Rtcp(i) => r is Rtcp && mk_rtcp(i, r->Rtcp_0, a),
        SdpAttribute::Ssrc(i) => r is Ssrc && mk_ssrc(i, r->Ssrc_0, a),
        _ => r == x,
    }
}
spec fn mk_attrs(x: Seq<SdpAttribute>, r: Seq<SdpAttribute>, n: int, a: &StatefulSdpAnonymizer) -> bool {
    r.len() == n && forall|i: int| 0 <= i < n ==> mk_attr(x[i], #[trigger] r[i], a)
}
spec fn mk_media(x: SdpMedia, r: SdpMedia, a: &StatefulSdpAnonymizer) -> bool {
    &&& r.media == x.media && r.bandwidth@ == x.bandwidth@
    &&& mk_opt(x.connection, r.connection, |v: SdpConnection, w: SdpConnection| mk_conn(v, w, a))
    &&& mk_attrs(x.attribute@, r.attribute@, x.attribute@.len() as int, a)
}
spec fn mk_medias(x: Seq<SdpMedia>, r: Seq<SdpMedia>, n: int, a: &StatefulSdpAnonymizer) -> bool {
    r.len() == n && forall|i: int| 0 <= i < n ==> mk_media(x[i], #[trigger] r[i], a)
}
spec fn mk_session(x: SdpSession, r: SdpSession, a: &StatefulSdpAnonymizer) -> bool {
    &&& r.version == x.version && r.session == x.session && r.timing == x.timing && r.bandwidth@ == x.bandwidth@
    &&& mk_origin(x.origin, r.origin, a)
    &&& mk_opt(x.connection, r.connection, |v: SdpConnection, w: SdpConnection| mk_conn(v, w, a))
    &&& mk_attrs(x.attribute@, r.attribute@, x.attribute@.len() as int, a)
    &&& mk_medias(x.media@, r.media@, x.media@.len() as int, a)
}
proof fn lemma_attrs_mono(x: Seq<SdpAttribute>, r: Seq<SdpAttribute>, n: int, a: &StatefulSdpAnonymizer, b: &StatefulSdpAnonymizer)
    requires mk_attrs(x, r, n, a), b.stable(a) ensures mk_attrs(x, r, n, b)
{ assert forall|i: int| 0 <= i < n implies mk_attr(x[i], #[trigger] r[i], b) by { assert(mk_attr(x[i], r[i], a)); } }
proof fn lemma_medias_mono(x: Seq<SdpMedia>, r: Seq<SdpMedia>, n: int, a: &StatefulSdpAnonymizer, b: &StatefulSdpAnonymizer)
    requires mk_medias(x, r, n, a), b.stable(a) ensures mk_medias(x, r, n, b)
{ assert forall|i: int| 0 <= i < n implies mk_media(x[i], #[trigger] r[i], b) by { assert(mk_media(x[i], r[i], a)); lemma_attrs_mono(x[i].attribute@, r[i].attribute@, x[i].attribute@.len() as int, a, b); } }
@fn <SdpAttributeCandidate as AnonymizingClone>::masked_clone
@params self, anonymizer
@spec spec fn masked(&self, r: Self, a: &StatefulSdpAnonymizer) -> bool { mk_cand(*self, r, a) }
@spec proof fn masked_mono(&self, r: Self, a: &StatefulSdpAnonymizer, b: &StatefulSdpAnonymizer) {}
@ens C12: mk_cand(*self, r, final(anonymizer))
@fn <SdpAttributeRemoteCandidate as AnonymizingClone>::masked_clone
@params self, anon
@spec spec fn masked(&self, r: Self, a: &StatefulSdpAnonymizer) -> bool { mk_remote(*self, r, a) }
@spec proof fn masked_mono(&self, r: Self, a: &StatefulSdpAnonymizer, b: &StatefulSdpAnonymizer) {}
@ens C12: mk_remote(*self, r, final(anon))
@fn <SdpAttributeRtcp as AnonymizingClone>::masked_clone
@params self, anon
@spec spec fn masked(&self, r: Self, a: &StatefulSdpAnonymizer) -> bool { mk_rtcp(*self, r, a) }
@spec proof fn masked_mono(&self, r: Self, a: &StatefulSdpAnonymizer, b: &StatefulSdpAnonymizer) {}
@ens C12: mk_rtcp(*self, r, final(anon))
@fn <SdpAttributeFingerprint as AnonymizingClone>::masked_clone
@params self, anon
@spec spec fn masked(&self, r: Self, a: &StatefulSdpAnonymizer) -> bool { mk_fp(*self, r, a) }
@spec proof fn masked_mono(&self, r: Self, a: &StatefulSdpAnonymizer, b: &StatefulSdpAnonymizer) {}
@ens C12: mk_fp(*self, r, final(anon))
@fn <SdpAttributeSsrc as AnonymizingClone>::masked_clone
@params self, anon
@spec spec fn masked(&self, r: Self, a: &StatefulSdpAnonymizer) -> bool { mk_ssrc(*self, r, a) }
@spec proof fn masked_mono(&self, r: Self, a: &StatefulSdpAnonymizer, b: &StatefulSdpAnonymizer) {}
@ens C12: mk_ssrc(*self, r, final(anon))
@fn <SdpAttribute as AnonymizingClone>::masked_clone
@params self, anon
@spec spec fn masked(&self, r: Self, a: &StatefulSdpAnonymizer) -> bool { mk_attr(*self, r, a) }
@spec proof fn masked_mono(&self, r: Self, a: &StatefulSdpAnonymizer, b: &StatefulSdpAnonymizer) {}
@ens C12: mk_attr(*self, r, final(anon))
@fn <SdpConnection as AnonymizingClone>::masked_clone
@params self, anon
@spec spec fn masked(&self, r: Self, a: &StatefulSdpAnonymizer) -> bool { mk_conn(*self, r, a) }
@spec proof fn masked_mono(&self, r: Self, a: &StatefulSdpAnonymizer, b: &StatefulSdpAnonymizer) {}
@ens C12: mk_conn(*self, r, final(anon))
@fn <SdpOrigin as AnonymizingClone>::masked_clone
@params self, anon
@spec spec fn masked(&self, r: Self, a: &StatefulSdpAnonymizer) -> bool { mk_origin(*self, r, a) }
@spec proof fn masked_mono(&self, r: Self, a: &StatefulSdpAnonymizer, b: &StatefulSdpAnonymizer) {}
@ens C12: mk_origin(*self, r, final(anon))
@fn <SdpMedia as AnonymizingClone>::masked_clone
@params self, anon
@lets masked
@spec spec fn masked(&self, r: Self, a: &StatefulSdpAnonymizer) -> bool { mk_media(*self, r, a) }
@spec proof fn masked_mono(&self, r: Self, a: &StatefulSdpAnonymizer, b: &StatefulSdpAnonymizer) { lemma_attrs_mono(self.attribute@, r.attribute@, self.attribute@.len() as int, a, b); }
@ens C12: mk_media(*self, r, final(anon))
@loop 0
@inv *: anon.wf() && anon.stable(old(anon))
@inv C12: mk_attrs(self.attribute@, masked.attribute@, $n, anon)
@inv C12: masked.media == self.media && masked.bandwidth@ == self.bandwidth@
@inv C12: mk_opt(self.connection, masked.connection, |v: SdpConnection, w: SdpConnection| mk_conn(v, w, anon))
@at lb0: let ghost a0 = *anon; let ghost m0 = masked.attribute@;
@at le0: proof { lemma_attrs_mono(self.attribute@, m0, $n0 - 1, &a0, anon); assert(masked.attribute@.drop_last() =~= m0); }
@fn <SdpSession as AnonymizingClone>::masked_clone
@params self, anon
@lets masked
@spec spec fn masked(&self, r: Self, a: &StatefulSdpAnonymizer) -> bool { mk_session(*self, r, a) }
@spec proof fn masked_mono(&self, r: Self, a: &StatefulSdpAnonymizer, b: &StatefulSdpAnonymizer) { lemma_attrs_mono(self.attribute@, r.attribute@, self.attribute@.len() as int, a, b); lemma_medias_mono(self.media@, r.media@, self.media@.len() as int, a, b); }
@ens C12: mk_session(*self, r, final(anon))
@loop 0
@inv *: anon.wf() && anon.stable(old(anon))
@inv C12: mk_attrs(self.attribute@, masked.attribute@, $n, anon)
@inv C12: masked.media@.len() == 0
@inv C12: masked.version == self.version && masked.session == self.session && masked.timing == self.timing && masked.bandwidth@ == self.bandwidth@
@inv C12: mk_origin(self.origin, masked.origin, anon)
@inv C12: mk_opt(self.connection, masked.connection, |v: SdpConnection, w: SdpConnection| mk_conn(v, w, anon))
@loop 1
@inv *: anon.wf() && anon.stable(old(anon))
@inv C12: mk_attrs(self.attribute@, masked.attribute@, self.attribute@.len() as int, anon)
@inv C12: mk_medias(self.media@, masked.media@, $n, anon)
@inv C12: masked.version == self.version && masked.session == self.session && masked.timing == self.timing && masked.bandwidth@ == self.bandwidth@
@inv C12: mk_origin(self.origin, masked.origin, anon)
@inv C12: mk_opt(self.connection, masked.connection, |v: SdpConnection, w: SdpConnection| mk_conn(v, w, anon))
@at lb0: let ghost a0 = *anon; let ghost m0 = masked.attribute@;
@at le0: proof { lemma_attrs_mono(self.attribute@, m0, $n0 - 1, &a0, anon); assert(masked.attribute@.drop_last() =~= m0); }
@at lb1: let ghost a1 = *anon; let ghost m1 = masked.media@;
@at le1: proof { lemma_attrs_mono(self.attribute@, masked.attribute@, self.attribute@.len() as int, &a1, anon); lemma_medias_mono(self.media@, m1, $n1 - 1, &a1, anon); assert(masked.media@.drop_last() =~= m1); }
