@note editing operations of SdpMedia and SdpSession
@raw
spec fn of_kind(t: SdpAttributeType) -> spec_fn(SdpAttribute) -> bool { |a: SdpAttribute| kind(a) == t }
spec fn not_kind(t: SdpAttributeType) -> spec_fn(SdpAttribute) -> bool { |a: SdpAttribute| kind(a) != t }
spec fn ref_of_kind<'a>(t: SdpAttributeType) -> spec_fn(&'a SdpAttribute) -> bool { |a: &'a SdpAttribute| kind(*a) == t }
spec fn is_codec(a: SdpAttribute) -> bool { a is Rtpmap || a is Fmtp || a is Rtcpfb || a is Sctpmap || a is SctpPort }
spec fn no_codec() -> spec_fn(SdpAttribute) -> bool { |a: SdpAttribute| !is_codec(a) }
spec fn all_media_ok(s: Seq<SdpAttribute>) -> bool { forall|i: int| 0 <= i < s.len() ==> media_ok(#[trigger] s[i]) }
spec fn all_session_ok(s: Seq<SdpAttribute>) -> bool { forall|i: int| 0 <= i < s.len() ==> session_ok(#[trigger] s[i]) }
spec fn no_formats(f: SdpFormatList, g: SdpFormatList) -> bool {
    match f { SdpFormatList::Integers(_) => g is Integers && g->Integers_0@.len() == 0, SdpFormatList::Strings(_) => g is Strings && g->Strings_0@.len() == 0 }
}
spec fn plus_format(f: SdpFormatList, pt: u8, g: SdpFormatList) -> bool {
    match f {
        SdpFormatList::Integers(x) => g is Integers && g->Integers_0@ == x@.push(pt as u32),
        SdpFormatList::Strings(x) => g is Strings && strs(g->Strings_0@) == strs(x@).push(dec(pt as int)),
    }
}
// everything but the attribute list (and the formats) is the same
spec fn only_attrs(n: SdpMedia, o: SdpMedia) -> bool { n.media == o.media && n.connection == o.connection && n.bandwidth@ == o.bandwidth@ }
spec fn same_line(n: SdpMediaLine, o: SdpMediaLine) -> bool { n.media == o.media && n.port == o.port && n.port_count == o.port_count && n.proto == o.proto }
spec fn sess_rest(n: SdpSession, o: SdpSession) -> bool {
    n.version == o.version && n.origin == o.origin && n.session == o.session && n.warnings@ == o.warnings@
}
spec fn sess_same_but_media(n: SdpSession, o: SdpSession) -> bool {
    sess_rest(n, o) && n.connection == o.connection && n.bandwidth@ == o.bandwidth@ && n.timing == o.timing && n.attribute@ == o.attribute@
}
// removing a kind keeps a list well levelled, and is the identity where the kind does not occur
proof fn lemma_filter_keep(s: Seq<SdpAttribute>, p: spec_fn(SdpAttribute) -> bool)
    ensures
        (forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i])) ==> s.filter(p) == s,
        all_media_ok(s) ==> all_media_ok(s.filter(p)),
        all_session_ok(s) ==> all_session_ok(s.filter(p)),
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_filter_keep(t, p);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == s[i] by {}
        if forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) {
            assert forall|i: int| 0 <= i < t.len() implies p(#[trigger] t[i]) by { assert(p(s[i])); }
            assert(s =~= t.push(s.last()));
        }
        if all_media_ok(s) { assert(all_media_ok(t)) by { assert forall|i: int| 0 <= i < t.len() implies media_ok(#[trigger] t[i]) by { assert(media_ok(s[i])); } } assert(media_ok(s[s.len() - 1])); }
        if all_session_ok(s) { assert(all_session_ok(t)) by { assert forall|i: int| 0 <= i < t.len() implies session_ok(#[trigger] t[i]) by { assert(session_ok(s[i])); } } assert(session_ok(s[s.len() - 1])); }
    } else { assert(s.filter(p) =~= s); }
}
// a refused kind does not occur in a well levelled list
proof fn lemma_refused(s: Seq<SdpAttribute>, a: SdpAttribute)
    requires all_media_ok(s), !media_ok(a) ensures s.filter(not_kind(kind(a))) == s, //# C03
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] not_kind(kind(a))(s[i]) by { assert(media_ok(s[i])); }
    lemma_filter_keep(s, not_kind(kind(a)));
}
@fn SdpMedia::new
@params media
@ens C13,C05: r.media == media && r.connection is None && r.bandwidth@.len() == 0 && r.attribute@.len() == 0
@fn SdpMedia::get_type
@params self
@ens C13: *r == self.media.media
@fn SdpMedia::set_port
@params self, port
@ens C13: *final(self) == (SdpMedia { media: SdpMediaLine { port, ..old(self).media }, ..*old(self) })
@fn SdpMedia::get_port
@params self
@ens C13: r == self.media.port
@fn SdpMedia::get_port_count
@params self
@ens C13: r == self.media.port_count
@fn SdpMedia::get_proto
@params self
@ens C13: *r == self.media.proto
@fn SdpMedia::get_formats
@params self
@ens C13,C02: *r == self.media.formats
@fn SdpMedia::get_bandwidth
@params self
@ens C13: *r == self.bandwidth
@fn SdpMedia::add_bandwidth
@params self, bw
@ens C13,C05: final(self).bandwidth@ == old(self).bandwidth@.push(bw)
@ens C13,C05: final(self).media == old(self).media && final(self).connection == old(self).connection && final(self).attribute@ == old(self).attribute@
@fn SdpMedia::get_attributes
@params self
@ens C13,C02: *r == self.attribute
@fn SdpMedia::add_attribute
@params self, attr
@ens C03,C05,C13: r is Ok <==> media_ok(attr)
@ens C03,C05,C13: final(self).attribute@ == (if media_ok(attr) { old(self).attribute@.push(attr) } else { old(self).attribute@ })
@ens C13,C05: only_attrs(*final(self), *old(self))
@ens C03: all_media_ok(old(self).attribute@) ==> all_media_ok(final(self).attribute@)
@fn SdpMedia::get_attribute
@params self, t
@ens C13,C02: first_match(refs(self.attribute@), ref_of_kind(t), r)
@ens *: r is Some <==> has_kind(self.attribute@, t)
@ens *: r matches Some(a) ==> kind(*a) == t
@at post: proof { lemma_has_kind(self.attribute@, t, r); }
@cl 0 |a: &&SdpAttribute| -> (b: bool)
@clghost ref_of_kind(t)
@clens b == (kind(**a) == t)
@fn SdpMedia::remove_attribute
@params self, t
@ens C13,C03: final(self).attribute@ == old(self).attribute@.filter(not_kind(t))
@ens C13: only_attrs(*final(self), *old(self))
@ens C03: all_media_ok(old(self).attribute@) ==> all_media_ok(final(self).attribute@)
@cl 0 |a: &SdpAttribute| -> (b: bool)
@clghost not_kind(t)
@clens b == (kind(*a) != t)
@at start: proof { lemma_filter_keep(self.attribute@, not_kind(t)); }
@fn SdpMedia::set_attribute
@params self, attr
@ens C03,C13: r is Ok <==> media_ok(attr)
@ens C13: r is Ok ==> final(self).attribute@ == old(self).attribute@.filter(not_kind(kind(attr))).push(attr)
@ens C03: r is Err && all_media_ok(old(self).attribute@) ==> final(self).attribute@ == old(self).attribute@
@ens C13: only_attrs(*final(self), *old(self))
@ens C03: all_media_ok(old(self).attribute@) ==> all_media_ok(final(self).attribute@)
@at start: proof { if all_media_ok(self.attribute@) && !media_ok(attr) { lemma_refused(self.attribute@, attr); } }
@fn SdpMedia::remove_codecs
@params self
@ens C13: no_formats(old(self).media.formats, final(self).media.formats)
@ens C13: final(self).attribute@ == old(self).attribute@.filter(no_codec())
@ens C13: same_line(final(self).media, old(self).media) && final(self).connection == old(self).connection && final(self).bandwidth@ == old(self).bandwidth@
@ens C03: all_media_ok(old(self).attribute@) ==> all_media_ok(final(self).attribute@)
@cl 0 |x: &SdpAttribute| -> (b: bool)
@clghost no_codec()
@clens b == !is_codec(*x)
@at start: proof { lemma_filter_keep(self.attribute@, no_codec()); }
@fn SdpMedia::add_codec
@params self, rtpmap
@ens C13: r is Ok
@ens C13: plus_format(old(self).media.formats, rtpmap.payload_type, final(self).media.formats)
@ens C13: final(self).attribute@ == old(self).attribute@.push(SdpAttribute::Rtpmap(rtpmap))
@ens C13: same_line(final(self).media, old(self).media) && final(self).connection == old(self).connection && final(self).bandwidth@ == old(self).bandwidth@
@ens C03: all_media_ok(old(self).attribute@) ==> all_media_ok(final(self).attribute@)
@at tail: proof {
    if self.media.formats is Strings { assert(strs(self.media.formats->Strings_0@) =~= strs(old(self).media.formats->Strings_0@).push(dec(rtpmap.payload_type as int))); }
  }
@fn SdpMedia::get_attributes_of_type
@params self, t
@ens C13: r@ == refs(self.attribute@).filter(ref_of_kind(t))
@cl 0 |a: &&SdpAttribute| -> (b: bool)
@clghost ref_of_kind(t)
@clens b == (kind(**a) == t)
@fn SdpMedia::get_connection
@params self
@ens C13,C02: *r == self.connection
@fn SdpMedia::set_connection
@params self, c
@ens C13,C05: final(self).connection == Some(c)
@ens C13,C05: final(self).media == old(self).media && final(self).bandwidth@ == old(self).bandwidth@ && final(self).attribute@ == old(self).attribute@
@raw
// the data channel attributes of a section, by protocol
spec fn new_dc(p: SdpProtocolValue) -> bool { p is UdpDtlsSctp || p is TcpDtlsSctp }
spec fn dc_attr(p: SdpProtocolValue, port: u16, streams: u16) -> SdpAttribute {
    if new_dc(p) { SdpAttribute::SctpPort(port as u64) } else { SdpAttribute::Sctpmap(SdpAttributeSctpmap { port, channels: streams as u32 }) }
}
spec fn set_attr(s: Seq<SdpAttribute>, a: SdpAttribute) -> Seq<SdpAttribute> { s.filter(not_kind(kind(a))).push(a) }
spec fn dc_attrs(s: Seq<SdpAttribute>, p: SdpProtocolValue, port: u16, streams: u16, size: u32) -> Seq<SdpAttribute> {
    let t = set_attr(s, dc_attr(p, port, streams));
    if size > 0 { set_attr(t, SdpAttribute::MaxMessageSize(size as u64)) } else { t }
}
@fn SdpMedia::add_datachannel
@params self, name, port, streams, msg_size
@ens C13: r is Ok
@ens C13: new_dc(old(self).media.proto) ==> final(self).media.formats is Strings && strs(final(self).media.formats->Strings_0@) =~= seq![name@]
@ens C13: !new_dc(old(self).media.proto) ==> final(self).media.formats is Integers && final(self).media.formats->Integers_0@ =~= seq![port as u32]
@ens C13: final(self).attribute@ == dc_attrs(old(self).attribute@, old(self).media.proto, port, streams, msg_size)
@ens C13: final(self).media.media is Application && final(self).media.port == old(self).media.port && final(self).media.port_count == old(self).media.port_count && final(self).media.proto == old(self).media.proto
@ens C13: final(self).connection == old(self).connection && final(self).bandwidth@ == old(self).bandwidth@
@ens C03: all_media_ok(old(self).attribute@) ==> all_media_ok(final(self).attribute@)

@fn SdpSession::new
@params version, origin, session
@ens C16,C05: r.version == version && r.origin == origin
@ens C16,C05: match r.session { None => trim(session@).len() == 0, Some(s) => trim(session@).len() > 0 && s@ == trim(session@) }
@ens C05: r.connection is None && r.timing is None && r.bandwidth@.len() == 0 && r.attribute@.len() == 0 && r.media@.len() == 0 && r.warnings@.len() == 0
@fn SdpSession::get_version
@params self
@ens C13: r == self.version
@fn SdpSession::get_origin
@params self
@ens C13: *r == self.origin
@fn SdpSession::get_session
@params self
@ens C13: *r == self.session
@fn SdpSession::get_session_text
@params self
@ens C13,C10: r@ == (match self.session { Some(s) => s@, None => " "@ })
@fn SdpSession::get_connection
@params self
@ens C13,C02: *r == self.connection
@fn SdpSession::set_connection
@params self, c
@ens C13,C05: *final(self) == (SdpSession { connection: Some(c), ..*old(self) })
@fn SdpSession::add_bandwidth
@params self, b
@ens C13,C05: final(self).bandwidth@ == old(self).bandwidth@.push(b)
@ens C13,C05: *final(self) == (SdpSession { bandwidth: final(self).bandwidth, ..*old(self) })
@fn SdpSession::set_timing
@params self, t
@ens C13,C05: *final(self) == (SdpSession { timing: Some(t), ..*old(self) })
@fn SdpSession::add_attribute
@params self, a
@ens C03,C05,C13: r is Ok <==> session_ok(a)
@ens C03,C05,C13: final(self).attribute@ == (if session_ok(a) { old(self).attribute@.push(a) } else { old(self).attribute@ })
@ens C13,C05: *final(self) == (SdpSession { attribute: final(self).attribute, ..*old(self) })
@ens C03: all_session_ok(old(self).attribute@) ==> all_session_ok(final(self).attribute@)
@fn SdpSession::extend_media
@params self, v
@ens C13,C05: final(self).media@ == old(self).media@ + v@
@ens C13,C05: *final(self) == (SdpSession { media: final(self).media, ..*old(self) })
@fn SdpSession::get_attribute
@params self, t
@ens C13,C02: first_match(refs(self.attribute@), ref_of_kind(t), r)
@ens *: r is Some <==> has_kind(self.attribute@, t)
@ens *: r matches Some(a) ==> kind(*a) == t
@at post: proof { lemma_has_kind(self.attribute@, t, r); }
@cl 0 |a: &&SdpAttribute| -> (b: bool)
@clghost ref_of_kind(t)
@clens b == (kind(**a) == t)
@raw
// the section add_media appends
spec fn new_section(m: SdpMedia, media_type: SdpMediaValue, direction: SdpAttribute, port: u32, protocol: SdpProtocolValue, addr: ExplicitlyTypedAddress) -> bool {
    &&& m.media.media == media_type && m.media.port == port && m.media.port_count == 1 && m.media.proto == protocol
    &&& m.media.formats is Integers && m.media.formats->Integers_0@.len() == 0
    &&& m.attribute@ =~= seq![direction] && m.bandwidth@.len() == 0
    &&& m.connection == Some(SdpConnection { address: addr, ttl: None, amount: None })
}
@fn SdpSession::add_media
@params self, media_type, direction, port, protocol, addr
@ens C03,C13: r is Ok <==> media_ok(direction)
@ens C03,C13: r is Err ==> final(self).media@ == old(self).media@
@ens C13: r is Ok ==> final(self).media@.len() == old(self).media@.len() + 1 && final(self).media@.drop_last() == old(self).media@ && new_section(final(self).media@.last(), media_type, direction, port, protocol, addr)
@ens C13: *final(self) == (SdpSession { media: final(self).media, ..*old(self) })
