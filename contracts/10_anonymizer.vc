@note types are extracted; only contracts here
@type AnonymizationStrMap
@type StatefulSdpAnonymizer
@raw
// the printed mask of the n-th value of a kind
spec fn mask_text(prefix: Str, n: int, pad: int) -> Str { prefix + pad0(n, pad) }
// pad0 is injective: proved from the definitions of dec/pad0
proof fn lemma_dval_dec(n: int) requires n >= 0 ensures dval(dec(n)) == n, dec(n).len() >= 1, all_digits(dec(n)) decreases n
{
    lemma_dchar();
    if n < 10 {
        assert(dec(n).drop_last() =~= Seq::<char>::empty());
        assert(dec(n).last() == dchar(n));
        assert(dval(Seq::<char>::empty()) == 0);
    } else {
        lemma_dval_dec(n / 10);
        assert(dec(n).drop_last() =~= dec(n / 10));
        assert(dec(n).last() == dchar(n % 10));
    }
}
proof fn lemma_dchar() ensures forall|n: int| 0 <= n < 10 ==> digit(#[trigger] dchar(n)) == n {
    assert forall|n: int| 0 <= n < 10 implies digit(#[trigger] dchar(n)) == n by {
        if n == 0 { } else if n == 1 {} else if n == 2 {} else if n == 3 {} else if n == 4 {} else if n == 5 {} else if n == 6 {} else if n == 7 {} else if n == 8 {} else {}
    }
}
proof fn lemma_zeros_dval(k: int, s: Str) requires k >= 0 ensures dval(zeros(k) + s) == dval(s) decreases s.len(), k
{
    if s.len() == 0 {
        assert(zeros(k) + s =~= zeros(k));
        if k > 0 {
            assert(zeros(k).drop_last() =~= zeros(k - 1));
            assert(zeros(k).last() == '0');
            lemma_zeros_dval(k - 1, s);
            assert(zeros(k - 1) + s =~= zeros(k - 1));
        }
    } else {
        assert((zeros(k) + s).drop_last() =~= zeros(k) + s.drop_last());
        assert((zeros(k) + s).last() == s.last());
        lemma_zeros_dval(k, s.drop_last());
    }
}
proof fn lemma_pad0_val(n: int, w: int) requires n >= 0 ensures dval(pad0(n, w)) == n
{
    lemma_dval_dec(n);
    if dec(n).len() < w { lemma_zeros_dval(w - dec(n).len(), dec(n)); }
}
proof fn lemma_mask_inj(p: Str, a: int, b: int, w: int) requires a >= 0, b >= 0, mask_text(p, a, w) == mask_text(p, b, w) ensures a == b
{
    lemma_pad0_val(a, w); lemma_pad0_val(b, w);
    assert(mask_text(p, a, w).subrange(p.len() as int, mask_text(p, a, w).len() as int) =~= pad0(a, w));
    assert(mask_text(p, b, w).subrange(p.len() as int, mask_text(p, b, w).len() as int) =~= pad0(b, w));
}

spec const P64: int = 0x1_0000_0000_0000_0000;
spec const P32: int = 0x1_0000_0000;
spec const P128: int = u128::MAX as int + 1;
// two values never share a mask
spec fn distinct<K, V>(m: Map<K, V>) -> bool {
    forall|k1: K, k2: K| #![trigger m[k1], m[k2]] m.dom().contains(k1) && m.dom().contains(k2) && k1 != k2 ==> m[k1] != m[k2]
}
// every association of o is still there: masks already handed out never change
spec fn keeps<K, V>(n: Map<K, V>, o: Map<K, V>) -> bool {
    forall|k: K| #[trigger] o.dom().contains(k) ==> n.dom().contains(k) && n[k] == o[k]
}
// the association made for one value: nothing else is touched
spec fn adds<K, V>(n: Map<K, V>, o: Map<K, V>, k: K) -> bool {
    n.dom() =~= o.dom().insert(k) && keeps(n, o)
}
proof fn lemma_mod_small(n: int, m: int) requires 0 <= n < m ensures n % m == n { vstd::arithmetic::div_mod::lemma_small_mod(n as nat, m as nat); }
proof fn lemma_mod_inc(n: int, m: int) requires 0 <= n, m > 0 ensures (n + 1) % m == (if n % m + 1 >= m { n % m + 1 - m } else { n % m + 1 }) {
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, m);
    vstd::arithmetic::div_mod::lemma_mod_bound(n, m);
    assert((n / m + 1) * m == m * (n / m) + m) by (nonlinear_arith);
    assert((n / m) * m == m * (n / m)) by (nonlinear_arith);
    if n % m + 1 >= m {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + 1, m, n / m + 1, n % m + 1 - m);
    } else {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + 1, m, n / m, n % m + 1);
    }
}
spec fn texts(m: Map<Str, String>) -> Map<Str, Str> { m.map_values(|x: String| x@) }
impl AnonymizationStrMap {
    spec fn m(&self) -> Map<Str, Str> { texts(self.map@) }
    // the counter counts the values seen, all masks handed out so far are numbered 1..=counter and pairwise different
    // (unless 2^64 values have been masked)
    spec fn wf(&self) -> bool {
        &&& self.m().dom().finite()
        &&& self.counter.0 as int == (self.m().dom().len() as int) % P64
        &&& self.m().dom().len() < P64 ==> {
            &&& forall|k: Str| #[trigger] self.m().dom().contains(k) ==> exists|n: int| 1 <= n <= self.counter.0 && self.m()[k] == #[trigger] mask_text(self.prefix@, n, self.padding as int)
            &&& distinct(self.m())
        }
    }
}
@fn AnonymizationStrMap::new
@params prefix, padding
@ens C11: r.wf() && r.m() =~= Map::<Str, Str>::empty() && r.prefix@ == prefix@ && r.padding == padding
@fn AnonymizationStrMap::mask
@params self, value
@req old(self).wf()
@ens C11: final(self).wf()
@ens C11: adds(final(self).m(), old(self).m(), value@)
@ens C11: r@ == final(self).m()[value@]
@ens C11: final(self).prefix == old(self).prefix && final(self).padding == old(self).padding
@at start : proof {
    if old(self).map@.dom().contains(value@) { assert(old(self).m().dom() =~= old(self).m().dom().insert(value@)); }
    lemma_mod_inc(self.m().dom().len() as int, P64); 
  }
@at after:store : proof { 
    let k = self.m().dom().len() as int; let n = self.counter.0 as int; let p = self.prefix@; let w = self.padding as int;
    if k + 1 < P64 {
    lemma_mod_small(k, P64); lemma_mod_small(k + 1, P64);
    assert(store@ =~= mask_text(p, n, w));
    assert forall|m: int| 1 <= m < n implies mask_text(p, m, w) != store@ by { if mask_text(p, m, w) == store@ { lemma_mask_inj(p, m, n, w); } }
    }
    assert(texts(self.map@.insert(value@, store)) =~= texts(self.map@).insert(value@, store@));
  }
@at tail : proof {
    let k = old(self).m().dom().len() as int; let n = self.counter.0 as int; let p = self.prefix@; let w = self.padding as int;
    if !old(self).m().dom().contains(value@) {
    assert(self.m().dom().len() == k + 1);
    if k + 1 < P64 {
      assert forall|k: Str| #[trigger] self.m().dom().contains(k) implies exists|n: int| 1 <= n <= self.counter.0 && self.m()[k] == #[trigger] mask_text(self.prefix@, n, self.padding as int) by {
        if k == value@ { assert(self.m()[k] == mask_text(p, n, w)); } else { assert(old(self).m().dom().contains(k)); }
      }
      assert(distinct(self.m())) by {
        assert forall|k: Str| #[trigger] old(self).m().dom().contains(k) implies old(self).m()[k] != mask_text(p, n, w) by { }
      }
    }
    }
  }
@raw
// ------------------------------------------------------------------ big endian bytes
spec fn be_val(b: Seq<u8>) -> int decreases b.len() { if b.len() == 0 { 0 } else { be_val(b.drop_last()) * 256 + b.last() } }
spec fn le_val(b: Seq<u8>) -> int decreases b.len() { if b.len() == 0 { 0 } else { b[0] + 256 * le_val(b.drop_first()) } }
spec fn pow256(n: int) -> int decreases n { if n <= 0 { 1 } else { 256 * pow256(n - 1) } }
proof fn lemma_le_push(b: Seq<u8>, x: u8) ensures le_val(b.push(x)) == le_val(b) + x * pow256(b.len() as int) decreases b.len() {
    if b.len() == 0 { assert(b.push(x).drop_first() =~= b); assert(le_val(b.push(x)) == x + 256 * le_val(b)); assert(pow256(0) == 1); assert(x * 1 == x); }
    else {
        assert(b.push(x).drop_first() =~= b.drop_first().push(x));
        lemma_le_push(b.drop_first(), x);
        let p = pow256(b.len() - 1); let l = le_val(b.drop_first());
        assert(pow256(b.len() as int) == 256 * p);
        assert(b.push(x)[0] == b[0]);
        assert(le_val(b) == b[0] + 256 * l);
        assert(le_val(b.push(x)) == b[0] + 256 * (l + x * p));
        assert(256 * (l + x * p) == 256 * l + x * (256 * p)) by (nonlinear_arith);
    }
}
proof fn lemma_reverse(b: Seq<u8>) ensures be_val(b.reverse()) == le_val(b) decreases b.len() {
    if b.len() > 0 { assert(b.reverse().drop_last() =~= b.drop_first().reverse()); lemma_reverse(b.drop_first()); }
}
@trait ToBytesVec
trait ToBytesVec {
    spec fn byte_val(&self) -> int;
    // the 8 bytes, most significant first
    fn to_byte_vec(&self) -> (r: Vec<u8>) ensures r@.len() == 8, be_val(r@) == self.byte_val();
}
@fn <u64 as ToBytesVec>::to_byte_vec
@params self
@lets bytes, val
@spec spec fn byte_val(&self) -> int { *self as int }
@ens C11: be_val(r@) == *self
@loop 0
@inv C11: bytes@.len() == $i, le_val(bytes@) + val * pow256($i as int) == *self
@at lb0: let ghost v0 = val; let ghost b0 = bytes@;
@at le0: proof {
    let i = $i0 as int; let x = (v0 & 0xff) as u8; 
    assert(v0 >> 8 == v0 / 256) by (bit_vector);
    assert(v0 as u8 == v0 % 256) by (bit_vector);
    assert(pow256(i + 1) == 256 * pow256(i));
    lemma_le_push(b0, v0 as u8);
    let p = pow256(i); let q = (v0 / 256) as int; let m = (v0 % 256) as int;
    assert((256 * q + m) * p == m * p + q * (256 * p)) by (nonlinear_arith);
    assert(v0 as int == 256 * q + m);
  }
@at tail: proof { 
    assert(pow256(8) == 0x1_0000_0000_0000_0000) by (compute); 
    let ghost p = pow256(8); assert(val * p >= p || val == 0) by (nonlinear_arith) requires val >= 0, p >= 0;
assert forall|s: Seq<u8>| #[trigger] s.reverse() == bytes@ implies s == bytes@.reverse() by { assert(s =~= s.reverse().reverse()); }
    lemma_le_nonneg(bytes@.reverse()); lemma_reverse(bytes@.reverse()); assert(bytes@.reverse().reverse() =~= bytes@);
  }
@raw
proof fn lemma_le_nonneg(b: Seq<u8>) ensures le_val(b) >= 0 decreases b.len() { if b.len() > 0 { lemma_le_nonneg(b.drop_first()); } }

@trait AnonymizingClone
trait AnonymizingClone: Sized {
    // r is self with every sensitive value replaced by the mask which a has for it
    spec fn masked(&self, r: Self, a: &StatefulSdpAnonymizer) -> bool;
    // a relation between a value and its masked copy outlives later masking in the same context
    proof fn masked_mono(&self, r: Self, a: &StatefulSdpAnonymizer, b: &StatefulSdpAnonymizer)
        requires self.masked(r, a), b.stable(a)
        ensures self.masked(r, b);
    fn masked_clone(&self, anon: &mut StatefulSdpAnonymizer) -> (r: Self)
        requires old(anon).wf()
        ensures
            final(anon).wf(), //# C11,C12
            final(anon).stable(old(anon)), //# C11,C12
            self.masked(r, final(anon)); //# C12
}
@raw
spec fn v4_keys(m: Map<IpAddr, IpAddr>) -> Set<IpAddr> { m.dom().filter(|a: IpAddr| a is V4) }
spec fn v6_keys(m: Map<IpAddr, IpAddr>) -> Set<IpAddr> { m.dom().filter(|a: IpAddr| a is V6) }
spec fn ips_wf(m: Map<IpAddr, IpAddr>, n4: int, n6: int) -> bool {
    &&& m.dom().finite()
    &&& n4 == (v4_keys(m).len() as int) % P32
    &&& n6 == (v6_keys(m).len() as int) % P128
    &&& forall|k: IpAddr| #[trigger] m.dom().contains(k) ==> (k is V4 <==> m[k] is V4)
    &&& v4_keys(m).len() < P32 && v6_keys(m).len() < P128 ==> {
        &&& forall|k: IpAddr| #[trigger] m.dom().contains(k) && k is V4 ==> exists|n: u32| 1 <= n <= n4 && m[k] == IpAddr::V4(#[trigger] ipv4_of(n))
        &&& forall|k: IpAddr| #[trigger] m.dom().contains(k) && k is V6 ==> exists|n: u128| 1 <= n <= n6 && m[k] == IpAddr::V6(#[trigger] ipv6_of(n))
        &&& distinct(m)
    }
}
spec fn ports_wf(m: Map<u32, u32>, n: int) -> bool {
    &&& m.dom().finite()
    &&& n == (m.dom().len() as int) % P32
    &&& m.dom().len() < P32 ==> {
        &&& forall|k: u32| #[trigger] m.dom().contains(k) ==> 1 <= m[k] <= n
        &&& distinct(m)
    }
}
spec fn bytes_of(m: Map<Seq<u8>, Vec<u8>>) -> Map<Seq<u8>, Seq<u8>> { m.map_values(|x: Vec<u8>| x@) }
spec fn fps_wf(m: Map<Seq<u8>, Seq<u8>>, n: int) -> bool {
    &&& m.dom().finite()
    &&& n == (m.dom().len() as int) % P64
    &&& m.dom().len() < P64 ==> {
        &&& forall|k: Seq<u8>| #[trigger] m.dom().contains(k) ==> 1 <= be_val(m[k]) <= n
        &&& distinct(m)
    }
}
impl StatefulSdpAnonymizer {
    spec fn fps(&self) -> Map<Seq<u8>, Seq<u8>> { bytes_of(self.cert_finger_prints@) }
    spec fn wf(&self) -> bool {
        &&& self.host_names.wf() && self.origin_users.wf() && self.ice_passwords.wf() && self.ice_users.wf() && self.cnames.wf()
        &&& ips_wf(self.ips@, self.ip_v4_inc.0 as int, self.ip_v6_inc.0 as int)
        &&& ports_wf(self.ports@, self.port_inc.0 as int)
        &&& fps_wf(self.fps(), self.cert_finger_print_inc.0 as int)
    }
    // every mask handed out by o is unchanged
    spec fn stable(&self, o: &Self) -> bool {
        &&& keeps(self.ips@, o.ips@) && keeps(self.ports@, o.ports@) && keeps(self.fps(), o.fps())
        &&& keeps(self.host_names.m(), o.host_names.m()) && keeps(self.origin_users.m(), o.origin_users.m())
        &&& keeps(self.ice_passwords.m(), o.ice_passwords.m()) && keeps(self.ice_users.m(), o.ice_users.m()) && keeps(self.cnames.m(), o.cnames.m())
    }
    spec fn nothing_masked(&self) -> bool {
        &&& self.ips@ =~= Map::<IpAddr, IpAddr>::empty() && self.ports@ =~= Map::<u32, u32>::empty() && self.fps() =~= Map::<Seq<u8>, Seq<u8>>::empty()
        &&& self.host_names.m() =~= Map::<Str, Str>::empty() && self.origin_users.m() =~= Map::<Str, Str>::empty() && self.ice_passwords.m() =~= Map::<Str, Str>::empty()
        &&& self.ice_users.m() =~= Map::<Str, Str>::empty() && self.cnames.m() =~= Map::<Str, Str>::empty()
    }
    // only the part of one kind differs
    spec fn only_hosts(&self, o: &Self) -> bool { *self == (StatefulSdpAnonymizer { host_names: self.host_names, ..*o }) }
    spec fn only_ips(&self, o: &Self) -> bool { *self == (StatefulSdpAnonymizer { ips: self.ips, ip_v4_inc: self.ip_v4_inc, ip_v6_inc: self.ip_v6_inc, ..*o }) }
    spec fn only_ports(&self, o: &Self) -> bool { *self == (StatefulSdpAnonymizer { ports: self.ports, port_inc: self.port_inc, ..*o }) }
    spec fn only_fps(&self, o: &Self) -> bool { *self == (StatefulSdpAnonymizer { cert_finger_prints: self.cert_finger_prints, cert_finger_print_inc: self.cert_finger_print_inc, ..*o }) }
    // the mask of a value under the associations of self
    spec fn has_host(&self, h: Str, r: Str) -> bool { self.host_names.m().dom().contains(h) && r == self.host_names.m()[h] }
    spec fn has_ip(&self, h: IpAddr, r: IpAddr) -> bool { self.ips@.dom().contains(h) && r == self.ips@[h] && (h is V4 <==> r is V4) }
    spec fn has_port(&self, h: u32, r: u32) -> bool { self.ports@.dom().contains(h) && r == self.ports@[h] }
    spec fn has_fp(&self, h: Seq<u8>, r: Seq<u8>) -> bool { self.fps().dom().contains(h) && r == self.fps()[h] }
    spec fn has_ouser(&self, h: Str, r: Str) -> bool { self.origin_users.m().dom().contains(h) && r == self.origin_users.m()[h] }
    spec fn has_pwd(&self, h: Str, r: Str) -> bool { self.ice_passwords.m().dom().contains(h) && r == self.ice_passwords.m()[h] }
    spec fn has_iuser(&self, h: Str, r: Str) -> bool { self.ice_users.m().dom().contains(h) && r == self.ice_users.m()[h] }
    spec fn has_cname(&self, h: Str, r: Str) -> bool { self.cnames.m().dom().contains(h) && r == self.cnames.m()[h] }
    spec fn has_addr(&self, a: Address, r: Address) -> bool {
        match a { Address::Fqdn(h) => r is Fqdn && self.has_host(h@, r->Fqdn_0@), Address::Ip(ip) => r is Ip && self.has_ip(ip, r->Ip_0) }
    }
    spec fn has_taddr(&self, a: ExplicitlyTypedAddress, r: ExplicitlyTypedAddress) -> bool {
        match a {
            ExplicitlyTypedAddress::Fqdn { address_type, domain } => r is Fqdn && r->address_type == address_type && self.has_host(domain@, r->domain@),
            ExplicitlyTypedAddress::Ip(ip) => r is Ip && self.has_ip(ip, r->Ip_0),
        }
    }
}
@fn StatefulSdpAnonymizer::new
@ens C11: r.wf() && r.nothing_masked()
@at start: proof { 
    lemma_mod_small(0, P32); lemma_mod_small(0, P64); lemma_mod_small(0, P128); 
    let e = Map::<IpAddr, IpAddr>::empty();
    assert(v4_keys(e) =~= Set::empty()); assert(v6_keys(e) =~= Set::empty());
    assert(bytes_of(Map::empty()) =~= Map::empty());
  }
@fn <StatefulSdpAnonymizer as Default>::default
@mode skip
@fn StatefulSdpAnonymizer::mask_host
@params self, host
@req old(self).wf()
@ens C11: final(self).wf()
@ens C11: final(self).has_host(host@, r@)
@ens C11: adds(final(self).host_names.m(), old(self).host_names.m(), host@)
@ens C11: final(self).only_hosts(old(self))
@ens C11: final(self).stable(old(self))
@fn StatefulSdpAnonymizer::mask_ip
@params self, addr
@req old(self).wf()
@ens C11: final(self).wf()
@ens C11: final(self).has_ip(*addr, r)
@ens C11: adds(final(self).ips@, old(self).ips@, *addr)
@ens C11: final(self).only_ips(old(self))
@ens C11: final(self).stable(old(self))
@at start: proof {
    let d = self.ips@; let a = *addr;
    if d.dom().contains(a) { assert(d.dom() =~= d.dom().insert(a)); }
    assert forall|v: IpAddr| v4_keys(#[trigger] d.insert(a, v)) =~= (if a is V4 { v4_keys(d).insert(a) } else { v4_keys(d) }) by {}
    assert forall|v: IpAddr| v6_keys(#[trigger] d.insert(a, v)) =~= (if a is V6 { v6_keys(d).insert(a) } else { v6_keys(d) }) by {}
    lemma_mod_inc(v4_keys(d).len() as int, P32); lemma_mod_inc(v6_keys(d).len() as int, P128);
    if v4_keys(d).len() + 1 < P32 { lemma_mod_small(v4_keys(d).len() as int, P32); lemma_mod_small(v4_keys(d).len() as int + 1, P32); }
    if v6_keys(d).len() + 1 < P128 { lemma_mod_small(v6_keys(d).len() as int, P128); lemma_mod_small(v6_keys(d).len() as int + 1, P128); }
  }
@fn StatefulSdpAnonymizer::mask_port
@params self, port
@req old(self).wf()
@ens C11: final(self).wf()
@ens C11: final(self).has_port(port, r)
@ens C11: adds(final(self).ports@, old(self).ports@, port)
@ens C11: final(self).only_ports(old(self))
@ens C11: final(self).stable(old(self))
@at start: proof {
    let d = self.ports@;
    if d.dom().contains(port) { assert(d.dom() =~= d.dom().insert(port)); }
    lemma_mod_inc(d.dom().len() as int, P32);
    if d.dom().len() + 1 < P32 { lemma_mod_small(d.dom().len() as int, P32); lemma_mod_small(d.dom().len() as int + 1, P32); }
  }
@fn StatefulSdpAnonymizer::mask_cert_finger_print
@params self, finger_print
@req old(self).wf()
@ens C11: final(self).wf()
@ens C11: final(self).has_fp(finger_print@, r@)
@ens C11: adds(final(self).fps(), old(self).fps(), finger_print@)
@ens C11: final(self).only_fps(old(self))
@ens C11: final(self).stable(old(self))
@at start: proof {
    let d = self.fps(); let k = finger_print@;
    if d.dom().contains(k) { assert(d.dom() =~= d.dom().insert(k)); }
    lemma_mod_inc(d.dom().len() as int, P64);
    if d.dom().len() + 1 < P64 { lemma_mod_small(d.dom().len() as int, P64); lemma_mod_small(d.dom().len() as int + 1, P64); }
    assert forall|v: Vec<u8>| bytes_of(#[trigger] self.cert_finger_prints@.insert(k, v)) =~= d.insert(k, v@) by {}
    lemma_be_inj();
  }
@fn StatefulSdpAnonymizer::mask_origin_user
@params self, user
@req old(self).wf()
@ens C11: final(self).wf()
@ens C11: final(self).has_ouser(user@, r@)
@ens C11: adds(final(self).origin_users.m(), old(self).origin_users.m(), user@)
@ens C11: *final(self) == (StatefulSdpAnonymizer { origin_users: final(self).origin_users, ..*old(self) })
@ens C11: final(self).stable(old(self))
@fn StatefulSdpAnonymizer::mask_ice_password
@params self, password
@req old(self).wf()
@ens C11: final(self).wf()
@ens C11: final(self).has_pwd(password@, r@)
@ens C11: adds(final(self).ice_passwords.m(), old(self).ice_passwords.m(), password@)
@ens C11: *final(self) == (StatefulSdpAnonymizer { ice_passwords: final(self).ice_passwords, ..*old(self) })
@ens C11: final(self).stable(old(self))
@fn StatefulSdpAnonymizer::mask_ice_user
@params self, user
@req old(self).wf()
@ens C11: final(self).wf()
@ens C11: final(self).has_iuser(user@, r@)
@ens C11: adds(final(self).ice_users.m(), old(self).ice_users.m(), user@)
@ens C11: *final(self) == (StatefulSdpAnonymizer { ice_users: final(self).ice_users, ..*old(self) })
@ens C11: final(self).stable(old(self))
@fn StatefulSdpAnonymizer::mask_cname
@params self, cname
@req old(self).wf()
@ens C11: final(self).wf()
@ens C11: final(self).has_cname(cname@, r@)
@ens C11: adds(final(self).cnames.m(), old(self).cnames.m(), cname@)
@ens C11: *final(self) == (StatefulSdpAnonymizer { cnames: final(self).cnames, ..*old(self) })
@ens C11: final(self).stable(old(self))
@raw
proof fn lemma_be_inj() ensures forall|a: Seq<u8>, b: Seq<u8>| a.len() == b.len() && #[trigger] be_val(a) == #[trigger] be_val(b) ==> a == b {
    assert forall|a: Seq<u8>, b: Seq<u8>| a.len() == b.len() && #[trigger] be_val(a) == #[trigger] be_val(b) implies a == b by { lemma_be_inj1(a, b); }
}
proof fn lemma_be_inj1(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len(), be_val(a) == be_val(b) ensures a == b decreases a.len() {
    if a.len() > 0 {
        let x = be_val(a.drop_last()); let y = be_val(b.drop_last());
        assert(x == y && a.last() == b.last());
        lemma_be_inj1(a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(a.last())); assert(b =~= b.drop_last().push(b.last()));
    } else { assert(a =~= b); }
}
@fn StatefulSdpAnonymizer::mask_address
@params self, address
@req old(self).wf()
@ens C11: final(self).wf()
@ens C11,C12: final(self).has_addr(*address, r)
@ens C11: final(self).stable(old(self))
@fn StatefulSdpAnonymizer::mask_typed_address
@params self, address
@req old(self).wf()
@ens C11: final(self).wf()
@ens C11,C12: final(self).has_taddr(*address, r)
@ens C11: final(self).stable(old(self))
