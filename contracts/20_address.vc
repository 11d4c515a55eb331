@note error.rs, address.rs, network.rs
@fn <SdpParserInternalError as From<ParseIntError>>::from
@params err
@spec OUT impl FromSpecImpl<ParseIntError> for SdpParserInternalError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ParseIntError) -> Self { SdpParserInternalError::Integer(v) } }
@ens *: r == SdpParserInternalError::Integer(err)
@fn <SdpParserInternalError as From<UrlParseError>>::from
@params err
@spec OUT impl FromSpecImpl<UrlParseError> for SdpParserInternalError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: UrlParseError) -> Self { SdpParserInternalError::Domain(v) } }
@ens *: r == SdpParserInternalError::Domain(err)
@fn <SdpParserInternalError as From<std::net::AddrParseError>>::from
@params err
@spec OUT impl FromSpecImpl<std::net::AddrParseError> for SdpParserInternalError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: std::net::AddrParseError) -> Self { SdpParserInternalError::IpAddress(v) } }
@ens *: r == SdpParserInternalError::IpAddress(err)
@fn <SdpParserInternalError as From<ParseFloatError>>::from
@params err
@spec OUT impl FromSpecImpl<ParseFloatError> for SdpParserInternalError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ParseFloatError) -> Self { SdpParserInternalError::Float(v) } }
@ens *: r == SdpParserInternalError::Float(err)

@raw
impl VErrInto<SdpParserInternalError> for SdpParserInternalError { spec fn ei(self, r: SdpParserInternalError) -> bool { r == self } fn err_into(self) -> (r: SdpParserInternalError) { self } }
impl VErrInto<SdpParserError> for SdpParserError { spec fn ei(self, r: SdpParserError) -> bool { r == self } fn err_into(self) -> (r: SdpParserError) { self } }
impl VErrInto<SdpParserInternalError> for ParseIntError { spec fn ei(self, r: SdpParserInternalError) -> bool { r == SdpParserInternalError::Integer(self) } fn err_into(self) -> (r: SdpParserInternalError) { self.into() } }
impl VErrInto<SdpParserInternalError> for ParseFloatError { spec fn ei(self, r: SdpParserInternalError) -> bool { r == SdpParserInternalError::Float(self) } fn err_into(self) -> (r: SdpParserInternalError) { self.into() } }
impl VErrInto<SdpParserInternalError> for UrlParseError { spec fn ei(self, r: SdpParserInternalError) -> bool { r == SdpParserInternalError::Domain(self) } fn err_into(self) -> (r: SdpParserInternalError) { self.into() } }
impl VErrInto<SdpParserInternalError> for std::net::AddrParseError { spec fn ei(self, r: SdpParserInternalError) -> bool { r == SdpParserInternalError::IpAddress(self) } fn err_into(self) -> (r: SdpParserInternalError) { self.into() } }
spec fn family(ip: IpAddr) -> AddressType { if ip is V4 { AddressType::IpV4 } else { AddressType::IpV6 } }
// how an address text is read: with a colon it may be an IP literal, otherwise it is a URL host
spec fn addr_ok(s: Str) -> bool { (s.contains(':') && ip_ok(s)) || host_ok(s) }
spec fn addr_of(s: Str) -> Address {
    if s.contains(':') && ip_ok(s) { Address::Ip(ip_of(s)) }
    else { match host_of(s) { Host::Domain(d) => Address::Fqdn(d), Host::Ipv4(i) => Address::Ip(IpAddr::V4(i)), Host::Ipv6(i) => Address::Ip(IpAddr::V6(i)) } }
}
spec fn addr_str(a: Address) -> Str { match a { Address::Fqdn(d) => d@, Address::Ip(i) => ip_str(i) } }
@fn <Address as fmt::Display>::fmt
@params self, f
@spec spec fn disp(&self) -> Str { addr_str(*self) }
@ens *: final(f)@ == old(f)@ + addr_str(*self)
@fn <Address as FromStr>::from_str
@params s
@lets e
@spec spec fn accepts(s: Str) -> bool { addr_ok(s) }
@spec spec fn value(s: Str, v: Self) -> bool { v == addr_of(s) }
@spec spec fn error(s: Str, e: Self::Err) -> bool { !(e is Unsupported) }
@ens C14,C08,C16: r matches Ok(v) ==> v == addr_of(s@)
@ens C14,C08,C16: r is Ok <==> addr_ok(s@)
@cl 0 |host: Host| -> (r: Address)
@clens r == (match host { Host::Domain(d) => Address::Fqdn(d), Host::Ipv4(i) => Address::Ip(IpAddr::V4(i)), Host::Ipv6(i) => Address::Ip(IpAddr::V6(i)) })
@fn <Address as From<ExplicitlyTypedAddress>>::from
@params item
@spec OUT impl FromSpecImpl<ExplicitlyTypedAddress> for Address { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: ExplicitlyTypedAddress) -> Self { untyped(v) } }
@ens C14,C12: r == untyped(item)
@raw
pub closed spec fn untyped(v: ExplicitlyTypedAddress) -> Address { match v { ExplicitlyTypedAddress::Fqdn { address_type, domain } => Address::Fqdn(domain), ExplicitlyTypedAddress::Ip(ip) => Address::Ip(ip) } }
pub closed spec fn addr_eq(a: Address, b: Address) -> bool {
    match (a, b) { (Address::Fqdn(x), Address::Fqdn(y)) => to_lower(x@) == to_lower(y@), (Address::Ip(x), Address::Ip(y)) => x == y, _ => false }
}
pub closed spec fn typed_eq(a: ExplicitlyTypedAddress, b: ExplicitlyTypedAddress) -> bool {
    match (a, b) {
        (ExplicitlyTypedAddress::Fqdn { address_type: t1, domain: d1 }, ExplicitlyTypedAddress::Fqdn { address_type: t2, domain: d2 }) => t1 == t2 && to_lower(d1@) == to_lower(d2@),
        (ExplicitlyTypedAddress::Ip(x), ExplicitlyTypedAddress::Ip(y)) => x == y, _ => false }
}
// the laws of equality, on the contracts of the two eq functions
proof fn lemma_addr_eq_laws(a: Address, b: Address, c: Address)
    ensures
        addr_eq(a, a), //# C14
        addr_eq(a, b) ==> addr_eq(b, a), //# C14
        addr_eq(a, b) && addr_eq(b, c) ==> addr_eq(a, c), //# C14
        (a is Fqdn && b is Ip) ==> !addr_eq(a, b) && !addr_eq(b, a), //# C14
{}
proof fn lemma_typed_eq_laws(a: ExplicitlyTypedAddress, b: ExplicitlyTypedAddress, c: ExplicitlyTypedAddress)
    ensures
        typed_eq(a, a), //# C14
        typed_eq(a, b) ==> typed_eq(b, a), //# C14
        typed_eq(a, b) && typed_eq(b, c) ==> typed_eq(a, c), //# C14
        (a is Fqdn && b is Ip) ==> !typed_eq(a, b) && !typed_eq(b, a), //# C14
        typed_eq(a, b) ==> typed_family(a) == typed_family(b), //# C14
{}
@fn <Address as PartialEq>::eq
@params self, other
@spec OUT impl PartialEqSpecImpl for Address { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { addr_eq(*self, *other) } }
@ens C14: r == addr_eq(*self, *other)
@fn <ExplicitlyTypedAddress as PartialEq>::eq
@params self, other
@spec OUT impl PartialEqSpecImpl for ExplicitlyTypedAddress { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { typed_eq(*self, *other) } }
@ens C14: r == typed_eq(*self, *other)

@raw
spec fn aty_str(t: AddressType) -> Str { match t { AddressType::IpV4 => "IP4"@, AddressType::IpV6 => "IP6"@ } }
spec fn typed_family(a: ExplicitlyTypedAddress) -> AddressType { match a { ExplicitlyTypedAddress::Fqdn { address_type, domain } => address_type, ExplicitlyTypedAddress::Ip(ip) => family(ip) } }
@fn <AddressType as fmt::Display>::fmt
@params self, f
@spec spec fn disp(&self) -> Str { aty_str(*self) }
@ens *: final(f)@ == old(f)@ + aty_str(*self)
@fn <AddressType as FromStr>::from_str
@params s
@spec spec fn accepts(s: Str) -> bool { to_upper(s) == "IP4"@ || to_upper(s) == "IP6"@ }
@spec spec fn value(s: Str, v: Self) -> bool { to_upper(s) == aty_str(v) }
@spec spec fn error(s: Str, e: Self::Err) -> bool { !(e is Unsupported) }
@ens C14,C16: r matches Ok(v) ==> to_upper(s@) == aty_str(v)
@trait AddressTyped
trait AddressTyped {
    spec fn aty(&self) -> AddressType;
    fn address_type(&self) -> (r: AddressType) ensures r == self.aty();
}
@fn <IpAddr as AddressTyped>::address_type
@params self
@spec spec fn aty(&self) -> AddressType { family(*self) }
@ens C14: r == family(*self)
@fn <ExplicitlyTypedAddress as AddressTyped>::address_type
@params self
@spec spec fn aty(&self) -> AddressType { typed_family(*self) }
@ens C14: r == typed_family(*self)
@raw
spec fn typed_str(a: ExplicitlyTypedAddress) -> Str {
    "IN "@ + aty_str(typed_family(a)) + " "@ + (match a { ExplicitlyTypedAddress::Fqdn { address_type, domain } => domain@, ExplicitlyTypedAddress::Ip(ip) => ip_str(ip) })
}
@fn <ExplicitlyTypedAddress as fmt::Display>::fmt
@params self, f
@spec spec fn disp(&self) -> Str { typed_str(*self) }
@ens C10: final(f)@ == old(f)@ + typed_str(*self)
@at post: proof { assert(f@ =~= old(f)@ + typed_str(*self)); }
@fn <ExplicitlyTypedAddress as From<IpAddr>>::from
@params item
@spec OUT impl FromSpecImpl<IpAddr> for ExplicitlyTypedAddress { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: IpAddr) -> Self { ExplicitlyTypedAddress::Ip(v) } }
@ens C14: r == ExplicitlyTypedAddress::Ip(item)
@fn <ExplicitlyTypedAddress as From<Ipv4Addr>>::from
@params item
@spec OUT impl FromSpecImpl<Ipv4Addr> for ExplicitlyTypedAddress { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Ipv4Addr) -> Self { ExplicitlyTypedAddress::Ip(IpAddr::V4(v)) } }
@ens C14: r == ExplicitlyTypedAddress::Ip(IpAddr::V4(item))
@fn <ExplicitlyTypedAddress as From<Ipv6Addr>>::from
@params item
@spec OUT impl FromSpecImpl<Ipv6Addr> for ExplicitlyTypedAddress { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Ipv6Addr) -> Self { ExplicitlyTypedAddress::Ip(IpAddr::V6(v)) } }
@ens C14: r == ExplicitlyTypedAddress::Ip(IpAddr::V6(item))
@raw
spec fn typed_ok(t: AddressType, s: Str) -> bool { addr_ok(s) && (addr_of(s) matches Address::Ip(ip) ==> family(ip) == t) }
spec fn typed_of(t: AddressType, s: Str) -> ExplicitlyTypedAddress { match addr_of(s) { Address::Ip(ip) => ExplicitlyTypedAddress::Ip(ip), Address::Fqdn(domain) => ExplicitlyTypedAddress::Fqdn { address_type: t, domain } } }
@fn <ExplicitlyTypedAddress as TryFrom<(AddressType,&str)>>::try_from
@params item
@spec spec fn tf_accepts(x: (AddressType, &str)) -> bool { typed_ok(x.0, x.1@) }
@spec spec fn tf_value(x: (AddressType, &str), v: Self) -> bool { v == typed_of(x.0, x.1@) }
@spec spec fn tf_error(x: (AddressType, &str), e: Self::Error) -> bool { !(e is Unsupported) }
@ens C14,C16: r is Ok <==> typed_ok(item.0, item.1@)
@ens C14,C16: r matches Ok(v) ==> v == typed_of(item.0, item.1@)
@ens C14: r matches Ok(v) ==> typed_family(v) == item.0

@fn ip_address_to_string
@params addr
@ens C10: r@ == "IN "@ + aty_str(family(addr)) + " "@ + ip_str(addr)
@at start: proof { reveal_strlit("IN "); reveal_strlit("IP4"); reveal_strlit("IP6"); reveal_strlit(" "); assert("IN IP4 "@ =~= "IN "@ + "IP4"@ + " "@); assert("IN IP6 "@ =~= "IN "@ + "IP6"@ + " "@); }
@fn parse_network_type
@params value
@ens C14,C16: r is Ok <==> to_upper(value@) == "IN"@
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@raw
spec fn aty_ok(s: Str) -> bool { let u = to_upper(to_upper(s)); u == "IP4"@ || u == "IP6"@ }
spec fn aty_of(s: Str) -> AddressType { if to_upper(to_upper(s)) == "IP4"@ { AddressType::IpV4 } else { AddressType::IpV6 } }
@fn parse_address_type
@params value
@ens C14,C16: r is Ok <==> aty_ok(value@)
@ens C14,C16: r matches Ok(v) ==> v == aty_of(value@)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
@fn parse_unicast_address
@params value
@ens C08: r is Ok <==> addr_ok(value@)
@ens C08: r matches Ok(v) ==> v == addr_of(value@)
@ens C06: r matches Err(e) ==> !(e is Unsupported)
