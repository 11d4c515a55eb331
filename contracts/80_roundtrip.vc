@note printed text parses back (properties C09, C10)
@raw
// ---------------------------------------------------------------- tokens
spec fn noc(s: Str, c: char) -> bool { !s.contains(c) }
spec fn nows(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> !is_ws(#[trigger] s[i]) }
spec fn tok(s: Str) -> bool { s.len() > 0 && nows(s) }
spec fn toks(v: Seq<Str>) -> bool { forall|i: int| 0 <= i < v.len() ==> tok(#[trigger] v[i]) }
spec fn nocs(v: Seq<Str>, c: char) -> bool { forall|i: int| 0 <= i < v.len() ==> noc(#[trigger] v[i], c) }
spec fn sp() -> Str { seq![' '] }
proof fn rt_word_all(s: Str) requires nows(s) ensures word_len(s) == s.len() decreases s.len() {
    if s.len() > 0 { assert(!is_ws(s[0])); assert forall|i: int| 0 <= i < s.drop_first().len() implies !is_ws(#[trigger] s.drop_first()[i]) by { assert(s.drop_first()[i] == s[i + 1]); } rt_word_all(s.drop_first()); }
}
proof fn rt_word(s: Str) ensures 0 <= word_len(s) <= s.len(), nows(s.subrange(0, word_len(s))), word_len(s) < s.len() ==> is_ws(s[word_len(s)]) decreases s.len() {
    if s.len() > 0 && !is_ws(s[0]) {
        let t = s.drop_first(); rt_word(t); let k = word_len(t);
        assert forall|i: int| 0 <= i < 1 + k implies !is_ws(#[trigger] s.subrange(0, 1 + k)[i]) by { if i > 0 { assert(t.subrange(0, k)[i - 1] == t[i - 1]); assert(!is_ws(t.subrange(0, k)[i - 1])); } }
        if k < t.len() { assert(t[k] == s[k + 1]); }
    }
}
proof fn rt_split_tok(s: Str) requires tok(s) ensures split_ws(s) == seq![s] {
    rt_word_all(s); assert(!is_ws(s[0])); assert(trim_start(s) == s);
    let e = s.subrange(s.len() as int, s.len() as int); assert(e.len() == 0); assert(trim_start(e) == e); assert(split_ws(e) =~= Seq::<Str>::empty());
    assert(s.subrange(0, s.len() as int) =~= s); assert(split_ws(s) =~= seq![s]);
}
proof fn rt_split_toks(s: Str) ensures toks(split_ws(s)) decreases s.len() {
    let t = trim_start(s); lemma_trim_start_len(s); lemma_trim_start_head(s); rt_word(t);
    if t.len() > 0 {
        let k = word_len(t); rt_split_toks(t.subrange(k, t.len() as int));
        assert forall|i: int| 0 <= i < split_ws(s).len() implies tok(#[trigger] split_ws(s)[i]) by { if i > 0 { assert(split_ws(s)[i] == split_ws(t.subrange(k, t.len() as int))[i - 1]); } }
    }
}
proof fn rt_trim_start_split(s: Str) ensures split_ws(trim_start(s)) == split_ws(s) {
    lemma_trim_start_head(s); lemma_trim_start_idem(s);
}
proof fn lemma_trim_start_idem(s: Str) ensures trim_start(trim_start(s)) == trim_start(s) decreases s.len() {
    if s.len() > 0 && is_ws(s[0]) { lemma_trim_start_idem(s.drop_first()); }
}
/// splitting at blanks distributes over a blank
proof fn rt_split_sp(x: Str, y: Str) ensures split_ws(x + sp() + y) == split_ws(x) + split_ws(y) decreases x.len() {
    let z = x + sp() + y;
    if x.len() == 0 {
        assert(z[0] == ' '); assert(z.drop_first() =~= y); assert(trim_start(z) == trim_start(y)); assert(split_ws(x) =~= Seq::<Str>::empty());
        assert(split_ws(z) =~= split_ws(y)); assert(Seq::<Str>::empty() + split_ws(y) =~= split_ws(y));
    } else if is_ws(x[0]) {
        assert(z[0] == x[0]); assert(z.drop_first() =~= x.drop_first() + sp() + y); rt_split_sp(x.drop_first(), y);
        assert(trim_start(z) == trim_start(z.drop_first())); assert(trim_start(x) == trim_start(x.drop_first()));
        assert(split_ws(z) == split_ws(z.drop_first())); assert(split_ws(x) == split_ws(x.drop_first()));
    } else {
        assert(z[0] == x[0]); assert(trim_start(z) == z); assert(trim_start(x) == x);
        rt_word(x); rt_word(z); rt_word_len_add(x, y); lemma_trim_start_head(x);
        let k = word_len(x);
        assert(z.subrange(0, k) =~= x.subrange(0, k));
        let xr = x.subrange(k, x.len() as int);
        assert(z.subrange(k, z.len() as int) =~= xr + sp() + y);
        rt_split_sp(xr, y);
        assert(split_ws(z) == seq![z.subrange(0, k)] + split_ws(z.subrange(k, z.len() as int)));
        assert(split_ws(x) == seq![x.subrange(0, k)] + split_ws(xr));
        assert(split_ws(z) =~= split_ws(x) + split_ws(y));
    }
}
proof fn rt_word_len_add(x: Str, y: Str) ensures word_len(x + sp() + y) == word_len(x) decreases x.len() {
    let z = x + sp() + y;
    if x.len() == 0 { assert(z[0] == ' '); } else { assert(z[0] == x[0]); if !is_ws(x[0]) { assert(z.drop_first() =~= x.drop_first() + sp() + y); rt_word_len_add(x.drop_first(), y); } }
}
proof fn rt_find(s: Str, c: char, k: int) requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] != c, k < s.len() ==> s[k] == c ensures find_char(s, c) == k {
    lemma_find_char(s, c);
    let f = find_char(s, c);
    if f < k { assert(s[f] == c); } if k < f { assert(s[k] == c); assert(s[k] != c); }
}
/// splitting at c distributes over c
proof fn rt_split_c(x: Str, y: Str, c: char) ensures split_char(x + seq![c] + y, c) == split_char(x, c) + split_char(y, c) decreases x.len() {
    let z = x + seq![c] + y; let k = find_char(x, c);
    lemma_find_char(x, c);
    assert(x.len() < z.len()); assert(z[x.len() as int] == c);
    assert forall|i: int| 0 <= i < k implies z[i] != c by { assert(z[i] == x[i]); }
    assert(z[k] == c) by { if k < x.len() { assert(z[k] == x[k]); } }
    rt_find(z, c, k);
    if k < x.len() {
        let xr = x.subrange(k + 1, x.len() as int);
        assert(z.subrange(k + 1, z.len() as int) =~= xr + seq![c] + y); rt_split_c(xr, y, c);
        assert(z.subrange(0, k) =~= x.subrange(0, k));
        assert(split_char(z, c) =~= split_char(x, c) + split_char(y, c));
    } else {
        assert(z.subrange(0, k) =~= x); assert(z.subrange(k + 1, z.len() as int) =~= y);
        assert(split_char(x, c) == seq![x]);
        assert(split_char(z, c) =~= split_char(x, c) + split_char(y, c));
    }
}
proof fn rt_split_noc(s: Str, c: char) requires noc(s, c) ensures split_char(s, c) == seq![s] { lemma_find_char(s, c); }
proof fn rt_split_nocs(s: Str, c: char) ensures nocs(split_char(s, c), c) decreases s.len() {
    lemma_find_char(s, c); let k = find_char(s, c); let v = split_char(s, c);
    if k < s.len() {
        let r = s.subrange(k + 1, s.len() as int); rt_split_nocs(r, c);
        assert forall|i: int| 0 <= i < v.len() implies noc(#[trigger] v[i], c) by {
            if i > 0 { assert(v[i] == split_char(r, c)[i - 1]); } else { let h = s.subrange(0, k); assert(v[0] == h); if h.contains(c) { let j = choose|j: int| 0 <= j < h.len() && h[j] == c; assert(s[j] == c); } }
        }
    }
}
/// the parts of a split contain nothing the text does not
proof fn rt_split_sub(s: Str, c: char, d: char) requires noc(s, d) ensures nocs(split_char(s, c), d) decreases s.len() {
    lemma_find_char(s, c); let k = find_char(s, c); let v = split_char(s, c);
    if k < s.len() {
        let r = s.subrange(k + 1, s.len() as int); rt_noc_sub(s, d, k + 1, s.len() as int); rt_noc_sub(s, d, 0, k); rt_split_sub(r, c, d);
        assert forall|i: int| 0 <= i < v.len() implies noc(#[trigger] v[i], d) by { if i > 0 { assert(v[i] == split_char(r, c)[i - 1]); } }
    }
}
proof fn rt_noc_sub(s: Str, c: char, a: int, b: int) requires noc(s, c), 0 <= a <= b <= s.len() ensures noc(s.subrange(a, b), c) {
    let h = s.subrange(a, b); if h.contains(c) { let j = choose|j: int| 0 <= j < h.len() && h[j] == c; assert(s[a + j] == c); }
}
proof fn rt_noc_add(a: Str, b: Str, c: char) ensures noc(a + b, c) <==> noc(a, c) && noc(b, c) {
    let z = a + b;
    if noc(a, c) && noc(b, c) && z.contains(c) { let j = choose|j: int| 0 <= j < z.len() && z[j] == c; if j < a.len() { assert(a[j] == c); } else { assert(b[j - a.len()] == c); } }
    if a.contains(c) { let j = choose|j: int| 0 <= j < a.len() && a[j] == c; assert(z[j] == c); }
    if b.contains(c) { let j = choose|j: int| 0 <= j < b.len() && b[j] == c; assert(z[a.len() + j] == c); }
}
proof fn rt_nows_add(a: Str, b: Str) ensures nows(a + b) <==> nows(a) && nows(b) {
    let z = a + b;
    if nows(z) { assert forall|i: int| 0 <= i < a.len() implies !is_ws(#[trigger] a[i]) by { assert(z[i] == a[i]); } assert forall|i: int| 0 <= i < b.len() implies !is_ws(#[trigger] b[i]) by { assert(z[a.len() + i] == b[i]); } }
}
proof fn rt_nows_sub(s: Str, a: int, b: int) requires nows(s), 0 <= a <= b <= s.len() ensures nows(s.subrange(a, b)) {
    let h = s.subrange(a, b); assert forall|i: int| 0 <= i < h.len() implies !is_ws(#[trigger] h[i]) by { assert(h[i] == s[a + i]); }
}
proof fn rt_nows_noc(s: Str, c: char) requires nows(s), is_ws(c) ensures noc(s, c) { if s.contains(c) { let j = choose|j: int| 0 <= j < s.len() && s[j] == c; assert(is_ws(s[j])); } }
/// joining with c and splitting at c
proof fn rt_split_join(v: Seq<Str>, c: char) requires v.len() > 0, nocs(v, c) ensures split_char(join(v, seq![c]), c) == v decreases v.len() {
    assert(noc(v[0], c)); rt_split_noc(v[0], c);
    if v.len() == 1 { assert(seq![v[0]] =~= v); } else {
        let r = v.drop_first(); assert forall|i: int| 0 <= i < r.len() implies noc(#[trigger] r[i], c) by { assert(r[i] == v[i + 1]); }
        rt_split_join(r, c); rt_split_c(v[0], join(r, seq![c]), c); assert(seq![v[0]] + r =~= v);
    }
}
proof fn rt_split_ws_join(v: Seq<Str>) requires toks(v) ensures split_ws(join(v, sp())) == v decreases v.len() {
    if v.len() == 0 { assert(split_ws(Seq::<char>::empty()) =~= Seq::<Str>::empty()); assert(v =~= Seq::<Str>::empty()); }
    else {
        assert(tok(v[0])); rt_split_tok(v[0]);
        if v.len() == 1 { assert(seq![v[0]] =~= v); } else {
            let r = v.drop_first(); assert forall|i: int| 0 <= i < r.len() implies tok(#[trigger] r[i]) by { assert(r[i] == v[i + 1]); }
            rt_split_ws_join(r); rt_split_sp(v[0], join(r, sp())); assert(seq![v[0]] + r =~= v);
        }
    }
}
/// splitting at c and joining with c
proof fn rt_join_split(s: Str, c: char) ensures join(split_char(s, c), seq![c]) == s decreases s.len() {
    lemma_find_char(s, c); let k = find_char(s, c);
    if k < s.len() {
        let r = s.subrange(k + 1, s.len() as int); rt_join_split(r, c); lemma_split_len(r, c);
        assert(split_char(s, c).drop_first() =~= split_char(r, c)); assert(s.subrange(0, k) + seq![c] + r =~= s);
        assert(split_char(s, c).len() >= 2); assert(join(split_char(s, c), seq![c]) == s.subrange(0, k) + seq![c] + join(split_char(s, c).drop_first(), seq![c]));
    } else { assert(split_char(s, c) == seq![s]); }
}
proof fn rt_splitn_head(n: nat, x: Str, y: Str, c: char) requires n >= 2, noc(x, c) ensures splitn_char(n, x + seq![c] + y, c) == seq![x] + splitn_char((n - 1) as nat, y, c) {
    let z = x + seq![c] + y; let k = x.len() as int;
    assert(z[k] == c); assert forall|i: int| 0 <= i < k implies z[i] != c by { assert(z[i] == x[i]); if x[i] == c { assert(x.contains(c)); } }
    rt_find(z, c, k); assert(z.subrange(0, k) =~= x); assert(z.subrange(k + 1, z.len() as int) =~= y);
}
proof fn rt_splitn_one(n: nat, s: Str, c: char) requires n >= 1, n == 1 || noc(s, c) ensures splitn_char(n, s, c) == seq![s] { lemma_find_char(s, c); }
/// a blank-free part of a splitn: all but the last part contain no separator
proof fn rt_splitn_nocs(n: nat, s: Str, c: char) ensures forall|i: int| 0 <= i < splitn_char(n, s, c).len() && i < n - 1 ==> noc(#[trigger] splitn_char(n, s, c)[i], c) decreases n {
    lemma_find_char(s, c); let k = find_char(s, c); let v = splitn_char(n, s, c);
    if n > 1 && k < s.len() {
        let r = s.subrange(k + 1, s.len() as int); rt_splitn_nocs((n - 1) as nat, r, c); let w = splitn_char((n - 1) as nat, r, c);
        assert forall|i: int| 0 <= i < v.len() && i < n - 1 implies noc(#[trigger] v[i], c) by {
            if i > 0 { assert(v[i] == w[i - 1]); } else { let h = s.subrange(0, k); assert(v[0] == h); if h.contains(c) { let j = choose|j: int| 0 <= j < h.len() && h[j] == c; assert(s[j] == c); } }
        }
    }
}
// ---------------------------------------------------------------- blanks at the ends
spec fn trimmed(s: Str) -> bool { s.len() > 0 ==> !is_ws(s[0]) && !is_ws(s.last()) }
proof fn rt_trim_id(s: Str) ensures trimmed(s) <==> trim(s) == s {
    lemma_trim_start_len(s); lemma_trim_end(trim_start(s));
    if s.len() > 0 { if is_ws(s[0]) { lemma_trim_start_len(s.drop_first()); assert(trim_start(s).len() < s.len()); } else if is_ws(s.last()) { lemma_trim_end(s.drop_last()); } }
}
proof fn rt_trimmed_trim(s: Str) ensures trimmed(trim(s)) { lemma_trim_idem(s); rt_trim_id(trim(s)); }
// ---------------------------------------------------------------- numbers
proof fn rt_dec(n: int, m: int) requires 0 <= n <= m ensures uint_ok(dec(n), m), uint_val(dec(n)) == n, tok(dec(n)), is_num(dec(n)), trimmed(dec(n)) {
    rt_dec_digits(n); lemma_dval_dec(n); let s = dec(n);
    assert(digit(s[0]) >= 0); assert(s[0] != '+'); assert(unsigned_body(s) == s);
    assert forall|i: int| 0 <= i < s.len() implies !is_ws(#[trigger] s[i]) by { assert(digit(s[i]) >= 0); }
}
spec fn is_num(s: Str) -> bool { s.len() > 0 && all_digits(s) }
proof fn rt_dec_digits(n: int) requires 0 <= n ensures is_num(dec(n)) decreases n {
    if n < 10 { rt_dchar(n); } else {
        rt_dec_digits(n / 10); rt_dchar(n % 10); let s = dec(n);
        assert forall|i: int| 0 <= i < s.len() implies digit(#[trigger] s[i]) >= 0 by { if i < s.len() - 1 { assert(s[i] == dec(n / 10)[i]); } }
    }
}
proof fn rt_dchar(n: int) requires 0 <= n <= 9 ensures digit(dchar(n)) == n { assert((48 + n) as u32 as char as u32 == 48 + n); }
proof fn rt_num_noc(s: Str, c: char) requires all_digits(s), digit(c) < 0 ensures noc(s, c) { if s.contains(c) { let j = choose|j: int| 0 <= j < s.len() && s[j] == c; assert(digit(s[j]) >= 0); } }
// ---------------------------------------------------------------- hexadecimal
proof fn rt_hexc(d: int, up: bool) requires 0 <= d <= 15 ensures hexd(hexc(d, up)) == d, hexc(d, up) as u32 <= 0x7f, hexc(d, up) != '+', hexc(d, up) != ':' {
    if d < 10 { assert((48 + d) as u32 as char as u32 == 48 + d); } else if up { assert((55 + d) as u32 as char as u32 == 55 + d); } else { assert((87 + d) as u32 as char as u32 == 87 + d); }
}
spec fn hexy(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> hexd(#[trigger] s[i]) >= 0 && s[i] as u32 <= 0x7f }
proof fn rt_hexs(n: int, up: bool) requires 0 <= n ensures hexs(n, up).len() >= 1, hexy(hexs(n, up)), hdval(hexs(n, up)) == n decreases n {
    let s = hexs(n, up);
    if n < 16 { rt_hexc(n, up); assert(s.drop_last() =~= Seq::<char>::empty()); assert(hdval(s.drop_last()) == 0); }
    else { rt_hexs(n / 16, up); rt_hexc(n % 16, up); assert(s.drop_last() =~= hexs(n / 16, up)); assert forall|i: int| 0 <= i < s.len() implies hexd(#[trigger] s[i]) >= 0 && s[i] as u32 <= 0x7f by { if i < s.len() - 1 { assert(s[i] == hexs(n / 16, up)[i]); } } }
}
proof fn rt_hexs_len(n: int, w: nat, up: bool) requires 0 <= n, w >= 1, n < pow16(w) ensures hexs(n, up).len() <= w decreases w {
    if n >= 16 { assert(w >= 2) by { if w == 1 { assert(pow16(1) == 16 * pow16(0)); } } assert(pow16(w) == 16 * pow16((w - 1) as nat)); assert(n / 16 < pow16((w - 1) as nat)); rt_hexs_len(n / 16, (w - 1) as nat, up); }
}
spec fn pow16(w: nat) -> int decreases w { if w == 0 { 1 } else { 16 * pow16((w - 1) as nat) } }
proof fn rt_zeros_hdval(k: int, s: Str) ensures hdval(zeros(k) + s) == hdval(s) decreases s.len(), k {
    let z = zeros(k) + s;
    if s.len() > 0 { assert(z.drop_last() =~= zeros(k) + s.drop_last()); assert(z.last() == s.last()); rt_zeros_hdval(k, s.drop_last()); }
    else if k > 0 { assert(z.drop_last() =~= zeros(k - 1) + s); assert(z.last() == '0'); rt_zeros_hdval(k - 1, s); }
    else { assert(z =~= s); }
}
proof fn rt_hexpad(n: int, w: nat, up: bool) requires 0 <= n, w >= 1, n < pow16(w)
    ensures hexpad(n, w as int, up).len() == w, hexy(hexpad(n, w as int, up)), hex_val(hexpad(n, w as int, up)) == n, all_hex(unsigned_body(hexpad(n, w as int, up))), unsigned_body(hexpad(n, w as int, up)) == hexpad(n, w as int, up)
{
    rt_hexs(n, up); rt_hexs_len(n, w, up); let s = hexpad(n, w as int, up); rt_zeros_hdval(w - hexs(n, up).len(), hexs(n, up));
    assert forall|i: int| 0 <= i < s.len() implies hexd(#[trigger] s[i]) >= 0 && s[i] as u32 <= 0x7f by { let k = w - hexs(n, up).len(); if i >= k { assert(s[i] == hexs(n, up)[i - k]); } else { assert(s[i] == '0'); } }
    assert(hexd(s[0]) >= 0); assert(s[0] != '+');
}
proof fn rt_octet(b: int) requires 0 <= b <= 255 ensures octet_ok(hex_upper(b, 2)), hex_val(hex_upper(b, 2)) == b, noc(hex_upper(b, 2), ':'), tok(hex_upper(b, 2)) {
    reveal(hex_upper); reveal_with_fuel(pow16, 3); rt_hexpad(b, 2, true); let s = hex_upper(b, 2);
    assert(ascii(s)) by { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) as u32 <= 0x7f by { assert(hexd(s[i]) >= 0); } } lemma_blen_ascii(s);
    if s.contains(':') { let j = choose|j: int| 0 <= j < s.len() && s[j] == ':'; assert(hexd(s[j]) >= 0); }
    assert forall|i: int| 0 <= i < s.len() implies !is_ws(#[trigger] s[i]) by { assert(hexd(s[i]) >= 0); }
}
// ---------------------------------------------------------------- assumed about std and url: printing and reading back
/// changing the case of a text without letters of the other case leaves it as it is
spec fn low(c: char) -> char { if 65 <= c as u32 <= 90 { ((c as u32) + 32) as u32 as char } else { c } }
axiom fn ax_lower_ascii(s: Str) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 0x7f ensures to_lower(s) == s.map_values(|c: char| low(c));
proof fn ax_lower_id(s: Str) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 0x7f && !(65 <= s[i] as u32 <= 90) ensures to_lower(s) == s { ax_lower_ascii(s); assert(s.map_values(|c: char| low(c)) =~= s); }
axiom fn ax_upper_ascii(s: Str) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 0x7f ensures to_upper(s) == s.map_values(|c: char| upc(c));
proof fn ax_upper_id(s: Str) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 0x7f && !(97 <= s[i] as u32 <= 122) ensures to_upper(s) == s { ax_upper_ascii(s); assert(s.map_values(|c: char| upc(c)) =~= s); }
/// a finite number, and an address, prints as a text without blanks that reads back as the same
axiom fn ax_f64_print(x: f64) requires x.is_finite_spec() ensures f64_ok(f64_str(x)) && f64_of(f64_str(x)) == x && tok(f64_str(x));
axiom fn ax_f32_print(s: Str) requires f32_ok(s), !f32_of(s).is_nan_spec() ensures ({ let p = f32_str(f32_of(s)); f32_ok(p) && f32_of(p) == f32_of(s) && p.len() > 0 && numlike(p) && (noc(s, '-') ==> noc(p, '-')) });
spec fn numlike(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> nch(#[trigger] s[i]) }
spec fn nch(c: char) -> bool { digit(c) >= 0 || c == '.' || c == '-' || 97 <= c as u32 <= 122 }
axiom fn ax_ip_print(i: IpAddr) ensures ip_ok(ip_str(i)) && ip_of(ip_str(i)) == i && tok(ip_str(i)) && noc(ip_str(i), '/') && (match i { IpAddr::V4(a) => noc(ip_str(i), ':') && host_ok(ip_str(i)) && host_of(ip_str(i)) == Host::Ipv4(a), IpAddr::V6(a) => ip_str(i).contains(':') });
/// a domain name read by url reads back as itself
axiom fn ax_domain_print(s: Str) requires host_ok(s), host_of(s) is Domain ensures tok(host_of(s)->Domain_0@) && noc(host_of(s)->Domain_0@, ':') && noc(host_of(s)->Domain_0@, '/') && host_ok(host_of(s)->Domain_0@) && host_of(host_of(s)->Domain_0@) == host_of(s);
proof fn rt_addr(s: Str) requires addr_ok(s) ensures addr_ok(addr_str(addr_of(s))), addr_of(addr_str(addr_of(s))) == addr_of(s), tok(addr_str(addr_of(s))), noc(addr_str(addr_of(s)), '/') {
    match addr_of(s) { Address::Ip(i) => ax_ip_print(i), Address::Fqdn(d) => ax_domain_print(s) }
}
proof fn rt_typed(t: AddressType, s: Str) requires typed_ok(t, s) ensures ({ let a = typed_of(t, s); let p = addr_str(addr_of(s)); typed_ok(t, p) && typed_of(t, p) == a && tok(p) && noc(p, '/') && typed_family(a) == t && typed_str(a) == "IN "@ + aty_str(t) + " "@ + p }) { rt_addr(s); }
// ---------------------------------------------------------------- literals
proof fn rt_sp() ensures " "@ == sp() { reveal_strlit(" "); assert(" "@ =~= sp()); }
spec fn small(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> 33 <= (#[trigger] s[i]) as u32 <= 0x7e && !(65 <= s[i] as u32 <= 90) }
spec fn big(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> 33 <= (#[trigger] s[i]) as u32 <= 0x7e && !(97 <= s[i] as u32 <= 122) }
proof fn rt_small(s: Str) requires small(s), s.len() > 0 ensures to_lower(s) == s, tok(s) { ax_lower_id(s); assert forall|i: int| 0 <= i < s.len() implies !is_ws(#[trigger] s[i]) by { assert(33 <= s[i] as u32 <= 0x7e); } }
proof fn rt_big(s: Str) requires big(s), s.len() > 0 ensures to_upper(s) == s, tok(s) { ax_upper_id(s); assert forall|i: int| 0 <= i < s.len() implies !is_ws(#[trigger] s[i]) by { assert(33 <= s[i] as u32 <= 0x7e); } }
proof fn rt_tok_trimmed(s: Str) requires tok(s) ensures trimmed(s) { assert(!is_ws(s[0])); assert(!is_ws(s.last())); }
/// a text whose ends are not blank
spec fn solid(s: Str) -> bool { s.len() > 0 && !is_ws(s[0]) && !is_ws(s.last()) }
proof fn rt_solid(a: Str, b: Str, c: Str) requires a.len() > 0, !is_ws(a[0]), c.len() > 0, !is_ws(c.last()) ensures solid(a + b + c), solid(a + c) { assert((a + b + c)[0] == a[0]); assert((a + b + c).last() == c.last()); assert((a + c)[0] == a[0]); assert((a + c).last() == c.last()); }
proof fn rt_join_solid(v: Seq<Str>) requires toks(v), v.len() > 0 ensures solid(join(v, sp())) decreases v.len() {
    assert(tok(v[0])); assert(!is_ws(v[0][0])); assert(!is_ws(v[0].last()));
    if v.len() > 1 { let r = v.drop_first(); assert forall|i: int| 0 <= i < r.len() implies tok(#[trigger] r[i]) by { assert(r[i] == v[i + 1]); } rt_join_solid(r); rt_solid(v[0], sp(), join(r, sp())); }
}
proof fn rt_kw_setup(x: SdpAttributeSetup) ensures small(setup_str(x)), setup_str(x).len() > 0 { reveal_strlit("active"); reveal_strlit("actpass"); reveal_strlit("holdconn"); reveal_strlit("passive"); }
proof fn rt_kw_dir(x: SdpAttributeDirection) ensures small(dir_str(x)), dir_str(x).len() > 0, noc(dir_str(x), '/') { reveal_strlit("recvonly"); reveal_strlit("sendonly"); reveal_strlit("sendrecv"); }
proof fn rt_kw_dirn(x: SdpSingleDirection) ensures small(dirn_str(x)), dirn_str(x).len() > 0 { reveal_strlit("send"); reveal_strlit("recv"); }
proof fn rt_kw_hash(x: SdpAttributeFingerprintHashType) ensures small(hash_str(x)), hash_str(x).len() > 0 { reveal_strlit("sha-1"); reveal_strlit("sha-224"); reveal_strlit("sha-256"); reveal_strlit("sha-384"); reveal_strlit("sha-512"); }
proof fn rt_kw_gsem(x: SdpAttributeGroupSemantic) ensures big(gsem_str(x)), gsem_str(x).len() > 0 { reveal_strlit("LS"); reveal_strlit("FID"); reveal_strlit("SRF"); reveal_strlit("ANAT"); reveal_strlit("FEC"); reveal_strlit("DDP"); reveal_strlit("BUNDLE"); }
proof fn rt_kw_ssem(x: SdpSsrcGroupSemantic) ensures big(ssem_str(x)), ssem_str(x).len() > 0 { reveal_strlit("DUP"); reveal_strlit("FID"); reveal_strlit("FEC"); reveal_strlit("FEC-FR"); reveal_strlit("SIM"); }
proof fn rt_kw_aty(x: AddressType) ensures big(aty_str(x)), aty_str(x).len() > 0 { reveal_strlit("IP4"); reveal_strlit("IP6"); }
proof fn rt_kw_ctype(x: SdpAttributeCandidateType) ensures small(ctype_str(x)), ctype_str(x).len() > 0 { reveal_strlit("host"); reveal_strlit("srflx"); reveal_strlit("prflx"); reveal_strlit("relay"); }
proof fn rt_kw_tcpt(x: SdpAttributeCandidateTcpType) ensures small(tcpt_str(x)), tcpt_str(x).len() > 0 { reveal_strlit("active"); reveal_strlit("passive"); reveal_strlit("so"); }
proof fn rt_kw_fbt(x: SdpAttributeRtcpFbType) ensures small(fbt_str(x)), fbt_str(x).len() > 0 { reveal_strlit("ack"); reveal_strlit("ccm"); reveal_strlit("nack"); reveal_strlit("trr-int"); reveal_strlit("goog-remb"); reveal_strlit("transport-cc"); }
// ---------------------------------------------------------------- one lemma per kind: the printed value reads back as the same value
proof fn rt_number(n: int, m: int) //# C09
    requires 0 <= n <= m ensures uint_ok(dec(n), m), uint_val(dec(n)) == n, solid(dec(n))
{ rt_dec(n, m); assert(!is_ws(dec(n)[0])); }
proof fn rt_framerate(v: Str, x: f64) //# C09
    requires framerate_ok(v), x == f64_of(v) ensures framerate_ok(f64_str(x)), x == f64_of(f64_str(x)), solid(f64_str(x))
{ ax_f64_print(x); assert(!is_ws(f64_str(x)[0])); }
proof fn rt_setup(v: Str, x: SdpAttributeSetup) //# C09
    requires setup_ok(v), to_lower(v) == setup_str(x) ensures setup_ok(setup_str(x)), to_lower(setup_str(x)) == setup_str(x), solid(setup_str(x))
{ rt_kw_setup(x); rt_small(setup_str(x)); assert(!is_ws(setup_str(x)[0])); }
proof fn rt_dtls(v: Str, m: SdpAttributeDtlsMessage) //# C09
    requires dtls_ok(split_char(v, ' ')), dtls_is(split_char(v, ' '), m), trimmed(v) ensures dtls_str(m) == v
{
    rt_join_split(v, ' '); let p = split_char(v, ' '); reveal_with_fuel(join, 3); assert(p.drop_first().len() == 1); assert(v == p[0] + sp() + p[1]);
    reveal_strlit("client "); reveal_strlit("server "); reveal_strlit("client"); reveal_strlit("server");
    match m { SdpAttributeDtlsMessage::Client(x) => { assert("client "@ =~= "client"@ + sp()); assert(dtls_str(m) =~= v); }, SdpAttributeDtlsMessage::Server(x) => { assert("server "@ =~= "server"@ + sp()); assert(dtls_str(m) =~= v); } }
}
proof fn rt_extmap(v: Str, x: SdpAttributeExtmap) //# C09
    requires extmap_ok(split_ws(v)), extmap_is(split_ws(v), x) ensures extmap_ok(split_ws(extmap_str(x))), extmap_is(split_ws(extmap_str(x)), x), solid(extmap_str(x))
{
    let t = split_ws(v); rt_split_toks(v); rt_sp(); lemma_split2(t[0], '/'); assert(tok(t[1]));
    let id = dec(x.id as int); rt_dec(x.id as int, u16::MAX as int); rt_num_noc(id, '/');
    let dp = opt_str("/"@, x.direction, none()); let head = id + dp;
    match x.direction {
        Some(d) => { rt_kw_dir(d); rt_small(dir_str(d)); reveal_strlit("/"); assert("/"@ =~= seq!['/']); assert(dp =~= seq!['/'] + dir_str(d)); assert(head =~= id + seq!['/'] + dir_str(d));
            rt_splitn_head(2, id, dir_str(d), '/'); rt_splitn_one(1, dir_str(d), '/'); assert(splitn_char(2, head, '/') =~= seq![id, dir_str(d)]); rt_nows_add(id, dp); rt_nows_add(seq!['/'], dir_str(d)); },
        None => { assert(head =~= id); rt_splitn_one(2, id, '/'); }
    }
    assert(tok(head)); rt_split_tok(head); rt_split_tok(t[1]);
    rt_split_sp(head, t[1]); let h2 = head + sp() + t[1]; assert(split_ws(h2) =~= seq![head, t[1]]);
    rt_tok_trimmed(head); rt_tok_trimmed(t[1]); rt_solid(head, sp(), t[1]);
    match x.extension_attributes {
        Some(e) => {
            let r = t.skip(2); assert(toks(r)) by { assert forall|i: int| 0 <= i < r.len() implies tok(#[trigger] r[i]) by { assert(r[i] == t[i + 2]); } }
            rt_split_ws_join(r); rt_split_sp(h2, e@); let p = extmap_str(x); assert(p =~= h2 + sp() + e@); assert(split_ws(p) =~= seq![head, t[1]] + r); assert(split_ws(p).skip(2) =~= r);
            rt_join_solid(r); rt_solid(h2, sp(), e@);
        }
        None => { assert(extmap_str(x) =~= h2); }
    }
}
proof fn rt_fingerprint(v: Str, x: SdpAttributeFingerprint) //# C09
    requires fp_ok(split_ws(v)), fp_is(split_ws(v), x) ensures fp_ok(split_ws(fp_str(x))), fp_is(split_ws(fp_str(x)), x), solid(fp_str(x))
{
    let h = hash_str(x.hash_algorithm); rt_kw_hash(x.hash_algorithm); rt_small(h); rt_sp(); reveal_strlit(":"); assert(":"@ =~= seq![':']);
    let b = x.fingerprint@; let o = hexbytes(b); let j = join(o, seq![':']);
    assert forall|i: int| 0 <= i < o.len() implies octet_ok(#[trigger] o[i]) && hex_val(o[i]) == b[i] as int && noc(o[i], ':') && tok(o[i]) by { rt_octet(b[i] as int); }
    rt_split_join(o, ':'); rt_join_nows(o, ':'); rt_split_tok(h); rt_split_tok(j); rt_split_sp(h, j);
    assert(split_ws(fp_str(x)) =~= seq![h, j]); rt_tok_trimmed(h); rt_tok_trimmed(j); rt_solid(h, sp(), j);
    assert(octets_ok(split_char(j, ':'), hash_len(x.hash_algorithm)));
}
proof fn rt_join_nows(v: Seq<Str>, c: char) requires toks(v), !is_ws(c) ensures nows(join(v, seq![c])), v.len() > 0 ==> tok(join(v, seq![c])) decreases v.len() {
    if v.len() > 0 { assert(tok(v[0])); if v.len() > 1 { let r = v.drop_first(); assert forall|i: int| 0 <= i < r.len() implies tok(#[trigger] r[i]) by { assert(r[i] == v[i + 1]); } rt_join_nows(r, c); rt_nows_add(v[0], seq![c]); rt_nows_add(v[0] + seq![c], join(r, seq![c])); } }
}
proof fn rt_nonempty(v: Seq<Str>) requires forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).len() > 0 ensures nonempty(v) == v decreases v.len() {
    reveal(Seq::filter);
    if v.len() > 0 { assert(v.drop_last().push(v.last()) =~= v); assert forall|i: int| 0 <= i < v.drop_last().len() implies (#[trigger] v.drop_last()[i]).len() > 0 by { assert(v.drop_last()[i] == v[i]); } rt_nonempty(v.drop_last()); assert(v.last().len() > 0); assert(nonempty(v) =~= nonempty(v.drop_last()).push(v.last())); }
    else { assert(nonempty(v) =~= v); }
}
proof fn rt_toks_sub(v: Seq<Str>, k: int) requires toks(v), 0 <= k <= v.len() ensures toks(v.skip(k)), nonempty(v.skip(k)) == v.skip(k), v.skip(k).len() == v.len() - k { let r = v.skip(k); assert forall|i: int| 0 <= i < r.len() implies tok(#[trigger] r[i]) by { assert(r[i] == v[i + k]); } rt_nonempty(r); }
/// a token followed by a list of tokens
proof fn rt_head_list(h: Str, r: Seq<Str>) requires tok(h), toks(r), r.len() > 0 ensures split_ws(h + sp() + join(r, sp())) == seq![h] + r, (seq![h] + r).skip(1) == r, solid(h + sp() + join(r, sp())) {
    rt_split_tok(h); rt_split_ws_join(r); rt_split_sp(h, join(r, sp())); assert((seq![h] + r).skip(1) =~= r); rt_join_solid(r); rt_tok_trimmed(h); rt_solid(h, sp(), join(r, sp()));
}
proof fn rt_solid_tok(s: Str) requires tok(s) ensures solid(s), split_ws(s) == seq![s] { rt_tok_trimmed(s); rt_split_tok(s); }
proof fn rt_group(v: Str, x: SdpAttributeGroup) //# C09
    requires val_ok(SdpAttributeType::Group, v), val_is(SdpAttribute::Group(x), v) ensures val_ok(SdpAttributeType::Group, group_str(x)), val_is(SdpAttribute::Group(x), group_str(x)), solid(group_str(x))
{
    let t = split_ws(v); rt_split_toks(v); rt_sp(); let g = gsem_str(x.semantics); rt_kw_gsem(x.semantics); rt_big(g); rt_toks_sub(t, 1); let r = t.skip(1);
    rt_solid_tok(g);
    if r.len() > 0 { rt_head_list(g, r); assert(group_str(x) =~= g + sp() + join(r, sp())); } else { assert(group_str(x) =~= g); assert(seq![g].skip(1) =~= r); }
}
proof fn rt_ice_options(v: Str, x: Vec<String>) //# C09
    requires v.len() > 0, trimmed(v), strs(x@) == split_ws(v) ensures join(strs(x@), " "@).len() > 0, strs(x@) == split_ws(join(strs(x@), " "@)), solid(join(strs(x@), " "@))
{ rt_sp(); rt_split_toks(v); assert(trim_start(v) == v); assert(split_ws(v).len() > 0); rt_split_ws_join(split_ws(v)); rt_join_solid(split_ws(v)); }
proof fn rt_msid(v: Str, x: SdpAttributeMsid) //# C09
    requires split_ws(v).len() > 0, msid_is(split_ws(v), x) ensures split_ws(msid_str(x)).len() > 0, msid_is(split_ws(msid_str(x)), x), solid(msid_str(x))
{
    let t = split_ws(v); rt_split_toks(v); rt_sp(); assert(tok(t[0])); rt_solid_tok(t[0]);
    match x.appdata { Some(a) => { assert(tok(t[1])); rt_solid_tok(a@); rt_split_sp(t[0], a@); rt_solid(t[0], sp(), a@); assert(msid_str(x) =~= t[0] + sp() + a@); }, None => { assert(msid_str(x) =~= t[0]); } }
}
proof fn rt_msid_semantic(v: Str, x: SdpAttributeMsidSemantic) //# C09
    requires val_ok(SdpAttributeType::MsidSemantic, v), val_is(SdpAttribute::MsidSemantic(x), v), x.msids@.len() > 0 // KF2
    ensures val_ok(SdpAttributeType::MsidSemantic, msidsem_str(x)), val_is(SdpAttribute::MsidSemantic(x), msidsem_str(x)), solid(msidsem_str(x))
{ let t = split_ws(v); rt_split_toks(v); rt_sp(); assert(tok(t[0])); rt_toks_sub(t, 1); assert(strs(x.msids@).len() == x.msids@.len()); rt_head_list(t[0], t.skip(1)); }
proof fn rt_rcand(v: Str, x: SdpAttributeRemoteCandidate) //# C09
    requires rcand_ok(split_ws(v)), rcand_is(split_ws(v), x) ensures rcand_ok(split_ws(rcand_str(x))), rcand_is(split_ws(rcand_str(x)), x), solid(rcand_str(x))
{
    let t = split_ws(v); rt_sp(); rt_addr(t[1]); let a = dec(x.component as int); let b = addr_str(x.address); let c = dec(x.port as int); rt_dec(x.component as int, u32::MAX as int); rt_dec(x.port as int, u32::MAX as int);
    rt_solid_tok(a); rt_solid_tok(b); rt_solid_tok(c); rt_split_sp(a, b); rt_split_sp(a + sp() + b, c); assert(split_ws(rcand_str(x)) =~= seq![a, b, c]); rt_solid(a, sp(), b); rt_solid(a + sp() + b, sp(), c);
}
proof fn rt_rtpmap(v: Str, x: SdpAttributeRtpmap) //# C09
    requires rtpmap_ok(split_ws(v)), rtpmap_is(split_ws(v), x) ensures rtpmap_ok(split_ws(rtpmap_str(x))), rtpmap_is(split_ws(rtpmap_str(x)), x), solid(rtpmap_str(x))
{
    let t = split_ws(v); rt_split_toks(v); rt_sp(); assert(tok(t[1])); let p = split_char(t[1], '/'); rt_split_nocs(t[1], '/'); assert(noc(p[0], '/')); rt_split_nows(t[1], '/'); assert(nows(p[0]));
    reveal_strlit("/"); assert("/"@ =~= seq!['/']); let s = seq!['/'];
    let a = dec(x.payload_type as int); let n = x.codec_name@; let f = dec(x.frequency as int); rt_dec(x.payload_type as int, u8::MAX as int); rt_dec(x.frequency as int, u32::MAX as int); rt_num_noc(f, '/');
    let b = n + s + f; rt_split_noc(n, '/'); rt_split_noc(f, '/'); rt_split_c(n, f, '/'); assert(split_char(b, '/') =~= seq![n, f]); rt_nows_add(n, s); rt_nows_add(n + s, f); rt_solid_tok(a);
    match x.channels {
        Some(c) => { let d = dec(c as int); rt_dec(c as int, u32::MAX as int); rt_num_noc(d, '/'); rt_split_noc(d, '/'); rt_split_c(b, d, '/'); let b2 = b + s + d; assert(split_char(b2, '/') =~= seq![n, f, d]); rt_nows_add(b, s); rt_nows_add(b + s, d);
            rt_solid_tok(b2); rt_split_sp(a, b2); rt_solid(a, sp(), b2); assert(rtpmap_str(x) =~= a + sp() + b2); assert(split_ws(rtpmap_str(x)) =~= seq![a, b2]); },
        None => { rt_solid_tok(b); rt_split_sp(a, b); rt_solid(a, sp(), b); assert(rtpmap_str(x) =~= a + sp() + b); assert(split_ws(rtpmap_str(x)) =~= seq![a, b]); }
    }
}
proof fn rt_split_nows(s: Str, c: char) requires nows(s) ensures forall|i: int| 0 <= i < split_char(s, c).len() ==> nows(#[trigger] split_char(s, c)[i]) decreases s.len() {
    lemma_find_char(s, c); let k = find_char(s, c); let v = split_char(s, c);
    if k < s.len() { let r = s.subrange(k + 1, s.len() as int); rt_nows_sub(s, k + 1, s.len() as int); rt_nows_sub(s, 0, k); rt_split_nows(r, c); assert forall|i: int| 0 <= i < v.len() implies nows(#[trigger] v[i]) by { if i > 0 { assert(v[i] == split_char(r, c)[i - 1]); } } }
}
proof fn rt_rtcp(v: Str, x: SdpAttributeRtcp) //# C09
    requires rtcp_ok(split_ws(v)), rtcp_is(split_ws(v), x) ensures rtcp_ok(split_ws(rtcp_str(x))), rtcp_is(split_ws(rtcp_str(x)), x), solid(rtcp_str(x))
{
    let t = split_ws(v); rt_sp(); let a = dec(x.port as int); rt_dec(x.port as int, u16::MAX as int); rt_solid_tok(a);
    match x.unicast_addr {
        Some(ad) => {
            let ty = rtcp_aty_of(t[2]); rt_typed(ty, t[3]); let k = aty_str(ty); rt_kw_aty(ty); rt_big(k); let p = addr_str(addr_of(t[3]));
            reveal_strlit("IN "); reveal_strlit("IN"); reveal_strlit("IP4"); reveal_strlit("IP6"); let n = "IN"@; rt_big(n); assert("IN "@ =~= n + sp());
            rt_solid_tok(n); rt_solid_tok(k); rt_solid_tok(p);
            let q = a + sp() + n + sp() + k + sp() + p; assert(rtcp_str(x) =~= q);
            rt_split_sp(a, n); rt_split_sp(a + sp() + n, k); rt_split_sp(a + sp() + n + sp() + k, p); assert(split_ws(q) =~= seq![a, n, k, p]); rt_solid(a, sp(), p); rt_solid(a, sp() + n + sp() + k + sp(), p); assert(q =~= a + (sp() + n + sp() + k + sp()) + p);
            assert(rtcp_aty_of(k) == ty);
        }
        None => { assert(rtcp_str(x) =~= a); }
    }
}
proof fn rt_sctpmap(v: Str, x: SdpAttributeSctpmap) //# C09
    requires val_ok(SdpAttributeType::Sctpmap, v), val_is(SdpAttribute::Sctpmap(x), v) ensures val_ok(SdpAttributeType::Sctpmap, sctpmap_str(x)), val_is(SdpAttribute::Sctpmap(x), sctpmap_str(x)), solid(sctpmap_str(x))
{
    rt_sp(); let a = dec(x.port as int); let c = dec(x.channels as int); rt_dec(x.port as int, u16::MAX as int); rt_dec(x.channels as int, u32::MAX as int);
    reveal_strlit("webrtc-datachannel"); reveal_strlit(" webrtc-datachannel "); let w = "webrtc-datachannel"@; assert(" webrtc-datachannel "@ =~= sp() + w + sp()); rt_small(w);
    rt_solid_tok(a); rt_solid_tok(w); rt_solid_tok(c); let q = a + sp() + w + sp() + c; assert(sctpmap_str(x) =~= q); rt_split_sp(a, w); rt_split_sp(a + sp() + w, c); assert(split_ws(q) =~= seq![a, w, c]); rt_solid(a + sp() + w, sp(), c); rt_solid(a, sp(), w);
}
proof fn rt_ssrc(v: Str, x: SdpAttributeSsrc) //# C09
    requires ssrc_ok(v), ssrc_is(v, x), trimmed(v) ensures ssrc_ok(ssrc_str(x)), ssrc_is(ssrc_str(x), x), solid(ssrc_str(x))
{
    let p = splitn_char(2, v, ' '); lemma_split2(v, ' '); rt_sp(); let a = dec(x.id as int); rt_dec(x.id as int, u32::MAX as int); rt_num_noc(a, ' '); rt_solid_tok(a); reveal_strlit(":"); assert(":"@ =~= seq![':']);
    if p.len() < 2 { assert(ssrc_str(x) =~= a); rt_splitn_one(2, a, ' '); } else {
        lemma_find_char(v, ' '); let r = p[1]; lemma_split2(r, ':'); lemma_find_char(r, ':');
        assert(v.last() != ' ') by { assert(is_ws(' ')); } assert(r.len() > 0); assert(r.last() == v.last());
        let q = a + sp() + r; assert(ssrc_str(x) =~= q); rt_splitn_head(2, a, r, ' '); rt_splitn_one(1, r, ' '); assert(splitn_char(2, q, ' ') =~= seq![a, r]); rt_solid(a, sp(), r);
    }
}
proof fn rt_ssrc_group(v: Str, m: SdpSsrcGroupSemantic, l: Vec<SdpAttributeSsrc>) //# C09
    requires ssrc_group_ok(split_ws(v)), ssrc_group_is(split_ws(v), m, l@) ensures ({ let q = body_str(SdpAttribute::SsrcGroup(m, l)); ssrc_group_ok(split_ws(q)) && ssrc_group_is(split_ws(q), m, l@) && solid(q) })
{
    let t = split_ws(v); rt_split_toks(v); rt_sp(); let g = ssem_str(m); rt_kw_ssem(m); rt_big(g); let d = disps(l@);
    assert forall|i: int| 0 <= i < d.len() implies d[i] == dec(l@[i].id as int) && tok(#[trigger] d[i]) && ssrc_ok(d[i]) && ssrc_is(d[i], l@[i]) by {
        assert(ssrc_is(t[i + 1], l@[i])); assert(tok(t[i + 1])); rt_nows_noc(t[i + 1], ' '); rt_splitn_one(2, t[i + 1], ' ');
        let a = dec(l@[i].id as int); rt_dec(l@[i].id as int, u32::MAX as int); rt_num_noc(a, ' '); rt_splitn_one(2, a, ' '); assert(d[i] == l@[i].disp()); assert(ssrc_str(l@[i]) =~= a);
    }
    rt_head_list(g, d); let q = g + sp() + join(d, sp()); let u = split_ws(q); assert forall|i: int| 1 <= i < u.len() implies ssrc_ok(#[trigger] u[i]) by { assert(u[i] == d[i - 1]); }
    assert forall|i: int| 0 <= i < l@.len() implies ssrc_is(u[i + 1], #[trigger] l@[i]) by { assert(u[i + 1] == d[i]); }
}
spec fn uintish(s: Str) -> bool { is_uint(s) }
proof fn rt_uint_tok(s: Str) requires is_uint(s) ensures tok(s) {
    let u = unsigned_body(s); assert forall|i: int| 0 <= i < s.len() implies !is_ws(#[trigger] s[i]) by { if u == s { assert(digit(u[i]) >= 0); } else if i > 0 { assert(u[i - 1] == s[i]); assert(digit(u[i - 1]) >= 0); } }
}
proof fn rt_ptype(s: Str, p: SdpAttributePayloadType) requires ptype_ok(s), ptype_is(s, p) ensures ptype_ok(ptype_str(p)), ptype_is(ptype_str(p), p), tok(ptype_str(p)), noc(ptype_str(p), ' ') {
    reveal_strlit("*"); match p { SdpAttributePayloadType::Wildcard => { assert(tok("*"@)); }, SdpAttributePayloadType::PayloadType(n) => { rt_dec(n as int, u8::MAX as int); assert(digit(dec(n as int)[0]) >= 0); assert("*"@[0] == '*'); } } rt_nows_noc(ptype_str(p), ' ');
}
proof fn rt_rtcpfb(v: Str, x: SdpAttributeRtcpFb) //# C09
    requires fb_ok(splitn_char(4, v, ' ')), fb_is(splitn_char(4, v, ' '), x), trimmed(v) ensures fb_ok(splitn_char(4, rtcpfb_str(x), ' ')), fb_is(splitn_char(4, rtcpfb_str(x), ' '), x), solid(rtcpfb_str(x))
{
    let p = splitn_char(4, v, ' '); rt_sp(); let a = ptype_str(x.payload_type); rt_ptype(p[0], x.payload_type); let k = fbt_str(x.feedback_type); rt_kw_fbt(x.feedback_type); rt_small(k); rt_nows_noc(k, ' ');
    lemma_splitn_len(4, v, ' '); rt_splitn_nocs(4, v, ' '); rt_splitn_last(4, v, ' '); reveal_strlit(""); assert(""@ =~= none());
    reveal_strlit("rpsi"); reveal_strlit("app"); reveal_strlit("fir"); reveal_strlit("tmmbr"); reveal_strlit("tstr"); reveal_strlit("vbcm"); reveal_strlit("sli"); reveal_strlit("pli");
    rt_solid_tok(a); rt_solid_tok(k); let b = a + sp() + k;
    rt_solid(a, sp(), k);
    if p.len() == 2 {
        assert(rtcpfb_str(x) =~= b); rt_splitn_head(4, a, k, ' '); rt_splitn_one(3, k, ' '); assert(splitn_char(4, b, ' ') =~= seq![a, k]);
        rt_fb_2(p, x, seq![a, k]);
    } else {
        let r = p[2]; assert(r.len() > 0) by { if is_uint(r) { rt_uint_tok(r); } }
        assert(noc(r, ' '));
        if p.len() == 3 {
            let q = b + sp() + r; assert(rtcpfb_str(x) =~= q); assert(q =~= a + sp() + (k + sp() + r)); rt_splitn_head(4, a, k + sp() + r, ' '); rt_splitn_head(3, k, r, ' '); rt_splitn_one(2, r, ' '); assert(splitn_char(4, q, ' ') =~= seq![a, k, r]);
            rt_solid(b, sp(), r);
        } else {
            let e = p[3]; let q = b + sp() + r + sp() + e; assert(e.len() > 0); assert(rtcpfb_str(x) =~= q); assert(q =~= a + sp() + (k + sp() + (r + sp() + e))); rt_splitn_head(4, a, k + sp() + (r + sp() + e), ' '); rt_splitn_head(3, k, r + sp() + e, ' '); rt_splitn_head(2, r, e, ' '); rt_splitn_one(1, e, ' ');
            assert(splitn_char(4, q, ' ') =~= seq![a, k, r, e]); rt_solid(b + sp() + r, sp(), e);
        }
    }
}
proof fn rt_fb_2(p: Seq<Str>, x: SdpAttributeRtcpFb, u: Seq<Str>) requires p.len() == 2, fb_ok(p), fb_is(p, x), u.len() == 2, u[1] == p[1], ptype_ok(u[0]), ptype_is(u[0], x.payload_type) ensures fb_ok(u), fb_is(u, x) {}
/// the last part of a trimmed text ends as the text does
proof fn rt_splitn_last(n: nat, s: Str, c: char) requires n >= 1, s.len() > 0, s.last() != c ensures splitn_char(n, s, c).len() > 0, splitn_char(n, s, c).last().len() > 0, splitn_char(n, s, c).last().last() == s.last() decreases n {
    lemma_find_char(s, c); let k = find_char(s, c); if n > 1 && k < s.len() { let r = s.subrange(k + 1, s.len() as int); assert(k + 1 < s.len()); rt_splitn_last((n - 1) as nat, r, c); assert(r.last() == s.last()); }
}
proof fn rt_tilde() ensures "~"@ == seq!['~'], ";"@ == seq![';'], ","@ == seq![','], "="@ == seq!['='] { reveal_strlit("~"); reveal_strlit(";"); reveal_strlit(","); reveal_strlit("="); assert("~"@ =~= seq!['~']); assert(";"@ =~= seq![';']); assert(","@ =~= seq![',']); assert("="@ =~= seq!['=']); }
proof fn rt_sver(s: Str, v: SdpAttributeSimulcastVersion) requires sver_is(s, v) ensures scver_str(v) == s {
    let p = split_char(s, ','); let d = disps(v.ids@); rt_tilde();
    assert forall|i: int| 0 <= i < p.len() implies d[i] == p[i] by { assert(sid_is(p[i], v.ids@[i])); assert(d[i] == v.ids@[i].disp()); if p[i].len() > 0 && p[i][0] == '~' { assert(seq!['~'] + p[i].drop_first() =~= p[i]); } else { assert(none() + v.ids@[i].id@ =~= p[i]); } }
    assert(d =~= p); rt_join_split(s, ',');
}
proof fn rt_svers(s: Str, v: Seq<SdpAttributeSimulcastVersion>) requires svers_are(s, v) ensures join(disps(v), ";"@) == s, v.len() > 0 {
    let p = split_char(s, ';'); let d = disps(v); rt_tilde(); rt_join_split(s, ';'); lemma_split_len(s, ';');
    assert forall|i: int| 0 <= i < p.len() implies d[i] == p[i] by { assert(sver_is(p[i], v[i])); rt_sver(p[i], v[i]); assert(d[i] == v[i].disp()); }
    assert(d =~= p);
}
// the list part of the printed text
spec fn sc_list(v: Seq<SdpAttributeSimulcastVersion>) -> Str { let l = join(disps(v), ";"@); if l.len() == 0 || l.contains('=') { "rid"@ + seq!['='] + l } else { l } }
proof fn rt_sclist(s: Str, v: Seq<SdpAttributeSimulcastVersion>) requires tok(s), svers_are(slist_body(s), v) ensures tok(sc_list(v)), slist_ok(sc_list(v)), svers_are(slist_body(sc_list(v)), v), v.len() > 0, forall|d: Str| #[trigger] scvers_str(d, v) == d + sp() + sc_list(v) {
    let b = slist_body(s); rt_svers(b, v); let q = sc_list(v); lemma_split2(s, '='); lemma_find_char(s, '='); reveal_strlit("rid"); reveal_strlit(" rid="); let h = "rid"@;
    assert(nows(b)) by { if s.contains('=') { let k = find_char(s, '='); rt_nows_sub(s, k + 1, s.len() as int); } }
    rt_sp(); assert(" rid="@ =~= sp() + h + seq!['=']);
    if b.len() == 0 || b.contains('=') {
        assert(q =~= h + seq!['='] + b); assert(q[3] == '='); assert(noc(h, '=')); rt_splitn_head(2, h, b, '='); rt_splitn_one(1, b, '='); assert(splitn_char(2, q, '=') =~= seq![h, b]);
        rt_nows_add(h, seq!['=']); rt_nows_add(h + seq!['='], b); assert(!is_ws('=')); assert(nows(h));
        assert forall|d: Str| #[trigger] scvers_str(d, v) == d + sp() + q by { assert(d + " rid="@ + b =~= d + sp() + q); }
    } else {
        assert(q == b);
        assert forall|d: Str| #[trigger] scvers_str(d, v) == d + sp() + q by { assert(d + " "@ + b =~= d + sp() + q); }
    }
}
proof fn rt_join1(a: Str, s: Str) ensures join(seq![a], s) == a { assert(seq![a].drop_last() =~= Seq::<Str>::empty()); reveal_with_fuel(join, 3); }
proof fn rt_join2(a: Str, b: Str, s: Str) ensures join(seq![a, b], s) == a + s + b { assert(seq![a, b].drop_last() =~= seq![a]); rt_join1(a, s); reveal_with_fuel(join, 3); }
proof fn rt_sim1(d: Str, l: Str) requires tok(d), tok(l) ensures split_ws(d + sp() + l) == seq![d, l], solid(d + sp() + l) { rt_solid_tok(d); rt_solid_tok(l); rt_split_sp(d, l); assert(split_ws(d + sp() + l) =~= seq![d, l]); rt_solid(d, sp(), l); }
proof fn rt_sim2(a: Str, l: Str, b: Str, m: Str) requires tok(a), tok(l), tok(b), tok(m) ensures ({ let q = (a + sp() + l) + sp() + (b + sp() + m); split_ws(q) == seq![a, l, b, m] && solid(q) }) { let p1 = a + sp() + l; let p2 = b + sp() + m; rt_sim1(a, l); rt_sim1(b, m); rt_split_sp(p1, p2); assert(split_ws(p1 + sp() + p2) =~= seq![a, l, b, m]); rt_solid(p1, sp(), p2); }
proof fn rt_simulcast(v: Str, x: SdpAttributeSimulcast) //# C09
    requires simulcast_ok(split_ws(v)), simulcast_is(split_ws(v), x) ensures simulcast_ok(split_ws(simulcast_str(x))), simulcast_is(split_ws(simulcast_str(x)), x), solid(simulcast_str(x))
{
    let t = split_ws(v); rt_split_toks(v); rt_sp(); assert(tok(t[1])); reveal_strlit("send"); reveal_strlit("recv"); let sd = "send"@; let rv = "recv"@; assert(sd[0] != rv[0]); assert(tok(sd)); assert(tok(rv));
    let s = x.send@; let r = x.receive@; let e = Seq::<Str>::empty(); let ps = scvers_str(sd, s); let pr = scvers_str(rv, r); let w = nepush(nepush(e, ps), pr); assert(simulcast_str(x) == join(w, sp()));
    if t.len() > 2 {
        assert(tok(t[3])); let (u, z) = if t[0] == sd { (t[1], t[3]) } else { (t[3], t[1]) };
        assert(svers_are(slist_body(u), s)); assert(svers_are(slist_body(z), r)); rt_sclist(u, s); rt_sclist(z, r); rt_sim2(sd, sc_list(s), rv, sc_list(r));
        assert(ps == sd + sp() + sc_list(s)); assert(pr == rv + sp() + sc_list(r)); assert(w =~= seq![ps, pr]); rt_join2(ps, pr, sp());
        rt_sim_is2(split_ws(simulcast_str(x)), sc_list(s), sc_list(r), x);
    } else if t[0] == sd {
        rt_sclist(t[1], s); rt_sim1(sd, sc_list(s)); assert(ps == sd + sp() + sc_list(s)); assert(r.len() == 0); assert(w =~= seq![ps]); rt_join1(ps, sp());
    } else {
        rt_sclist(t[1], r); rt_sim1(rv, sc_list(r)); assert(pr == rv + sp() + sc_list(r)); assert(s.len() == 0); assert(w =~= seq![pr]); rt_join1(pr, sp());
    }
}
proof fn rt_sim_is2(t: Seq<Str>, l: Str, m: Str, x: SdpAttributeSimulcast) requires t == seq!["send"@, l, "recv"@, m], slist_ok(l), slist_ok(m), svers_are(slist_body(l), x.send@), svers_are(slist_body(m), x.receive@) ensures simulcast_ok(t), simulcast_is(t, x) { reveal_strlit("send"); reveal_strlit("recv"); assert("send"@[0] != "recv"@[0]); }
// ---- candidate
spec fn cand_known(k: Str) -> bool { let l = to_lower(k); l == "generation"@ || l == "network-cost"@ || l == "raddr"@ || l == "rport"@ || l == "tcptype"@ || l == "ufrag"@ }
spec fn ce_ok(e: CandExt) -> bool {
    &&& forall|i: int| 0 <= i < e.unknown.len() ==> !cand_known((#[trigger] e.unknown[i]).0) && tok(e.unknown[i].0) && tok(e.unknown[i].1)
    &&& (e.ufrag matches Some(u) ==> tok(u)) && (e.rport matches Some(p) ==> p <= 65535) && (e.raddr matches Some(a) ==> exists|s: Str| #[trigger] addr_ok(s) && addr_of(s) == a)
}
proof fn rt_cand_inv(t: Seq<Str>, n: int) requires toks(t), 0 <= n, 8 + 2 * n <= t.len(), cand_fold(t, n) is Some ensures ce_ok(cand_fold(t, n)->Some_0) decreases n {
    if n > 0 {
        if cand_fold(t, n - 1) is None { lemma_cand_none(t, n - 1, n); }
        rt_cand_inv(t, n - 1); let e = cand_fold(t, n - 1)->Some_0; let f = cand_fold(t, n)->Some_0; let k = t[6 + 2 * n]; let v = t[7 + 2 * n]; assert(tok(k) && tok(v)); assert(cand_step(e, k, v) == Some(f));
        assert forall|i: int| 0 <= i < f.unknown.len() implies !cand_known((#[trigger] f.unknown[i]).0) && tok(f.unknown[i].0) && tok(f.unknown[i].1) by { if i < e.unknown.len() { assert(f.unknown[i] == e.unknown[i]); } else { assert(f.unknown[i] == (k, v)); } }
        assert(f.raddr matches Some(a) ==> exists|s: Str| #[trigger] addr_ok(s) && addr_of(s) == a) by { if f.raddr != e.raddr { assert(addr_ok(v) && f.raddr == Some(addr_of(v))); } }
        assert(f.ufrag matches Some(u) ==> tok(u)); assert(f.rport matches Some(p) ==> p <= 65535) by { if f.rport != e.rport { rt_dval(unsigned_body(v)); } }
    } else { assert(cand_fold(t, n)->Some_0.unknown.len() == 0); }
}
proof fn rt_cand_fold_ext(t: Seq<Str>, u: Seq<Str>, n: int) requires 0 <= n, 8 + 2 * n <= t.len(), t.len() <= u.len(), forall|i: int| 0 <= i < t.len() ==> t[i] == u[i] ensures cand_fold(t, n) == cand_fold(u, n) decreases n { if n > 0 { rt_cand_fold_ext(t, u, n - 1); assert(t[6 + 2 * n] == u[6 + 2 * n] && t[7 + 2 * n] == u[7 + 2 * n]); } }
spec fn cand_st(q: Str, c: SdpAttributeCandidate, e: CandExt) -> bool { let u = split_ws(q); solid(q) && cand_head_ok(u) && cand_head_is(u, c) && u.len() % 2 == 0 && cand_fold(u, cand_next(u)) == Some(e) }
proof fn rt_cand_add(q: Str, c: SdpAttributeCandidate, e: CandExt, k: Str, v: Str) requires cand_st(q, c, e), tok(k), tok(v), cand_step(e, k, v) is Some ensures cand_st(q + sp() + k + sp() + v, c, cand_step(e, k, v)->Some_0) {
    let u = split_ws(q); let n = cand_next(u); rt_solid_tok(k); rt_solid_tok(v); rt_split_sp(q, k); rt_split_sp(q + sp() + k, v); let w = split_ws(q + sp() + k + sp() + v); assert(w =~= u + seq![k, v]); rt_cand_fold_ext(u, w, n); assert(cand_next(w) == n + 1); assert(w[6 + 2 * (n + 1)] == k && w[7 + 2 * (n + 1)] == v);
    rt_solid(q, sp(), k); rt_solid(q + sp() + k, sp(), v);
}
proof fn rt_cand_kw(pre: Str, k: Str) requires small(k), k.len() > 0, pre.len() == k.len() + 2, pre =~= sp() + k + sp() ensures to_lower(k) == k, tok(k) { rt_small(k); }
proof fn rt_cand_opt(q: Str, c: SdpAttributeCandidate, e: CandExt, k: Str, v: Str, pre: Str, f: CandExt) requires cand_st(q, c, e), tok(k), tok(v), pre =~= sp() + k + sp(), cand_step(e, k, v) == Some(f) ensures cand_st(q + (pre + v), c, f) { rt_cand_add(q, c, e, k, v); assert(q + (pre + v) =~= q + sp() + k + sp() + v); }
proof fn rt_cand_unk(q: Str, c: SdpAttributeCandidate, e: CandExt, v: Seq<(String, String)>) requires cand_st(q, c, e), e.unknown.len() == 0, forall|i: int| 0 <= i < v.len() ==> !cand_known((#[trigger] v[i]).0@) && tok(v[i].0@) && tok(v[i].1@) ensures cand_st(q + exts_str(v), c, CandExt { unknown: sviews(v), ..e }) decreases v.len() {
    let g = |p: (String, String)| ext_str(p);
    if v.len() == 0 { assert(q + exts_str(v) =~= q); assert(sviews(v) =~= e.unknown); } else {
        let p = v.last(); let d = v.drop_last(); assert forall|i: int| 0 <= i < d.len() implies !cand_known((#[trigger] d[i]).0@) && tok(d[i].0@) && tok(d[i].1@) by { assert(d[i] == v[i]); } rt_cand_unk(q, c, e, d); assert(v[v.len() - 1] == p);
        let m = CandExt { unknown: sviews(d), ..e }; rt_sp(); assert(ext_str(p) =~= sp() + p.0@ + sp() + p.1@); let q2 = q + exts_str(d); rt_cand_add(q2, c, m, p.0@, p.1@); assert(q + exts_str(v) =~= q2 + sp() + p.0@ + sp() + p.1@); assert(sviews(v) =~= sviews(d).push((p.0@, p.1@)));
    }
}
proof fn rt_cand_keys(e: CandExt, v: Str) ensures
    uint_ok(v, u32::MAX as int) ==> cand_step(e, "generation"@, v) == Some(CandExt { generation: Some(uint_val(v) as u32), ..e }) && cand_step(e, "network-cost"@, v) == Some(CandExt { cost: Some(uint_val(v) as u32), ..e }),
    uint_ok(v, u32::MAX as int) && uint_val(v) <= 65535 ==> cand_step(e, "rport"@, v) == Some(CandExt { rport: Some(uint_val(v) as u32), ..e }),
    addr_ok(v) ==> cand_step(e, "raddr"@, v) == Some(CandExt { raddr: Some(addr_of(v)), ..e }), cand_step(e, "ufrag"@, v) == Some(CandExt { ufrag: Some(v), ..e }),
    tcpt_of(v) matches Some(x) ==> cand_step(e, "tcptype"@, v) == Some(CandExt { tcp: Some(x), ..e }),
    tok("generation"@), tok("network-cost"@), tok("rport"@), tok("raddr"@), tok("ufrag"@), tok("tcptype"@),
    " generation "@ =~= sp() + "generation"@ + sp(), " network-cost "@ =~= sp() + "network-cost"@ + sp(), " rport "@ =~= sp() + "rport"@ + sp(), " raddr "@ =~= sp() + "raddr"@ + sp(), " ufrag "@ =~= sp() + "ufrag"@ + sp(), " tcptype "@ =~= sp() + "tcptype"@ + sp(),
{
    reveal_strlit("generation"); reveal_strlit("network-cost"); reveal_strlit("rport"); reveal_strlit("raddr"); reveal_strlit("ufrag"); reveal_strlit("tcptype"); reveal_strlit(" generation "); reveal_strlit(" network-cost "); reveal_strlit(" rport "); reveal_strlit(" raddr "); reveal_strlit(" ufrag "); reveal_strlit(" tcptype ");
    rt_small("generation"@); rt_small("network-cost"@); rt_small("rport"@); rt_small("raddr"@); rt_small("ufrag"@); rt_small("tcptype"@);
    assert("generation"@.len() == 10); assert("network-cost"@.len() == 12); assert("rport"@.len() == 5 && "rport"@[1] == 'p'); assert("raddr"@.len() == 5 && "raddr"@[0] == 'r' && "raddr"@[1] == 'a'); assert("ufrag"@.len() == 5 && "ufrag"@[0] == 'u'); assert("tcptype"@.len() == 7);
}
proof fn rt_tcpt(x: SdpAttributeCandidateTcpType) ensures tcpt_of(tcpt_str(x)) == Some(x), tok(tcpt_str(x)) { rt_kw_tcpt(x); rt_small(tcpt_str(x)); reveal_strlit("active"); reveal_strlit("passive"); reveal_strlit("so"); assert("active"@.len() == 6 && "passive"@.len() == 7 && "so"@.len() == 2); }
proof fn rt_ctype(x: SdpAttributeCandidateType) ensures ctype_ok(ctype_str(x)), tok(ctype_str(x)), to_lower(ctype_str(x)) == ctype_str(x) { rt_kw_ctype(x); rt_small(ctype_str(x)); }
proof fn rt_transp(x: SdpAttributeCandidateTransport) ensures to_lower(transp_str(x)) == tr_kw(x), tok(transp_str(x)), tr_kw(x) == "udp"@ || tr_kw(x) == "tcp"@ {
    reveal_strlit("UDP"); reveal_strlit("TCP"); reveal_strlit("udp"); reveal_strlit("tcp"); let s = transp_str(x); ax_lower_ascii(s); let l = s.map_values(|c: char| low(c));
    assert(l.len() == 3); assert(low('U') == 'u' && low('D') == 'd' && low('P') == 'p' && low('T') == 't' && low('C') == 'c'); assert(l =~= tr_kw(x)); assert(tok(s));
}
proof fn rt_candidate(v: Str, c: SdpAttributeCandidate) //# C09
    requires cand_ok(split_ws(v)), cand_is(split_ws(v), c) ensures cand_ok(split_ws(cand_str(c))), cand_is(split_ws(cand_str(c)), c), solid(cand_str(c))
{
    let t = split_ws(v); rt_split_toks(v); rt_sp(); rt_cand_inv(t, cand_next(t)); let x = cand_ext(c); assert(ce_ok(x));
    let h = rt_cand_head_str(c); rt_cand_head(t, c); let e0 = cand_fold(t, 0)->Some_0;
    let q1 = h + opt_addr(" raddr "@, c.raddr); let e1 = CandExt { raddr: c.raddr, ..e0 };
    assert(cand_st(q1, c, e1)) by { match c.raddr { Some(a) => { let s = choose|s: Str| #[trigger] addr_ok(s) && addr_of(s) == a; rt_addr(s); rt_cand_keys(e0, addr_str(a)); rt_cand_opt(h, c, e0, "raddr"@, addr_str(a), " raddr "@, e1); }, None => { assert(q1 =~= h); } } }
    let q2 = q1 + opt_str(" rport "@, c.rport, none()); let e2 = CandExt { rport: c.rport, ..e1 };
    assert(cand_st(q2, c, e2)) by { match c.rport { Some(n) => { rt_dec(n as int, u32::MAX as int); rt_cand_keys(e1, dec(n as int)); rt_cand_opt(q1, c, e1, "rport"@, dec(n as int), " rport "@, e2); assert(q2 =~= q1 + (" rport "@ + dec(n as int))); }, None => { assert(q2 =~= q1); } } }
    let q3 = q2 + opt_str(" tcptype "@, c.tcp_type, none()); let e3 = CandExt { tcp: c.tcp_type, ..e2 };
    assert(cand_st(q3, c, e3)) by { match c.tcp_type { Some(n) => { rt_tcpt(n); rt_cand_keys(e2, tcpt_str(n)); rt_cand_opt(q2, c, e2, "tcptype"@, tcpt_str(n), " tcptype "@, e3); assert(q3 =~= q2 + (" tcptype "@ + tcpt_str(n))); }, None => { assert(q3 =~= q2); } } }
    let q4 = q3 + opt_str(" generation "@, c.generation, none()); let e4 = CandExt { generation: c.generation, ..e3 };
    assert(cand_st(q4, c, e4)) by { match c.generation { Some(n) => { rt_dec(n as int, u32::MAX as int); rt_cand_keys(e3, dec(n as int)); rt_cand_opt(q3, c, e3, "generation"@, dec(n as int), " generation "@, e4); assert(q4 =~= q3 + (" generation "@ + dec(n as int))); }, None => { assert(q4 =~= q3); } } }
    let q5 = q4 + opt_str(" ufrag "@, c.ufrag, none()); let e5 = CandExt { ufrag: otext(c.ufrag), ..e4 };
    assert(cand_st(q5, c, e5)) by { match c.ufrag { Some(n) => { rt_cand_keys(e4, n@); rt_cand_opt(q4, c, e4, "ufrag"@, n@, " ufrag "@, e5); assert(q5 =~= q4 + (" ufrag "@ + n@)); }, None => { assert(q5 =~= q4); } } }
    let q6 = q5 + opt_str(" network-cost "@, c.networkcost, none()); let e6 = CandExt { cost: c.networkcost, ..e5 };
    assert(cand_st(q6, c, e6)) by { match c.networkcost { Some(n) => { rt_dec(n as int, u32::MAX as int); rt_cand_keys(e5, dec(n as int)); rt_cand_opt(q5, c, e5, "network-cost"@, dec(n as int), " network-cost "@, e6); assert(q6 =~= q5 + (" network-cost "@ + dec(n as int))); }, None => { assert(q6 =~= q5); } } }
    let us = c.unknown_extensions@; assert forall|i: int| 0 <= i < us.len() implies !cand_known((#[trigger] us[i]).0@) && tok(us[i].0@) && tok(us[i].1@) by { assert(x.unknown[i] == (us[i].0@, us[i].1@)); }
    rt_cand_unk(q6, c, e6, us); assert(CandExt { unknown: sviews(us), ..e6 } == x); assert(q6 + exts_str(us) =~= cand_str(c));
}
spec fn rt_cand_head_str(c: SdpAttributeCandidate) -> Str { c.foundation@ + " "@ + dec(c.component as int) + " "@ + transp_str(c.transport) + " "@ + dec(c.priority as int) + " "@ + addr_str(c.address) + " "@ + dec(c.port as int) + " typ "@ + ctype_str(c.c_type) }
proof fn rt_cand_head(t: Seq<Str>, c: SdpAttributeCandidate) requires toks(t), cand_head_ok(t), cand_head_is(t, c) ensures cand_st(rt_cand_head_str(c), c, cand_fold(t, 0)->Some_0) {
    rt_sp(); let f = c.foundation@; assert(f == t[0] && tok(t[0])); let a = dec(c.component as int); let b = transp_str(c.transport); let p = dec(c.priority as int); let d = addr_str(c.address); let o = dec(c.port as int); let k = ctype_str(c.c_type);
    rt_dec(c.component as int, u32::MAX as int); rt_dec(c.priority as int, u64::MAX as int); rt_dec(c.port as int, u32::MAX as int); rt_addr(t[4]); rt_transp(c.transport); rt_ctype(c.c_type); reveal_strlit("typ"); reveal_strlit(" typ "); let y = "typ"@; assert(" typ "@ =~= sp() + y + sp()); rt_small(y);
    let l = seq![f, a, b, p, d, o, y, k]; assert(toks(l)); let q = join(l, sp()); rt_split_ws_join(l); rt_join_solid(l); rt_join8(f, a, b, p, d, o, y, k); assert(q =~= rt_cand_head_str(c));
}
proof fn rt_join8(a: Str, b: Str, c: Str, d: Str, e: Str, f: Str, g: Str, h: Str) ensures join(seq![a, b, c, d, e, f, g, h], sp()) =~= a + sp() + b + sp() + c + sp() + d + sp() + e + sp() + f + sp() + g + sp() + h {
    rt_join1(a, sp()); rt_join_push(seq![a], b, sp()); assert(seq![a].push(b) =~= seq![a, b]); rt_join_push(seq![a, b], c, sp()); assert(seq![a, b].push(c) =~= seq![a, b, c]); rt_join_push(seq![a, b, c], d, sp()); assert(seq![a, b, c].push(d) =~= seq![a, b, c, d]); rt_join_push(seq![a, b, c, d], e, sp()); assert(seq![a, b, c, d].push(e) =~= seq![a, b, c, d, e]); rt_join_push(seq![a, b, c, d, e], f, sp()); assert(seq![a, b, c, d, e].push(f) =~= seq![a, b, c, d, e, f]); rt_join_push(seq![a, b, c, d, e, f], g, sp()); assert(seq![a, b, c, d, e, f].push(g) =~= seq![a, b, c, d, e, f, g]); rt_join_push(seq![a, b, c, d, e, f, g], h, sp()); assert(seq![a, b, c, d, e, f, g].push(h) =~= seq![a, b, c, d, e, f, g, h]);
}
proof fn rt_join_push(v: Seq<Str>, x: Str, s: Str) requires v.len() > 0 ensures join(v.push(x), s) == join(v, s) + s + x decreases v.len() {
    let w = v.push(x); if v.len() == 1 { assert(w =~= seq![v[0], x]); rt_join2(v[0], x, s); } else { rt_join_push(v.drop_first(), x, s); assert(w.drop_first() =~= v.drop_first().push(x)); assert(join(w, s) =~= join(v, s) + s + x); }
}
proof fn rt_dval(s: Str) requires all_digits(s) ensures dval(s) >= 0 decreases s.len() { if s.len() > 0 { assert(digit(s.last()) >= 0); let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies digit(#[trigger] d[i]) >= 0 by { assert(d[i] == s[i]); } rt_dval(d); } }
// ---- lists of lists
spec fn flat(l: Seq<Seq<Str>>) -> Seq<Str> decreases l.len() { if l.len() == 0 { Seq::empty() } else { flat(l.drop_last()) + l.last() } }
spec fn solids(v: Seq<Str>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).len() > 0 }
proof fn rt_join_add(a: Seq<Str>, b: Seq<Str>, s: Str) requires a.len() > 0, b.len() > 0 ensures join(a + b, s) == join(a, s) + s + join(b, s) decreases a.len() {
    let w = a + b; assert(w.drop_first() =~= a.drop_first() + b);
    if a.len() == 1 { assert(w.drop_first() =~= b); assert(join(w, s) =~= join(a, s) + s + join(b, s)); } else { rt_join_add(a.drop_first(), b, s); assert(join(w, s) =~= join(a, s) + s + join(b, s)); }
}
proof fn rt_join_some(v: Seq<Str>, s: Str) requires v.len() > 0, solids(v) ensures join(v, s).len() > 0 { assert(v[0].len() > 0); }
proof fn rt_flat(items: Seq<Str>, l: Seq<Seq<Str>>, s: Str) requires items.len() == l.len(), forall|i: int| 0 <= i < l.len() ==> #[trigger] items[i] == join(l[i], s) && solids(l[i])
    ensures join(nelist(items), s) == join(flat(l), s), solids(flat(l)), nelist(items).len() == 0 <==> flat(l).len() == 0 decreases items.len()
{
    if items.len() > 0 {
        let i2 = items.drop_last(); let l2 = l.drop_last(); assert forall|i: int| 0 <= i < l2.len() implies #[trigger] i2[i] == join(l2[i], s) && solids(l2[i]) by { assert(items[i] == i2[i]); }
        rt_flat(i2, l2, s); let x = items.last(); let y = l.last(); assert(x == items[items.len() - 1]); assert(x == join(y, s) && solids(y));
        let a = nelist(i2); let f = flat(l2); let g = f + y;
        assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i]).len() > 0 by { if i < f.len() { assert(g[i] == f[i]); } else { assert(g[i] == y[i - f.len()]); } }
        if y.len() == 0 { assert(x.len() == 0); assert(g =~= f); } else {
            rt_join_some(y, s); assert(nelist(items) == a.push(x));
            if a.len() > 0 { rt_join_push(a, x, s); rt_join_add(f, y, s); } else { assert(a.push(x) =~= seq![x]); rt_join1(x, s); assert(g =~= y); }
        }
    }
}
proof fn rt_list_str(v: Seq<Str>, s: Str) requires solids(v) ensures list_str(none(), v, s, none()) == join(v, s) { rt_nonempty(v); assert(list_str(none(), v, s, none()) =~= join(v, s)); }
// ---- rid
spec fn rp_ok(s: Str) -> bool { s.len() > 0 && noc(s, ';') }
spec fn rps_ok(v: Seq<Str>) -> bool { forall|i: int| 0 <= i < v.len() ==> rp_ok(#[trigger] v[i]) }
spec fn rid_st(v: Seq<Str>, a: RidAcc) -> bool { rid_fold(v, v.len() as int) == Some(a) && rps_ok(v) }
proof fn rt_rid_ext(v: Seq<Str>, w: Seq<Str>, n: int) requires 0 <= n <= v.len() <= w.len(), forall|i: int| 0 <= i < v.len() ==> v[i] == w[i] ensures rid_fold(v, n) == rid_fold(w, n) decreases n { if n > 0 { rt_rid_ext(v, w, n - 1); assert(v[n - 1] == w[n - 1]); } }
proof fn rt_rid_add(v: Seq<Str>, a: RidAcc, s: Str) requires rid_st(v, a), rid_step(a, s) is Some, rp_ok(s) ensures rid_st(v + seq![s], rid_step(a, s)->Some_0) { let w = v + seq![s]; rt_rid_ext(v, w, v.len() as int); assert(w[w.len() - 1] == s); assert forall|i: int| 0 <= i < w.len() implies rp_ok(#[trigger] w[i]) by { if i < v.len() { assert(w[i] == v[i]); } } }
// name=value
proof fn rt_eq(name: Str, pre: Str, val: Str) requires pre =~= name + seq!['='], noc(name, '='), noc(name, ';'), noc(val, ';') ensures splitn_char(2, pre + val, '=') == seq![name, val], rp_ok(pre + val), (pre + val).contains('=') {
    rt_splitn_head(2, name, val, '='); rt_splitn_one(1, val, '='); assert(splitn_char(2, pre + val, '=') =~= seq![name, val]); rt_noc_add(name, seq!['='], ';'); assert(noc(seq!['='], ';')); rt_noc_add(pre, val, ';'); assert((pre + val)[name.len() as int] == '=');
}
spec fn one(s: Str) -> Seq<Str> { if s.len() > 0 { seq![s] } else { Seq::empty() } }
spec fn rid_nums(p: SdpAttributeRidParameters) -> Seq<Str> { nelist(ridp_items(p).take(6)) }
spec fn rid_key(k: Str) -> bool { k == "depends"@ || k == "max-width"@ || k == "max-height"@ || k == "max-fps"@ || k == "max-fs"@ || k == "max-br"@ || k == "max-pps"@ }
proof fn rt_rid_num(v: Seq<Str>, a: RidAcc, n: u32, name: Str, pre: Str, b: RidAcc) requires rid_st(v, a), pre =~= name + seq!['='], noc(name, '='), noc(name, ';'), n == 0 ==> b == a, forall|s: Str| splitn_char(2, s, '=') == seq![name, dec(n as int)] ==> #[trigger] rid_step(a, s) == Some(b) ensures rid_st(v + one(num_str(pre, n as int, 0)), b), n != 0 ==> num_str(pre, n as int, 0).len() > 0 {
    if n == 0 { assert(v + one(num_str(pre, 0, 0)) =~= v); } else { let d = dec(n as int); rt_dec(n as int, u32::MAX as int); rt_num_noc(d, ';'); rt_eq(name, pre, d); rt_rid_add(v, a, pre + d); }
}
proof fn rt_rid_keys() ensures "max-width="@ =~= "max-width"@ + seq!['='], "max-height="@ =~= "max-height"@ + seq!['='], "max-fps="@ =~= "max-fps"@ + seq!['='], "max-fs="@ =~= "max-fs"@ + seq!['='], "max-br="@ =~= "max-br"@ + seq!['='], "max-pps="@ =~= "max-pps"@ + seq!['='], "depends="@ =~= "depends"@ + seq!['='],
    noc("max-width"@, '='), noc("max-width"@, ';'), noc("max-height"@, '='), noc("max-height"@, ';'), noc("max-fps"@, '='), noc("max-fps"@, ';'), noc("max-fs"@, '='), noc("max-fs"@, ';'), noc("max-br"@, '='), noc("max-br"@, ';'), noc("max-pps"@, '='), noc("max-pps"@, ';'), noc("depends"@, '='), noc("depends"@, ';'),
{ reveal_strlit("max-width="); reveal_strlit("max-height="); reveal_strlit("max-fps="); reveal_strlit("max-fs="); reveal_strlit("max-br="); reveal_strlit("max-pps="); reveal_strlit("depends="); reveal_strlit("max-width"); reveal_strlit("max-height"); reveal_strlit("max-fps"); reveal_strlit("max-fs"); reveal_strlit("max-br"); reveal_strlit("max-pps"); reveal_strlit("depends"); }
proof fn rt_rid_steps(a: RidAcc, s: Str, n: u32) requires splitn_char(2, s, '=').len() == 2, splitn_char(2, s, '=')[1] == dec(n as int) ensures ({ let k = splitn_char(2, s, '=')[0];
    (k == "max-width"@ ==> rid_step(a, s) == Some(RidAcc { width: n, ..a })) && (k == "max-height"@ ==> rid_step(a, s) == Some(RidAcc { height: n, ..a })) && (k == "max-fps"@ ==> rid_step(a, s) == Some(RidAcc { fps: n, ..a })) &&
    (k == "max-fs"@ ==> rid_step(a, s) == Some(RidAcc { fs: n, ..a })) && (k == "max-br"@ ==> rid_step(a, s) == Some(RidAcc { br: n, ..a })) && (k == "max-pps"@ ==> rid_step(a, s) == Some(RidAcc { pps: n, ..a })) })
{ rt_dec(n as int, u32::MAX as int); reveal_strlit("max-width"); reveal_strlit("max-height"); reveal_strlit("max-fps"); reveal_strlit("max-fs"); reveal_strlit("max-br"); reveal_strlit("max-pps"); reveal_strlit("depends"); assert("depends"@[0] != "max-fps"@[0]); assert("depends"@[0] != "max-pps"@[0]); assert("max-fs"@[5] != "max-br"@[5]); assert("max-fps"@[4] == 'f' && "max-pps"@[4] == 'p'); }
spec fn rid_plist(p: SdpAttributeRidParameters) -> Seq<Str> {
    one(num_str("max-width="@, p.max_width as int, 0)) + one(num_str("max-height="@, p.max_height as int, 0)) + one(num_str("max-fps="@, p.max_fps as int, 0)) + one(num_str("max-fs="@, p.max_fs as int, 0)) + one(num_str("max-br="@, p.max_br as int, 0)) + one(num_str("max-pps="@, p.max_pps as int, 0)) + strs(p.unknown@)
}
proof fn rt_one(s: Str, c: Str) ensures s == join(one(s), c), solids(one(s)) { if s.len() > 0 { rt_join1(s, c); } else { assert(s =~= join(one(s), c)); } }
proof fn rt_rid_plist(p: SdpAttributeRidParameters) requires solids(strs(p.unknown@)) ensures ridp_str(p) == join(rid_plist(p), ";"@), solids(rid_plist(p)) {
    let it = ridp_items(p); let u = strs(p.unknown@); let s = ";"@; let l = seq![one(it[0]), one(it[1]), one(it[2]), one(it[3]), one(it[4]), one(it[5]), u];
    rt_one(it[0], s); rt_one(it[1], s); rt_one(it[2], s); rt_one(it[3], s); rt_one(it[4], s); rt_one(it[5], s); rt_list_str(u, s);
    rt_flat(it, l, s); rt_flat7(l); assert(flat(l) =~= rid_plist(p));
}
proof fn rt_flat_push(l: Seq<Seq<Str>>, x: Seq<Str>) ensures flat(l.push(x)) == flat(l) + x { assert(l.push(x).drop_last() =~= l); }
proof fn rt_flat7(l: Seq<Seq<Str>>) requires l.len() == 7 ensures flat(l) =~= l[0] + l[1] + l[2] + l[3] + l[4] + l[5] + l[6] { rt_flat_take(l, 7); rt_flat_take(l, 6); rt_flat_take(l, 5); rt_flat_take(l, 4); rt_flat_take(l, 3); rt_flat_take(l, 2); rt_flat_take(l, 1); assert(l.take(7) =~= l); assert(l.take(0).len() == 0); }
proof fn rt_flat_take(l: Seq<Seq<Str>>, k: int) requires 0 < k <= l.len() ensures flat(l.take(k)) == flat(l.take(k - 1)) + l[k - 1] { assert(l.take(k).drop_last() =~= l.take(k - 1)); }
proof fn rt_rid_unk(v: Seq<Str>, a: RidAcc, u: Seq<Str>) requires rid_st(v, a), a.unknown.len() == 0, forall|i: int| 0 <= i < u.len() ==> rid_unk(#[trigger] u[i]) ensures rid_st(v + u, RidAcc { unknown: u, ..a }) decreases u.len() {
    if u.len() == 0 { assert(v + u =~= v); assert(u =~= a.unknown); } else {
        let d = u.drop_last(); let s = u.last(); assert forall|i: int| 0 <= i < d.len() implies rid_unk(#[trigger] d[i]) by { assert(d[i] == u[i]); } rt_rid_unk(v, a, d); assert(rid_unk(u[u.len() - 1])); let m = RidAcc { unknown: d, ..a };
        assert(d.push(s) =~= u); assert(rid_step(m, s) == Some(RidAcc { unknown: u, ..a })); rt_rid_add(v + d, m, s); assert(v + u =~= v + d + seq![s]);
    }
}
spec fn rid_unk(s: Str) -> bool { let p = splitn_char(2, s, '='); rp_ok(s) && p.len() == 2 && !rid_key(p[0]) }
// what folding can produce
spec fn ra_ok(a: RidAcc) -> bool { (forall|i: int| 0 <= i < a.unknown.len() ==> rid_unk(#[trigger] a.unknown[i])) && (forall|i: int| 0 <= i < a.depends.len() ==> noc(#[trigger] a.depends[i], ';') && noc(a.depends[i], ',')) }
proof fn rt_rid_inv(v: Seq<Str>, n: int) requires nocs(v, ';'), 0 <= n <= v.len(), rid_fold(v, n) is Some ensures ra_ok(rid_fold(v, n)->Some_0) decreases n {
    if n > 0 {
        if rid_fold(v, n - 1) is None { lemma_rid_none(v, n - 1, n); } rt_rid_inv(v, n - 1); let e = rid_fold(v, n - 1)->Some_0; let f = rid_fold(v, n)->Some_0; let s = v[n - 1]; assert(noc(s, ';')); assert(rid_step(e, s) == Some(f)); lemma_split2(s, '='); lemma_find_char(s, '='); let p = splitn_char(2, s, '=');
        assert forall|i: int| 0 <= i < f.unknown.len() implies rid_unk(#[trigger] f.unknown[i]) by { if i < e.unknown.len() { assert(f.unknown[i] == e.unknown[i]); } else { assert(f.unknown[i] == s); assert(s.len() > 0); } }
        assert forall|i: int| 0 <= i < f.depends.len() implies noc(#[trigger] f.depends[i], ';') && noc(f.depends[i], ',') by { if i < e.depends.len() { assert(f.depends[i] == e.depends[i]); } else { let k = find_char(s, '='); rt_noc_sub(s, ';', k + 1, s.len() as int); rt_split_sub(p[1], ',', ';'); rt_split_nocs(p[1], ','); assert(f.depends[i] == split_char(p[1], ',')[i - e.depends.len()]); } }
    }
}
spec fn rid_dlist(d: Seq<Str>) -> Seq<Str> { if d.len() == 0 { Seq::empty() } else { seq!["depends="@ + join(d, ","@)] } }
proof fn rt_join_noc(v: Seq<Str>, s: Str, c: char) requires nocs(v, c), noc(s, c) ensures noc(join(v, s), c) decreases v.len() {
    if v.len() >= 2 { let r = v.drop_first(); assert forall|i: int| 0 <= i < r.len() implies noc(#[trigger] r[i], c) by { assert(r[i] == v[i + 1]); } rt_join_noc(r, s, c); assert(noc(v[0], c)); rt_noc_add(v[0], s, c); rt_noc_add(v[0] + s, join(r, s), c); } else if v.len() == 1 { assert(noc(v[0], c)); } else { assert(noc(join(v, s), c)); }
}
// the printed parameters fold to what was stored
proof fn rt_rid_fold(p: SdpAttributeRidParameters, d: Seq<String>) requires ra_ok(rid_acc(p, d)) ensures rid_st(rid_plist(p) + rid_dlist(strs(d)), rid_acc(p, d)), solids(strs(p.unknown@)) {
    rt_rid_keys(); let a0 = RidAcc { width: 0, height: 0, fps: 0, fs: 0, br: 0, pps: 0, unknown: Seq::empty(), depends: Seq::empty() }; let z = Seq::<Str>::empty(); assert(rid_st(z, a0)); let x = rid_acc(p, d);
    assert forall|a: RidAcc, s: Str, n: u32| splitn_char(2, s, '=').len() == 2 && splitn_char(2, s, '=')[1] == #[trigger] dec(n as int) implies ({ let k = splitn_char(2, s, '=')[0]; (k == "max-width"@ ==> #[trigger] rid_step(a, s) == Some(RidAcc { width: n, ..a })) && (k == "max-height"@ ==> rid_step(a, s) == Some(RidAcc { height: n, ..a })) && (k == "max-fps"@ ==> rid_step(a, s) == Some(RidAcc { fps: n, ..a })) && (k == "max-fs"@ ==> rid_step(a, s) == Some(RidAcc { fs: n, ..a })) && (k == "max-br"@ ==> rid_step(a, s) == Some(RidAcc { br: n, ..a })) && (k == "max-pps"@ ==> rid_step(a, s) == Some(RidAcc { pps: n, ..a })) }) by { rt_rid_steps(a, s, n); }
    let a1 = RidAcc { width: p.max_width, ..a0 }; rt_rid_num(z, a0, p.max_width, "max-width"@, "max-width="@, a1); let v1 = z + one(num_str("max-width="@, p.max_width as int, 0));
    let a2 = RidAcc { height: p.max_height, ..a1 }; rt_rid_num(v1, a1, p.max_height, "max-height"@, "max-height="@, a2); let v2 = v1 + one(num_str("max-height="@, p.max_height as int, 0));
    let a3 = RidAcc { fps: p.max_fps, ..a2 }; rt_rid_num(v2, a2, p.max_fps, "max-fps"@, "max-fps="@, a3); let v3 = v2 + one(num_str("max-fps="@, p.max_fps as int, 0));
    let a4 = RidAcc { fs: p.max_fs, ..a3 }; rt_rid_num(v3, a3, p.max_fs, "max-fs"@, "max-fs="@, a4); let v4 = v3 + one(num_str("max-fs="@, p.max_fs as int, 0));
    let a5 = RidAcc { br: p.max_br, ..a4 }; rt_rid_num(v4, a4, p.max_br, "max-br"@, "max-br="@, a5); let v5 = v4 + one(num_str("max-br="@, p.max_br as int, 0));
    let a6 = RidAcc { pps: p.max_pps, ..a5 }; rt_rid_num(v5, a5, p.max_pps, "max-pps"@, "max-pps="@, a6); let v6 = v5 + one(num_str("max-pps="@, p.max_pps as int, 0));
    let u = strs(p.unknown@); assert(forall|i: int| 0 <= i < u.len() ==> rid_unk(#[trigger] x.unknown[i])); assert forall|i: int| 0 <= i < u.len() implies rid_unk(#[trigger] u[i]) by { assert(x.unknown[i] == u[i]); } rt_rid_unk(v6, a6, u); let v7 = v6 + u; let a7 = RidAcc { unknown: u, ..a6 }; assert(v7 =~= rid_plist(p));
    let e = strs(d);
    if e.len() == 0 { assert(v7 + rid_dlist(e) =~= v7); assert(e =~= Seq::<Str>::empty()); } else {
        rt_tilde(); let val = join(e, ","@); assert forall|i: int| 0 <= i < e.len() implies noc(#[trigger] e[i], ';') && noc(e[i], ',') by { assert(x.depends[i] == e[i]); } rt_join_noc(e, ","@, ';'); rt_split_join(e, ','); rt_eq("depends"@, "depends="@, val);
        let s = "depends="@ + val; assert(Seq::<Str>::empty() + e =~= e); assert(rid_step(a7, s) == Some(x)); rt_rid_add(v7, a7, s);
    }
}
// KF3: no payload types and the first printed parameter is an unknown "pt=..." one
spec fn rid_kf3(x: SdpAttributeRid) -> bool { let l = rid_plist(x.params); x.formats@.len() == 0 && l.len() > 0 && has_prefix(l[0], "pt="@) }
proof fn rt_rid(v: Str, x: SdpAttributeRid) //# C09
    requires rid_ok(splitn_char(3, v, ' ')), rid_is(splitn_char(3, v, ' '), x), trimmed(v), !rid_kf3(x), trimmed(rid_str(x)) // KF3, KF5
    ensures rid_ok(splitn_char(3, rid_str(x), ' ')), rid_is(splitn_char(3, rid_str(x), ' '), x), solid(rid_str(x))
{
    let t = splitn_char(3, v, ' '); let s = seq![';']; rt_tilde(); rt_sp(); rt_splitn_nocs(3, v, ' '); lemma_splitn_len(3, v, ' '); assert(noc(t[0], ' ') && noc(t[1], ' ')) by { lemma_find_char(v, ' '); if t.len() == 2 { rt_split_23(v); } }
    let ps0 = rid_params(t); if t.len() > 2 { rt_split_nocs(t[2], ';'); lemma_split_len(t[2], ';'); } assert(nocs(ps0, ';')) by { if t.len() > 2 { assert forall|i: int| 0 <= i < ps0.len() implies noc(#[trigger] ps0[i], ';') by { if rid_pt(t) { assert(ps0[i] == split_char(t[2], ';')[i + 1]); } } } }
    rt_rid_inv(ps0, ps0.len() as int); let p = x.params; let d = strs(x.depends@); rt_rid_fold(p, x.depends@); rt_rid_plist(p);
    let pl = rid_plist(p); let dl = rid_dlist(d); let fl = disps(x.formats@); let pre = "pt="@; reveal_strlit("pt="); let fv = pre + join(fl, ","@); let f0 = if fl.len() == 0 { Seq::<Str>::empty() } else { seq![fv] };
    assert forall|i: int| 0 <= i < fl.len() implies fl[i] == dec(x.formats@[i] as int) && ridv_fmt_ok(#[trigger] fl[i]) && uint_val(trim(fl[i])) == x.formats@[i] && noc(fl[i], ',') && noc(fl[i], ';') && fl[i].len() > 0 by { let n = x.formats@[i] as int; rt_dec(n, u16::MAX as int); rt_trim_id(dec(n)); rt_num_noc(dec(n), ','); rt_num_noc(dec(n), ';'); assert(fl[i] == x.formats@[i].disp()); }
    rt_nonempty(fl); rt_join_noc(fl, ","@, ';'); rt_noc_add(pre, join(fl, ","@), ';');
    let it = rid_items(x); let ls = seq![f0, pl, dl];
    assert(it[0] == join(f0, s)) by { if fl.len() > 0 { rt_join1(fv, s); assert(it[0] =~= fv); } } assert(it[2] == join(dl, s)) by { if d.len() > 0 { rt_join1(dl[0], s); assert(it[2] =~= dl[0]); } } reveal_strlit("depends=");
    rt_flat(it, ls, s); let all = f0 + (pl + dl); rt_flat_take(ls, 3); rt_flat_take(ls, 2); rt_flat_take(ls, 1); assert(ls.take(3) =~= ls); assert(ls.take(0).len() == 0); assert(flat(ls) =~= all);
    let q = rid_str(x); let l = join(all, s); let id = x.id@; let dn = dirn_str(x.direction); rt_kw_dirn(x.direction); rt_small(dn); rt_nows_noc(dn, ' '); let h = id + sp() + dn;
    assert(id.len() > 0 && !is_ws(id[0])) by { lemma_find_char(v, ' '); assert(is_ws(' ')); }
    assert(rps_ok(pl + dl)); assert(nocs(all, ';')) by { assert forall|i: int| 0 <= i < all.len() implies noc(#[trigger] all[i], ';') by { if i >= f0.len() { assert(all[i] == (pl + dl)[i - f0.len()]); assert(rp_ok((pl + dl)[i - f0.len()])); } } }
    rt_splitn_one(2, dn, ' ');
    if all.len() == 0 {
        assert(q =~= h); rt_splitn_head(3, id, dn, ' '); let w = seq![id, dn]; assert(splitn_char(3, q, ' ') =~= w); assert(rid_params(w) =~= pl + dl); assert(fl.len() == 0); assert(ridv_fmts(w) =~= Seq::<Str>::empty()); rt_rid_is(w, x, pl + dl, fl);
        assert(q[0] == id[0]); assert(q.last() == dn.last());
    } else {
        rt_join_some(all, s); assert(q =~= h + sp() + l); assert(q =~= id + sp() + (dn + sp() + l)); rt_splitn_head(3, id, dn + sp() + l, ' '); rt_splitn_head(2, dn, l, ' '); rt_splitn_one(1, l, ' '); let w = seq![id, dn, l]; assert(splitn_char(3, q, ' ') =~= w); rt_split_join(all, ';'); let sc = split_char(l, ';'); assert(sc == all);
        if fl.len() > 0 {
            assert(sc[0] == fv); assert(fv.subrange(0, 3) =~= pre); assert(fv.subrange(3, fv.len() as int) =~= join(fl, ","@)); assert(rid_pt(w)); assert(nocs(fl, ',')); rt_split_join(fl, ','); assert(rid_params(w) =~= pl + dl); assert(ridv_fmts(w) == fl); rt_rid_is(w, x, pl + dl, fl);
        } else {
            assert(all =~= pl + dl); assert(!rid_pt(w)) by { if pl.len() > 0 { assert(all[0] == pl[0]); } else { assert(all[0] == dl[0]); assert(dl[0][0] == 'd'); if has_prefix(dl[0], pre) { assert(dl[0].subrange(0, 3)[0] == 'd'); } } }
            rt_rid_is(w, x, pl + dl, fl);
        }
        assert(q[0] == id[0]); assert(q.len() > 0);
    }
}
proof fn rt_split_23(v: Str) requires splitn_char(3, v, ' ').len() == 2 ensures noc(splitn_char(3, v, ' ')[1], ' ') { lemma_find_char(v, ' '); let k = find_char(v, ' '); let r = v.subrange(k + 1, v.len() as int); lemma_find_char(r, ' '); assert(splitn_char(3, v, ' ')[1] == splitn_char(2, r, ' ')[0]); let k2 = find_char(r, ' '); if k2 < r.len() { let r2 = r.subrange(k2 + 1, r.len() as int); assert(splitn_char(1, r2, ' ').len() >= 1) by { lemma_splitn_len(1, r2, ' '); } } else { assert(splitn_char(2, r, ' ') =~= seq![r]); } }
proof fn rt_rid_is(w: Seq<Str>, x: SdpAttributeRid, ps: Seq<Str>, fl: Seq<Str>) requires w.len() >= 2, w[0] == x.id@, w[1] == dirn_str(x.direction), rid_params(w) == ps, rid_st(ps, rid_acc(x.params, x.depends@)), ridv_fmts(w) =~= fl, fl.len() == x.formats@.len(), forall|i: int| 0 <= i < fl.len() ==> ridv_fmt_ok(#[trigger] fl[i]) && uint_val(trim(fl[i])) == x.formats@[i] ensures rid_ok(w), rid_is(w, x) {}
// ---- fmtp
spec fn fpa_ok(s: Str) -> bool { s.len() > 0 && s.contains('=') && noc(s, ';') }
spec fn fpas_ok(v: Seq<Str>) -> bool { forall|i: int| 0 <= i < v.len() ==> fpa_ok(#[trigger] v[i]) }
spec fn fm_st(v: Seq<Str>, a: FmtpV) -> bool { fmtp_fold(v, v.len() as int) == Some(a) && fpas_ok(v) }
proof fn rt_fm_ext(v: Seq<Str>, w: Seq<Str>, n: int) requires 0 <= n <= v.len() <= w.len(), forall|i: int| 0 <= i < v.len() ==> v[i] == w[i] ensures fmtp_fold(v, n) == fmtp_fold(w, n) decreases n { if n > 0 { rt_fm_ext(v, w, n - 1); assert(v[n - 1] == w[n - 1]); } }
proof fn rt_fm_add(v: Seq<Str>, a: FmtpV, s: Str, b: FmtpV) requires fm_st(v, a), fmtp_step(a, s) == Some(b), fpa_ok(s) ensures fm_st(v + seq![s], b) { let w = v + seq![s]; rt_fm_ext(v, w, v.len() as int); assert(w[w.len() - 1] == s); assert forall|i: int| 0 <= i < w.len() implies fpa_ok(#[trigger] w[i]) by { if i < v.len() { assert(w[i] == v[i]); } } }
spec fn fm_name(lo: Str, hi: Str, pre: Str) -> bool { to_upper(lo) == hi && pre =~= lo + seq!['='] && noc(lo, '=') && noc(lo, ';') }
proof fn rt_fm_set(v: Seq<Str>, a: FmtpV, b: FmtpV, lo: Str, hi: Str, key: int, pre: Str, val: Str) requires fm_st(v, a), fm_name(lo, hi, pre), fmtp_key(hi) == key, noc(val, ';'), fmtp_set(key, a, val, pre + val) == Some(b) ensures fm_st(v + seq![pre + val], b), one(pre + val) == seq![pre + val] { rt_eq(lo, pre, val); reveal(fmtp_step); rt_fm_add(v, a, pre + val, b); }
spec fn upc(c: char) -> char { if 97 <= c as u32 <= 122 { ((c as u32) - 32) as u32 as char } else { c } }
proof fn rt_upper(lo: Str, hi: Str) requires lo.len() == hi.len(), forall|i: int| 0 <= i < lo.len() ==> (#[trigger] lo[i]) as u32 <= 0x7f && hi[i] == upc(lo[i]) ensures to_upper(lo) == hi { ax_upper_ascii(lo); assert(lo.map_values(|c: char| upc(c)) =~= hi); }
proof fn rt_upc() ensures upc('a') == 'A', upc('b') == 'B', upc('c') == 'C', upc('d') == 'D', upc('e') == 'E', upc('f') == 'F', upc('g') == 'G', upc('h') == 'H', upc('i') == 'I', upc('j') == 'J', upc('k') == 'K', upc('l') == 'L', upc('m') == 'M', upc('n') == 'N', upc('o') == 'O', upc('p') == 'P', upc('q') == 'Q', upc('r') == 'R', upc('s') == 'S', upc('t') == 'T', upc('u') == 'U', upc('v') == 'V', upc('w') == 'W', upc('x') == 'X', upc('y') == 'Y', upc('z') == 'Z', upc('-') == '-' {}
proof fn rt_nm_profile_level_id() ensures fm_name("profile-level-id"@, "PROFILE-LEVEL-ID"@, "profile-level-id="@) { reveal_strlit("profile-level-id"); reveal_strlit("PROFILE-LEVEL-ID"); reveal_strlit("profile-level-id="); rt_upc(); rt_upper("profile-level-id"@, "PROFILE-LEVEL-ID"@); }
proof fn rt_nm_level_asymmetry_allowed() ensures fm_name("level-asymmetry-allowed"@, "LEVEL-ASYMMETRY-ALLOWED"@, "level-asymmetry-allowed="@) { reveal_strlit("level-asymmetry-allowed"); reveal_strlit("LEVEL-ASYMMETRY-ALLOWED"); reveal_strlit("level-asymmetry-allowed="); rt_upc(); rt_upper("level-asymmetry-allowed"@, "LEVEL-ASYMMETRY-ALLOWED"@); }
proof fn rt_nm_packetization_mode() ensures fm_name("packetization-mode"@, "PACKETIZATION-MODE"@, "packetization-mode="@) { reveal_strlit("packetization-mode"); reveal_strlit("PACKETIZATION-MODE"); reveal_strlit("packetization-mode="); rt_upc(); rt_upper("packetization-mode"@, "PACKETIZATION-MODE"@); }
proof fn rt_nm_max_fs() ensures fm_name("max-fs"@, "MAX-FS"@, "max-fs="@) { reveal_strlit("max-fs"); reveal_strlit("MAX-FS"); reveal_strlit("max-fs="); rt_upc(); rt_upper("max-fs"@, "MAX-FS"@); }
proof fn rt_nm_max_cpb() ensures fm_name("max-cpb"@, "MAX-CPB"@, "max-cpb="@) { reveal_strlit("max-cpb"); reveal_strlit("MAX-CPB"); reveal_strlit("max-cpb="); rt_upc(); rt_upper("max-cpb"@, "MAX-CPB"@); }
proof fn rt_nm_max_dpb() ensures fm_name("max-dpb"@, "MAX-DPB"@, "max-dpb="@) { reveal_strlit("max-dpb"); reveal_strlit("MAX-DPB"); reveal_strlit("max-dpb="); rt_upc(); rt_upper("max-dpb"@, "MAX-DPB"@); }
proof fn rt_nm_max_br() ensures fm_name("max-br"@, "MAX-BR"@, "max-br="@) { reveal_strlit("max-br"); reveal_strlit("MAX-BR"); reveal_strlit("max-br="); rt_upc(); rt_upper("max-br"@, "MAX-BR"@); }
proof fn rt_nm_max_mbps() ensures fm_name("max-mbps"@, "MAX-MBPS"@, "max-mbps="@) { reveal_strlit("max-mbps"); reveal_strlit("MAX-MBPS"); reveal_strlit("max-mbps="); rt_upc(); rt_upper("max-mbps"@, "MAX-MBPS"@); }
proof fn rt_nm_max_fr() ensures fm_name("max-fr"@, "MAX-FR"@, "max-fr="@) { reveal_strlit("max-fr"); reveal_strlit("MAX-FR"); reveal_strlit("max-fr="); rt_upc(); rt_upper("max-fr"@, "MAX-FR"@); }
proof fn rt_nm_profile() ensures fm_name("profile"@, "PROFILE"@, "profile="@) { reveal_strlit("profile"); reveal_strlit("PROFILE"); reveal_strlit("profile="); rt_upc(); rt_upper("profile"@, "PROFILE"@); }
proof fn rt_nm_level_idx() ensures fm_name("level-idx"@, "LEVEL-IDX"@, "level-idx="@) { reveal_strlit("level-idx"); reveal_strlit("LEVEL-IDX"); reveal_strlit("level-idx="); rt_upc(); rt_upper("level-idx"@, "LEVEL-IDX"@); }
proof fn rt_nm_tier() ensures fm_name("tier"@, "TIER"@, "tier="@) { reveal_strlit("tier"); reveal_strlit("TIER"); reveal_strlit("tier="); rt_upc(); rt_upper("tier"@, "TIER"@); }
proof fn rt_nm_maxplaybackrate() ensures fm_name("maxplaybackrate"@, "MAXPLAYBACKRATE"@, "maxplaybackrate="@) { reveal_strlit("maxplaybackrate"); reveal_strlit("MAXPLAYBACKRATE"); reveal_strlit("maxplaybackrate="); rt_upc(); rt_upper("maxplaybackrate"@, "MAXPLAYBACKRATE"@); }
proof fn rt_nm_maxaveragebitrate() ensures fm_name("maxaveragebitrate"@, "MAXAVERAGEBITRATE"@, "maxaveragebitrate="@) { reveal_strlit("maxaveragebitrate"); reveal_strlit("MAXAVERAGEBITRATE"); reveal_strlit("maxaveragebitrate="); rt_upc(); rt_upper("maxaveragebitrate"@, "MAXAVERAGEBITRATE"@); }
proof fn rt_nm_ptime() ensures fm_name("ptime"@, "PTIME"@, "ptime="@) { reveal_strlit("ptime"); reveal_strlit("PTIME"); reveal_strlit("ptime="); rt_upc(); rt_upper("ptime"@, "PTIME"@); }
proof fn rt_nm_minptime() ensures fm_name("minptime"@, "MINPTIME"@, "minptime="@) { reveal_strlit("minptime"); reveal_strlit("MINPTIME"); reveal_strlit("minptime="); rt_upc(); rt_upper("minptime"@, "MINPTIME"@); }
proof fn rt_nm_maxptime() ensures fm_name("maxptime"@, "MAXPTIME"@, "maxptime="@) { reveal_strlit("maxptime"); reveal_strlit("MAXPTIME"); reveal_strlit("maxptime="); rt_upc(); rt_upper("maxptime"@, "MAXPTIME"@); }
proof fn rt_nm_usedtx() ensures fm_name("usedtx"@, "USEDTX"@, "usedtx="@) { reveal_strlit("usedtx"); reveal_strlit("USEDTX"); reveal_strlit("usedtx="); rt_upc(); rt_upper("usedtx"@, "USEDTX"@); }
proof fn rt_nm_stereo() ensures fm_name("stereo"@, "STEREO"@, "stereo="@) { reveal_strlit("stereo"); reveal_strlit("STEREO"); reveal_strlit("stereo="); rt_upc(); rt_upper("stereo"@, "STEREO"@); }
proof fn rt_nm_useinbandfec() ensures fm_name("useinbandfec"@, "USEINBANDFEC"@, "useinbandfec="@) { reveal_strlit("useinbandfec"); reveal_strlit("USEINBANDFEC"); reveal_strlit("useinbandfec="); rt_upc(); rt_upper("useinbandfec"@, "USEINBANDFEC"@); }
proof fn rt_nm_cbr() ensures fm_name("cbr"@, "CBR"@, "cbr="@) { reveal_strlit("cbr"); reveal_strlit("CBR"); reveal_strlit("cbr="); rt_upc(); rt_upper("cbr"@, "CBR"@); }
proof fn rt_nm_apt() ensures fm_name("apt"@, "APT"@, "apt="@) { reveal_strlit("apt"); reveal_strlit("APT"); reveal_strlit("apt="); rt_upc(); rt_upper("apt"@, "APT"@); }
proof fn rt_nm_rtx_time() ensures fm_name("rtx-time"@, "RTX-TIME"@, "rtx-time="@) { reveal_strlit("rtx-time"); reveal_strlit("RTX-TIME"); reveal_strlit("rtx-time="); rt_upc(); rt_upper("rtx-time"@, "RTX-TIME"@); }
proof fn rt_fm_1(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.profile_level_id == fmtp_default().profile_level_id, p.profile_level_id <= 0xff_ffff ensures fm_st(v + one(fmtp_item(p, 1)), FmtpV { profile_level_id: p.profile_level_id, ..a }) {
    let b = FmtpV { profile_level_id: p.profile_level_id, ..a }; let s = fmtp_item(p, 1); reveal(fmtp_item); rt_nm_profile_level_id(); lemma_fmtp_keys(); let val = hex_lower(p.profile_level_id as int, 6); rt_plid(p.profile_level_id as int); if val == "42000a"@ { assert(b == a); assert(v + one(s) =~= v); } else { rt_fm_set(v, a, b, "profile-level-id"@, "PROFILE-LEVEL-ID"@, 1, "profile-level-id="@, val); }
}
proof fn rt_fm_2(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.level_asymmetry_allowed == fmtp_default().level_asymmetry_allowed ensures fm_st(v + one(fmtp_item(p, 2)), FmtpV { level_asymmetry_allowed: p.level_asymmetry_allowed, ..a }) {
    let b = FmtpV { level_asymmetry_allowed: p.level_asymmetry_allowed, ..a }; let s = fmtp_item(p, 2); reveal(fmtp_item); rt_nm_level_asymmetry_allowed(); lemma_fmtp_keys(); if p.level_asymmetry_allowed == fmtp_default().level_asymmetry_allowed { assert(b == a); assert(v + one(s) =~= v); } else { let val = dec(1); rt_dec(1, u32::MAX as int); rt_num_noc(val, ';'); assert(f_bool(val) == Some(true)); assert("level-asymmetry-allowed"@ + "="@ =~= "level-asymmetry-allowed="@) by { rt_tilde(); } rt_fm_set(v, a, b, "level-asymmetry-allowed"@, "LEVEL-ASYMMETRY-ALLOWED"@, 3, "level-asymmetry-allowed="@, val); }
}
proof fn rt_fm_3(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.packetization_mode == fmtp_default().packetization_mode, p.packetization_mode <= 2 ensures fm_st(v + one(fmtp_item(p, 3)), FmtpV { packetization_mode: p.packetization_mode, ..a }) {
    let b = FmtpV { packetization_mode: p.packetization_mode, ..a }; let s = fmtp_item(p, 3); reveal(fmtp_item); rt_nm_packetization_mode(); lemma_fmtp_keys(); let n = p.packetization_mode as int; if n == fmtp_default().packetization_mode as int { assert(b == a); assert(v + one(s) =~= v); } else { let val = dec(n); rt_dec(n, u32::MAX as int); rt_num_noc(val, ';'); rt_fm_set(v, a, b, "packetization-mode"@, "PACKETIZATION-MODE"@, 2, "packetization-mode="@, val); }
}
proof fn rt_fm_4(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.max_fs == fmtp_default().max_fs ensures fm_st(v + one(fmtp_item(p, 4)), FmtpV { max_fs: p.max_fs, ..a }) {
    let b = FmtpV { max_fs: p.max_fs, ..a }; let s = fmtp_item(p, 4); reveal(fmtp_item); rt_nm_max_fs(); lemma_fmtp_keys(); let n = p.max_fs as int; if n == fmtp_default().max_fs as int { assert(b == a); assert(v + one(s) =~= v); } else { let val = dec(n); rt_dec(n, u32::MAX as int); rt_num_noc(val, ';'); rt_fm_set(v, a, b, "max-fs"@, "MAX-FS"@, 5, "max-fs="@, val); }
}
proof fn rt_fm_5(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.max_cpb == fmtp_default().max_cpb ensures fm_st(v + one(fmtp_item(p, 5)), FmtpV { max_cpb: p.max_cpb, ..a }) {
    let b = FmtpV { max_cpb: p.max_cpb, ..a }; let s = fmtp_item(p, 5); reveal(fmtp_item); rt_nm_max_cpb(); lemma_fmtp_keys(); let n = p.max_cpb as int; if n == fmtp_default().max_cpb as int { assert(b == a); assert(v + one(s) =~= v); } else { let val = dec(n); rt_dec(n, u32::MAX as int); rt_num_noc(val, ';'); rt_fm_set(v, a, b, "max-cpb"@, "MAX-CPB"@, 6, "max-cpb="@, val); }
}
proof fn rt_fm_6(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.max_dpb == fmtp_default().max_dpb ensures fm_st(v + one(fmtp_item(p, 6)), FmtpV { max_dpb: p.max_dpb, ..a }) {
    let b = FmtpV { max_dpb: p.max_dpb, ..a }; let s = fmtp_item(p, 6); reveal(fmtp_item); rt_nm_max_dpb(); lemma_fmtp_keys(); let n = p.max_dpb as int; if n == fmtp_default().max_dpb as int { assert(b == a); assert(v + one(s) =~= v); } else { let val = dec(n); rt_dec(n, u32::MAX as int); rt_num_noc(val, ';'); rt_fm_set(v, a, b, "max-dpb"@, "MAX-DPB"@, 7, "max-dpb="@, val); }
}
proof fn rt_fm_7(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.max_br == fmtp_default().max_br ensures fm_st(v + one(fmtp_item(p, 7)), FmtpV { max_br: p.max_br, ..a }) {
    let b = FmtpV { max_br: p.max_br, ..a }; let s = fmtp_item(p, 7); reveal(fmtp_item); rt_nm_max_br(); lemma_fmtp_keys(); let n = p.max_br as int; if n == fmtp_default().max_br as int { assert(b == a); assert(v + one(s) =~= v); } else { let val = dec(n); rt_dec(n, u32::MAX as int); rt_num_noc(val, ';'); rt_fm_set(v, a, b, "max-br"@, "MAX-BR"@, 8, "max-br="@, val); }
}
proof fn rt_fm_8(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.max_mbps == fmtp_default().max_mbps ensures fm_st(v + one(fmtp_item(p, 8)), FmtpV { max_mbps: p.max_mbps, ..a }) {
    let b = FmtpV { max_mbps: p.max_mbps, ..a }; let s = fmtp_item(p, 8); reveal(fmtp_item); rt_nm_max_mbps(); lemma_fmtp_keys(); let n = p.max_mbps as int; if n == fmtp_default().max_mbps as int { assert(b == a); assert(v + one(s) =~= v); } else { let val = dec(n); rt_dec(n, u32::MAX as int); rt_num_noc(val, ';'); rt_fm_set(v, a, b, "max-mbps"@, "MAX-MBPS"@, 4, "max-mbps="@, val); }
}
proof fn rt_fm_9(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.max_fr == fmtp_default().max_fr ensures fm_st(v + one(fmtp_item(p, 9)), FmtpV { max_fr: p.max_fr, ..a }) {
    let b = FmtpV { max_fr: p.max_fr, ..a }; let s = fmtp_item(p, 9); reveal(fmtp_item); rt_nm_max_fr(); lemma_fmtp_keys(); let n = p.max_fr as int; if n == fmtp_default().max_fr as int { assert(b == a); assert(v + one(s) =~= v); } else { let val = dec(n); rt_dec(n, u32::MAX as int); rt_num_noc(val, ';'); rt_fm_set(v, a, b, "max-fr"@, "MAX-FR"@, 9, "max-fr="@, val); }
}
proof fn rt_fm_10(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.profile == fmtp_default().profile, p.profile matches Some(x) ==> x <= 2 ensures fm_st(v + one(fmtp_item(p, 10)), FmtpV { profile: p.profile, ..a }) {
    let b = FmtpV { profile: p.profile, ..a }; let s = fmtp_item(p, 10); reveal(fmtp_item); rt_nm_profile(); lemma_fmtp_keys(); match p.profile { None => { assert(b == a); assert(v + one(s) =~= v); }, Some(x) => { let val = dec(x as int); rt_dec(x as int, u8::MAX as int); rt_num_noc(val, ';'); assert(s =~= "profile="@ + val); rt_fm_set(v, a, b, "profile"@, "PROFILE"@, 10, "profile="@, val); } }
}
proof fn rt_fm_11(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.level_idx == fmtp_default().level_idx, p.level_idx matches Some(x) ==> x <= 31 ensures fm_st(v + one(fmtp_item(p, 11)), FmtpV { level_idx: p.level_idx, ..a }) {
    let b = FmtpV { level_idx: p.level_idx, ..a }; let s = fmtp_item(p, 11); reveal(fmtp_item); rt_nm_level_idx(); lemma_fmtp_keys(); match p.level_idx { None => { assert(b == a); assert(v + one(s) =~= v); }, Some(x) => { let val = dec(x as int); rt_dec(x as int, u8::MAX as int); rt_num_noc(val, ';'); assert(s =~= "level-idx="@ + val); rt_fm_set(v, a, b, "level-idx"@, "LEVEL-IDX"@, 11, "level-idx="@, val); } }
}
proof fn rt_fm_12(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.tier == fmtp_default().tier, p.tier matches Some(x) ==> x <= 1 ensures fm_st(v + one(fmtp_item(p, 12)), FmtpV { tier: p.tier, ..a }) {
    let b = FmtpV { tier: p.tier, ..a }; let s = fmtp_item(p, 12); reveal(fmtp_item); rt_nm_tier(); lemma_fmtp_keys(); match p.tier { None => { assert(b == a); assert(v + one(s) =~= v); }, Some(x) => { let val = dec(x as int); rt_dec(x as int, u8::MAX as int); rt_num_noc(val, ';'); assert(s =~= "tier="@ + val); rt_fm_set(v, a, b, "tier"@, "TIER"@, 12, "tier="@, val); } }
}
proof fn rt_fm_13(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.maxplaybackrate == fmtp_default().maxplaybackrate ensures fm_st(v + one(fmtp_item(p, 13)), FmtpV { maxplaybackrate: p.maxplaybackrate, ..a }) {
    let b = FmtpV { maxplaybackrate: p.maxplaybackrate, ..a }; let s = fmtp_item(p, 13); reveal(fmtp_item); rt_nm_maxplaybackrate(); lemma_fmtp_keys(); let n = p.maxplaybackrate as int; if n == fmtp_default().maxplaybackrate as int { assert(b == a); assert(v + one(s) =~= v); } else { let val = dec(n); rt_dec(n, u32::MAX as int); rt_num_noc(val, ';'); rt_fm_set(v, a, b, "maxplaybackrate"@, "MAXPLAYBACKRATE"@, 13, "maxplaybackrate="@, val); }
}
proof fn rt_fm_14(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.maxaveragebitrate == fmtp_default().maxaveragebitrate ensures fm_st(v + one(fmtp_item(p, 14)), FmtpV { maxaveragebitrate: p.maxaveragebitrate, ..a }) {
    let b = FmtpV { maxaveragebitrate: p.maxaveragebitrate, ..a }; let s = fmtp_item(p, 14); reveal(fmtp_item); rt_nm_maxaveragebitrate(); lemma_fmtp_keys(); let n = p.maxaveragebitrate as int; if n == fmtp_default().maxaveragebitrate as int { assert(b == a); assert(v + one(s) =~= v); } else { let val = dec(n); rt_dec(n, u32::MAX as int); rt_num_noc(val, ';'); rt_fm_set(v, a, b, "maxaveragebitrate"@, "MAXAVERAGEBITRATE"@, 14, "maxaveragebitrate="@, val); }
}
proof fn rt_fm_15(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.ptime == fmtp_default().ptime ensures fm_st(v + one(fmtp_item(p, 15)), FmtpV { ptime: p.ptime, ..a }) {
    let b = FmtpV { ptime: p.ptime, ..a }; let s = fmtp_item(p, 15); reveal(fmtp_item); rt_nm_ptime(); lemma_fmtp_keys(); let n = p.ptime as int; if n == fmtp_default().ptime as int { assert(b == a); assert(v + one(s) =~= v); } else { let val = dec(n); rt_dec(n, u32::MAX as int); rt_num_noc(val, ';'); rt_fm_set(v, a, b, "ptime"@, "PTIME"@, 15, "ptime="@, val); }
}
proof fn rt_fm_16(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.minptime == fmtp_default().minptime ensures fm_st(v + one(fmtp_item(p, 16)), FmtpV { minptime: p.minptime, ..a }) {
    let b = FmtpV { minptime: p.minptime, ..a }; let s = fmtp_item(p, 16); reveal(fmtp_item); rt_nm_minptime(); lemma_fmtp_keys(); let n = p.minptime as int; if n == fmtp_default().minptime as int { assert(b == a); assert(v + one(s) =~= v); } else { let val = dec(n); rt_dec(n, u32::MAX as int); rt_num_noc(val, ';'); rt_fm_set(v, a, b, "minptime"@, "MINPTIME"@, 17, "minptime="@, val); }
}
proof fn rt_fm_17(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.maxptime == fmtp_default().maxptime ensures fm_st(v + one(fmtp_item(p, 17)), FmtpV { maxptime: p.maxptime, ..a }) {
    let b = FmtpV { maxptime: p.maxptime, ..a }; let s = fmtp_item(p, 17); reveal(fmtp_item); rt_nm_maxptime(); lemma_fmtp_keys(); let n = p.maxptime as int; if n == fmtp_default().maxptime as int { assert(b == a); assert(v + one(s) =~= v); } else { let val = dec(n); rt_dec(n, u32::MAX as int); rt_num_noc(val, ';'); rt_fm_set(v, a, b, "maxptime"@, "MAXPTIME"@, 16, "maxptime="@, val); }
}
proof fn rt_fm_18(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.usedtx == fmtp_default().usedtx ensures fm_st(v + one(fmtp_item(p, 18)), FmtpV { usedtx: p.usedtx, ..a }) {
    let b = FmtpV { usedtx: p.usedtx, ..a }; let s = fmtp_item(p, 18); reveal(fmtp_item); rt_nm_usedtx(); lemma_fmtp_keys(); if p.usedtx == fmtp_default().usedtx { assert(b == a); assert(v + one(s) =~= v); } else { let val = dec(1); rt_dec(1, u32::MAX as int); rt_num_noc(val, ';'); assert(f_bool(val) == Some(true)); assert("usedtx"@ + "="@ =~= "usedtx="@) by { rt_tilde(); } rt_fm_set(v, a, b, "usedtx"@, "USEDTX"@, 18, "usedtx="@, val); }
}
proof fn rt_fm_19(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.stereo == fmtp_default().stereo ensures fm_st(v + one(fmtp_item(p, 19)), FmtpV { stereo: p.stereo, ..a }) {
    let b = FmtpV { stereo: p.stereo, ..a }; let s = fmtp_item(p, 19); reveal(fmtp_item); rt_nm_stereo(); lemma_fmtp_keys(); if p.stereo == fmtp_default().stereo { assert(b == a); assert(v + one(s) =~= v); } else { let val = dec(1); rt_dec(1, u32::MAX as int); rt_num_noc(val, ';'); assert(f_bool(val) == Some(true)); assert("stereo"@ + "="@ =~= "stereo="@) by { rt_tilde(); } rt_fm_set(v, a, b, "stereo"@, "STEREO"@, 19, "stereo="@, val); }
}
proof fn rt_fm_20(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.useinbandfec == fmtp_default().useinbandfec ensures fm_st(v + one(fmtp_item(p, 20)), FmtpV { useinbandfec: p.useinbandfec, ..a }) {
    let b = FmtpV { useinbandfec: p.useinbandfec, ..a }; let s = fmtp_item(p, 20); reveal(fmtp_item); rt_nm_useinbandfec(); lemma_fmtp_keys(); if p.useinbandfec == fmtp_default().useinbandfec { assert(b == a); assert(v + one(s) =~= v); } else { let val = dec(1); rt_dec(1, u32::MAX as int); rt_num_noc(val, ';'); assert(f_bool(val) == Some(true)); assert("useinbandfec"@ + "="@ =~= "useinbandfec="@) by { rt_tilde(); } rt_fm_set(v, a, b, "useinbandfec"@, "USEINBANDFEC"@, 20, "useinbandfec="@, val); }
}
proof fn rt_fm_21(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.cbr == fmtp_default().cbr ensures fm_st(v + one(fmtp_item(p, 21)), FmtpV { cbr: p.cbr, ..a }) {
    let b = FmtpV { cbr: p.cbr, ..a }; let s = fmtp_item(p, 21); reveal(fmtp_item); rt_nm_cbr(); lemma_fmtp_keys(); if p.cbr == fmtp_default().cbr { assert(b == a); assert(v + one(s) =~= v); } else { let val = dec(1); rt_dec(1, u32::MAX as int); rt_num_noc(val, ';'); assert(f_bool(val) == Some(true)); assert("cbr"@ + "="@ =~= "cbr="@) by { rt_tilde(); } rt_fm_set(v, a, b, "cbr"@, "CBR"@, 21, "cbr="@, val); }
}
proof fn rt_plid(n: int) requires 0 <= n <= 0xff_ffff ensures hex_ok(hex_lower(n, 6), u32::MAX as int), hex_val(hex_lower(n, 6)) == n, noc(hex_lower(n, 6), ';'), hex_lower(n, 6) == "42000a"@ <==> n == 0x42000A {
    reveal(hex_lower); reveal_with_fuel(pow16, 7); rt_hexpad(n, 6, false); let s = hex_lower(n, 6); if s.contains(';') { let j = choose|j: int| 0 <= j < s.len() && s[j] == ';'; assert(hexd(s[j]) >= 0); }
    rt_hexpad(0x42000A, 6, false); let w = "42000a"@; reveal_strlit("42000a"); reveal_with_fuel(hexs, 8);
    assert(hexs(0x42000A, false) =~= w); assert(zeros(0) + w =~= w); assert(hexpad(0x42000A, 6, false) == w);
}
proof fn rt_fm_rtx(p: SdpAttributeFmtpParameters, v: Seq<Str>, a: FmtpV) requires fm_st(v, a), a.rtx is None ensures fm_st(v + fm_list(p, 0), FmtpV { rtx: rtx_v(p.rtx), ..a }), fmtp_item(p, 0) == join(fm_list(p, 0), ";"@), solids(fm_list(p, 0)) {
    let l = fm_list(p, 0); reveal(fmtp_item); lemma_fmtp_keys(); rt_nm_apt(); rt_nm_rtx_time(); rt_tilde();
    match p.rtx { None => { assert(v + l =~= v); assert(a == FmtpV { rtx: None, ..a }); assert(fmtp_item(p, 0) =~= join(l, ";"@)); }, Some(x) => {
        let d = dec(x.apt as int); rt_dec(x.apt as int, u8::MAX as int); rt_num_noc(d, ';'); let b = FmtpV { rtx: Some((x.apt, None)), ..a }; rt_fm_set(v, a, b, "apt"@, "APT"@, 22, "apt="@, d); let s = "apt="@ + d; let v2 = v + seq![s];
        match x.rtx_time { None => { assert(l =~= seq![s]); rt_join1(s, ";"@); assert(fmtp_item(p, 0) =~= s); }, Some(t) => {
            let e = dec(t as int); rt_dec(t as int, u32::MAX as int); rt_num_noc(e, ';'); let c = FmtpV { rtx: Some((x.apt, Some(t))), ..a }; rt_fm_set(v2, b, c, "rtx-time"@, "RTX-TIME"@, 23, "rtx-time="@, e); let r = "rtx-time="@ + e; assert(v + l =~= v2 + seq![r]); rt_join2(s, r, ";"@); assert(l =~= seq![s, r]);
            reveal_strlit(";rtx-time="); reveal_strlit("rtx-time="); reveal_strlit(";"); assert(";rtx-time="@ =~= ";"@ + "rtx-time="@); assert(fmtp_item(p, 0) =~= s + ";"@ + r);
        } }
    } }
}
spec fn fm_list(p: SdpAttributeFmtpParameters, k: int) -> Seq<Str> {
    if k == 0 { match p.rtx { None => Seq::empty(), Some(x) => seq!["apt="@ + dec(x.apt as int)] + (match x.rtx_time { None => Seq::empty(), Some(t) => seq!["rtx-time="@ + dec(t as int)] }) } } else if k == 22 { strs(p.unknown_tokens@) } else { one(fmtp_item(p, k)) }
}
spec fn fm_unk(s: Str) -> bool { let p = splitn_char(2, s, '='); fpa_ok(s) && p.len() == 2 && fmtp_key(to_upper(p[0])) == 0 }
spec fn fv_ok(a: FmtpV) -> bool {
    &&& a.packetization_mode <= 2 && a.profile_level_id <= 0xff_ffff && (a.profile matches Some(x) ==> x <= 2) && (a.level_idx matches Some(x) ==> x <= 31) && (a.tier matches Some(x) ==> x <= 1)
    &&& a.dtmf_tones == ""@ && a.encodings == Seq::<u8>::empty() && forall|i: int| 0 <= i < a.unknown.len() ==> fm_unk(#[trigger] a.unknown[i])
}
proof fn rt_fm_inv1(e: FmtpV, s: Str, f: FmtpV) requires fv_ok(e), noc(s, ';'), fmtp_step(e, s) == Some(f) ensures fv_ok(f) {
    reveal(fmtp_step); lemma_split2(s, '='); lemma_find_char(s, '='); let p = splitn_char(2, s, '='); let k = fmtp_key(to_upper(p[0])); lemma_fmtp_key0(to_upper(p[0])); assert(fmtp_set(k, e, p[1], s) == Some(f));
    if is_uint(p[1]) { rt_dval(unsigned_body(p[1])); } if hex_ok(p[1], u32::MAX as int) { rt_hdval(unsigned_body(p[1])); }
    assert forall|i: int| 0 <= i < f.unknown.len() implies fm_unk(#[trigger] f.unknown[i]) by { if i < e.unknown.len() { assert(f.unknown[i] == e.unknown[i]); } else { assert(k == 0); assert(f.unknown[i] == s); assert(s.len() > 0); } }
}
proof fn rt_hdval(s: Str) requires all_hex(s) ensures hdval(s) >= 0 decreases s.len() { if s.len() > 0 { assert(hexd(s.last()) >= 0); let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies hexd(#[trigger] d[i]) >= 0 by { assert(d[i] == s[i]); } rt_hdval(d); } }
proof fn rt_fm_inv(v: Seq<Str>, n: int) requires nocs(v, ';'), 0 <= n <= v.len(), fmtp_fold(v, n) is Some ensures fv_ok(fmtp_fold(v, n)->Some_0) decreases n {
    if n > 0 { if fmtp_fold(v, n - 1) is None { lemma_fmtp_none(v, n - 1, n); } rt_fm_inv(v, n - 1); assert(noc(v[n - 1], ';')); rt_fm_inv1(fmtp_fold(v, n - 1)->Some_0, v[n - 1], fmtp_fold(v, n)->Some_0); }
}
proof fn rt_fm_unk(v: Seq<Str>, a: FmtpV, u: Seq<Str>) requires fm_st(v, a), a.unknown.len() == 0, forall|i: int| 0 <= i < u.len() ==> fm_unk(#[trigger] u[i]) ensures fm_st(v + u, FmtpV { unknown: u, ..a }) decreases u.len() {
    if u.len() == 0 { assert(v + u =~= v); assert(u =~= a.unknown); } else {
        let d = u.drop_last(); let s = u.last(); assert forall|i: int| 0 <= i < d.len() implies fm_unk(#[trigger] d[i]) by { assert(d[i] == u[i]); } rt_fm_unk(v, a, d); assert(fm_unk(u[u.len() - 1])); let m = FmtpV { unknown: d, ..a };
        assert(d.push(s) =~= u); assert(fmtp_step(m, s) == Some(FmtpV { unknown: u, ..a })) by { reveal(fmtp_step); } rt_fm_add(v + d, m, s, FmtpV { unknown: u, ..a }); assert(v + u =~= v + d + seq![s]);
    }
}
spec fn fm_lists(p: SdpAttributeFmtpParameters) -> Seq<Seq<Str>> { Seq::new(23, |k: int| fm_list(p, k)) }
proof fn rt_fm_fold(p: SdpAttributeFmtpParameters) requires fv_ok(fmtp_v(p)) ensures fm_st(flat(fm_lists(p)), fmtp_v(p)) {
    let l = fm_lists(p); let a0 = fmtp_default(); let v0 = Seq::<Str>::empty(); assert(fm_st(v0, a0)); assert(flat(l.take(0)) =~= v0); let x = fmtp_v(p);
    let a1 = FmtpV { rtx: rtx_v(p.rtx), ..a0 }; rt_fm_rtx(p, v0, a0); rt_flat_take(l, 1); let v1 = flat(l.take(1)); assert(fm_st(v1, a1));
    let a2 = FmtpV { profile_level_id: p.profile_level_id, ..a1 }; rt_fm_1(p, v1, a1); rt_flat_take(l, 2); let v2 = flat(l.take(2)); assert(fm_st(v2, a2));
    let a3 = FmtpV { level_asymmetry_allowed: p.level_asymmetry_allowed, ..a2 }; rt_fm_2(p, v2, a2); rt_flat_take(l, 3); let v3 = flat(l.take(3)); assert(fm_st(v3, a3));
    let a4 = FmtpV { packetization_mode: p.packetization_mode, ..a3 }; rt_fm_3(p, v3, a3); rt_flat_take(l, 4); let v4 = flat(l.take(4)); assert(fm_st(v4, a4));
    let a5 = FmtpV { max_fs: p.max_fs, ..a4 }; rt_fm_4(p, v4, a4); rt_flat_take(l, 5); let v5 = flat(l.take(5)); assert(fm_st(v5, a5));
    let a6 = FmtpV { max_cpb: p.max_cpb, ..a5 }; rt_fm_5(p, v5, a5); rt_flat_take(l, 6); let v6 = flat(l.take(6)); assert(fm_st(v6, a6));
    let a7 = FmtpV { max_dpb: p.max_dpb, ..a6 }; rt_fm_6(p, v6, a6); rt_flat_take(l, 7); let v7 = flat(l.take(7)); assert(fm_st(v7, a7));
    let a8 = FmtpV { max_br: p.max_br, ..a7 }; rt_fm_7(p, v7, a7); rt_flat_take(l, 8); let v8 = flat(l.take(8)); assert(fm_st(v8, a8));
    let a9 = FmtpV { max_mbps: p.max_mbps, ..a8 }; rt_fm_8(p, v8, a8); rt_flat_take(l, 9); let v9 = flat(l.take(9)); assert(fm_st(v9, a9));
    let a10 = FmtpV { max_fr: p.max_fr, ..a9 }; rt_fm_9(p, v9, a9); rt_flat_take(l, 10); let v10 = flat(l.take(10)); assert(fm_st(v10, a10));
    let a11 = FmtpV { profile: p.profile, ..a10 }; rt_fm_10(p, v10, a10); rt_flat_take(l, 11); let v11 = flat(l.take(11)); assert(fm_st(v11, a11));
    let a12 = FmtpV { level_idx: p.level_idx, ..a11 }; rt_fm_11(p, v11, a11); rt_flat_take(l, 12); let v12 = flat(l.take(12)); assert(fm_st(v12, a12));
    let a13 = FmtpV { tier: p.tier, ..a12 }; rt_fm_12(p, v12, a12); rt_flat_take(l, 13); let v13 = flat(l.take(13)); assert(fm_st(v13, a13));
    let a14 = FmtpV { maxplaybackrate: p.maxplaybackrate, ..a13 }; rt_fm_13(p, v13, a13); rt_flat_take(l, 14); let v14 = flat(l.take(14)); assert(fm_st(v14, a14));
    let a15 = FmtpV { maxaveragebitrate: p.maxaveragebitrate, ..a14 }; rt_fm_14(p, v14, a14); rt_flat_take(l, 15); let v15 = flat(l.take(15)); assert(fm_st(v15, a15));
    let a16 = FmtpV { ptime: p.ptime, ..a15 }; rt_fm_15(p, v15, a15); rt_flat_take(l, 16); let v16 = flat(l.take(16)); assert(fm_st(v16, a16));
    let a17 = FmtpV { minptime: p.minptime, ..a16 }; rt_fm_16(p, v16, a16); rt_flat_take(l, 17); let v17 = flat(l.take(17)); assert(fm_st(v17, a17));
    let a18 = FmtpV { maxptime: p.maxptime, ..a17 }; rt_fm_17(p, v17, a17); rt_flat_take(l, 18); let v18 = flat(l.take(18)); assert(fm_st(v18, a18));
    let a19 = FmtpV { usedtx: p.usedtx, ..a18 }; rt_fm_18(p, v18, a18); rt_flat_take(l, 19); let v19 = flat(l.take(19)); assert(fm_st(v19, a19));
    let a20 = FmtpV { stereo: p.stereo, ..a19 }; rt_fm_19(p, v19, a19); rt_flat_take(l, 20); let v20 = flat(l.take(20)); assert(fm_st(v20, a20));
    let a21 = FmtpV { useinbandfec: p.useinbandfec, ..a20 }; rt_fm_20(p, v20, a20); rt_flat_take(l, 21); let v21 = flat(l.take(21)); assert(fm_st(v21, a21));
    let a22 = FmtpV { cbr: p.cbr, ..a21 }; rt_fm_21(p, v21, a21); rt_flat_take(l, 22); let v22 = flat(l.take(22)); assert(fm_st(v22, a22));
    let u = strs(p.unknown_tokens@); assert forall|i: int| 0 <= i < u.len() implies fm_unk(#[trigger] u[i]) by { assert(x.unknown[i] == u[i]); } rt_fm_unk(v22, a22, u); rt_flat_take(l, 23); assert(l.take(23) =~= l); let a23 = FmtpV { unknown: u, ..a22 }; assert(a23.encodings == x.encodings && a23.dtmf_tones == x.dtmf_tones); assert(a23 == x);
}
proof fn rt_fm_eq(p: SdpAttributeFmtpParameters) requires fv_ok(fmtp_v(p)) ensures ({ let q = join(nelist(fmtp_items(p)), ";"@); q.len() > 0 ==> q.contains('=') && nonempty(split_char(q, ';')) == flat(fm_lists(p)) && fmtp_body(q) == Some(fmtp_v(p)) }) {
    let l = fm_lists(p); let it = fmtp_items(p); let s = ";"@; rt_tilde(); rt_fm_fold(p); let x = fmtp_v(p); let u = strs(p.unknown_tokens@);
    assert forall|k: int| 0 <= k < 23 implies #[trigger] it[k] == join(l[k], s) && solids(l[k]) by {
        if k == 0 { rt_fm_rtx(p, Seq::empty(), fmtp_default()); } else if k == 22 { assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).len() > 0 by { assert(fm_unk(x.unknown[i])); } rt_list_str(u, s); reveal(fmtp_item); } else { rt_one(it[k], s); }
    }
    rt_flat(it, l, s); let f = flat(l); let q = join(f, s);
    if q.len() > 0 {
        assert(f.len() > 0); assert forall|i: int| 0 <= i < f.len() implies noc(#[trigger] f[i], ';') by { assert(fpa_ok(f[i])); } rt_split_join(f, ';'); rt_nonempty(f); assert(fpa_ok(f[0])); rt_join_has(f, s, '=');
    }
}
proof fn rt_join_has(v: Seq<Str>, s: Str, c: char) requires v.len() > 0, v[0].contains(c) ensures join(v, s).contains(c) { let j = choose|j: int| 0 <= j < v[0].len() && v[0][j] == c; assert(join(v, s)[j] == c); }
proof fn rt_fm_red(s: Str, p: SdpAttributeFmtpParameters) requires s.contains('/'), reds_ok(split_char(s, '/'), split_char(s, '/').len() as int), fmtp_v(p) == (FmtpV { encodings: reds(split_char(s, '/')), ..fmtp_default() }) ensures fmtp_body(join(disps(p.encodings@), "/"@)) == Some(fmtp_v(p)), p.encodings@.len() > 0, tok(join(disps(p.encodings@), "/"@)) {
    let v = split_char(s, '/'); let d = disps(p.encodings@); reveal_strlit("/"); let sl = "/"@; assert(sl =~= seq!['/']); lemma_find_char(s, '/'); let k = find_char(s, '/'); lemma_split_len(s.subrange(k + 1, s.len() as int), '/'); assert(d.len() >= 2);
    assert forall|i: int| 0 <= i < d.len() implies d[i] == dec(p.encodings@[i] as int) && red_ok(#[trigger] d[i]) && uint_val(d[i]) == p.encodings@[i] && noc(d[i], '/') && noc(d[i], '=') && tok(d[i]) by {
        assert(red_ok(v[i])); rt_dval(unsigned_body(v[i])); assert(p.encodings@ == fmtp_v(p).encodings); assert(p.encodings@[i] == uint_val(v[i]) as u8); let n = p.encodings@[i] as int; assert(n <= 128); rt_dec(n, u8::MAX as int); rt_num_noc(dec(n), '/'); rt_num_noc(dec(n), '='); assert(d[i] == p.encodings@[i].disp()); }
    let q = join(d, sl); rt_split_join(d, '/'); assert(nocs(d, '=')); rt_join_noc(d, sl, '='); assert(toks(d)); rt_join_nows(d, '/'); assert(reds(d) =~= p.encodings@); assert(q.contains('/')) by { assert(q[d[0].len() as int] == '/'); }
}
proof fn rt_tones() ensures tones_ok(split_char("0-15"@, ',')), noc("0-15"@, '='), noc("0-15"@, '/'), tok("0-15"@) {
    reveal_strlit("0-15"); let s = "0-15"@; assert(noc(s, ',')); rt_split_noc(s, ','); let a = seq!['0']; let b = seq!['1', '5']; assert(s =~= a + seq!['-'] + b); assert(noc(a, '-')); rt_splitn_head(2, a, b, '-'); rt_splitn_one(1, b, '-'); assert(splitn_char(2, s, '-') =~= seq![a, b]);
    assert(digit('0') == 0 && digit('1') == 1 && digit('5') == 5); assert(a.drop_last() =~= Seq::<char>::empty()); assert(b.drop_last() =~= seq!['1']); assert(seq!['1'].drop_last() =~= Seq::<char>::empty()); reveal_with_fuel(dval, 3); assert(dval(a) == 0); assert(dval(b) == 15); assert(a[0] != '+' && b[0] != '+'); assert(digit_ok(a)); assert(digit_ok(b)); assert(tone_ok(s));
}
proof fn rt_fmtp(v: Str, x: SdpAttributeFmtp) //# C09
    requires fmtp_ok(splitn_char(2, v, ' ')), fmtp_is(splitn_char(2, v, ' '), x), trimmed(v), fmtp_str(x).len() > 0, trimmed(fmtp_str(x)) // KF1, KF5
    ensures fmtp_ok(splitn_char(2, fmtp_str(x), ' ')), fmtp_is(splitn_char(2, fmtp_str(x), ' '), x), solid(fmtp_str(x))
{
    let t = splitn_char(2, v, ' '); let s = t[1]; let p = x.parameters; let fv = fmtp_v(p); rt_sp(); let a = dec(x.payload_type as int); rt_dec(x.payload_type as int, u8::MAX as int); rt_num_noc(a, ' '); let b = fmtpp_str(p); let q = a + sp() + b; assert(q == fmtp_str(x)); reveal_strlit("");
    rt_splitn_head(2, a, b, ' '); rt_splitn_one(1, b, ' '); assert(splitn_char(2, q, ' ') =~= seq![a, b]);
    assert(fmtp_body(b) == Some(fv)) by {
        if s.contains('=') { let ps = nonempty(split_char(s, ';')); rt_split_nocs(s, ';'); rt_nonempty_nocs(split_char(s, ';'), ';'); rt_fm_inv(ps, ps.len() as int); rt_fm_eq(p); assert(fv.dtmf_tones.len() == 0 && fv.encodings.len() == 0); }
        else if s.contains('/') { rt_fm_red(s, p); assert(fv.dtmf_tones.len() == 0); }
        else { lemma_split2(v, ' '); lemma_find_char(v, ' '); assert(s.len() > 0) by { rt_splitn_last(2, v, ' '); } rt_tones(); assert(p.dtmf_tones@ == fv.dtmf_tones); assert(fv.dtmf_tones.len() > 0); }
    }
}
proof fn rt_nonempty_nocs(v: Seq<Str>, c: char) requires nocs(v, c) ensures nocs(nonempty(v), c) { let w = nonempty(v); let f = |s: Str| s.len() > 0; assert forall|i: int| 0 <= i < w.len() implies noc(#[trigger] w[i], c) by { assert(v.filter(f).contains(w[i])); v.lemma_filter_contains_rev(f, w[i]); } }
// ---- imageattr
spec fn wbal(p: Str) -> bool { p.contains('[') == p.contains(']') }
spec fn wmid(w: Seq<Str>, k: int) -> bool { (w[k].contains('[') <==> k == 0) && (w[k].contains(']') <==> k == w.len() - 1) }
// pieces that the bracket counter glues together to one token
spec fn wpat(w: Seq<Str>) -> bool { w.len() >= 1 && if w.len() == 1 { wbal(w[0]) } else { forall|k: int| 0 <= k < w.len() ==> #[trigger] wmid(w, k) } }
proof fn rt_ia_ext(v: Seq<Str>, w: Seq<Str>, n: int, s: Str) requires 0 <= n <= v.len() <= w.len(), forall|i: int| 0 <= i < v.len() ==> v[i] == w[i] ensures ia_parts(v, n, s) == ia_parts(w, n, s) decreases n { if n > 0 { rt_ia_ext(v, w, n - 1, s); assert(v[n - 1] == w[n - 1]); } }
proof fn rt_ia_in(u: Seq<Str>, w: Seq<Str>, s: Str, d: Seq<Str>, k: int) requires ia_parts(u, u.len() as int, s) == (IaTok { done: d, cur: Seq::empty(), depth: 0 }), w.len() >= 2, wpat(w), 1 <= k < w.len() ensures ia_parts(u + w, u.len() + k, s) == (IaTok { done: d, cur: w.take(k), depth: 1 }) decreases k {
    let x = u + w; assert(wmid(w, k - 1)); assert(x[u.len() + k - 1] == w[k - 1]);
    if k == 1 { rt_ia_ext(u, x, u.len() as int, s); assert(Seq::<Str>::empty().push(w[0]) =~= w.take(1)); } else { rt_ia_in(u, w, s, d, k - 1); assert(w.take(k - 1).push(w[k - 1]) =~= w.take(k)); }
}
proof fn rt_ia_glue(u: Seq<Str>, w: Seq<Str>, s: Str, d: Seq<Str>) requires ia_parts(u, u.len() as int, s) == (IaTok { done: d, cur: Seq::empty(), depth: 0 }), wpat(w) ensures ia_parts(u + w, (u + w).len() as int, s) == (IaTok { done: d.push(join(w, s)), cur: Seq::empty(), depth: 0 }) {
    let x = u + w; let n = w.len() as int; assert(x[u.len() + n - 1] == w[n - 1]);
    if n == 1 { rt_ia_ext(u, x, u.len() as int, s); assert(Seq::<Str>::empty().push(w[0]) =~= w); } else { rt_ia_in(u, w, s, d, n - 1); assert(wmid(w, n - 1)); assert(w.take(n - 1).push(w[n - 1]) =~= w); }
}
proof fn rt_ia_pre(pl: Seq<Str>, c: char, k: int) requires 1 <= k <= pl.len(), forall|i: int| 0 <= i < pl.len() ==> wpat(split_char(#[trigger] pl[i], c)) ensures ({ let v = split_char(join(pl.take(k), seq![c]), c); ia_parts(v, v.len() as int, seq![c]) == (IaTok { done: pl.take(k), cur: Seq::empty(), depth: 0 }) }) decreases k {
    let s = seq![c]; let t = pl[k - 1]; let w = split_char(t, c); rt_join_split(t, c); assert(wpat(w));
    if k == 1 { assert(pl.take(1) =~= seq![t]); rt_join1(t, s); let e = Seq::<Str>::empty(); rt_ia_glue(e, w, s, e); assert(e + w =~= w); assert(e.push(t) =~= pl.take(1)); }
    else { rt_ia_pre(pl, c, k - 1); let h = pl.take(k - 1); assert(h.push(t) =~= pl.take(k)); rt_join_push(h, t, s); rt_split_c(join(h, s), t, c); rt_ia_glue(split_char(join(h, s), c), w, s, h); }
}
proof fn rt_ia_list(pl: Seq<Str>, c: char) requires pl.len() > 0, forall|i: int| 0 <= i < pl.len() ==> wpat(split_char(#[trigger] pl[i], c)) ensures ia_tokens(join(pl, seq![c]), c) == pl { rt_ia_pre(pl, c, pl.len() as int); assert(pl.take(pl.len() as int) =~= pl); }
spec fn nobr(s: Str) -> bool { noc(s, '[') && noc(s, ']') }
spec fn nobrs(v: Seq<Str>, c: char) -> bool { forall|i: int| 0 <= i < v.len() ==> nobr(#[trigger] v[i]) && noc(v[i], c) }
proof fn rt_wplain(s: Str, c: char) requires noc(s, c), nobr(s) ensures wpat(split_char(s, c)) { rt_split_noc(s, c); }
proof fn rt_wbal(s: Str, c: char) requires noc(s, c), s.contains('['), s.contains(']') ensures wpat(split_char(s, c)) { rt_split_noc(s, c); }
// name=[a,b,c]
proof fn rt_wlist(pre: Str, ds: Seq<Str>, c: char) requires ds.len() > 0, nobrs(ds, c), noc(pre, c), noc(pre, ']'), pre.contains('['), c != ']' ensures wpat(split_char(pre + join(ds, seq![c]) + seq![']'], c)) {
    let s = seq![c]; let b = seq![']']; let n = ds.len(); let t = pre + join(ds, s) + b; assert(noc(b, c)); assert(noc(b, '[')); assert(b[0] == ']'); assert(nobr(ds[0])); let j = choose|j: int| 0 <= j < pre.len() && pre[j] == '[';
    if n == 1 { let w = pre + ds[0] + b; assert(t == w); rt_noc_add(pre, ds[0], c); rt_noc_add(pre + ds[0], b, c); assert(w[j] == '['); assert(w.last() == ']'); rt_wbal(w, c); } else {
        let h = pre + ds[0]; let z = ds.last() + b; let es = seq![h] + ds.subrange(1, n - 1) + seq![z]; assert(nobr(ds[n - 1]) && noc(ds[n - 1], c) && noc(ds[0], c));
        rt_noc_add(pre, ds[0], c); rt_noc_add(ds.last(), b, c); rt_noc_add(pre, ds[0], ']'); rt_noc_add(ds.last(), b, '['); assert(h[j] == '['); assert(z.last() == ']');
        assert(nocs(es, c)) by { assert forall|i: int| 0 <= i < n implies noc(#[trigger] es[i], c) by { if 0 < i < n - 1 { assert(es[i] == ds[i]); } } }
        assert(join(es, s) == t) by { let m = ds.drop_last(); rt_join_push(m, ds.last(), s); assert(m.push(ds.last()) =~= ds); let e2 = es.drop_last(); rt_join_push(e2, z, s); assert(e2.push(z) =~= es); rt_join_pre(m, pre, s); assert(m.update(0, pre + m[0]) =~= e2); assert(join(es, s) =~= t); }
        rt_split_join(es, c); assert forall|k: int| 0 <= k < es.len() implies #[trigger] wmid(es, k) by { if 0 < k < n - 1 { assert(es[k] == ds[k]); } }
    }
}
proof fn rt_join_pre(m: Seq<Str>, pre: Str, s: Str) requires m.len() > 0 ensures join(m.update(0, pre + m[0]), s) == pre + join(m, s) { let w = m.update(0, pre + m[0]); assert(w.drop_first() =~= m.drop_first()); assert(join(w, s) =~= pre + join(m, s)); }
// ---- the numbers of a set
spec fn xv_ok(x: SdpAttributeImageAttrXyRange) -> bool { x matches SdpAttributeImageAttrXyRange::DiscreteValues(v) ==> v@.len() > 0 }
proof fn rt_xy_inv(s: Str, x: SdpAttributeImageAttrXyRange) requires xy_ok(s), xy_is(s, x) ensures xv_ok(x) {}
spec fn digs(s: Str) -> bool { s.len() > 0 && all_digits(s) }
proof fn rt_digs(s: Str) requires digs(s) ensures noc(s, '['), noc(s, ']'), noc(s, ':'), noc(s, ','), noc(s, ' '), tok(s), noc(s, '=') { rt_num_noc(s, '['); rt_num_noc(s, ']'); rt_num_noc(s, ':'); rt_num_noc(s, ','); rt_num_noc(s, ' '); rt_num_noc(s, '='); assert forall|i: int| 0 <= i < s.len() implies !is_ws(#[trigger] s[i]) by { assert(digit(s[i]) >= 0); } }
proof fn rt_u32(n: u32) ensures digs(dec(n as int)), uint_ok(dec(n as int), u32::MAX as int), uint_val(dec(n as int)) == n { rt_dec(n as int, u32::MAX as int); }
proof fn rt_br() ensures "["@ == seq!['['], "]"@ == seq![']'], ":"@ == seq![':'], "-"@ == seq!['-'], ","@ == seq![','] { reveal_strlit("["); reveal_strlit("]"); reveal_strlit(":"); reveal_strlit("-"); reveal_strlit(","); assert("["@ =~= seq!['[']); assert("]"@ =~= seq![']']); assert(":"@ =~= seq![':']); assert("-"@ =~= seq!['-']); assert(","@ =~= seq![',']); }
proof fn rt_inner(b: Str) ensures ({ let s = seq!['['] + b + seq![']']; braced(s) && open_br(s) && inner(s) == b }) { let s = seq!['['] + b + seq![']']; assert(inner(s) =~= b); }
// the text of a set of numbers, as an element of the set, and read back
spec fn ia_tok(pre: Str, t: Str) -> bool { noc(t, ' ') && t.len() > 0 && wpat(split_char(pre + t, ',')) }
proof fn rt_brk(pre: Str, j: Str) requires noc(pre, ','), nobr(pre), nobr(j), noc(j, ','), noc(j, ' ') ensures ia_tok(pre, seq!['['] + j + seq![']']) {
    let o = seq!['[']; let cl = seq![']']; let t = o + j + cl; let p2 = pre + o; rt_noc_add(pre, o, ','); assert(noc(o, ',') && noc(o, ']') && noc(o, ' ') && noc(cl, ' ')); rt_noc_add(pre, o, ']'); assert(p2.last() == '['); rt_join1(j, seq![',']); rt_wlist(p2, seq![j], ','); assert(pre + t =~= p2 + j + cl); rt_noc_add(o, j, ' '); rt_noc_add(o + j, cl, ' ');
}
proof fn rt_brk_list(pre: Str, d: Seq<Str>) requires noc(pre, ','), nobr(pre), d.len() > 0, nobrs(d, ','), nocs(d, ' ') ensures ia_tok(pre, seq!['['] + join(d, seq![',']) + seq![']']) {
    let o = seq!['[']; let cl = seq![']']; let c = seq![',']; let j = join(d, c); let t = o + j + cl; let p2 = pre + o; rt_noc_add(pre, o, ','); assert(noc(o, ',') && noc(o, ']') && noc(o, ' ') && noc(cl, ' ') && noc(c, ' ')); rt_noc_add(pre, o, ']'); assert(p2.last() == '['); rt_wlist(p2, d, ','); assert(pre + t =~= p2 + j + cl); rt_join_noc(d, c, ' '); rt_noc_add(o, j, ' '); rt_noc_add(o + j, cl, ' ');
}
proof fn rt_plain(pre: Str, t: Str) requires noc(pre, ','), nobr(pre), nobr(t), noc(t, ','), noc(t, ' '), t.len() > 0 ensures ia_tok(pre, t) { rt_noc_add(pre, t, ','); rt_noc_add(pre, t, '['); rt_noc_add(pre, t, ']'); rt_wplain(pre + t, ','); }
proof fn rt_rng(v: Seq<Str>) requires v.len() == 2 || v.len() == 3, forall|i: int| 0 <= i < v.len() ==> digs(#[trigger] v[i]) && uint_ok(v[i], u32::MAX as int) ensures ({ let j = join(v, seq![':']); let t = seq!['['] + j + seq![']']; nobr(j) && noc(j, ',') && noc(j, ' ') && split_char(j, ':') == v && t.contains(':') && braced(t) && open_br(t) && inner(t) == j }) {
    let c = seq![':']; let j = join(v, c); assert(noc(c, '[') && noc(c, ']') && noc(c, ',') && noc(c, ' ')); assert forall|i: int| 0 <= i < v.len() implies noc(#[trigger] v[i], '[') && noc(v[i], ']') && noc(v[i], ',') && noc(v[i], ' ') && noc(v[i], ':') by { rt_digs(v[i]); } rt_split_join(v, ':'); rt_join_noc(v, c, '['); rt_join_noc(v, c, ']'); rt_join_noc(v, c, ','); rt_join_noc(v, c, ' '); rt_inner(j);
    let t = seq!['['] + j + seq![']']; assert(j == v[0] + c + join(v.drop_first(), c)); assert(j[v[0].len() as int] == ':'); assert(t[v[0].len() as int + 1] == ':');
}
proof fn rt_xyr(v: Seq<Str>, lo: u32, hi: u32, step: Option<u32>, pre: Str)
    requires noc(pre, ','), nobr(pre), v == (match step { Some(k) => seq![dec(lo as int), dec(k as int), dec(hi as int)], None => seq![dec(lo as int), dec(hi as int)] })
    ensures ({ let t = seq!['['] + join(v, seq![':']) + seq![']']; let x = SdpAttributeImageAttrXyRange::Range(lo, hi, step); xy_ok(t) && xy_is(t, x) && ia_tok(pre, t) })
{
    rt_u32(lo); rt_u32(hi); match step { Some(k) => { rt_u32(k); }, None => {} } rt_rng(v); let j = join(v, seq![':']); rt_brk(pre, j); assert(v.last() == dec(hi as int)); assert(u32s_ok(v));
}
proof fn rt_xyr_str(v: Seq<Str>, lo: u32, hi: u32, step: Option<u32>)
    requires v == (match step { Some(k) => seq![dec(lo as int), dec(k as int), dec(hi as int)], None => seq![dec(lo as int), dec(hi as int)] })
    ensures xy_str(SdpAttributeImageAttrXyRange::Range(lo, hi, step)) == seq!['['] + join(v, seq![':']) + seq![']']
{
    rt_br(); let c = seq![':']; let a = dec(lo as int); let b = dec(hi as int); let t = xy_str(SdpAttributeImageAttrXyRange::Range(lo, hi, step));
    match step {
        Some(k) => { let d = dec(k as int); rt_join_push(seq![a, d], b, c); assert(seq![a, d].push(b) =~= v); rt_join2(a, d, c); assert(join(v, c) == a + c + d + c + b); assert(t =~= seq!['['] + (a + c + d + c + b) + seq![']']); },
        None => { rt_join2(a, b, c); assert(t =~= seq!['['] + (a + c + b) + seq![']']); }
    }
}
proof fn rt_xy_range(x: SdpAttributeImageAttrXyRange, pre: Str) requires x is Range, noc(pre, ','), nobr(pre) ensures xy_ok(xy_str(x)), xy_is(xy_str(x), x), ia_tok(pre, xy_str(x)) {
    match x {
        SdpAttributeImageAttrXyRange::Range(lo, hi, step) => { let v = match step { Some(k) => seq![dec(lo as int), dec(k as int), dec(hi as int)], None => seq![dec(lo as int), dec(hi as int)] }; rt_xyr(v, lo, hi, step, pre); rt_xyr_str(v, lo, hi, step); },
        _ => {}
    }
}
proof fn rt_xy(x: SdpAttributeImageAttrXyRange, pre: Str) requires xv_ok(x), noc(pre, ','), nobr(pre) ensures xy_ok(xy_str(x)), xy_is(xy_str(x), x), ia_tok(pre, xy_str(x)) {
    rt_br(); let t = xy_str(x);
    match x {
        SdpAttributeImageAttrXyRange::Range(lo, hi, step) => { rt_xy_range(x, pre); },
        SdpAttributeImageAttrXyRange::DiscreteValues(v) => {
            let d = disps(v@); let c = seq![',']; assert forall|i: int| 0 <= i < d.len() implies d[i] == dec(v@[i] as int) && digs(#[trigger] d[i]) && uint_ok(d[i], u32::MAX as int) && uint_val(d[i]) == v@[i] && noc(d[i], ' ') && noc(d[i], ',') && noc(d[i], ':') && nobr(d[i]) by { rt_u32(v@[i]); rt_digs(dec(v@[i] as int)); assert(d[i] == v@[i].disp()); }
            if v@.len() == 1 { assert(t == v@[0].disp()); assert(t == d[0]); assert(digit(t[0]) >= 0); rt_plain(pre, t); } else {
                let j = join(d, c); let o = seq!['[']; let cl = seq![']']; assert(t =~= o + j + cl); rt_inner(j); assert(nocs(d, ',')); rt_split_join(d, ','); assert(u32s_ok(d)); assert(nocs(d, ':')); assert(noc(c, ':') && noc(o, ':') && noc(cl, ':')); rt_join_noc(d, c, ':'); rt_noc_add(o, j, ':'); rt_noc_add(o + j, cl, ':');
                assert(nobrs(d, ',')); assert(nocs(d, ' ')); rt_brk_list(pre, d);
            }
        },
    }
}
// a stored number came from a text, one without '-' where the grammar has none, and is not NaN
spec fn fsrc(x: f32) -> bool { exists|s: Str| #[trigger] f32_ok(s) && f32_of(s) == x }
spec fn fpos(x: f32) -> bool { exists|s: Str| #[trigger] f32_ok(s) && f32_of(s) == x && noc(s, '-') }
spec fn nan_free(v: Seq<f32>) -> bool { forall|i: int| 0 <= i < v.len() ==> !(#[trigger] v[i]).is_nan_spec() }
proof fn rt_nch(p: Str) requires numlike(p), p.len() > 0 ensures nobr(p), noc(p, ','), noc(p, ' '), noc(p, ':'), p[0] != '[' {
    if p.contains('[') { let j = choose|j: int| 0 <= j < p.len() && p[j] == '['; assert(nch(p[j])); } if p.contains(']') { let j = choose|j: int| 0 <= j < p.len() && p[j] == ']'; assert(nch(p[j])); } if p.contains(',') { let j = choose|j: int| 0 <= j < p.len() && p[j] == ','; assert(nch(p[j])); }
    if p.contains(' ') { let j = choose|j: int| 0 <= j < p.len() && p[j] == ' '; assert(nch(p[j])); } if p.contains(':') { let j = choose|j: int| 0 <= j < p.len() && p[j] == ':'; assert(nch(p[j])); } assert(nch(p[0]));
}
proof fn rt_f32(x: f32) requires fsrc(x), !x.is_nan_spec() ensures ({ let p = f32_str(x); f32_ok(p) && f32_of(p) == x && p.len() > 0 && nobr(p) && noc(p, ',') && noc(p, ' ') && noc(p, ':') && p[0] != '[' && (fpos(x) ==> noc(p, '-')) }) {
    let s = choose|s: Str| #[trigger] f32_ok(s) && f32_of(s) == x; ax_f32_print(s); rt_nch(f32_str(x)); if fpos(x) { let r = choose|s: Str| #[trigger] f32_ok(s) && f32_of(s) == x && noc(s, '-'); ax_f32_print(r); }
}
spec fn fpair(a: f32, b: f32) -> bool { fpos(a) && fpos(b) && !a.is_nan_spec() && !b.is_nan_spec() && !ge32(a, b) }
proof fn rt_ps(a: f32, b: f32, pre: Str) requires fpair(a, b), noc(pre, ','), nobr(pre) ensures ({ let j = f32_str(a) + seq!['-'] + f32_str(b); let t = seq!['['] + j + seq![']']; ps_range(j) == Some((a, b)) && braced(t) && open_br(t) && inner(t) == j && t.contains('-') && ia_tok(pre, t) }) {
    rt_f32(a); rt_f32(b); let p = f32_str(a); let q = f32_str(b); let m = seq!['-']; let j = p + m + q; let o = seq!['[']; let cl = seq![']']; let t = o + j + cl; let v = seq![p, q]; rt_join2(p, q, m); assert(nocs(v, '-')); rt_split_join(v, '-'); rt_inner(j); assert(j[p.len() as int] == '-'); assert(t[p.len() as int + 1] == '-');
    let p2 = pre + o; rt_noc_add(pre, o, ','); rt_noc_add(pre, o, ']'); assert(noc(o, ',') && noc(o, ']') && noc(o, ' ') && noc(cl, ' ') && noc(m, ' ') && nobr(m) && noc(m, ',')); assert(p2.last() == '[');
    rt_noc_add(p, m, ' '); rt_noc_add(p + m, q, ' '); rt_noc_add(p, m, ','); rt_noc_add(p + m, q, ','); rt_noc_add(p, m, '['); rt_noc_add(p + m, q, '['); rt_noc_add(p, m, ']'); rt_noc_add(p + m, q, ']');
    rt_join1(j, seq![',']); rt_wlist(p2, seq![j], ','); assert(pre + t =~= p2 + j + cl); rt_noc_add(o, j, ' '); rt_noc_add(o + j, cl, ' ');
}
spec fn sar_good(x: SarV) -> bool { match x { SarV::Range(a, b) => fpair(a, b), SarV::Vals(v) => v.len() > 0 && nan_free(v) && if v.len() == 1 { fsrc(v[0]) } else { ascending(v, v.len() as int) && forall|i: int| 0 <= i < v.len() ==> fpos(#[trigger] v[i]) } } }
spec fn sar_nan(x: SarV) -> bool { match x { SarV::Range(a, b) => a.is_nan_spec() || b.is_nan_spec(), SarV::Vals(v) => !nan_free(v) } }
proof fn rt_ps_inv(s: Str) requires ps_range(s) is Some ensures ({ let x = ps_range(s)->Some_0; fpos(x.0) && fpos(x.1) && !ge32(x.0, x.1) }) { let p = split_char(s, '-'); rt_split_nocs(s, '-'); assert(noc(p[0], '-') && noc(p[1], '-')); assert(f32_ok(p[0]) && f32_ok(p[1])); }
proof fn rt_sar_inv(s: Str) requires sar_of(s) is Some, !sar_nan(sar_of(s)->Some_0) ensures sar_good(sar_of(s)->Some_0) {
    if open_br(s) { if s.contains('-') { rt_ps_inv(inner(s)); } else { let p = split_char(inner(s), ','); let v = f32s(p); rt_noc_sub(s, '-', 1, s.len() - 1); rt_split_sub(inner(s), ',', '-'); assert forall|i: int| 0 <= i < v.len() implies fpos(#[trigger] v[i]) by { assert(f32_ok(p[i])); assert(noc(p[i], '-')); } assert(v.len() >= 2); } }
    else { let v = seq![f32_of(s)]; assert(v.len() == 1); assert(f32_ok(s) && f32_of(s) == v[0]); }
}
proof fn rt_sar(x: SdpAttributeImageAttrSRange, pre: Str) requires sar_good(sar_v(x)), noc(pre, ','), nobr(pre) ensures sar_of(srange_str(x)) == Some(sar_v(x)), ia_tok(pre, srange_str(x)) {
    rt_br(); let o = seq!['[']; let cl = seq![']']; let t = srange_str(x); let p2 = pre + o; rt_noc_add(pre, o, ','); assert(noc(o, ',') && noc(o, ']') && noc(o, ' ') && noc(cl, ' ')); rt_noc_add(pre, o, ']'); assert(p2.last() == '[');
    match x {
        SdpAttributeImageAttrSRange::Range(a, b) => { rt_ps(a, b, pre); assert(t =~= o + (f32_str(a) + seq!['-'] + f32_str(b)) + cl); },
        SdpAttributeImageAttrSRange::DiscreteValues(v) => {
            let d = disps(v@); let c = seq![','];
            if v@.len() == 1 { rt_f32(v@[0]); assert(t == f32_str(v@[0])); assert(v@ =~= seq![v@[0]]); rt_noc_add(pre, t, ','); rt_noc_add(pre, t, '['); rt_noc_add(pre, t, ']'); rt_wplain(pre + t, ','); } else {
                assert forall|i: int| 0 <= i < d.len() implies d[i] == f32_str(v@[i]) && f32_ok(#[trigger] d[i]) && f32_of(d[i]) == v@[i] && noc(d[i], ' ') && noc(d[i], ',') && noc(d[i], '-') && nobr(d[i]) by { assert(fpos(v@[i])); let s = choose|s: Str| #[trigger] f32_ok(s) && f32_of(s) == v@[i] && noc(s, '-'); assert(fsrc(v@[i])); rt_f32(v@[i]); assert(d[i] == v@[i].disp()); }
                let j = join(d, c); assert(t =~= o + j + cl); rt_inner(j); assert(nocs(d, ',')); rt_split_join(d, ','); assert(f32s_ok(d)); assert(f32s(d) =~= v@); assert(nocs(d, '-')); assert(noc(c, '-') && noc(o, '-') && noc(cl, '-')); rt_join_noc(d, c, '-'); rt_noc_add(o, j, '-'); rt_noc_add(o + j, cl, '-');
                assert(j[d[0].len() as int] == ',') by { assert(j == d[0] + c + join(d.drop_first(), c)); } assert(t[d[0].len() as int + 1] == ',');
                assert(nobrs(d, ',')); rt_wlist(p2, d, ','); assert(pre + t =~= p2 + j + cl); assert(nocs(d, ' ')); assert(noc(c, ' ')); rt_join_noc(d, c, ' '); rt_noc_add(o, j, ' '); rt_noc_add(o + j, cl, ' ');
            }
        },
    }
}
// ---- one set
spec fn ia_good(a: IaV) -> bool { (a.sar matches Some(x) ==> !sar_nan(x) ==> sar_good(x)) && (a.par matches Some(p) ==> fpos(p.0) && fpos(p.1) && !ge32(p.0, p.1)) && (a.q matches Some(x) ==> fsrc(x)) }
proof fn rt_ia_inv(v: Seq<Str>, n: int) requires 0 <= n <= v.len(), ia_fold(v, n) is Some ensures ia_good(ia_fold(v, n)->Some_0) decreases n {
    if n > 2 {
        if ia_fold(v, n - 1) is None { lemma_ia_none(v, n - 1, n); } rt_ia_inv(v, n - 1); let e = ia_fold(v, n - 1)->Some_0; let t = v[n - 1]; assert(ia_step(e, t) == ia_fold(v, n));
        if has_prefix(t, "sar="@) { let w = after_eq(t, "sar="@); if !sar_nan(sar_of(w)->Some_0) { rt_sar_inv(w); } } else if has_prefix(t, "par="@) { rt_ps_inv(inner(after_eq(t, "par="@))); } else if has_prefix(t, "q="@) { let w = after_eq(t, "q="@); assert(f32_ok(w)); }
    }
}
spec fn set_nan(x: SdpAttributeImageAttrSet) -> bool { (osar(x.sar) matches Some(y) && sar_nan(y)) || (x.par matches Some(y) && (y.min.is_nan_spec() || y.max.is_nan_spec())) || (x.q matches Some(y) && y.is_nan_spec()) }
spec fn set_good(x: SdpAttributeImageAttrSet) -> bool { xv_ok(x.x) && xv_ok(x.y) && (osar(x.sar) matches Some(y) ==> sar_good(y)) && (x.par matches Some(y) ==> fpair(y.min, y.max)) && (x.q matches Some(y) ==> fsrc(y) && !y.is_nan_spec()) }
proof fn rt_set_inv(s: Str, x: SdpAttributeImageAttrSet) requires iaset_ok(s), iaset_is(s, x), !set_nan(x) ensures set_good(x) { let v = ia_tokens(s, ','); rt_xy_inv(after_eq(v[0], "x="@), x.x); rt_xy_inv(after_eq(v[1], "y="@), x.y); rt_ia_inv(v, v.len() as int); }
proof fn rt_pre(pre: Str, t: Str) ensures has_prefix(pre + t, pre), after_eq(pre + t, pre) == t { assert((pre + t).subrange(0, pre.len() as int) =~= pre); assert(after_eq(pre + t, pre) =~= t); }
spec fn set_pl(x: SdpAttributeImageAttrSet) -> Seq<Str> {
    seq!["x="@ + xy_str(x.x), "y="@ + xy_str(x.y)] + (match x.sar { Some(y) => seq!["sar="@ + srange_str(y)], None => Seq::empty() }) + (match x.par { Some(y) => seq!["par="@ + prange_str(y)], None => Seq::empty() }) + (match x.q { Some(y) => seq!["q="@ + f32_str(y)], None => Seq::empty() })
}
proof fn rt_ia_keys() ensures "x="@.len() == 2, "y="@.len() == 2, nobr("x="@), nobr("y="@), nobr("sar="@), nobr("par="@), nobr("q="@), noc("x="@, ','), noc("y="@, ','), noc("sar="@, ','), noc("par="@, ','), noc("q="@, ','), noc("x="@, ' '), noc("y="@, ' '), noc("sar="@, ' '), noc("par="@, ' '), noc("q="@, ' '),
    forall|t: Str| !has_prefix(#[trigger] ("par="@ + t), "sar="@), forall|t: Str| !has_prefix(#[trigger] ("q="@ + t), "sar="@) && !has_prefix("q="@ + t, "par="@),
    ",sar="@ =~= seq![','] + "sar="@, ",par="@ =~= seq![','] + "par="@, ",q="@ =~= seq![','] + "q="@, ",y="@ =~= seq![','] + "y="@, "[x="@ =~= seq!['['] + "x="@,
{
    reveal_strlit("x="); reveal_strlit("y="); reveal_strlit("sar="); reveal_strlit("par="); reveal_strlit("q="); reveal_strlit(",sar="); reveal_strlit(",par="); reveal_strlit(",q="); reveal_strlit(",y="); reveal_strlit("[x=");
    assert forall|t: Str| !has_prefix(#[trigger] ("par="@ + t), "sar="@) by { let w = "par="@ + t; assert(w.subrange(0, 4)[0] == 'p'); assert("sar="@[0] == 's'); }
    assert forall|t: Str| !has_prefix(#[trigger] ("q="@ + t), "sar="@) && !has_prefix("q="@ + t, "par="@) by { let w = "q="@ + t; assert(w[0] == 'q'); if w.len() >= 4 { assert(w.subrange(0, 4)[0] == 'q'); } assert("sar="@[0] == 's'); assert("par="@[0] == 'p'); }
}
spec fn pl_ok(v: Seq<Str>, c: char) -> bool { forall|i: int| 0 <= i < v.len() ==> wpat(split_char(#[trigger] v[i], c)) && noc(v[i], ' ') }
proof fn rt_ia_ext2(v: Seq<Str>, w: Seq<Str>, n: int) requires 0 <= n <= v.len() <= w.len(), forall|i: int| 0 <= i < v.len() ==> v[i] == w[i] ensures ia_fold(v, n) == ia_fold(w, n) decreases n { if n > 2 { rt_ia_ext2(v, w, n - 1); assert(v[n - 1] == w[n - 1]); } }
proof fn rt_ia_addt(v: Seq<Str>, a: IaV, pre: Str, t: Str, b: IaV) requires v.len() >= 2, ia_fold(v, v.len() as int) == Some(a), pl_ok(v, ','), ia_tok(pre, t), noc(pre, ' '), ia_step(a, pre + t) == Some(b) ensures ({ let w = v + seq![pre + t]; ia_fold(w, w.len() as int) == Some(b) && pl_ok(w, ',') && join(w, seq![',']) == join(v, seq![',']) + seq![','] + pre + t }) {
    let w = v + seq![pre + t]; let s = seq![',']; rt_ia_ext2(v, w, v.len() as int); assert(w[w.len() - 1] == pre + t); rt_noc_add(pre, t, ' '); assert forall|i: int| 0 <= i < w.len() implies wpat(split_char(#[trigger] w[i], ',')) && noc(w[i], ' ') by { if i < v.len() { assert(w[i] == v[i]); } } rt_join_push(v, pre + t, s); assert(v.push(pre + t) =~= w); assert(join(w, s) =~= join(v, s) + s + pre + t);
}
proof fn rt_set(x: SdpAttributeImageAttrSet) requires set_good(x) ensures ({ let t = iaset_str(x); ias_ok(t) && iaset_is(inner(t), x) && noc(t, ' ') && t.contains('[') && t.contains(']') && open_br(t) }) {
    rt_ia_keys(); rt_br(); let s = seq![',']; let e = Seq::<Str>::empty(); let kx = "x="@; let ky = "y="@; rt_xy(x.x, kx); rt_xy(x.y, ky); rt_pre(kx, xy_str(x.x)); rt_pre(ky, xy_str(x.y)); let tx = kx + xy_str(x.x); let ty = ky + xy_str(x.y); rt_noc_add(kx, xy_str(x.x), ' '); rt_noc_add(ky, xy_str(x.y), ' ');
    let v0 = seq![tx, ty]; assert(pl_ok(v0, ',')); rt_join2(tx, ty, s); let a0 = IaV { sar: None, par: None, q: None }; assert(ia_fold(v0, 2) == Some(a0));
    let v1 = v0 + (match x.sar { Some(y) => seq!["sar="@ + srange_str(y)], None => e }); let a1 = IaV { sar: osar(x.sar), ..a0 };
    match x.sar { Some(y) => { rt_sar(y, "sar="@); rt_pre("sar="@, srange_str(y)); rt_ia_addt(v0, a0, "sar="@, srange_str(y), a1); }, None => { assert(v1 =~= v0); } }
    let v2 = v1 + (match x.par { Some(y) => seq!["par="@ + prange_str(y)], None => e }); let a2 = IaV { par: opar(x.par), ..a1 };
    match x.par { Some(y) => { rt_ps(y.min, y.max, "par="@); assert(prange_str(y) =~= seq!['['] + (f32_str(y.min) + seq!['-'] + f32_str(y.max)) + seq![']']); rt_pre("par="@, prange_str(y)); assert(ia_step(a1, "par="@ + prange_str(y)) == Some(a2)); rt_ia_addt(v1, a1, "par="@, prange_str(y), a2); }, None => { assert(v2 =~= v1); } }
    let v3 = v2 + (match x.q { Some(y) => seq!["q="@ + f32_str(y)], None => e }); let a3 = IaV { q: x.q, ..a2 };
    match x.q { Some(y) => { rt_f32(y); let t = f32_str(y); rt_noc_add("q="@, t, ','); rt_noc_add("q="@, t, '['); rt_noc_add("q="@, t, ']'); rt_wplain("q="@ + t, ','); rt_pre("q="@, t); assert(ia_step(a2, "q="@ + t) == Some(a3)); rt_ia_addt(v2, a2, "q="@, t, a3); }, None => { assert(v3 =~= v2); } }
    let j = join(v3, s); rt_ia_list(v3, ','); rt_set_join(x, v3); rt_inner(j); let t = iaset_str(x); assert(v3[0] == tx && v3[1] == ty);
    assert(nocs(v3, ' ')); assert(noc(s, ' ')); rt_join_noc(v3, s, ' '); let o = seq!['[']; let cl = seq![']']; assert(noc(o, ' ') && noc(cl, ' ')); rt_noc_add(o, j, ' '); rt_noc_add(o + j, cl, ' '); assert(t[0] == '[' && t.last() == ']');
}
proof fn rt_set_join(x: SdpAttributeImageAttrSet, v: Seq<Str>) requires v == set_pl(x) ensures iaset_str(x) == seq!['['] + join(v, seq![',']) + seq![']'] {
    rt_ia_keys(); rt_br(); let s = seq![',']; let e = Seq::<Str>::empty(); let tx = "x="@ + xy_str(x.x); let ty = "y="@ + xy_str(x.y); let v0 = seq![tx, ty]; rt_join2(tx, ty, s); let j0 = join(v0, s);
    let v1 = v0 + (match x.sar { Some(y) => seq!["sar="@ + srange_str(y)], None => e }); let j1 = j0 + opt_str(",sar="@, x.sar, none());
    assert(join(v1, s) == j1) by { match x.sar { Some(y) => { let t = "sar="@ + srange_str(y); rt_join_push(v0, t, s); assert(v0.push(t) =~= v1); assert(join(v1, s) =~= j1); }, None => { assert(v1 =~= v0); assert(j1 =~= j0); } } }
    let v2 = v1 + (match x.par { Some(y) => seq!["par="@ + prange_str(y)], None => e }); let j2 = j1 + opt_str(",par="@, x.par, none());
    assert(join(v2, s) == j2) by { match x.par { Some(y) => { let t = "par="@ + prange_str(y); rt_join_push(v1, t, s); assert(v1.push(t) =~= v2); assert(join(v2, s) =~= j2); }, None => { assert(v2 =~= v1); assert(j2 =~= j1); } } }
    let j3 = j2 + opt_str(",q="@, x.q, none());
    assert(join(v, s) == j3) by { match x.q { Some(y) => { let t = "q="@ + f32_str(y); rt_join_push(v2, t, s); assert(v2.push(t) =~= v); assert(join(v, s) =~= j3); }, None => { assert(v =~= v2); assert(j3 =~= j2); } } }
    assert(iaset_str(x) =~= seq!['['] + j3 + seq![']']);
}
// ---- imageattr lists
spec fn il_nan(x: SdpAttributeImageAttrSetList) -> bool { match x { SdpAttributeImageAttrSetList::Wildcard => false, SdpAttributeImageAttrSetList::Sets(v) => exists|i: int| 0 <= i < v@.len() && set_nan(#[trigger] v@[i]) } }
spec fn il_good(x: SdpAttributeImageAttrSetList) -> bool { match x { SdpAttributeImageAttrSetList::Wildcard => true, SdpAttributeImageAttrSetList::Sets(v) => forall|i: int| 0 <= i < v@.len() ==> set_good(#[trigger] v@[i]) } }
spec fn il_toks(x: SdpAttributeImageAttrSetList) -> Seq<Str> { match x { SdpAttributeImageAttrSetList::Wildcard => seq!["*"@], SdpAttributeImageAttrSetList::Sets(v) => disps(v@) } }
proof fn rt_il_inv(t: Seq<Str>, x: SdpAttributeImageAttrSetList) requires il_ok(t), il_is(t, x), !il_nan(x) ensures il_good(x), !iasets_empty(x) {
    match x { SdpAttributeImageAttrSetList::Sets(v) => { assert forall|i: int| 0 <= i < v@.len() implies set_good(#[trigger] v@[i]) by { assert(ias_ok(t[i])); assert(iaset_is(inner(t[i]), v@[i])); rt_set_inv(inner(t[i]), v@[i]); } }, _ => {} }
}
proof fn rt_star() ensures "*"@ == seq!['*'], nobr("*"@), noc("*"@, ' '), "send"@ != "recv"@, nobr("send"@), nobr("recv"@), noc("send"@, ' '), noc("recv"@, ' '), !open_br("send"@), !open_br("recv"@), " send "@ =~= sp() + "send"@ + sp(), " recv "@ =~= sp() + "recv"@ + sp() { reveal_strlit("*"); reveal_strlit("send"); reveal_strlit("recv"); reveal_strlit(" send "); reveal_strlit(" recv "); assert("*"@ =~= seq!['*']); assert("send"@[0] != "recv"@[0]); }
proof fn rt_il(x: SdpAttributeImageAttrSetList, rest: Seq<Str>) requires il_good(x), !iasets_empty(x), rest.len() > 0 ==> !open_br(rest[0]) ensures ({ let l = il_toks(x); let t = l + rest; il_ok(t) && il_is(t, x) && il_len(t) == l.len() && pl_ok(l, ' ') && l.len() > 0 && iasets_str(x) == join(l, sp()) }) {
    rt_star(); rt_sp(); let l = il_toks(x); let t = l + rest;
    match x {
        SdpAttributeImageAttrSetList::Wildcard => { assert(t[0] == "*"@); rt_wplain("*"@, ' '); rt_join1("*"@, sp()); },
        SdpAttributeImageAttrSetList::Sets(v) => {
            assert forall|i: int| 0 <= i < l.len() implies ias_ok(#[trigger] l[i]) && iaset_is(inner(l[i]), v@[i]) && open_br(l[i]) && wpat(split_char(l[i], ' ')) && noc(l[i], ' ') && t[i] == l[i] by { assert(set_good(v@[i])); rt_set(v@[i]); assert(l[i] == v@[i].disp()); rt_wbal(l[i], ' '); }
            assert(t[0] == l[0] && open_br(l[0])); assert(t[0] != "*"@); let u = t.drop_first(); let n = l.len() - 1; assert forall|i: int| 0 <= i < n implies open_br(#[trigger] u[i]) by { assert(u[i] == l[i + 1]); } if n < u.len() { assert(u[n] == rest[0]); } lemma_run_is(u, n); assert(il_len(t) == l.len());
            assert forall|i: int| 0 <= i < l.len() implies ias_ok(#[trigger] t[i]) by { assert(ias_ok(l[i])); } assert forall|i: int| 0 <= i < v@.len() implies iaset_is(inner(t[i]), #[trigger] v@[i]) by { assert(iaset_is(inner(l[i]), v@[i])); }
        }
    }
}
// the token lists of the two forms
proof fn rt_ia_two(p: Str, l1: Seq<Str>, l2: Seq<Str>) requires nobr(p), noc(p, ' '), pl_ok(l1, ' '), pl_ok(l2, ' '), l1.len() > 0, l2.len() > 0 ensures ({ let m = seq!["recv"@] + l2; let w = seq![p] + (seq!["send"@] + (l1 + m)); let s = sp();
    ia_tokens(join(w, s), ' ') == w && join(w, s) == p + s + ("send"@ + s + (join(l1, s) + s + ("recv"@ + s + join(l2, s)))) && w.subrange(2, w.len() as int) == l1 + m && m.drop_first() == l2 && w[0] == p && w[1] == "send"@ && m[0] == "recv"@ && w.len() >= 3 }) {
    rt_star(); let s = sp(); let sd = "send"@; let rv = "recv"@; let m = seq![rv] + l2; let w2 = seq![sd] + (l1 + m); let w = seq![p] + w2; assert(s == seq![' ']); rt_wplain(p, ' '); rt_wplain(sd, ' '); rt_wplain(rv, ' ');
    rt_join_head(p, w2, s); rt_join_head(sd, l1 + m, s); rt_join_add(l1, m, s); rt_join_head(rv, l2, s);
    assert forall|i: int| 0 <= i < w.len() implies wpat(split_char(#[trigger] w[i], ' ')) by { if i >= 2 && i < 2 + l1.len() { assert(w[i] == l1[i - 2]); } else if i > 2 + l1.len() { assert(w[i] == l2[i - 3 - l1.len()]); } } rt_ia_list(w, ' ');
    assert(w.subrange(2, w.len() as int) =~= l1 + m); assert(m.drop_first() =~= l2);
}
proof fn rt_ia_one(p: Str, d: Str, l: Seq<Str>) requires nobr(p), noc(p, ' '), nobr(d), noc(d, ' '), pl_ok(l, ' '), l.len() > 0 ensures ({ let w = seq![p] + (seq![d] + l); let s = sp(); ia_tokens(join(w, s), ' ') == w && join(w, s) == p + s + (d + s + join(l, s)) && w.subrange(2, w.len() as int) == l && w[0] == p && w[1] == d && w.len() >= 3 }) {
    let s = sp(); let w2 = seq![d] + l; let w = seq![p] + w2; assert(s == seq![' ']); rt_wplain(p, ' '); rt_wplain(d, ' '); rt_join_head(p, w2, s); rt_join_head(d, l, s);
    assert forall|i: int| 0 <= i < w.len() implies wpat(split_char(#[trigger] w[i], ' ')) by { if i >= 2 { assert(w[i] == l[i - 2]); } } rt_ia_list(w, ' '); assert(w.subrange(2, w.len() as int) =~= l);
}
proof fn rt_imageattr(v: Str, x: SdpAttributeImageAttr) //# C09
    requires imageattr_ok(ia_tokens(v, ' ')), imageattr_is(ia_tokens(v, ' '), x), !il_nan(x.send), !il_nan(x.recv)
    ensures imageattr_ok(ia_tokens(imageattr_str(x), ' ')), imageattr_is(ia_tokens(imageattr_str(x), ' '), x), solid(imageattr_str(x))
{
    let t = ia_tokens(v, ' '); rt_star(); rt_ptype(t[0], x.pt); rt_ptype_nobr(x.pt);
    let u = t.subrange(2, t.len() as int); let r = imageattr_rest(t); let (a, b) = if t[1] == "send"@ { (x.send, x.recv) } else { (x.recv, x.send) }; rt_il_inv(u, a); if r.len() > 0 { rt_il_inv(r.drop_first(), b); }
    if !iasets_empty(x.send) && !iasets_empty(x.recv) { rt_imageattr2(x); } else { assert(iasets_empty(b)); rt_imageattr1(x); }
}
// reading a token list made of the payload type, a direction with its list, and what follows
proof fn rt_ia_read(w: Seq<Str>, l: Seq<Str>, m: Seq<Str>, x: SdpAttributeImageAttr, a: SdpAttributeImageAttrSetList, b: SdpAttributeImageAttrSetList)
    requires w.len() >= 3, ptype_ok(w[0]), ptype_is(w[0], x.pt), w[1] == "send"@ || w[1] == "recv"@, (a, b) == (if w[1] == "send"@ { (x.send, x.recv) } else { (x.recv, x.send) }), w.subrange(2, w.len() as int) == l + m, il_ok(l + m), il_is(l + m, a), il_len(l + m) == l.len(),
        if m.len() > 0 { (m[0] == "send"@ || m[0] == "recv"@) && m[0] != w[1] && il_ok(m.drop_first()) && il_is(m.drop_first(), b) && il_len(m.drop_first()) == m.len() - 1 } else { iasets_empty(b) }
    ensures imageattr_ok(w), imageattr_is(w, x)
{ let u = w.subrange(2, w.len() as int); assert(u.subrange(l.len() as int, u.len() as int) =~= m); assert(imageattr_rest(w) == m); }
proof fn rt_ia_str2(x: SdpAttributeImageAttr, k: Str, y: Str) requires !iasets_empty(x.send), !iasets_empty(x.recv), k == iasets_str(x.send), y == iasets_str(x.recv) ensures ({ let s = sp(); imageattr_str(x) == ptype_str(x.pt) + s + ("send"@ + s + (k + s + ("recv"@ + s + y))) }) {
    rt_star(); let s = sp(); let q = imageattr_str(x); let p = ptype_str(x.pt); let sd = "send"@; let rv = "recv"@; assert(q == p + (s + sd + s + k) + (s + rv + s + y)); assert(q =~= p + s + (sd + s + (k + s + (rv + s + y))));
}
proof fn rt_ia_str1(x: SdpAttributeImageAttr, d: Str, f: SdpAttributeImageAttrSetList, k: Str) requires iasets_empty(x.send) != iasets_empty(x.recv), (d, f) == (if iasets_empty(x.recv) { ("send"@, x.send) } else { ("recv"@, x.recv) }), k == iasets_str(f) ensures ({ let s = sp(); imageattr_str(x) == ptype_str(x.pt) + s + (d + s + k) }) {
    rt_star(); let s = sp(); let q = imageattr_str(x); let p = ptype_str(x.pt); assert(q =~= p + (s + d + s + k)); assert(q =~= p + s + (d + s + k));
}
proof fn rt_imageattr2(x: SdpAttributeImageAttr) requires il_good(x.send), il_good(x.recv), !iasets_empty(x.send), !iasets_empty(x.recv), ptype_ok(ptype_str(x.pt)), ptype_is(ptype_str(x.pt), x.pt), tok(ptype_str(x.pt)), noc(ptype_str(x.pt), ' '), nobr(ptype_str(x.pt)) ensures imageattr_ok(ia_tokens(imageattr_str(x), ' ')), imageattr_is(ia_tokens(imageattr_str(x), ' '), x), solid(imageattr_str(x)) {
    let p = ptype_str(x.pt); let l1 = il_toks(x.send); let l2 = il_toks(x.recv); rt_star(); let m = seq!["recv"@] + l2; assert(m[0] == "recv"@); rt_il(x.send, m); rt_il(x.recv, Seq::empty()); assert(l2 + Seq::<Str>::empty() =~= l2); rt_ia_two(p, l1, l2); let w = seq![p] + (seq!["send"@] + (l1 + m)); let q = imageattr_str(x);
    let y = iasets_str(x.recv); rt_ia_str2(x, iasets_str(x.send), y); assert(q == join(w, sp())); rt_ia_read(w, l1, m, x, x.send, x.recv); rt_ia_solid(x, x.recv, p, p + iadir_str(" send "@, x.send) + " recv "@);
}
proof fn rt_ia_solid(x: SdpAttributeImageAttr, f: SdpAttributeImageAttrSetList, p: Str, pre: Str) requires il_good(f), !iasets_empty(f), p == ptype_str(x.pt), tok(p), imageattr_str(x) =~= pre + iasets_str(f), pre.len() >= p.len(), pre[0] == p[0] ensures solid(imageattr_str(x)) {
    let q = imageattr_str(x); rt_last(pre, iasets_str(f), f, q); assert(q[0] == p[0]);
}
proof fn rt_imageattr1(x: SdpAttributeImageAttr) requires il_good(x.send), il_good(x.recv), iasets_empty(x.send) != iasets_empty(x.recv), ptype_ok(ptype_str(x.pt)), ptype_is(ptype_str(x.pt), x.pt), tok(ptype_str(x.pt)), noc(ptype_str(x.pt), ' '), nobr(ptype_str(x.pt)) ensures imageattr_ok(ia_tokens(imageattr_str(x), ' ')), imageattr_is(ia_tokens(imageattr_str(x), ' '), x), solid(imageattr_str(x)) {
    let p = ptype_str(x.pt); rt_star(); let s = sp(); let q = imageattr_str(x); let (d, f) = if iasets_empty(x.recv) { ("send"@, x.send) } else { ("recv"@, x.recv) }; let l = il_toks(f); rt_il(f, Seq::empty()); let e = Seq::<Str>::empty(); assert(l + e =~= l); rt_ia_one(p, d, l); let w = seq![p] + (seq![d] + l);
    let k = iasets_str(f); rt_ia_str1(x, d, f, k); assert(q == join(w, s)); let (a, b) = if d == "send"@ { (x.send, x.recv) } else { (x.recv, x.send) }; rt_ia_read(w, l, e, x, a, b); assert(q =~= p + s + d + s + k); rt_ia_solid(x, f, p, p + s + d + s);
}
proof fn rt_join_head(a: Str, v: Seq<Str>, s: Str) requires v.len() > 0 ensures join(seq![a] + v, s) == a + s + join(v, s) { rt_join_add(seq![a], v, s); rt_join1(a, s); }
proof fn rt_ptype_nobr(p: SdpAttributePayloadType) ensures nobr(ptype_str(p)) { reveal_strlit("*"); match p { SdpAttributePayloadType::Wildcard => {}, SdpAttributePayloadType::PayloadType(n) => { rt_dec(n as int, u8::MAX as int); rt_num_noc(dec(n as int), '['); rt_num_noc(dec(n as int), ']'); } } }
// the printed list ends in '*' or ']'
proof fn rt_last(pre: Str, k: Str, x: SdpAttributeImageAttrSetList, q: Str) requires il_good(x), !iasets_empty(x), k == iasets_str(x), q =~= pre + k ensures q.len() > 0, !is_ws(q.last()) {
    rt_il(x, Seq::empty()); let l = il_toks(x); assert(l + Seq::<Str>::empty() =~= l); rt_star(); let z = l.last(); assert(z.len() > 0 && !is_ws(z.last())) by { match x { SdpAttributeImageAttrSetList::Wildcard => { assert(z == "*"@); }, SdpAttributeImageAttrSetList::Sets(v) => { assert(set_good(v@[v@.len() - 1])); rt_set(v@[v@.len() - 1]); assert(z == v@[v@.len() - 1].disp()); } } }
    if l.len() == 1 { rt_join1(z, sp()); assert(l =~= seq![z]); } else { rt_join_push(l.drop_last(), z, sp()); assert(l.drop_last().push(z) =~= l); } assert(k.last() == z.last()); assert(q.last() == k.last());
}
// what an attribute of any kind prints after its name, and the values it has when that is read
spec fn excluded(a: SdpAttribute) -> bool {
    match a {
        SdpAttribute::Fmtp(x) => fmtp_str(x).len() == 0 || !trimmed(fmtp_str(x)), // KF1, KF5
        SdpAttribute::MsidSemantic(x) => x.msids@.len() == 0, // KF2
        SdpAttribute::Rid(x) => rid_kf3(x) || !trimmed(rid_str(x)), // KF3, KF5
        SdpAttribute::ImageAttr(x) => il_nan(x.send) || il_nan(x.recv), // a NaN equals nothing
        _ => false,
    }
}
proof fn rt_text(v: Str) requires v.len() > 0, trimmed(v) ensures solid(v) { if is_ws(v[0]) { assert(trim_start(v) == trim_start(v.drop_first())); } }
proof fn rt_body(a: SdpAttribute, v: Str) //# C09
    requires val_ok(kind(a), v), val_is(a, v), trimmed(v), !is_flag(kind(a)), !excluded(a)
    ensures val_ok(kind(a), body_str(a)), val_is(a, body_str(a)), solid(body_str(a))
{
    match a {
        SdpAttribute::Candidate(x) => { rt_candidate(v, x); },
        SdpAttribute::DtlsMessage(x) => { rt_dtls(v, x); rt_text(v); },
        SdpAttribute::Extmap(x) => { rt_extmap(v, x); },
        SdpAttribute::Fingerprint(x) => { rt_fingerprint(v, x); },
        SdpAttribute::Fmtp(x) => { rt_fmtp(v, x); },
        SdpAttribute::FrameRate(x) => { rt_framerate(v, x); },
        SdpAttribute::Group(x) => { rt_group(v, x); },
        SdpAttribute::IceOptions(x) => { rt_ice_options(v, x); },
        SdpAttribute::IcePacing(x) => { rt_number(x as int, u64::MAX as int); },
        SdpAttribute::IcePwd(x) => { rt_text(v); },
        SdpAttribute::IceUfrag(x) => { rt_text(v); },
        SdpAttribute::Identity(x) => { rt_text(v); },
        SdpAttribute::ImageAttr(x) => { rt_imageattr(v, x); },
        SdpAttribute::Label(x) => { rt_text(v); },
        SdpAttribute::MaxMessageSize(x) => { rt_number(x as int, u64::MAX as int); },
        SdpAttribute::MaxPtime(x) => { rt_number(x as int, u64::MAX as int); },
        SdpAttribute::Mid(x) => { rt_text(v); },
        SdpAttribute::Msid(x) => { rt_msid(v, x); },
        SdpAttribute::MsidSemantic(x) => { rt_msid_semantic(v, x); },
        SdpAttribute::Ptime(x) => { rt_number(x as int, u64::MAX as int); },
        SdpAttribute::Rid(x) => { rt_rid(v, x); },
        SdpAttribute::RemoteCandidate(x) => { rt_rcand(v, x); },
        SdpAttribute::Rtpmap(x) => { rt_rtpmap(v, x); },
        SdpAttribute::Rtcp(x) => { rt_rtcp(v, x); },
        SdpAttribute::Rtcpfb(x) => { rt_rtcpfb(v, x); },
        SdpAttribute::Sctpmap(x) => { rt_sctpmap(v, x); },
        SdpAttribute::SctpPort(x) => { rt_number(x as int, u64::MAX as int); },
        SdpAttribute::Setup(x) => { rt_setup(v, x); },
        SdpAttribute::Simulcast(x) => { rt_simulcast(v, x); },
        SdpAttribute::Ssrc(x) => { rt_ssrc(v, x); },
        SdpAttribute::SsrcGroup(m, l) => { rt_ssrc_group(v, m, l); },
        _ => {}
    }
}
// names are printable, in lower case, and contain no colon
proof fn rt_kname(t: SdpAttributeType) ensures kname(t).len() > 0, small(kname(t)), noc(kname(t), ':') {
    match t {
        SdpAttributeType::BundleOnly => { reveal_strlit("bundle-only"); },
        SdpAttributeType::Candidate => { reveal_strlit("candidate"); },
        SdpAttributeType::DtlsMessage => { reveal_strlit("dtls-message"); },
        SdpAttributeType::EndOfCandidates => { reveal_strlit("end-of-candidates"); },
        SdpAttributeType::Extmap => { reveal_strlit("extmap"); },
        SdpAttributeType::ExtmapAllowMixed => { reveal_strlit("extmap-allow-mixed"); },
        SdpAttributeType::Fingerprint => { reveal_strlit("fingerprint"); },
        SdpAttributeType::Fmtp => { reveal_strlit("fmtp"); },
        SdpAttributeType::FrameRate => { reveal_strlit("framerate"); },
        SdpAttributeType::Group => { reveal_strlit("group"); },
        SdpAttributeType::IceLite => { reveal_strlit("ice-lite"); },
        SdpAttributeType::IceMismatch => { reveal_strlit("ice-mismatch"); },
        SdpAttributeType::IceOptions => { reveal_strlit("ice-options"); },
        SdpAttributeType::IcePacing => { reveal_strlit("ice-pacing"); },
        SdpAttributeType::IcePwd => { reveal_strlit("ice-pwd"); },
        SdpAttributeType::IceUfrag => { reveal_strlit("ice-ufrag"); },
        SdpAttributeType::Identity => { reveal_strlit("identity"); },
        SdpAttributeType::ImageAttr => { reveal_strlit("imageattr"); },
        SdpAttributeType::Inactive => { reveal_strlit("inactive"); },
        SdpAttributeType::Label => { reveal_strlit("label"); },
        SdpAttributeType::MaxMessageSize => { reveal_strlit("max-message-size"); },
        SdpAttributeType::MaxPtime => { reveal_strlit("maxptime"); },
        SdpAttributeType::Mid => { reveal_strlit("mid"); },
        SdpAttributeType::Msid => { reveal_strlit("msid"); },
        SdpAttributeType::MsidSemantic => { reveal_strlit("msid-semantic"); },
        SdpAttributeType::Ptime => { reveal_strlit("ptime"); },
        SdpAttributeType::Rid => { reveal_strlit("rid"); },
        SdpAttributeType::Recvonly => { reveal_strlit("recvonly"); },
        SdpAttributeType::RemoteCandidate => { reveal_strlit("remote-candidates"); },
        SdpAttributeType::Rtpmap => { reveal_strlit("rtpmap"); },
        SdpAttributeType::Rtcp => { reveal_strlit("rtcp"); },
        SdpAttributeType::Rtcpfb => { reveal_strlit("rtcp-fb"); },
        SdpAttributeType::RtcpMux => { reveal_strlit("rtcp-mux"); },
        SdpAttributeType::RtcpMuxOnly => { reveal_strlit("rtcp-mux-only"); },
        SdpAttributeType::RtcpRsize => { reveal_strlit("rtcp-rsize"); },
        SdpAttributeType::Sctpmap => { reveal_strlit("sctpmap"); },
        SdpAttributeType::SctpPort => { reveal_strlit("sctp-port"); },
        SdpAttributeType::Sendonly => { reveal_strlit("sendonly"); },
        SdpAttributeType::Sendrecv => { reveal_strlit("sendrecv"); },
        SdpAttributeType::Setup => { reveal_strlit("setup"); },
        SdpAttributeType::Simulcast => { reveal_strlit("simulcast"); },
        SdpAttributeType::Ssrc => { reveal_strlit("ssrc"); },
        SdpAttributeType::SsrcGroup => { reveal_strlit("ssrc-group"); },
    }
}
// the printed attribute is accepted and has the same values
proof fn rt_attr(v: Str, a: SdpAttribute) //# C09
    requires attr_ok(v), attr_is(v, a), !excluded(a) ensures attr_ok(attr_str(a)), attr_is(attr_str(a), a), trimmed(attr_str(a)), attr_str(a).len() > 0
{
    let w = attr_val(v); let k = kname(kind(a)); let q = attr_str(a); rt_kname(kind(a)); rt_small(k); lemma_kfind(k); lemma_split2(q, ':'); lemma_split2(v, ':'); rt_tok_trimmed(k);
    assert(trimmed(w)) by { if v.contains(':') { rt_trimmed_trim(splitn_char(2, v, ':')[1]); } }
    if is_flag(kind(a)) { assert(attr_name(q) == k); assert(attr_val(q) =~= Seq::<char>::empty()); }
    else {
        rt_body(a, w); let b = body_str(a); reveal_strlit(":"); assert(":"@ =~= seq![':']); let c = seq![':'];
        assert(q == k + c + b); rt_find(q, ':', k.len() as int); assert(q[k.len() as int] == ':'); assert(find_char(q, ':') == k.len()); rt_trim_id(b); rt_solid(k, c, b); assert(splitn_char(2, q, ':')[0] =~= k); assert(splitn_char(2, q, ':')[1] =~= b); assert(attr_name(q) == k); assert(attr_val(q) == b);
    }
}
