//! Archives: members, names, symbol tables, thin, AIX and z/OS variants.
use crate::{harnesses, img, nd};
use nd::Buf;
use object::read::archive::{ArchiveFile, ArchiveKind, ArchiveMember, ArchiveOffset};

const H: usize = 60;
fn text(b: &mut [u8], at: usize, n: usize, s: &[u8], pad: u8) {
    let mut i = 0;
    while i < n { b[at + i] = if i < s.len() { s[i] } else { pad }; i += 1; }
}
fn decimal(b: &mut [u8], at: usize, n: usize, v: u64, zero: u8, pad: u8) {
    let mut t = [0u8; 20];
    let (mut k, mut v) = (0, v);
    loop { t[k] = zero + (v % 10) as u8; v /= 10; k += 1; if v == 0 { break; } }
    let mut i = 0;
    while i < n { b[at + i] = if i < k { t[k - 1 - i] } else { pad }; i += 1; }
}
/// a member header; returns the offset of its data
fn member(b: &mut [u8], at: usize, name: &[u8], size: u64) -> usize {
    text(b, at, 16, name, b' ');
    text(b, at + 16, 32, b"0", b' ');
    text(b, at + 28, 6, b"0", b' ');
    text(b, at + 34, 6, b"0", b' ');
    text(b, at + 40, 8, b"644", b' ');
    decimal(b, at + 48, 10, size, b'0', b' ');
    b[at + 58] = b'`';
    b[at + 59] = b'\n';
    at + H
}
/// independent number parser: digits up to the first space, or to the end of the field
fn number(d: &[u8], base: u64, zero: u8, space: u8) -> Option<u64> {
    let (mut v, mut i) = (0u64, 0);
    if d[0] == space { return None; }
    while i < d.len() && d[i] != space {
        let x = d[i].wrapping_sub(zero) as u64;
        if x >= base { return None; }
        if v > (u64::MAX - x) / base { return None; }
        v = v * base + x;
        i += 1;
    }
    Some(v)
}

struct Mem<'a> { name: &'a [u8], off: u64, size: u64, next: u64 }
/// where a member's name and data are; None if malformed
fn decode<'a>(d: &'a [u8], at: u64, names: &'a [u8], thin: bool) -> Option<Mem<'a>> {
    if !img::fits(at, H as u64, d.len()) { return None; }
    let at = at as usize;
    if d[at + 58] != b'`' || d[at + 59] != b'\n' { return None; }
    let total = number(&d[at + 48..at + 58], 10, b'0', b' ')?;
    let (mut off, mut size) = ((at + H) as u64, total);
    let h = &d[at..at + 16];
    let dig = |c: u8| c >= b'0' && c <= b'9';
    let name: &[u8];
    if h[0] == b'/' && dig(h[1]) {
        let o = nd::conc(number(&h[1..], 10, b'0', b' ')?);
        if o > names.len() as u64 { return None; }
        let mut i = o as usize;
        while i < names.len() && names[i] != b'\n' && names[i] != 0 { i += 1; }
        if i == names.len() { return None; }
        if names[i] == b'\n' {
            if i == o as usize || names[i - 1] != b'/' { return None; }
            name = &names[o as usize..i - 1];
        } else {
            name = &names[o as usize..i];
        }
    } else if h[0] == b'#' && h[1] == b'1' && h[2] == b'/' && dig(h[3]) {
        let n = nd::conc(number(&h[3..], 10, b'0', b' ')?);
        if n > size || !img::readable(off, n, d.len()) { return None; }
        let mut i = 0;
        while i < n && d[(off + i) as usize] != 0 { i += 1; }
        name = &d[off as usize..(off + i) as usize];
        off += n;
        size -= n;
    } else {
        let stop = if h[0] == b'/' { b' ' } else {
            let mut s = b' ';
            let mut i = 0;
            while i < 16 { if h[i] == b'/' { s = b'/'; } i += 1; }
            s
        };
        let mut i = 0;
        while i < 16 && h[i] != stop { i += 1; }
        name = &h[..nd::conc(i as u64) as usize];
    }
    if thin && !img::eq(name, b"/") && !img::eq(name, b"//") && !img::eq(name, b"/SYM64/") {
        return Some(Mem { name, off: 0, size, next: (at + H) as u64 });
    }
    let end = (at + H) as u64 + total;
    Some(Mem { name, off, size, next: end + (total & 1) })
}
#[track_caller]
fn same(m: &ArchiveMember<'_>, w: &Mem<'_>, d: &[u8]) {
    nd::ck_bytes(m.name(), w.name);
    nd::ck_eq(m.size(), w.size);
    nd::ck(m.file_range() == (w.off, w.size));
    nd::ck(m.is_thin() == (w.off == 0));
    let r = m.data(d);
    if w.off == 0 { nd::ck(matches!(r, Ok(&[]))); } else {
        nd::ck(r.is_ok() == img::readable(w.off, w.size, d.len()));
        if let Ok(r) = r { img::same_slice(r, d, w.off, w.size); }
    }
}

/// names, sizes and padding of a member with an arbitrary header after a names table
fn names(form: usize) {
    const T: usize = 6;
    let mut b = Buf::<152>::zero();
    let thin = form == 5 && nd::flag();
    text(&mut b.0, 0, 8, if thin { b"!<thin>\n" } else { b"!<arch>\n" }, 0);
    let t = member(&mut b.0, 8, b"//", T as u64);
    nd::fill(&mut b.0[t..t + T]);
    let at = t + T;
    let dat = member(&mut b.0, at, b"", 0);
    const D: usize = 6;
    nd::fill(&mut b.0[dat..dat + D]);
    let n = dat + D;
    let p: &[u8] = match form { 0 => b"/3", 1 => b"#1/2", 2 => b"/x", 3 => b"ab", _ => b"/0" };
    let fixed = match form { 0 | 2 => 1, 1 => 3, 3 => 0, _ => 16 };
    text(&mut b.0, at, 16, p, b' ');
    // a few arbitrary name characters
    for i in fixed..(fixed + if form == 3 { 3 } else { 2 }).min(16) { b.0[at + i] = nd::u8(); }
    if form == 3 { b.0[at + 15] = nd::u8(); }
    // or the number takes up the whole field
    if form < 2 && nd::flag() {
        for i in fixed..14 { b.0[at + i] = b'0'; }
        b.0[at + 14] = nd::u8();
        b.0[at + 15] = nd::u8();
    }
    let size = if form == 4 { 0 } else { img::pick(&[0, 1, 2, 5, 6, 7, 9_999_999_999]) };
    decimal(&mut b.0, at + 48, 10, size, b'0', b' ');
    if form == 4 { b.0[at + 48] = nd::u8(); b.0[at + 49] = nd::u8(); b.0[at + 58] = nd::u8(); b.0[at + 59] = nd::u8(); }
    if size == 0 && form == 5 { for k in [16, 28, 34, 40] { nd::fill(&mut b.0[at + k..at + k + 3]); } }
    let n = if form == 5 { nd::range(at + 59, n) } else { n };
    let d = &b[..n];
    let f = nd::must(ArchiveFile::parse(d));
    nd::ck(f.kind() == ArchiveKind::Gnu && f.is_thin() == thin && nd::must(f.symbols()).is_none());
    let table = &d[t..t + T];
    let mut it = f.members();
    let w = decode(d, at as u64, table, thin);
    let m = nd::some(it.next());
    nd::ck(m.is_ok() == w.is_some());
    let by = f.member(ArchiveOffset(at as u64));
    nd::ck(by.is_ok() == w.is_some());
    let (Ok(m), Some(w)) = (m, w) else { nd::ck(it.next().is_none()); return };
    same(&m, &w, d);
    same(&nd::must(by), &w, d);
    let num = |o: usize, k: usize, base| number(&d[at + o..at + o + k], base, b'0', b' ');
    if form == 5 {
        nd::ck(m.date() == num(16, 12, 10));
        nd::ck(m.uid() == num(28, 6, 10));
        nd::ck(m.gid() == num(34, 6, 10));
        nd::ck(m.mode() == num(40, 8, 8));
    }
    nd::ck(nd::some(m.header()) as *const _ as usize == d.as_ptr() as usize + at && m.aix_header().is_none());
    // what follows is a next member only if there are bytes left
    let next = it.next();
    if w.next >= n as u64 { nd::ck(next.is_none()); } else { let x = nd::some(next); nd::ck(x.is_err()); nd::ck(it.next().is_none()); }
    nd::reach(1);
}

/// up to four members with special names in any order
fn special() {
    let mut b = Buf::<280>::zero();
    let thin = nd::flag();
    text(&mut b.0, 0, 8, if thin { b"!<thin>\n" } else { b"!<arch>\n" }, 0);
    const S: [&[u8]; 9] = [b"/", b"//", b"/SYM64/", b"/<ECSYMBOLS>/", b"__.SYMDEF", b"__.SYMDEF SORTED", b"__.SYMDEF_64", b"x/", b"#1/20"];
    let count = nd::below(5);
    let mut at = 8;
    let mut which = [9usize; 4];
    for i in 0..count {
        // only the members that may follow the first ones matter
        let k = if i == 0 { nd::below(9) } else { [0, 1, 3, 7][nd::below(4)] };
        which[i] = k;
        let bsd = k == 8;
        let size = if bsd { 22 } else { [2, 1, 0, 1][i] };
        let t = member(&mut b.0, at, S[k], size);
        if bsd { text(&mut b.0, t, 20, b"__.SYMDEF_64 SORTED", 0); }
        at = t + (size + (size & 1)) as usize;
        // thin members have no data
        if thin && (k >= 3) { at = t; }
    }
    if thin && count > 0 { nd::assume(which[0] != 8); }
    let n = at;
    let d = &b[..n];
    let r = ArchiveFile::parse(d);
    let f = nd::must(r);
    let mut it0 = 0;
    let mut kind = ArchiveKind::Unknown;
    let (mut sym, mut skip) = (None, 0);
    let w = |i: usize| which[i];
    if count > 0 {
        it0 = w(0);
        skip = 1;
        match it0 {
            0 => {
                kind = ArchiveKind::Gnu;
                sym = Some(0);
                if count > 1 && w(1) == 1 { skip = 2; }
                else if count > 1 && w(1) == 0 {
                    kind = ArchiveKind::Coff;
                    sym = Some(1);
                    skip = 2;
                    if count > 2 && w(2) == 1 { skip = 3; }
                    if count > skip && w(skip) == 3 { skip += 1; }
                }
            }
            2 => { kind = ArchiveKind::Gnu64; sym = Some(0); if count > 1 && w(1) == 1 { skip = 2; } }
            1 => kind = ArchiveKind::Gnu,
            4 | 5 => { kind = ArchiveKind::Bsd; sym = Some(0); }
            6 | 8 => { kind = ArchiveKind::Bsd64; sym = Some(0); }
            _ => skip = 0,
        }
    }
    let _ = it0;
    nd::ck(f.kind() == kind);
    nd::ck(f.is_thin() == thin);
    let mut it = f.members();
    let mut at = 8u64;
    for i in 0..count {
        let m = decode(d, at, &[], thin);
        let m = nd::some(m);
        if i >= skip {
            same(&nd::must(nd::some(it.next())), &m, d);
            same(&nd::must(f.member(ArchiveOffset(at))), &m, d);
        } else {
            nd::ck(f.member(ArchiveOffset(at)).is_err());
        }
        if sym == Some(i) { nd::reach(1); }
        at = m.next;
    }
    nd::ck(it.next().is_none());
    nd::ck(f.member(ArchiveOffset(n as u64)).is_err());
    // tables this small have no entries or are too short to have a count
    if sym.is_none() { nd::ck(matches!(f.symbols(), Ok(None))); }
}

/// symbol tables of each kind with arbitrary counts, offsets and names
fn symbols(kind: usize) {
    const N: usize = 32;
    let mut b = Buf::<216>::zero();
    text(&mut b.0, 0, 8, b"!<arch>\n", 0);
    let name: &[u8] = [&b"/"[..], b"/SYM64/", b"__.SYMDEF", b"__.SYMDEF_64 SORTED", b"/"][kind];
    let mut at = 8;
    if kind == 4 { at = member(&mut b.0, at, b"/", 0); }
    let mut size = N as u64;
    let mut t;
    if kind == 3 {
        t = member(&mut b.0, at, b"#1/20", size + 20);
        text(&mut b.0, t, 20, name, 0);
        t += 20;
    } else {
        t = member(&mut b.0, at, name, size);
    }
    nd::fill(&mut b.0[t..t + N]);
    let (w, big) = match kind { 0 => (4, true), 1 => (8, true), 2 => (4, false), 3 => (8, false), _ => (4, false) };
    let step = match kind { 2 => 8, 3 => 16, _ => 1 };
    let count = if nd::flag() { nd::below(3) as u64 } else { img::pick(&[7, 8, 0x1000_0000]) };
    let bump = if step > 1 { img::pick(&[0, step - 1]) } else { 0 };
    img::put(&mut b.0, t, w, count * step + bump, big);
    let mut pos = t + w;
    // where the second count is, for those with one
    let valid = |n: u64, es: usize, pos: usize| n <= ((t + N - pos) / es) as u64;
    let mut ok;
    let es = match kind { 0 | 4 => 4, 1 => 8, 2 => 8, _ => 16 };
    ok = valid(count, es, pos);
    let first = pos;
    if ok { pos += count as usize * es; }
    let mut idx = 0;
    let mut nsym = count;
    let mut name_end = t + N;
    if ok && kind >= 2 {
        ok = pos + w <= t + N;
        if ok {
            let v = img::pick(&[0, 1, 2, 3, 0xffff_ffff]);
            img::put(&mut b.0, pos, w, v, big);
            pos += w;
            if kind == 4 { nsym = v; ok = valid(v, 2, pos); idx = pos; if ok { pos += 2 * v as usize; } }
            else { ok = valid(v, 1, pos); if ok { name_end = pos + v as usize; } }
        }
    }
    // entries refer to names and members at boundary positions
    if ok && (kind == 2 || kind == 3) { for i in 0..count as usize { let o = img::pick(&[0, 1, 0xffff_ffff]); img::put(&mut b.0, first + i * es, w, o, big); } }
    if ok && kind == 4 { for i in 0..nsym as usize { let o = img::pick(&[0, 1, 2, 3]); img::put(&mut b.0, idx + 2 * i, 2, o, big); } }
    size += 0;
    let n = t + size as usize;
    let d = &b[..n];
    let f = nd::must(ArchiveFile::parse(d));
    nd::ck(f.kind() == [ArchiveKind::Gnu, ArchiveKind::Gnu64, ArchiveKind::Bsd, ArchiveKind::Bsd64, ArchiveKind::Coff][kind]);
    nd::ck(f.members().next().is_none());
    let r = f.symbols();
    nd::ck(r.is_ok() == ok);
    let Ok(r) = r else { return };
    let mut it = nd::some(r);
    nd::ck(it.size_hint() == (nsym as usize, Some(nsym as usize)));
    let mut at = pos;
    for i in 0..nsym as usize {
        let s = nd::some(it.next());
        let (start, off) = match kind {
            0 | 1 => (at, Some(img::get(d, first + i * es, w, big))),
            2 | 3 => (pos.wrapping_add(img::get(d, first + i * es, w, big) as usize), Some(img::get(d, first + i * es + w, w, big))),
            _ => {
                let k = img::get(d, idx + 2 * i, 2, false);
                (at, if k >= 1 && k <= count { Some(img::get(d, first + 4 * (k as usize - 1), 4, false)) } else { None })
            }
        };
        let nm = if start > name_end { None } else { img::cstr(d, start as u64, name_end as u64) };
        nd::ck(s.is_ok() == (nm.is_some() && off.is_some()));
        match nm { Some(x) => at = start + x.len() + 1, None => at = name_end }
        if let (Ok(s), Some(nm), Some(off)) = (s, nm, off) {
            nd::ck_bytes(s.name(), nm);
            nd::ck_eq(s.offset().0, off);
            nd::reach(1);
        }
    }
    nd::ck(it.next().is_none());
}

/// archive magic and truncation
fn magic() {
    let mut b = Buf::<24>::any();
    let k = nd::below(4);
    if k < 3 { text(&mut b.0, 0, 8, [&b"!<arch>\n"[..], b"!<thin>\n", b"\x5A\x4C\x81\x99\x83\x88\x6E\x15"][k], 0); }
    let p = nd::below(8);
    b.0[p] = nd::u8();
    let n = nd::range(6, 9);
    let d = &b[..n];
    let r = ArchiveFile::parse(d);
    let is = |m: &[u8]| n >= 8 && img::eq(&d[..8], m);
    let any = is(b"!<arch>\n") || is(b"!<thin>\n") || is(b"\x5A\x4C\x81\x99\x83\x88\x6E\x15");
    nd::ck(r.is_ok() == (any && n == 8));
    if let Ok(f) = r {
        nd::ck(f.members().next().is_none());
        nd::ck(f.kind() == if is(b"\x5A\x4C\x81\x99\x83\x88\x6E\x15") { ArchiveKind::Zos } else { ArchiveKind::Unknown });
        nd::reach(1);
    }
}

fn aix(form: usize) {
    let mut b = Buf::<520>::zero();
    text(&mut b.0, 0, 8, b"<bigaf>\n", 0);
    for i in 0..6 { text(&mut b.0, 8 + 20 * i, 20, b"0", b' '); }
    const A: usize = 128;
    // two members with names of 0 to 3 bytes
    let put = |b: &mut [u8], at: usize, namlen: u64, size: u64| -> usize {
        text(b, at, 112, b"", b' ');
        decimal(b, at, 20, size, b'0', b' ');
        for (o, w) in [(20, 20), (40, 20), (60, 12), (72, 12), (84, 12), (96, 12)] { text(b, at + o, w, b"0", b' '); }
        decimal(b, at + 108, 4, namlen, b'0', b' ');
        let mut e = at + 112 + namlen as usize;
        e += e & 1;
        b[e] = b'`';
        b[e + 1] = b'\n';
        e + 2
    };
    let nl = if form == 0 { nd::below(4) } else { 1 };
    let at = A + if form == 0 && nd::flag() { 1 } else { 0 };
    let size = img::pick(&[0, 3, 8, 9_999]);
    let data = put(&mut b.0, at, nl as u64, size);
    nd::fill(&mut b.0[at + 112..at + 112 + nl]);
    let t = data + 4;
    let count = if form == 1 { img::pick(&[0, 1, 2, 3]) } else { 1 };
    let td = put(&mut b.0, t, 0, 20 + 40);
    decimal(&mut b.0, 8, 20, if form == 1 && nd::flag() { 0 } else { t as u64 }, b'0', b' ');
    let none = b.0[8] == b'0';
    decimal(&mut b.0, td, 20, count, b'0', b' ');
    decimal(&mut b.0, td + 20, 20, if form == 1 && nd::flag() { 9_999 } else { at as u64 }, b'0', b' ');
    decimal(&mut b.0, td + 40, 20, img::pick(&[at as u64, 9_999]), b'0', b' ');
    if form == 2 {
        for o in [60, 72, 84, 96] { nd::fill(&mut b.0[at + o..at + o + 2]); }
        b.0[at + 1] = nd::u8();
        let e = data - 2;
        b.0[e + nd::below(2)] = nd::u8();
    }
    if form == 3 {
        // a 20 digit size around the largest number
        text(&mut b.0, at, 20, b"18446744073709551600", b' ');
        for i in 17..20 { b.0[at + i] = nd::u8(); }
    }
    let n = td + 60 - if form == 1 { nd::below(2) } else { 0 };
    let d = &b[..n];
    let r = ArchiveFile::parse(d);
    let ok = none || (n == td + 60 && count <= 2);
    nd::ck(r.is_ok() == ok);
    let Ok(f) = r else { return };
    nd::ck(f.kind() == ArchiveKind::AixBig && !f.is_thin());
    let mut it = f.members();
    if none { nd::ck(it.next().is_none()); return; }
    nd::ck(matches!(f.symbols(), Ok(None)));
    let mut failed = false;
    for i in 0..count as usize {
        if failed { break; }
        let m = nd::some(it.next());
        let o = nd::some(number(&d[td + 20 + 20 * i..td + 40 + 20 * i], 10, b'0', b' '));
        let sz = number(&d[at..at + 20], 10, b'0', b' ');
        let good = o == at as u64 && sz.is_some() && d[data - 2] == b'`' && d[data - 1] == b'\n';
        nd::ck(m.is_ok() == good);
        nd::ck(f.member(ArchiveOffset(o)).is_ok() == good);
        if let (Ok(m), Some(sz)) = (m, sz) {
            nd::ck_bytes(m.name(), &d[at + 112..at + 112 + nl]);
            nd::ck_eq(m.size(), sz);
            nd::ck(m.file_range() == (data as u64, sz));
            let r = m.data(d);
            nd::ck(r.is_ok() == img::readable(data as u64, sz, n));
            if let Ok(r) = r { img::same_slice(r, d, data as u64, sz); }
            let num = |o: usize, base| number(&d[at + o..at + o + 12], base, b'0', b' ');
            nd::ck(m.date() == num(60, 10) && m.uid() == num(72, 10) && m.gid() == num(84, 10) && m.mode() == num(96, 8));
            nd::ck(nd::some(m.aix_header()) as *const _ as usize == d.as_ptr() as usize + at && m.header().is_none());
            nd::reach(1);
        } else { failed = true; }
    }
    nd::ck(it.next().is_none());
}
/// AIX symbol table members must be well formed wherever the header points
fn aix_symbols() {
    let mut b = Buf::<260>::zero();
    text(&mut b.0, 0, 8, b"<bigaf>\n", 0);
    for i in 0..6 { text(&mut b.0, 8 + 20 * i, 20, b"0", b' '); }
    let at = 128;
    text(&mut b.0, at, 112, b"", b' ');
    text(&mut b.0, at, 20, b"4", b' ');
    text(&mut b.0, at + 108, 4, b"0", b' ');
    b.0[at + 112] = b'`';
    b.0[at + 113] = nd::u8();
    let o64 = img::pick(&[0, 128, 300]);
    let o32 = img::pick(&[0, 128, 300]);
    decimal(&mut b.0, 28, 20, o32, b'0', b' ');
    decimal(&mut b.0, 48, 20, o64, b'0', b' ');
    b.0[48 + 3] = nd::u8();
    let d = &b[..250];
    let good = d[at + 113] == b'\n';
    let off = |o: u64| o == 0 || (o == 128 && good);
    let n64 = number(&d[48..68], 10, b'0', b' ');
    let ok = match n64 { None => false, Some(0) => off(o32), Some(o) => off(o) && o != 0 };
    let r = ArchiveFile::parse(d);
    nd::ck(r.is_ok() == ok);
    if let Ok(f) = r {
        let has = n64 != Some(0) || o32 != 0;
        nd::ck(nd::must(f.symbols()).is_some() == has);
        if let Some(mut s) = nd::must(f.symbols()) { nd::ck(s.next().is_none()); }
        nd::reach(1);
    }
}

fn zos() {
    const SP: u8 = 0x40;
    let mut b = Buf::<160>::zero();
    text(&mut b.0, 0, 8, b"\x5A\x4C\x81\x99\x83\x88\x6E\x15", 0);
    let put = |b: &mut [u8], at: usize, name: &[u8], size: u64| {
        text(b, at, 16, name, SP);
        text(b, at + 16, 32, b"", SP);
        for o in [16, 28, 34, 40] { b[at + o] = 0xf1; }
        decimal(b, at + 48, 10, size, 0xf0, SP);
        b[at + 58] = 0x79;
        b[at + 59] = 0x15;
        at + H
    };
    let sym = nd::flag();
    let symname = [0x6D, 0x6D, 0x4B, 0xE2, 0xE8, 0xD4, 0xC4, 0xC5, 0xC6];
    let mut at = 8;
    if sym { at = put(&mut b.0, at, &symname, 1) + 2; }
    let size = img::pick(&[0, 1, 2, 3, 9_999]);
    let dat = put(&mut b.0, at, b"", size);
    nd::fill(&mut b.0[dat..dat + 4]);
    let form = nd::below(3);
    match form {
        0 => { nd::fill(&mut b.0[at..at + 3]); nd::assume(b.0[at] != 0x7b); }
        1 => { text(&mut b.0, at, 16, &[0x7b, 0xf1, 0x61, 0xf2], SP); b.0[at + 3] = nd::u8(); b.0[at + 4] = nd::u8(); }
        _ => { b.0[at] = 0x81; for o in [17, 29, 35, 41, 48, 49, 58, 59] { b.0[at + o] = nd::u8(); } }
    }
    let n = dat + 4;
    let d = &b[..n];
    // the first member decides whether there is a symbol table
    let total = number(&d[at + 48..at + 58], 10, 0xf0, SP);
    let term = d[at + 58] == 0x79 && d[at + 59] == 0x15;
    let mut w = None;
    if let (Some(total), true) = (total, term) {
        let (mut off, mut size) = (dat as u64, total);
        let mut name = Some((at as u64, 0u64));
        if form == 1 && d[at + 3] >= 0xf0 && d[at + 3] <= 0xf9 {
            let k = number(&d[at + 3..at + 16], 10, 0xf0, SP).map(|k| nd::conc(k));
            name = None;
            if let Some(k) = k {
                if k <= size && img::readable(off, k, n) {
                    let mut i = 0;
                    while i < k && d[(off + i) as usize] != 0 { i += 1; }
                    name = Some((off, i));
                    off += k;
                    size -= k;
                }
            }
        } else {
            let mut i = 0;
            while i < 16 && d[at + i] != SP { i += 1; }
            name = Some((at as u64, i as u64));
        }
        if let Some((s, k)) = name { let k = nd::conc(k); w = Some((s as usize, k as usize, off, size, dat as u64 + total + (total & 1))); }
    }
    let r = ArchiveFile::parse(d);
    nd::ck(r.is_ok() == (sym || w.is_some()));
    let Ok(f) = r else { return };
    // an extended name can spell the symbol table too
    if let Some((s, k, ..)) = w { nd::assume(sym || !img::eq(&d[s..s + k], &symname)); }
    nd::ck(f.kind() == ArchiveKind::Zos);
    nd::ck(nd::must(f.symbols()).is_some() == sym);
    let mut it = f.members();
    let m = nd::some(it.next());
    nd::ck(m.is_ok() == w.is_some());
    let by = f.member(ArchiveOffset(at as u64));
    nd::ck(by.is_ok() == w.is_some());
    if sym { nd::ck(f.member(ArchiveOffset(8)).is_err()); }
    let (Ok(m), Some((s, k, off, size, next))) = (m, w) else { nd::ck(it.next().is_none()); return };
    nd::ck_bytes(m.name(), &d[s..s + k]);
    nd::ck(m.file_range() == (off, size));
    nd::ck_bytes(nd::must(by).name(), m.name());
    let num = |o: usize, w: usize, base| number(&d[at + o..at + o + w], base, 0xf0, SP);
    nd::ck(m.date() == num(16, 12, 10) && m.uid() == num(28, 6, 10) && m.gid() == num(34, 6, 10) && m.mode() == num(40, 8, 8));
    let x = it.next();
    if next >= n as u64 { nd::ck(x.is_none()); } else { nd::ck(nd::some(x).is_err()); nd::ck(it.next().is_none()); }
    nd::reach(1);
}

harnesses! {
    /// name references into a names table of 6 arbitrary bytes, offset of two arbitrary characters
    /// @reach 1
    fn c12_sysv_name() { names(0); }
    /// BSD extended names, length of two arbitrary characters
    /// @reach 1
    fn c12_bsd_name() { names(1); }
    /// names starting with a slash
    /// @reach 1
    fn c12_slash_name() { names(2); }
    /// short names with arbitrary characters at the start and end
    /// @reach 1
    fn c12_short_name() { names(3); }
    /// arbitrary size digits and terminator
    /// @reach 1
    fn c12_size() { names(4); }
    /// numeric fields, thin members and truncation
    /// @reach 1
    fn c12_fields() { names(5); }
    /// special members in any order, up to four
    /// @reach 1
    fn c12_special() { special(); }
    /// GNU symbol table of 32 arbitrary bytes
    /// @reach 1
    fn c12_symbols_gnu() { symbols(0); }
    /// GNU 64-bit symbol table
    /// @reach 1
    fn c12_symbols_gnu64() { symbols(1); }
    /// BSD symbol table
    /// @reach 1
    fn c12_symbols_bsd() { symbols(2); }
    /// BSD 64-bit symbol table
    fn c12_symbols_bsd64() { symbols(3); }
    /// COFF second linker member
    /// @reach 1
    fn c12_symbols_coff() { symbols(4); }
    /// archive identification of 8 bytes near a valid one, truncation
    /// @reach 1
    fn c12_magic() { magic(); }
    /// AIX big archive members at odd and even offsets
    /// @reach 1
    fn c12_aix() { aix(0); }
    /// AIX member table counts
    /// @reach 1
    fn c12_aix_table() { aix(1); }
    /// AIX member fields
    /// @reach 1
    fn c12_aix_fields() { aix(2); }
    /// AIX sizes around the largest number
    /// @reach 1
    fn c12_aix_size() { aix(3); }
    /// AIX symbol table offsets
    /// @reach 1
    fn c12_aix_symbols() { aix_symbols(); }
    /// z/OS members
    /// @reach 1
    fn c12_zos() { zos(); }
}
