//! Mach-O dyld information: rebase and bind opcodes, exports trie, function starts, chained fixups.
use crate::{harnesses, img, nd};
use nd::Buf;
use object::macho::{self, PtrauthKey};
use object::read::macho as rm;
use object::{pod, Endianness, LittleEndian as LE};
use rm::{BindOperation as B, Fixup, RebaseOperation as R};

fn put(b: &mut [u8], off: usize, n: usize, v: u64, big: bool) { img::put(b, off, n, v, big) }
fn get(b: &[u8], off: usize, n: usize) -> u64 { img::get(b, off, n, false) }
/// (value, bytes used) of a little base 128 number of at most nine bytes
fn uleb(d: &[u8]) -> Option<(u64, usize)> {
    let mut v = 0;
    let mut i = 0;
    while i < d.len() {
        v |= ((d[i] & 0x7f) as u64) << (7 * i);
        i += 1;
        if d[i - 1] < 0x80 { return Some((v, i)); }
    }
    None
}
fn sleb(d: &[u8]) -> Option<(i64, usize)> {
    let (v, n) = uleb(d)?;
    let sh = 64 - 7 * n as u32;
    Some(((v << sh) as i64 >> sh, n))
}
/// dyld info command for ranges of `data` (16 bytes each): rebase, bind, weak, lazy, export
fn command(b: &mut [u8; 48], big: bool, at: &[(u64, u64); 5]) {
    put(b, 0, 4, 0x8000_0022, big);
    put(b, 4, 4, 48, big);
    for i in 0..5 { put(b, 8 + 8 * i, 4, at[i].0, big); put(b, 12 + 8 * i, 4, at[i].1, big); }
}
/// the ranges of the command
fn ranges() {
    let big = nd::flag();
    let e = if big { Endianness::Big } else { Endianness::Little };
    let mut c = [0u8; 48];
    let k = nd::below(5);
    let mut at = [(1, 0), (2, 0), (3, 0), (4, 0), (5, 0)];
    at[k] = (img::pick(&[0, 7, 12, 13, 0xffff_ffff]), img::pick(&[0, 1, 5, 12, 13, 0xffff_ffff]));
    command(&mut c, big, &at);
    let d: [u8; 12] = nd::bytes();
    let (c, _) = nd::must(pod::from_bytes::<macho::DyldInfoCommand<Endianness>>(&c));
    let rs = [c.rebase_data(e, &d[..]), c.bind_data(e, &d[..]), c.weak_bind_data(e, &d[..]), c.lazy_bind_data(e, &d[..]), c.export_data(e, &d[..])];
    for i in 0..5 {
        let ok = img::readable(at[i].0, at[i].1, 12);
        nd::ck(rs[i].is_ok() == ok);
        if let Ok(r) = rs[i] { img::same_slice(r, &d, at[i].0, at[i].1); }
    }
    let it = [c.rebase_operations(e, &d[..]).is_ok(), c.bind_operations(e, &d[..]).is_ok(), c.weak_bind_operations(e, &d[..]).is_ok(), c.lazy_bind_operations(e, &d[..]).is_ok(), c.exports_trie(e, &d[..]).is_ok()];
    for i in 0..5 { nd::ck(it[i] == rs[i].is_ok()); }
    nd::reach(1);
}
fn info(n: u64) -> [u8; 48] {
    let mut c = [0u8; 48];
    command(&mut c, false, &[(0, n), (0, n), (0, n), (0, n), (0, n)]);
    c
}
fn dyld(c: &[u8; 48]) -> &macho::DyldInfoCommand<LE> { nd::must(pod::from_bytes::<macho::DyldInfoCommand<LE>>(c)).0 }

/// any rebase operation, then whatever follows
fn rebase_op() {
    let d: [u8; 5] = nd::bytes();
    let n = nd::range(1, 5);
    let d = &d[..n];
    let c = info(n as u64);
    let mut it = nd::must(dyld(&c).rebase_operations(LE, d));
    let r = it.next();
    let (op, imm) = (d[0] >> 4, d[0] & 15);
    let one = uleb(&d[1..]);
    let want = match op {
        0 => Some((R::Done, 1)),
        1 => Some((R::SetType { kind: macho::RebaseType(imm) }, 1)),
        2 => one.map(|(v, k)| (R::SetSegmentAndOffset { index: imm, offset: v }, 1 + k)),
        3 => one.map(|(v, k)| (R::AddAddr { offset: v }, 1 + k)),
        4 => Some((R::AddAddrScaled { count: imm }, 1)),
        5 => Some((R::DoRebaseTimes { count: imm as u64 }, 1)),
        6 => one.map(|(v, k)| (R::DoRebaseTimes { count: v }, 1 + k)),
        7 => one.map(|(v, k)| (R::DoRebaseAddAddr { offset: v }, 1 + k)),
        8 => one.and_then(|(v, k)| uleb(&d[1 + k..]).map(|(w, l)| (R::DoRebaseTimesSkipping { count: v, skip: w }, 1 + k + l))),
        _ => None,
    };
    nd::ck(r.is_ok() == want.is_some());
    let Some((want, used)) = want else {
        // an error ends it
        nd::ck(nd::must(it.next()).is_none());
        nd::reach(1);
        return;
    };
    let (o, r) = nd::some(nd::must(r));
    nd::ck(o.0 == op << 4 && r == want);
    // the next operation starts right behind
    let c = info((n - used) as u64);
    let mut jt = nd::must(dyld(&c).rebase_operations(LE, &d[used..]));
    let (x, y) = (it.next(), jt.next());
    nd::ck(x.is_ok() == y.is_ok());
    if let (Ok(x), Ok(y)) = (x, y) { nd::ck(x == y); }
    nd::reach(2);
}
/// any bind operation
fn bind_op() {
    let d: [u8; 5] = nd::bytes();
    let n = nd::range(1, 5);
    let d = &d[..n];
    let c = info(n as u64);
    let which = nd::below(3);
    let mut it = nd::must(match which { 0 => dyld(&c).bind_operations(LE, d), 1 => dyld(&c).weak_bind_operations(LE, d), _ => dyld(&c).lazy_bind_operations(LE, d) });
    let r = it.next();
    let (op, imm) = (d[0] >> 4, d[0] & 15);
    let one = uleb(&d[1..]);
    let want = match op {
        0 => Some((B::Done, 1)),
        1 => Some((B::SetDylibOrdinal { ordinal: imm as u64 }, 1)),
        2 => one.map(|(v, k)| (B::SetDylibOrdinal { ordinal: v }, 1 + k)),
        3 => Some((B::SetDylibSpecial { ordinal: macho::BindDylib(if imm == 0 { 0 } else { imm as i32 - 16 }) }, 1)),
        4 => img::cstr(d, 1, n as u64).map(|s| (B::SetSymbol { flags: macho::BindSymbolFlags(imm), name: s }, 2 + s.len())),
        5 => Some((B::SetType { kind: macho::BindType(imm) }, 1)),
        6 => sleb(&d[1..]).map(|(v, k)| (B::SetAddend { addend: v }, 1 + k)),
        7 => one.map(|(v, k)| (B::SetSegmentAndOffset { segment_index: imm, offset: v }, 1 + k)),
        8 => one.map(|(v, k)| (B::AddAddr { offset: v }, 1 + k)),
        9 => Some((B::DoBind, 1)),
        10 => one.map(|(v, k)| (B::DoBindAddAddr { offset: v }, 1 + k)),
        11 => Some((B::DoBindAddAddrScaled { count: imm }, 1)),
        12 => one.and_then(|(v, k)| uleb(&d[1 + k..]).map(|(w, l)| (B::DoBindTimesSkipping { count: v, skip: w }, 1 + k + l))),
        _ => None,
    };
    nd::ck(r.is_ok() == want.is_some());
    let Some((want, used)) = want else { nd::ck(nd::must(it.next()).is_none()); nd::reach(1); return };
    let (o, r) = nd::some(nd::must(r));
    nd::ck(o.0 == op << 4 && r == want);
    if used < n { nd::ck(match it.next() { Ok(Some((o, _))) => o.0 == d[used] & 0xf0, Ok(None) => false, Err(_) => true }); } else { nd::ck(nd::must(it.next()).is_none()); }
    nd::reach(2);
}

// ---- evaluation: operations are encoded here, and run by an independent machine ----
struct Asm { b: [u8; 40], n: usize }
impl Asm {
    fn byte(&mut self, v: u8) { self.b[self.n] = v; self.n += 1; }
    /// a number of `k` bytes
    fn num(&mut self, v: u64, k: usize) { for i in 0..k { self.byte((v >> (7 * i)) as u8 & 0x7f | if i + 1 < k { 0x80 } else { 0 }); } }
}
/// an arbitrary operand that takes two bytes
fn operand() -> u64 { let (l, h) = (nd::u8() & 0x7f, nd::u8() & 0x7f); l as u64 | (h as u64) << 7 }
fn rebases() {
    let ptr = [4u8, 8][nd::below(2)];
    let mut a = Asm { b: [0; 40], n: 0 };
    // the state, and expected results
    let (mut seg, mut ty) = (None, None);
    let mut off = 0u64;
    let mut want: Vec<(u8, u64, u8)> = Vec::new();
    let mut bad = false;
    let mut done = false;
    let setup = nd::below(4);
    for i in 0..5 {
        let op = match i { 0 => if setup & 1 != 0 { 1 } else { continue }, 1 => if setup & 2 != 0 { 2 } else { continue }, 4 => 5, _ => nd::below(9) };
        let imm = if op == 5 || op == 6 { nd::below(3) as u8 } else { nd::u8() & 15 };
        a.byte((op as u8) << 4 | if op == 6 { 0 } else { imm });
        let p = ptr as u64;
        let mut emit = |times: u64, step: u64| {
            if done || bad { return; }
            for _ in 0..times {
                let (Some(s), Some(t)) = (seg, ty) else { bad = true; return };
                want.push((s, off, t));
                off = off.wrapping_add(step);
            }
        };
        match op {
            0 => done = true,
            1 => if !done { ty = Some(imm) },
            2 => { let v = operand(); a.num(v, 2); if !done { seg = Some(imm); off = v; } }
            3 => { let v = operand(); a.num(v, 2); off = off.wrapping_add(v); }
            4 => off = off.wrapping_add(imm as u64 * p),
            5 => emit(imm as u64, p),
            6 => { a.num(imm as u64, 1); emit(imm as u64, p) }
            7 => { let v = operand(); a.num(v, 2); emit(1, p + v) }
            _ => { let t = nd::below(3) as u64; let v = operand(); a.num(t, 1); a.num(v, 2); emit(t, p + v) }
        }
    }
    let c = info(a.n as u64);
    let mut it = nd::must(dyld(&c).rebases(LE, &a.b[..], ptr));
    for (s, o, t) in want {
        let r = nd::some(nd::must(it.next()));
        nd::ck(r.segment_index == s && r.kind.0 == t);
        nd::ck_eq(r.segment_offset, o);
        nd::reach(1);
    }
    let r = it.next();
    nd::ck(r.is_err() == bad);
    if let Ok(r) = r { nd::ck(r.is_none()); } else { nd::ck(nd::must(it.next()).is_none()); nd::reach(2); }
}
#[derive(Clone, Copy)]
struct St { seg: Option<u8>, off: u64, ty: Option<u8>, lib: Option<i32>, sym: Option<(u8, u8)>, add: i64 }
/// `which`: ordinary, weak or lazy
fn binds(which: usize) {
    let ptr = [4u8, 8][nd::below(2)];
    let mut a = Asm { b: [0; 40], n: 0 };
    let start = St { seg: None, off: 0, ty: if which > 0 { Some(1) } else { None }, lib: if which == 1 { Some(-3) } else { None }, sym: None, add: 0 };
    let mut s = start;
    let mut want: Vec<St> = Vec::new();
    let (mut bad, mut done) = (false, false);
    // everything is set up, or all but one
    let miss = nd::below(5);
    for i in 0..7 {
        let op = match i { 0 => 5, 1 => 7, 2 => 1, 3 => 4, 6 => 9, _ => nd::below(13) };
        if i == miss { continue; }
        let imm = nd::u8() & 15;
        a.byte((op as u8) << 4 | imm);
        let p = ptr as u64;
        let live = !done && !bad;
        let mut t = s;
        let mut emit = |t: &mut St, times: u64, step: u64| {
            if !live { return; }
            for _ in 0..times {
                if t.seg.is_none() || t.ty.is_none() || t.lib.is_none() || t.sym.is_none() { bad = true; return }
                want.push(*t);
                t.off = t.off.wrapping_add(step);
            }
        };
        match op {
            0 => if which == 2 { t = start } else { done = true },
            1 => t.lib = Some(imm as i32),
            2 => {
                let big = nd::flag();
                let v = if big { 0x8000_0000 } else { operand() };
                a.num(v, if big { 5 } else { 2 });
                if big { if live { bad = true } } else { t.lib = Some(v as i32) }
            }
            3 => t.lib = Some(if imm == 0 { 0 } else { imm as i32 - 16 }),
            4 => { let x = nd::u8(); nd::assume(x != 0); a.byte(x); a.byte(0); t.sym = Some((imm, x)) }
            5 => t.ty = Some(imm),
            6 => { let v = operand(); a.num(v, 2); t.add = (v << 50) as i64 >> 50 }
            7 => { let v = operand(); a.num(v, 2); t.seg = Some(imm); t.off = v; }
            8 => { let v = operand(); a.num(v, 2); t.off = t.off.wrapping_add(v); }
            9 => emit(&mut t, 1, p),
            10 => { let v = operand(); a.num(v, 2); emit(&mut t, 1, p + v) }
            11 => emit(&mut t, 1, p * (imm as u64 + 1)),
            _ => { let n = nd::below(3) as u64; let v = operand(); a.num(n, 1); a.num(v, 2); emit(&mut t, n, p + v) }
        }
        if live { s = t; }
    }
    let c = info(a.n as u64);
    let c = dyld(&c);
    let mut it = nd::must(match which { 0 => c.binds(LE, &a.b[..], ptr), 1 => c.weak_binds(LE, &a.b[..], ptr), _ => c.lazy_binds(LE, &a.b[..], ptr) });
    for w in want {
        let r = nd::some(nd::must(it.next()));
        let (fl, x) = nd::some(w.sym);
        nd::ck(Some(r.segment_index) == w.seg && Some(r.kind.0) == w.ty && Some(r.dylib.0) == w.lib && r.flags.0 == fl && r.addend == w.add);
        nd::ck_eq(r.segment_offset, w.off);
        nd::ck_bytes(r.symbol, &[x]);
        nd::reach(1);
    }
    let r = it.next();
    nd::ck(r.is_err() == bad);
    if let Ok(r) = r { nd::ck(r.is_none()); } else { nd::ck(nd::must(it.next()).is_none()); nd::reach(2); }
}

/// function starts are the running sum of the differences
fn starts() {
    const L: usize = nd::tier(5, 6);
    let d: [u8; L] = nd::bytes();
    let n = nd::below(L + 1);
    let base = nd::u64();
    let mut c = [0u8; 16];
    let kind = img::pick(&[0x26, 0x29]);
    put(&mut c, 0, 4, kind, false);
    put(&mut c, 4, 4, 16, false);
    put(&mut c, 8, 4, (L - n) as u64, false);
    put(&mut c, 12, 4, n as u64, false);
    let (c, _) = nd::must(pod::from_bytes::<macho::LinkeditDataCommand<LE>>(&c));
    let r = c.function_starts(LE, &d[..], base);
    nd::ck(r.is_ok() == (kind == 0x26));
    let Ok(mut it) = r else { return };
    let mut at = L - n;
    let mut addr = base;
    while at < L {
        let Some((v, k)) = uleb(&d[at..]) else { nd::ck(it.next().is_err()); nd::reach(1); break };
        if v == 0 { break; }
        let Some(a) = addr.checked_add(v) else { nd::ck(it.next().is_err()); nd::reach(2); break };
        addr = a;
        at += k;
        nd::ck_eq(nd::some(nd::must(it.next())), addr);
        nd::reach(3);
    }
    nd::ck(nd::must(it.next()).is_none());
}

/// three nodes in a line or in a fork
fn trie() {
    let mut a = Asm { b: [0; 40], n: 0 };
    let fork = nd::flag();
    let which = nd::below(3);
    let at = [0usize, 15, 28];
    // edges: [from] -> list of (bytes, to)
    let e1: [u8; 2] = nd::bytes();
    let e2 = nd::u8();
    let e3 = nd::u8();
    nd::assume(e1[0] != 0 && e1[1] != 0 && e2 != 0 && e3 != 0);
    // the last node may have an edge to an earlier node or itself
    let back = nd::below(4);
    let mut terms = Vec::new();
    for i in 0..3 {
        a.n = at[i];
        let kind = if i == which { nd::below(7) } else { i };
        let (x, y) = (nd::u8() & 0x7f, operand());
        let fl = nd::u8() & 0x27;
        let f = match kind { 0 => 0, 1 | 5 => fl, 2 | 4 => fl | 8, 6 => fl | 0x40, _ => fl | 0x10 };
        match kind {
            0 => a.byte(0),
            1 => { a.byte(3); a.byte(f); a.num(y, 2); }
            2 => { a.byte(4); a.byte(f); a.byte(x); a.byte(b'q'); a.byte(0); }
            3 => { a.byte(5); a.byte(f); a.byte(x); a.num(y, 2); a.byte(0x55); }
            // no room for the address, unknown flags
            5 => { a.byte(1); a.byte(f); }
            6 => { a.byte(2); a.byte(f); a.byte(x); }
            // no room for the name
            _ => { a.byte(2); a.byte(f); a.byte(x); }
        }
        terms.push((kind, f, x, y));
        let out = if i == 2 { (back < 3) as u8 } else if fork { [2, 0][i] } else { 1 };
        a.byte(out);
        if i == 0 { a.byte(e1[0]); a.byte(e1[1]); a.byte(0); a.byte(at[1] as u8); }
        if fork && i == 0 || !fork && i == 1 { a.byte(e2); a.byte(0); a.byte(at[2] as u8); }
        if i == 2 && back < 3 { a.byte(e3); a.byte(0); a.byte(at[back] as u8); }
    }
    let c = info(40);
    let mut it = nd::must(dyld(&c).exports_trie(LE, &a.b[..]));
    let names: [&[u8]; 3] = [&[], &e1, &if fork { vec![e2] } else { vec![e1[0], e1[1], e2] }];
    for i in 0..3 {
        let (kind, f, x, y) = terms[i];
        if kind == 0 { continue; }
        let r = Iterator::next(&mut it);
        nd::ck(matches!(r, Some(Ok(_))) == (kind < 4));
        let Some(Ok(r)) = r else { nd::ck(Iterator::next(&mut it).is_none()); nd::reach(1); return };
        nd::ck_bytes(r.name(), names[i]);
        nd::ck(r.flags().0 == f as u64);
        match r.data() {
            rm::ExportData::Regular { address } => nd::ck(kind == 1 && *address == y),
            rm::ExportData::Reexport { dylib_ordinal, import_name } => { nd::ck(kind == 2 && *dylib_ordinal == x as u64); nd::ck_bytes(import_name, b"q"); }
            rm::ExportData::StubAndResolver { stub_address, resolver_address } => nd::ck(kind == 3 && *stub_address == x as u64 && *resolver_address == y),
        }
        nd::ck_bytes(&r.into_name(), names[i]);
        nd::reach(2);
    }
    if fork && back == 1 {
        // reached twice, not a cycle
        if terms[1].0 != 0 { nd::ck_bytes(nd::must(nd::some(Iterator::next(&mut it))).name(), &[e2, e3]); }
        nd::reach(3);
    } else if back < 3 {
        nd::ck(matches!(Iterator::next(&mut it), Some(Err(_))));
        nd::reach(4);
    }
    nd::ck(Iterator::next(&mut it).is_none());
}
/// whatever the bytes, listing ends
fn trie_any() {
    const N: usize = nd::tier(5, 6);
    let d: [u8; N] = nd::bytes();
    let c = info(N as u64);
    let mut it = nd::must(dyld(&c).exports_trie(LE, &d[..]));
    let mut n = 0;
    loop {
        match Iterator::next(&mut it) {
            Some(Ok(_)) => { n += 1; nd::ck(n < 40); }
            Some(Err(_)) => { nd::ck(Iterator::next(&mut it).is_none()); nd::reach(1); return }
            None => break,
        }
    }
    nd::ck(Iterator::next(&mut it).is_none());
    nd::reach(2);
}

// ---- chained fixups ----
fn linkedit(off: u64, n: u64) -> [u8; 16] {
    let mut c = [0u8; 16];
    put(&mut c, 0, 4, 0x8000_0034, false);
    put(&mut c, 4, 4, 16, false);
    put(&mut c, 8, 4, off, false);
    put(&mut c, 12, 4, n, false);
    c
}
fn imports() {
    let mut d = Buf::<80>::zero();
    let big = nd::flag();
    let e = if big { Endianness::Big } else { Endianness::Little };
    let fmt = img::pick(&[1, 2, 3, 0, 4]);
    let version = img::pick(&[0, 1]);
    let (ioff, soff, count) = (img::pick(&[28, 77, 80, 81, 0xffff_ffff]), img::pick(&[64, 80, 81]), img::pick(&[0, 1, 2]));
    let symfmt = if count == 1 { img::pick(&[0, 1]) } else { 0 };
    for (i, v) in [version, 0, ioff, soff, count, fmt, symfmt].into_iter().enumerate() { put(&mut d.0, 4 * i, 4, v, big); }
    nd::fill(&mut d.0[28..60]);
    let size = match fmt { 1 => 4, 2 => 8, 3 => 16, _ => 1000 };
    let names = [img::pick(&[0, 2, 3, 16, 0x10_0000]), 1];
    let bits = |d: &[u8], p: usize, n: usize, lo: u32, w: u32| (img::get(d, p, n, big) >> lo) & ((1u64 << w) - 1);
    if ioff == 28 && size <= 16 {
        for i in 0..2 {
            let p = 28 + i * size;
            if fmt == 3 { let v = bits(&d.0, p, 8, 0, 32); put(&mut d.0, p, 8, names[i] << 32 | v, big); } else { let v = bits(&d.0, p, 4, 0, 9); put(&mut d.0, p, 4, names[i] << 9 | v, big); }
        }
    }
    d.0[64..68].copy_from_slice(b"ab\0c");
    let raw = linkedit(0, 80);
    let c = if big { let mut r = raw; for i in 0..4 { let v = get(&raw, 4 * i, 4); put(&mut r, 4 * i, 4, v, true); } r } else { raw };
    let (c, _) = nd::must(pod::from_bytes::<macho::LinkeditDataCommand<Endianness>>(&c));
    let f = c.chained_fixups(e, &d.0[..]);
    nd::ck(f.is_ok() == (version == 0));
    let Ok(f) = f else { return };
    let it = f.imports(e);
    nd::ck(it.is_ok() == (symfmt == 0 && ioff <= 80 && soff <= 80));
    let Ok(mut it) = it else { nd::reach(1); return };
    for i in 0..count as usize {
        let p = ioff as usize + i * size;
        let name = if size > 16 || p + size > 80 { None } else {
            let at = if ioff == 28 { names[i] } else { nd::ck(false); 0 };
            img::cstr(&d.0, soff + at, 80)
        };
        let r = it.next();
        nd::ck(r.is_ok() == name.is_some());
        let (Ok(r), Some(name)) = (r, name) else { nd::ck(nd::must(it.next()).is_none()); nd::reach(2); return };
        let r = nd::some(r);
        nd::ck_bytes(r.name, name);
        let d = &d.0;
        if fmt == 3 {
            let o = bits(d, p, 8, 0, 16) as i32;
            nd::ck(r.dylib.0 == if o > 0xfff0 { o - 0x10000 } else { o });
            nd::ck(r.weak_import == (bits(d, p, 8, 16, 1) == 1) && r.addend == img::get(d, p + 8, 8, big) as i64);
        } else {
            let o = bits(d, p, 4, 0, 8) as i32;
            nd::ck(r.dylib.0 == if o > 0xf0 { o - 0x100 } else { o });
            nd::ck(r.weak_import == (bits(d, p, 4, 8, 1) == 1));
            nd::ck(r.addend == if fmt == 2 { img::get(d, p + 4, 4, big) as u32 as i32 as i64 } else { 0 });
        }
        nd::reach(3);
    }
    nd::ck(nd::must(it.next()).is_none());
}
fn segments() {
    let mut d = Buf::<96>::zero();
    let at = img::pick(&[28, 30, 95, 97, 0xffff_ffff]);
    let count = img::pick(&[0, 1, 2, 3, 0x4000_0000]);
    put(&mut d.0, 4, 4, at, false);
    let offs = [img::pick(&[0, 16, 52, 0xffff_fff0]), img::pick(&[0, 30])];
    let size = img::pick(&[0, 21, 22, 23, 26, 200]);
    let body = at == 28 || at == 30;
    if body {
        let at = at as usize;
        put(&mut d.0, at, 4, count, false);
        for i in 0..2 { put(&mut d.0, at + 4 + 4 * i, 4, offs[i], false); }
        nd::fill(&mut d.0[at + 16..]);
        for o in offs { if o != 0 && at + o as usize + 4 <= 96 { put(&mut d.0, at + o as usize, 4, size, false); } }
    }
    nd::assume(!(offs[0] == 16 && offs[1] == 30 && size == 200) || body);
    let c = linkedit(0, 96);
    let (c, _) = nd::must(pod::from_bytes::<macho::LinkeditDataCommand<LE>>(&c));
    let f = nd::must(c.chained_fixups(LE, &d.0[..]));
    let r = f.segments(LE);
    let n = if body { count } else { 0 };
    nd::ck(r.is_ok() == (at + 4 <= 96 && at + 4 + 4 * n <= 96));
    let Ok(mut it) = r else { nd::reach(1); return };
    for i in 0..n as usize {
        let o = get(&d.0, at as usize + 4 + 4 * i, 4);
        if i < 2 { nd::ck_eq(o, offs[i]); }
        if o == 0 { continue; }
        let p = at as usize + o as usize;
        let sz = if p + 4 <= 96 { get(&d.0, p, 4) } else { 0 };
        let ok = p + 22 <= 96 && sz >= 22 && p as u64 + 22 + (sz - 22) / 2 * 2 <= 96;
        let r = it.next();
        nd::ck(r.is_ok() == ok);
        let Ok(r) = r else { continue };
        let r = nd::some(r);
        nd::ck(r.index() == i as u32);
        nd::ck_eq(r.header() as *const _ as u64 - d.0.as_ptr() as u64, p as u64);
        nd::reach(2);
    }
    nd::ck(nd::must(it.next()).is_none());
}
fn bits(v: u64, lo: u32, w: u32) -> u64 { (v >> lo) & ((1 << w) - 1) }
fn key(k: u64) -> PtrauthKey { match k { 0 => PtrauthKey::IA, 1 => PtrauthKey::IB, 2 => PtrauthKey::DA, _ => PtrauthKey::DB } }
fn ck_auth(a: Option<rm::FixupAuth>, want: Option<(u64, u64, u64)>) {
    nd::ck(a.is_some() == want.is_some());
    if let (Some(a), Some((d, s, k))) = (a, want) { nd::ck(a.key == key(k) && a.diversity as u64 == d && a.addr_div == (s == 1)); }
}
fn sx(v: u64, w: u32) -> i32 { ((v << (64 - w)) as i64 >> (64 - w)) as i32 }
/// the position, width and unit of the link to the next pointer of each format
fn link(fmt: u64) -> (u32, u32, u64) {
    match fmt { 1 | 9 | 12 => (51, 11, 8), 7 | 10 => (51, 11, 4), 2 | 6 | 8 | 14 => (51, 12, 4), 11 => (51, 12, 1), 3 => (26, 5, 4), 4 => (30, 2, 4), 5 => (26, 6, 4), _ => (52, 11, 8) }
}
fn ck_fixup(fmt: u64, v: u64, base: u64, f: Fixup) {
    let auth = bits(v, 63, 1) == 1;
    let a3 = (bits(v, 32, 16), bits(v, 48, 1), bits(v, 49, 2));
    match fmt {
        1 | 7 | 9 | 10 | 12 => {
            if bits(v, 62, 1) == 1 {
                let Fixup::Bind(b) = f else { nd::ck(false); return };
                nd::ck(b.ordinal as u64 == bits(v, 0, if fmt == 12 { 24 } else { 16 }));
                nd::ck(b.addend == if auth { 0 } else { sx(bits(v, 32, 19), 19) });
                ck_auth(b.auth, if auth { Some(a3) } else { None });
            } else {
                let Fixup::Rebase(r) = f else { nd::ck(false); return };
                ck_auth(r.auth, if auth { Some(a3) } else { None });
                // formats 1 and 10 hold addresses, the others offsets
                let sub = if fmt == 1 || fmt == 10 { base } else { 0 };
                nd::ck_eq(r.target_offset, if auth { bits(v, 0, 32) } else { bits(v, 0, 43).wrapping_sub(sub) | bits(v, 43, 8) << 56 });
            }
        }
        2 | 6 => if auth {
            let Fixup::Bind(b) = f else { nd::ck(false); return };
            nd::ck(b.ordinal as u64 == bits(v, 0, 24) && b.addend == bits(v, 24, 8) as i32 && b.auth.is_none());
        } else {
            let Fixup::Rebase(r) = f else { nd::ck(false); return };
            nd::ck(r.auth.is_none());
            nd::ck_eq(r.target_offset, bits(v, 0, 36).wrapping_sub(if fmt == 2 { base } else { 0 }) | bits(v, 36, 8) << 56);
        },
        8 | 11 => {
            let Fixup::KernelCacheRebase(r) = f else { nd::ck(false); return };
            nd::ck(r.target_offset == bits(v, 0, 30) && r.cache_level as u64 == bits(v, 30, 2));
            ck_auth(r.auth, if auth { Some(a3) } else { None });
        }
        3 => if bits(v, 31, 1) == 1 {
            let Fixup::Bind(b) = f else { nd::ck(false); return };
            nd::ck(b.ordinal as u64 == bits(v, 0, 20) && b.addend == bits(v, 20, 6) as i32 && b.auth.is_none());
        } else {
            let Fixup::Rebase(r) = f else { nd::ck(false); return };
            nd::ck_eq(r.target_offset, bits(v, 0, 26).wrapping_sub(base));
        },
        4 | 5 => {
            let Fixup::Rebase(r) = f else { nd::ck(false); return };
            nd::ck_eq(r.target_offset, bits(v, 0, if fmt == 4 { 30 } else { 26 }));
        }
        14 => {
            let Fixup::SegmentedRebase(r) = f else { nd::ck(false); return };
            nd::ck(r.target_segment_offset == bits(v, 0, 28) && r.target_segment_index as u64 == bits(v, 28, 4));
            ck_auth(r.auth, if auth { Some(a3) } else { None });
        }
        _ => {
            let Fixup::Rebase(r) = f else { nd::ck(false); return };
            if auth {
                nd::ck_eq(r.target_offset, bits(v, 0, 34));
                ck_auth(r.auth, Some((bits(v, 34, 16), bits(v, 50, 1), bits(v, 51, 1) * 2)));
            } else {
                nd::ck_eq(r.target_offset, bits(v, 0, 34) | bits(v, 34, 8) << 56);
                ck_auth(r.auth, None);
            }
        }
    }
}
/// starts: one segment's description with `starts` in `[u16]`, in a chained fixups blob
fn blob(b: &mut [u8], page: u64, fmt: u64, pages: u64, starts: &[u64]) {
    put(b, 4, 4, 32, false);
    put(b, 32, 4, 1, false);
    put(b, 36, 4, 8, false);
    put(b, 40, 4, 22 + 2 * starts.len() as u64, false);
    put(b, 44, 2, page, false);
    put(b, 46, 2, fmt, false);
    put(b, 60, 2, pages, false);
    for (i, s) in starts.iter().enumerate() { put(b, 62 + 2 * i, 2, *s, false); }
}
/// every pointer format: the values, and the chain of two
fn pointers(lo: u64, hi: u64) {
    let fmt = lo + nd::below((hi - lo + 1) as usize) as u64;
    let is32 = fmt >= 3 && fmt <= 5;
    let w = if is32 { 4 } else { 8 };
    let mut b = Buf::<80>::zero();
    blob(&mut b.0, 0x100, fmt, 1, &[4]);
    let base = nd::u64();
    let (pos, width, unit) = link(fmt);
    let step = img::pick(&[0, 1, 2, 3, (1 << width) - 1]);
    let mut seg = Buf::<48>::zero();
    nd::fill(&mut seg.0);
    let fix = |seg: &mut Buf<48>, at: usize, step: u64| {
        let v = get(&seg.0, at, w) & !(((1u64 << width) - 1) << pos) | step << pos;
        put(&mut seg.0, at, w, v, false);
        v
    };
    let next = 4 + (step * unit) as usize;
    let mut one = 0;
    // chains of one byte steps overlap
    if next > 4 && next + w <= 48 { fix(&mut seg, next, 0); }
    if next >= 4 + w || step == 0 || next + w > 48 { one = fix(&mut seg, 4, step); } else { nd::assume(get(&seg.0, 4, w) >> pos & ((1 << width) - 1) == step); one = one | get(&seg.0, 4, w); }
    let c = linkedit(0, 80);
    let (c, _) = nd::must(pod::from_bytes::<macho::LinkeditDataCommand<LE>>(&c));
    let f = nd::must(c.chained_fixups(LE, &b.0[..]));
    let s = nd::some(nd::must(nd::must(f.segments(LE)).next()));
    let mut it = s.fixups(LE, base, &seg.0);
    let r = it.next();
    let known = fmt >= 1 && fmt <= 14;
    nd::ck(r.is_ok() == known);
    let Ok(r) = r else { nd::ck(nd::must(it.next()).is_none()); nd::reach(1); return };
    let (o, x) = nd::some(r);
    nd::ck_eq(o, 4);
    ck_fixup(fmt, one, base, x);
    if step != 0 {
        let r = it.next();
        nd::ck(r.is_ok() == (next + w <= 48));
        if let Ok(r) = r {
            let (o, x) = nd::some(r);
            nd::ck_eq(o, next as u64);
            ck_fixup(fmt, get(&seg.0, next, w), base, x);
            nd::reach(2);
        }
    }
    nd::ck(nd::must(it.next()).is_none());
}
/// pages without, with one and with several chains
fn pages() {
    let mut b = Buf::<80>::zero();
    let count = nd::range(1, 3);
    // three pages of 16 bytes, and two more entries for multiple starts
    let vals = [0u64, 4, 8, 12, 0xffff, 0x8003, 0x8004, 0x8005];
    let mut starts = [0u64; 5];
    let k = nd::below(3);
    for i in 0..3 { starts[i] = if i == k { vals[nd::below(8)] } else { [4, 0xffff, 0x8003][(i + k) % 3] }; }
    starts[3] = img::pick(&[0, 4, 0x8004]);
    starts[4] = img::pick(&[0x8008, 8]);
    let given = nd::range(3, 5);
    blob(&mut b.0, 16, 3, count as u64, &starts[..given]);
    let mut seg = Buf::<48>::zero();
    // four byte pointers, without links
    nd::fill(&mut seg.0);
    for i in 0..12 { seg.0[4 * i + 3] &= 0x83; }
    let c = linkedit(0, 80);
    let (c, _) = nd::must(pod::from_bytes::<macho::LinkeditDataCommand<LE>>(&c));
    let f = nd::must(c.chained_fixups(LE, &b.0[..]));
    let s = nd::some(nd::must(nd::must(f.segments(LE)).next()));
    let mut it = s.fixups(LE, 0, &seg.0);
    let mut bad = false;
    'all: for i in 0..count {
        let st = starts[i];
        let mut list = Vec::new();
        if st == 0xffff { continue; }
        if st & 0x8000 == 0 { list.push(st); } else {
            let mut j = (st & 0x7fff) as usize;
            loop {
                if j >= given { bad = true; break; }
                list.push(starts[j] & 0x7fff);
                if starts[j] & 0x8000 != 0 { break; }
                j += 1;
            }
        }
        for o in list {
            let (a, x) = nd::some(nd::must(it.next()));
            nd::ck_eq(a, 16 * i as u64 + o);
            ck_fixup(3, get(&seg.0, a as usize, 4), 0, x);
            nd::reach(1);
        }
        if bad { break 'all; }
    }
    let r = it.next();
    nd::ck(r.is_err() == bad);
    if let Ok(r) = r { nd::ck(r.is_none()); } else { nd::ck(nd::must(it.next()).is_none()); nd::reach(2); }
}

harnesses! {
    /// five ranges of a command, both byte orders
    /// @reach 1
    fn c21_ranges() { ranges(); }
    /// any operation in up to 5 bytes
    /// @reach 1,2
    fn c21_rebase_op() { rebase_op(); }
    /// any operation in up to 5 bytes
    /// @reach 1,2
    fn c21_bind_op() { bind_op(); }
    /// up to five operations
    /// @reach 1,2
    /// @args --no-merge
    /// @timeout 60
    fn c21_rebases() { rebases(); }
    /// up to seven operations
    /// @reach 1,2
    /// @args --no-merge
    /// @timeout 60
    fn c21_binds() { binds(0); }
    /// weak binds
    /// @reach 1,2
    /// @args --no-merge
    /// @timeout 60
    fn c21_weak_binds() { binds(1); }
    /// lazy binds
    /// @reach 1,2
    /// @args --no-merge
    /// @timeout 60
    fn c21_lazy_binds() { binds(2); }
    /// up to five (thorough: six) bytes, any base
    /// @reach 1,2,3
    /// @args --no-merge
    /// @timeout 60
    fn c21_starts() { starts(); }
    /// three nodes with every kind of entry, the last with or without an edge back
    /// @reach 1,2,3,4
    fn c21_trie() { trie(); }
    /// any trie of five (thorough: six) bytes
    /// @reach 1,2
    fn c21_trie_any() { trie_any(); }
    /// up to two imports of each format
    /// @reach 1,2,3
    fn c21_imports() { imports(); }
    /// up to three segments
    /// @reach 1,2
    fn c21_segments() { segments(); }
    /// formats 0 to 7, any pointers
    /// @reach 1,2
    fn c21_pointers0() { pointers(0, 7); }
    /// formats 8 to 15
    /// @reach 1,2
    fn c21_pointers1() { pointers(8, 15); }
    /// three pages, up to two extra starts
    /// @reach 1,2
    fn c21_pages() { pages(); }
}
