//! Looks for an input that shows on the real code what a Verus obligation that failed is about:
//! `search mem`. Exit 1: found. It only serves the replay file of a violation (and, where Verus gives no
//! answer at all, stands in as a bounded check, labelled so).
#[cfg(not(kani))]
mod native {
    use std::collections::HashMap;
    use telda2::mem::*;

    pub struct Rng(pub u64);
    impl Rng {
        pub fn next(&mut self) -> u64 {
            self.0 ^= self.0 << 13;
            self.0 ^= self.0 >> 7;
            self.0 ^= self.0 << 17;
            self.0
        }
        pub fn below(&mut self, n: u64) -> u64 {
            (self.next() >> 11) % n
        }
    }

    #[derive(Clone, Default)]
    struct Dev {
        log: std::rc::Rc<std::cell::RefCell<Vec<(bool, u8, u8)>>>,
    }
    impl Io for Dev {
        fn read(&mut self, addr: u8) -> u8 {
            let v = addr.wrapping_mul(7) ^ 0x5a;
            self.log.borrow_mut().push((false, addr, v));
            v
        }
        fn write(&mut self, addr: u8, val: u8) {
            self.log.borrow_mut().push((true, addr, val));
        }
    }

    /// Histories of allocations and frees
    pub fn alloc() -> Option<String> {
        use telda2::blf4::std_kernel::EKernel;
        let mut r = Rng(0x0123_4567_89ab_cdef);
        for _ in 0..300 {
            let mut m = LazyMain::new(Dev::default());
            let mut k = EKernel::new();
            let mut live: HashMap<u32, u8> = HashMap::new();
            let mut ops = vec![];
            for _ in 0..200 {
                if live.is_empty() || r.below(5) < 3 {
                    ops.push("allocate_page".to_string());
                    let p = k.allocate_page(&mut m);
                    ops.push(format!("-> {p:#x}"));
                    if p % 128 != 0 || p < 0x8000 || live.contains_key(&p) {
                        return Some(format!("{ops:#?}\nthe page is not a page, or in use"));
                    }
                    if (0..128).any(|i| m.read(p + i) != 0) {
                        return Some(format!("{ops:#?}\nthe page is not cleared"));
                    }
                    let v = r.next() as u8 | 1;
                    write_n(&mut m, p, &[v; 128]);
                    live.insert(p, v);
                } else {
                    let n = r.below(live.len() as u64) as usize;
                    let mut ps: Vec<u32> = live.keys().copied().collect();
                    ps.sort();
                    let p = ps[n];
                    ops.push(format!("free_page {p:#x}"));
                    k.free_page(p, &mut m);
                    live.remove(&p);
                }
                for (&p, &v) in &live {
                    if (0..128).any(|i| m.read(p + i) != v) {
                        return Some(format!("{ops:#?}\nthe page {p:#x} in use was changed"));
                    }
                }
            }
        }
        None
    }

    /// README, "Virtual memory": (permissions of the table, permissions of the page, page), if it is mapped
    fn walk(m: &mut LazyMain<Dev>, root: u32, v: u16) -> Option<(u8, u8, u32)> {
        let e1 = u32::from_le_bytes(read_n(m, root + (v as u32 >> 12) * 4));
        if e1 & 1 == 0 {
            return None;
        }
        let e2 = u32::from_le_bytes(read_n(m, (e1 >> 8 & 0xff_ff80) + (v as u32 >> 7 & 31) * 4));
        if e2 & 1 == 0 {
            return None;
        }
        Some((e1 as u8, e2 as u8, e2 >> 8 & 0xff_ff80))
    }
    fn own_pages(m: &mut LazyMain<Dev>, root: u32) -> Option<String> {
        let mut used = vec![root];
        for t in 0..16 {
            let e1 = u32::from_le_bytes(read_n(m, root + t * 4));
            if e1 & 1 != 0 {
                used.push(e1 >> 8 & 0xff_ff80);
            }
        }
        for p in 0..512u16 {
            if let Some((_, _, page)) = walk(m, root, p * 128) {
                used.push(page);
            }
        }
        used.sort();
        (used[0] < 0x8000 || used.windows(2).any(|w| w[0] == w[1])).then(|| format!("pages are not of their own: {used:x?}"))
    }

    /// Histories of segments and writable pages in an address space
    pub fn space() -> Option<String> {
        use telda2::blf4::std_kernel::{verif, EKernel};
        let mut r = Rng(0x2222_3333_4444_5555);
        for round in 0..400 {
            let mut m = LazyMain::new(Dev::default());
            let mut k = EKernel::new();
            let root = k.allocate_page(&mut m);
            // recycled pages too
            let ps: Vec<u32> = (0..r.below(6)).map(|_| k.allocate_page(&mut m)).collect();
            for p in ps {
                write_n(&mut m, p, &[0xa5; 128]);
                k.free_page(p, &mut m);
            }
            let mut ops: Vec<String> = vec![];
            let mut model: HashMap<u16, (u8, u8, [u8; 128])> = HashMap::new(); // needs, may have, bytes
            for _ in 0..1 + r.below(6) {
                let mut b = verif::mmapper(&mut k, &mut m, root);
                let offset = match r.below(4) {
                    0 => r.below(0x1_0000) as u16,
                    1 => (r.below(16) << 12) as u16,
                    2 => (r.below(512) << 7) as u16,
                    _ => (0x1000 - 200 + r.below(400)) as u16,
                };
                let most = if round % 20 == 0 { 0x1_0000 } else { 600 };
                let len = match r.below(8) {
                    0 => 0,
                    1 => 128,
                    _ => r.below(most + 1) as usize,
                };
                if r.below(3) > 0 {
                    let len = len.min(0x1_0000 - offset as usize);
                    let perm = [2, 4, 6, 8, 10, 14, 0x21, 0x2f][r.below(8) as usize];
                    let bytes: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
                    ops.push(format!("add_segment {perm:#b} {offset:#x} {len:#x} bytes"));
                    b.add_segment(perm, offset, &bytes);
                    let mut p = offset / 128;
                    while (p as usize) * 128 < offset as usize + len {
                        let e = model.entry(p).or_insert((0, 0, [0; 128]));
                        e.0 |= perm | 0x21;
                        e.1 |= perm | 0x21;
                        for i in 0..128 {
                            let a = p as usize * 128 + i;
                            if a >= offset as usize && a < offset as usize + len {
                                e.2[i] = bytes[a - offset as usize];
                            }
                        }
                        p += 1;
                    }
                } else {
                    let (virt, size) = (offset & !127, len as u16);
                    ops.push(format!("map_wr_pages {virt:#x} {size:#x}"));
                    b.map_wr_pages(virt, size);
                    let mut p = virt / 128;
                    while (p as usize) * 128 < (virt as usize + size as usize).min(0x1_0000) {
                        let e = model.entry(p).or_insert((0, 0, [0; 128]));
                        e.0 |= 0x27;
                        e.1 |= 0x37;
                        p += 1;
                    }
                }
            }
            for p in 0..512u16 {
                let is = walk(&mut m, root, p * 128);
                let Some(&(lo, hi, bytes)) = model.get(&p) else {
                    if is.is_some() {
                        return Some(format!("{ops:#?}\npage {p:#x} is mapped"));
                    }
                    continue;
                };
                let Some((p1, p2, page)) = is else { return Some(format!("{ops:#?}\npage {p:#x} is not mapped")) };
                if p1 & lo != lo || p2 & lo != lo || p2 & !hi != 0 {
                    return Some(format!("{ops:#?}\npage {p:#x} has permissions {p1:#b} {p2:#b}, needs {lo:#b}, may have {hi:#b}"));
                }
                let got: [u8; 128] = read_n(&mut m, page);
                if got != bytes {
                    return Some(format!("{ops:#?}\npage {p:#x} has bytes {got:x?}, not {bytes:x?}"));
                }
            }
            if let Some(e) = own_pages(&mut m, root) {
                return Some(format!("{ops:#?}\n{e}"));
            }
        }
        None
    }

    /// Programs loaded
    pub fn load() -> Option<String> {
        use telda2::aalv::obj::*;
        use telda2::blf4::*;
        use telda2::machine::{EmulatedKernel, Machine};
        struct Nothing;
        impl EmulatedKernel<Blf4> for Nothing {
            fn handle_trap(&mut self, tm: TrapMode, _: &mut Blf4, _: &mut dyn MainMemory) -> Result<(), TrapMode> {
                Err(tm)
            }
        }
        use SegmentType::*;
        let mut r = Rng(0x3333_4444_5555_6666);
        for round in 0..500 {
            let mut o = Object::default();
            let mut readable = false;
            if r.below(2) == 0 {
                readable = r.below(2) == 0;
                o.flags = Some(Flags { readable_text: readable });
            }
            let size = |r: &mut Rng| match r.below(6) {
                0 => 0,
                1 => 1 + r.below(3) as u16,
                2 => (r.below(16) * 128) as u16,
                3 => 0xffff - r.below(200) as u16,
                _ => r.below(0x1000) as u16,
            };
            let (mut heap, mut stack) = (0x400u32, 0x180u32);
            if r.below(2) == 0 {
                heap = size(&mut r) as u32;
                o.heap_size = Some(HeapSize(heap as u16));
            }
            if r.below(2) == 0 {
                stack = size(&mut r) as u32;
                o.stack_size = Some(StackSize(stack as u16));
            }
            if r.below(3) > 0 {
                o.entry = Some(Entry(Text, r.next() as u16));
            }
            for t in [Unknown, Zero, Data, RoData, Text, Heap] {
                if r.below(2) == 0 {
                    let offset = match r.below(3) {
                        0 => r.below(0x1_0000) as u16,
                        1 => (r.below(16) << 12) as u16,
                        _ => (r.below(512) << 7) as u16,
                    };
                    let most = if round % 20 == 0 { 0x1_0000 } else { 2000 };
                    let len = (if r.below(6) == 0 { 0 } else { r.below(most + 1) as usize }).min(0x1_0000 - offset as usize);
                    o.segs.insert(t, (offset, (0..len).map(|_| r.next() as u8).collect()));
                }
            }
            let text = format!("flags {readable} heap {heap:#x} stack {stack:#x} entry {:?}\n{:#x?}", o.entry,
                o.segs.iter().map(|(t, (a, b))| format!("{t:?} {a:#x} {:#x} bytes", b.len())).collect::<Vec<_>>());
            let mut cpu = tverif::cpu::zero_cpu();
            cpu.program_counter = 0x1234;
            let mut machine = Machine::new(LazyMain::new(Dev::default()), cpu);
            machine.load_user_binary(&o);
            let root = machine.cpu.page as u32;
            let m = &mut machine.memory;
            for p in 0..512u16 {
                let at = p as u32 * 128;
                let (mut lo, mut hi, mut bytes) = (0u8, 0x10u8, [0; 128]);
                for (&t, &(offset, ref b)) in &o.segs {
                    let (start, end) = (offset as u32, offset as u32 + b.len() as u32);
                    let f = match t {
                        Text => 0x29 | (readable as u8) << 1,
                        RoData => 0x23,
                        Data | Heap => 0x27,
                        Zero | Unknown => 0x2f,
                    };
                    if start / 128 <= at / 128 && at / 128 < (end + 127) / 128 {
                        hi |= f;
                        if !b.is_empty() {
                            lo |= f;
                        }
                    }
                    for i in 0..128 {
                        if at + i >= start && at + i < end {
                            bytes[i as usize] = b[(at + i - start) as usize];
                        }
                    }
                    if t == Heap && (b.len() as u32) < heap {
                        if at + 128 > end && at < start + heap {
                            lo |= 0x27;
                        }
                        if at + 128 > start && at < start + heap + 128 {
                            hi |= 0x27;
                        }
                    }
                }
                if at + 128 > 0x1_0000 - stack {
                    lo |= 0x27;
                    hi |= 0x27;
                }
                let Some((p1, p2, page)) = walk(m, root, p * 128) else {
                    if lo != 0 {
                        return Some(format!("{text}\npage {at:#x} is not mapped, needs {lo:#b}"));
                    }
                    continue;
                };
                if p1 & lo != lo || p2 & lo != lo || p2 & !hi != 0 && hi != 0x10 || hi == 0x10 {
                    return Some(format!("{text}\npage {at:#x} has permissions {p1:#b} {p2:#b}, needs {lo:#b}, may have {hi:#b}"));
                }
                let got: [u8; 128] = read_n(m, page);
                if got != bytes {
                    return Some(format!("{text}\npage {at:#x} has bytes {got:x?}, not {bytes:x?}"));
                }
            }
            if let Some(e) = own_pages(m, root) {
                return Some(format!("{text}\n{e}"));
            }
            let c = &machine.cpu;
            if !c.flags.virtual_mode || !c.flags.user_mode || c.stack != 0xffff || c.frame != 0xffff
                || c.program_counter != o.entry.map_or(0x1234, |e| e.1) {
                return Some(format!("{text}\nstarts at {:#x}, stack {:#x}, frame {:#x}, {:?}", c.program_counter, c.stack, c.frame, c.flags));
            }
            if !machine.install_emulated_kernel(Nothing) {
                return Some(format!("{text}\nno emulated kernel was installed"));
            }
        }
        None
    }

    const MAGIC: &[u8] = "\u{e1}lvur2\n".as_bytes();

    /// Where the first file with sections begins and its sections, by the format
    fn parse(d: &[u8]) -> Option<(usize, Vec<(String, Vec<u8>)>)> {
        let o = (0..d.len()).find(|&o| d[o..].starts_with(MAGIC))?;
        let mut p = o + MAGIC.len();
        let mut out = vec![];
        loop {
            let z = p + d.get(p..)?.iter().position(|&b| b == 0)?;
            if z == p {
                return Some((o, out));
            }
            let n = *d.get(z + 1)? as usize + 256 * *d.get(z + 2)? as usize;
            let end = z + 3 + n;
            let body = d.get(z + 3..end.min(d.len())).unwrap_or(&[]).to_vec();
            out.push((String::from_utf8_lossy(&d[p..z]).into_owned(), body));
            p = end;
        }
    }
    fn kind(b: u8) -> bool {
        [0xff, 0, 0x10, 0x18, 0x20, 0x70].contains(&b)
    }
    type Parts = (u64, Option<(u8, u16)>, Option<bool>, Option<u16>, Option<u16>, Vec<(u8, u16, Vec<u8>)>, Vec<(String, bool, u8, u16)>, Vec<(u8, u16, u16)>);
    fn parts(x: &telda2::aalv::obj::Object) -> Parts {
        (
            x.file_offset,
            x.entry.map(|e| (e.0 as u8, e.1)),
            x.flags.map(|f| f.readable_text),
            x.stack_size.map(|s| s.0),
            x.heap_size.map(|s| s.0),
            x.segs.iter().map(|(k, v)| (*k as u8, v.0, v.1.clone())).collect(),
            x.symbols.0.iter().map(|s| (s.name.to_string(), s.is_global, s.segment_type as u8, s.location)).collect(),
            x.relocation_table.0.iter().map(|r| (r.reference_segment as u8, r.reference_location, r.symbol_index)).collect(),
        )
    }
    /// What the bytes are as an object; Err: no object
    fn object(d: &[u8]) -> Result<Parts, String> {
        let (o, l) = parse(d).ok_or("no sections")?;
        let mut x: Parts = (o as u64, None, None, None, None, vec![], vec![], vec![]);
        let w = |b: &[u8], i: usize| b.get(i + 1).map(|h| b[i] as u16 | (*h as u16) << 8).ok_or("short".to_string());
        let mut seen: Vec<&str> = vec![];
        for (n, b) in &l {
            if n.starts_with('_') && n != "_seg" {
                if seen.contains(&&**n) {
                    return Err(format!("two {n}"));
                }
                seen.push(n);
            }
            match &**n {
                "_entry" => {
                    let p = w(b, 1)?;
                    x.1 = Some((kind(b[0]).then_some(b[0]).ok_or("kind")?, p));
                }
                "_flags" => {
                    if b.iter().any(|&c| c != b'R') {
                        return Err("flag".into());
                    }
                    x.2 = Some(!b.is_empty());
                }
                "_stack_size" => x.3 = Some(w(b, 0)?),
                "_heap_size" => x.4 = Some(w(b, 0)?),
                "_seg" => {
                    if b.len() < 3 || !kind(b[2]) || x.5.iter().any(|s| s.0 == b[2]) {
                        return Err("segment".into());
                    }
                    x.5.push((b[2], w(b, 0)?, b[3..].to_vec()));
                }
                "_syms" => {
                    let mut p = 0;
                    while p < b.len() {
                        let z = p + b[p..].iter().position(|&c| c == 0).ok_or("symbol")?;
                        let loc = w(b, z + 2)?;
                        if !kind(b[z + 1]) {
                            return Err("symbol".into());
                        }
                        let local = b.get(p) == Some(&b' ');
                        x.6.push((String::from_utf8_lossy(&b[p + local as usize..z]).into_owned(), !local, b[z + 1], loc));
                        p = z + 4;
                    }
                }
                "_reloc" => {
                    for e in b.chunks_exact(5) {
                        if !kind(e[0]) {
                            return Err("relocation".into());
                        }
                        x.7.push((e[0], w(e, 1)?, w(e, 3)?));
                    }
                }
                n if n.starts_with('_') => return Err(format!("unknown {n}")),
                _ => (),
            }
        }
        x.5.sort_by_key(|s| s.0);
        Ok(x)
    }
    /// Reads a few bytes at a time
    struct Slow(std::io::Cursor<Vec<u8>>, usize);
    impl std::io::Read for Slow {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let n = b.len().min(self.1);
            self.0.read(&mut b[..n])
        }
    }
    impl std::io::Seek for Slow {
        fn seek(&mut self, to: std::io::SeekFrom) -> std::io::Result<u64> {
            self.0.seek(to)
        }
    }
    /// Objects written and read again, and bytes that are no objects
    pub fn objects() -> Option<String> {
        use std::io::{BufReader, Cursor};
        use telda2::aalv::{obj::*, AalvReader};
        let dir = std::env::temp_dir().join(format!("telda-objects-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        struct Gone(std::path::PathBuf);
        impl Drop for Gone {
            fn drop(&mut self) {
                let _ = std::fs::remove_dir_all(&self.0);
            }
        }
        let gone = Gone(dir);
        let path = gone.0.join("x.to");
        let kinds = [SegmentType::Unknown, SegmentType::Zero, SegmentType::Data, SegmentType::RoData, SegmentType::Text, SegmentType::Heap];
        let mut r = Rng(0x2468_ace0_1357_9bdf);
        let read = |d: &[u8], slow: usize| -> Option<Parts> {
            let f = BufReader::with_capacity(1 + slow * 3, Slow(Cursor::new(d.to_vec()), slow));
            let mut a = AalvReader::new(f).ok()?;
            Object::from_aalv_reader(&mut a).ok().map(|x| parts(&x))
        };
        for round in 0..6000u64 {
            let k = |r: &mut Rng| kinds[r.below(6) as usize];
            let mut x = Object::default();
            let wide = |r: &mut Rng| match r.below(4) { 0 => 0, 1 => 0xffff, 2 => r.below(512) as u16, _ => r.next() as u16 };
            if r.below(3) == 0 {
                x.file_offset = r.below(60);
            }
            if r.below(2) == 0 {
                x.entry = Some(Entry(k(&mut r), wide(&mut r)));
            }
            if r.below(2) == 0 {
                x.flags = Some(Flags { readable_text: r.below(2) == 0 });
            }
            if r.below(2) == 0 {
                x.stack_size = Some(StackSize(wide(&mut r)));
            }
            if r.below(2) == 0 {
                x.heap_size = Some(HeapSize(wide(&mut r)));
            }
            let mut big = false;
            for s in kinds {
                if r.below(2) == 0 {
                    let n = match r.below(8) {
                        0 => 0,
                        1 if round % 4 == 0 => 0xffff - 3 - r.below(2),
                        2 if round % 16 == 0 => 0xffff - 2 + r.below(300),
                        3 => 250 + r.below(12),
                        _ => r.below(40),
                    };
                    big |= n + 3 > 0xffff;
                    let b = (0..n).map(|_| if r.below(3) == 0 { MAGIC[r.below(8) as usize] } else { r.next() as u8 }).collect();
                    x.segs.insert(s, (wide(&mut r), b));
                }
            }
            for _ in 0..if r.below(3) == 0 { 0 } else { r.below(80) } {
                let global = r.below(2) == 0;
                let mut name: String = (0..r.below(7)).map(|_| ['a', ' ', '_', '\u{e1}', '\u{20ac}', '\u{1d11e}', '\u{1}', '\u{7f}'][r.below(8) as usize]).collect();
                if global && name.starts_with(' ') {
                    name.insert(0, 'x');
                }
                x.symbols.0.push(SymbolDefinition { name: name.into(), is_global: global, segment_type: k(&mut r), location: wide(&mut r) });
            }
            for _ in 0..if r.below(3) == 0 { 0 } else { r.below(90) } {
                x.relocation_table.0.push(RelocationEntry { reference_segment: k(&mut r), reference_location: wide(&mut r), symbol_index: wide(&mut r) });
            }
            // what is there already is kept up to the offset; without a magic of its own
            let old: Vec<u8> = (0..x.file_offset + r.below(3) * 100).map(|_| if r.below(2) == 0 { MAGIC[r.below(7) as usize] } else { r.next() as u8 }).collect();
            std::fs::write(&path, &old).unwrap();
            let p = parts(&x);
            match x.write_to_file(&path) {
                Err(_) if big => continue,
                Err(e) => return Some(format!("{p:?}\nis not written: {e}")),
                Ok(()) if big => return Some(format!("a section of more than 64 KiB is written, of an object with segments of {:?} bytes", p.5.iter().map(|s| s.2.len()).collect::<Vec<_>>())),
                Ok(()) => (),
            }
            let d = std::fs::read(&path).unwrap();
            if d.get(..x.file_offset as usize) != old.get(..x.file_offset as usize) {
                return Some(format!("{p:?}\nchanged what was before it"));
            }
            match Object::from_file(&path) {
                Err(e) => return Some(format!("{p:?}\nwritten is not read: {e}")),
                Ok(y) if parts(&y) != p => return Some(format!("{p:?}\nis read as\n{:?}", parts(&y))),
                Ok(_) => (),
            }
            if d.len() > 3000 {
                continue;
            }
            // the bytes of an object with some of them changed
            for _ in 0..6 {
                let mut e = d.clone();
                for _ in 0..1 + r.below(3) {
                    let n = e.len().max(1) as u64;
                    match r.below(7) {
                        0 => e.truncate(r.below(n) as usize),
                        1 => {
                            let i = r.below(n) as usize;
                            let t = ["_seg\0\x04\0\0\0\x20a", "_entry\0\x03\0\x20\0\0", "_flags\0\0\0", "_x\0\0\0", "x\0\0\0", "_stack_size\0\x02\0ab", "_syms\0\x04\0\0\0\0\0", "_reloc\0\x05\0\0\0\0\0\0", "_syms\0\x01\0a"][r.below(9) as usize];
                            // at the beginning of a section, mostly
                            let at = if r.below(8) == 0 { i } else { parse(&e).map_or(i, |p| p.0 + MAGIC.len()) };
                            e.splice(at.min(e.len())..at.min(e.len()), t.bytes());
                        }
                        2 => {
                            let at = r.below(n) as usize;
                            e.splice(at.min(e.len())..at.min(e.len()), MAGIC[..r.below(8) as usize].iter().copied());
                        }
                        3 => {
                            let i = r.below(n) as usize;
                            if i < e.len() {
                                e.remove(i);
                            }
                        }
                        4 if e.len() > 5 => {
                            let i = r.below(n - 1) as usize;
                            e[i] = 0xff;
                            e[i + 1] = 0xff;
                        }
                        _ => {
                            let i = r.below(n) as usize;
                            if i < e.len() {
                                e[i] = [0, 0x20, 0xff, 1, b'_', r.next() as u8][r.below(6) as usize];
                            }
                        }
                    }
                }
                let want = object(&e);
                let slow = 1 + r.below(9) as usize;
                let got = match std::panic::catch_unwind(|| read(&e, slow)) {
                    Err(_) => return Some(format!("panic while reading {e:02x?}")),
                    Ok(g) => g,
                };
                if got != want.clone().ok() {
                    return Some(format!("the bytes {e:02x?}\nare read as {got:?}\nbut are {want:?}"));
                }
            }
        }
        None
    }

    pub fn mem() -> Option<String> {
        let mut r = Rng(0x1234_5678_9abc_def1);
        for round in 0..400u64 {
            let len = match round % 8 {
                0 => None,
                1 => Some(0),
                2 => Some(ROM_SIZE),
                3 => Some(1),
                4 => Some(ROM_SIZE - 1),
                _ => Some(r.below(ROM_SIZE as u64 + 1) as usize),
            };
            let rom: Vec<u8> = (0..len.unwrap_or(0)).map(|_| r.next() as u8).collect();
            let dev = Dev::default();
            let mut m = LazyMain::new(dev.clone());
            let mut ops = vec![format!("LazyMain::new, ROM of {len:?} bytes")];
            if len.is_some() {
                m = m.with_rom(&rom);
            }
            let mut model: HashMap<u32, u8> = HashMap::new();
            let mut seen: Vec<u32> = vec![];
            let mut io = 0;
            for _ in 0..400 {
                let edge = [0u32, 0x7f, 0x80, 0x7fff, 0x8000, 0xffff, 0x10000, 0x1ffff, 0x20000, 0xff0000, 0xfeffff,
                    0xffffff, 0x80 + rom.len() as u32, 0x800000, 0x7fffff];
                let a = match r.below(5) {
                    0 => edge[r.below(edge.len() as u64) as usize].wrapping_add(r.below(5) as u32).wrapping_sub(2) & 0xffffff,
                    1 => r.below(0x20000) as u32,
                    2 if !seen.is_empty() => seen[r.below(seen.len() as u64) as usize],
                    3 if !seen.is_empty() => seen[r.below(seen.len() as u64) as usize] ^ (1 << r.below(24)),
                    _ => r.below(1 << 24) as u32,
                };
                seen.push(a);
                if r.below(2) == 0 {
                    let v = r.next() as u8;
                    ops.push(format!("write {a:#x} {v:#x}"));
                    m.write(a, v);
                    if a < 0x80 {
                        io += 1;
                        if dev.log.borrow().last() != Some(&(true, a as u8, v)) {
                            return Some(format!("{ops:#?}\ndid not reach port {a:#x}"));
                        }
                    } else if a >= 0x8000 {
                        model.insert(a, v);
                    }
                } else {
                    ops.push(format!("read {a:#x}"));
                    let v = m.read(a);
                    let want = if a < 0x80 {
                        io += 1;
                        (a as u8).wrapping_mul(7) ^ 0x5a
                    } else if a < 0x8000 {
                        rom.get(a as usize - 0x80).copied().unwrap_or(0)
                    } else {
                        model.get(&a).copied().unwrap_or(0)
                    };
                    if v != want || a < 0x80 && dev.log.borrow().last() != Some(&(false, a as u8, v)) {
                        return Some(format!("{ops:#?}\ngave {v:#x}, not {want:#x}"));
                    }
                }
                if dev.log.borrow().len() != io {
                    return Some(format!("{ops:#?}\nan access to memory reached a port"));
                }
            }
        }
        None
    }

    #[derive(Clone, Default, Debug)]
    struct Asm {
        segs: std::collections::BTreeMap<&'static str, (Vec<u8>, Vec<(usize, String)>)>,
        defs: Vec<(String, &'static str, usize)>,
        used: std::collections::BTreeSet<String>,
        global: std::collections::BTreeSet<String>,
        refs: std::collections::BTreeSet<String>,
        entry: Option<(&'static str, usize)>,
        bad: bool,
    }
    const SEGS: [(&str, u8); 4] = [("data", 0x10), ("rodata", 0x18), ("text", 0x20), ("heap", 0x70)];
    /// Lines of a source and what they mean
    fn lines(r: &mut Rng, a: &mut Asm, dir: &std::path::Path, depth: u32, n: u64, inc: &mut u32) -> String {
        let mut s = String::new();
        let mut cur: Option<&'static str> = None;
        let names = ["a", "b", "main", "loop", "x", "xx", "end", "A_1"];
        let faults = r.below(12) == 0;
        for _ in 0..n {
            let l = names[r.below(8) as usize].to_string();
            let mut line = String::new();
            let mut bytes: Vec<u8> = vec![];
            let mut at: Option<usize> = None;
            match r.below(if faults { 25 } else { 23 }) {
                0..=2 => {
                    let g = SEGS[r.below(4) as usize].0;
                    line = format!(".seg {g}");
                    cur = Some(g);
                }
                3..=6 => {
                    let there = a.defs.iter().any(|d| d.0 == l);
                    if cur.is_none() || there && !faults || a.refs.contains(&l) && !faults {
                        continue;
                    }
                    a.bad |= there;
                    line = format!("{l}:");
                    let g = cur.unwrap();
                    a.defs.push((l.clone(), g, a.segs.get(g).map(|s| s.0.len()).unwrap_or(0)));
                }
                7 => {
                    line = format!(".global {l}");
                    a.global.insert(l.clone());
                }
                8 => {
                    if a.defs.iter().any(|d| d.0 == l) && !faults {
                        continue;
                    }
                    line = format!(".reference {l}");
                    a.refs.insert(l.clone());
                }
                9 => {
                    if cur.is_none() || a.entry.is_some() && !faults {
                        continue;
                    }
                    a.bad |= a.entry.is_some();
                    line = ".entry".into();
                    let g = cur.unwrap();
                    a.entry.get_or_insert((g, a.segs.get(g).map(|s| s.0.len()).unwrap_or(0)));
                }
                10 => {
                    let v = r.next() as u8;
                    line = format!(".byte {v}");
                    bytes = vec![v];
                }
                11 => {
                    let v = r.next() as u16;
                    line = format!(".wide {v}");
                    bytes = v.to_le_bytes().to_vec();
                }
                12..=13 => {
                    line = format!(".wide {l}");
                    bytes = vec![0, 0];
                    at = Some(0);
                }
                14 => {
                    let n = match r.below(40) {
                        0 => 0xff80 + r.below(0x100),
                        1 => r.below(0x8000),
                        2 => 0x1_0000 + r.below(200),
                        3 => 127 + r.below(4),
                        _ => r.below(150),
                    };
                    let t = vec![b'a' + r.below(26) as u8; n as usize];
                    line = format!(".string {}", String::from_utf8(t.clone()).unwrap());
                    if n == 0 {
                        line = ".string".into();
                    }
                    bytes = t;
                }
                15 => (line, bytes) = ("nop".into(), vec![0x20]),
                16 => (line, bytes) = ("ret 3".into(), vec![0x26, 3]),
                17 => (line, bytes, at) = (format!("call {l}"), vec![0x25, 0, 0], Some(1)),
                18 => (line, bytes, at) = (format!("jmp {l}"), vec![0x40, 0x01, 0, 0], Some(2)),
                19 => (line, bytes, at) = (format!("load r1, r2, {l}"), vec![0x2c, 0x12, 0, 0], Some(2)),
                20 => (line, bytes, at) = (format!("store r3, {l}, r4"), vec![0x28, 0x34, 0, 0], Some(2)),
                21 => line = "; nothing".into(),
                22 => {
                    if depth == 0 || r.below(3) > 0 {
                        continue;
                    }
                    *inc += 1;
                    let name = format!("inc{inc}.tela");
                    let t = lines(r, a, dir, depth - 1, 6, inc);
                    std::fs::write(dir.join(&name), t).unwrap();
                    line = format!(".include {name}");
                }
                23 => {
                    line = ".seg other".into();
                    a.bad = true;
                }
                _ => {
                    line = "nothing r1".into();
                    a.bad = true;
                }
            }
            if line.starts_with(".string") || !bytes.is_empty() {
                match cur {
                    None => {
                        if !faults {
                            continue;
                        }
                        a.bad = true;
                    }
                    Some(g) => {
                        let m = a.segs.entry(g).or_default();
                        if let Some(o) = at {
                            a.used.insert(l.clone());
                            m.1.push((m.0.len() + o, l));
                        }
                        m.0.extend(bytes);
                    }
                }
            }
            s += &line;
            s.push('\n');
        }
        s
    }
    type Made = (Vec<(String, bool, u8, u16)>, Vec<(u8, u16, Vec<u8>)>, Option<(u8, u16)>);
    impl Asm {
        fn name(k: u8) -> &'static str {
            SEGS.iter().find(|s| s.1 == k).map(|s| s.0).unwrap_or("")
        }
        /// Some(..): is refused or has to be
        fn refused(&self) -> Option<bool> {
            let refd = self.defs.iter().any(|d| self.refs.contains(&d.0));
            let gone = self.used.iter().any(|u| !self.defs.iter().any(|d| d.0 == *u) && !self.refs.contains(u) && !self.global.contains(u));
            if self.bad || refd || gone || self.segs.values().any(|s| s.0.len() > 0xffff - 128) {
                return Some(true);
            }
            let sum: usize = self.segs.values().map(|s| (s.0.len() + 127) / 128 * 128).sum();
            if sum + 256 <= 0xffff {
                return Some(false);
            }
            if self.segs.values().map(|s| s.0.len()).sum::<usize>() > 0xffff - 128 {
                return Some(true);
            }
            None
        }
        /// What is wrong with what was made of it; relocations: those that are in the object, with the names of their symbols
        fn wrong(&self, m: &Made, relocs: Option<&[(u8, u16, String)]>) -> Option<String> {
            let start = |g: &str| m.1.iter().find(|s| Self::name(s.0) == g).map(|s| s.1 as usize).unwrap_or(0);
            let mut ends: Vec<(usize, usize)> = m.1.iter().map(|s| (s.1 as usize, s.1 as usize + s.2.len())).collect();
            ends.sort();
            if ends.iter().any(|e| e.0 % 128 != 0 || e.0 < 128 || e.1 > 0xffff) || ends.windows(2).any(|w| w[0].1 > w[1].0) {
                return Some(format!("segments at {ends:x?}"));
            }
            for (g, (b, _)) in &self.segs {
                if m.1.iter().find(|s| Self::name(s.0) == *g).map(|s| s.2.len()) != Some(b.len()) {
                    return Some(format!("the size of {g}"));
                }
            }
            if m.1.len() != self.segs.len() {
                return Some("the number of segments".into());
            }
            if m.2.map(|e| (Self::name(e.0), e.1 as usize)) != self.entry.map(|e| (e.0, start(e.0) + e.1)) {
                return Some(format!("the entry: {:x?}", m.2));
            }
            let mut seen = vec![];
            for l in &m.0 {
                if seen.contains(&l.0) {
                    return Some(format!("{} twice", l.0));
                }
                seen.push(l.0.clone());
                match self.defs.iter().find(|d| d.0 == l.0) {
                    Some(d) => {
                        if Self::name(l.2) != d.1 || l.3 as usize != start(d.1) + d.2 || l.1 != self.global.contains(&l.0) {
                            return Some(format!("label {l:x?}, {} + {:#x}", d.1, d.2));
                        }
                    }
                    None => {
                        if !(self.refs.contains(&l.0) || self.global.contains(&l.0)) || l.2 != 0xff || !l.1 {
                            return Some(format!("reference {l:x?}"));
                        }
                    }
                }
            }
            for n in self.defs.iter().map(|d| &d.0).chain(&self.used).chain(&self.refs).chain(&self.global) {
                if !seen.contains(n) {
                    return Some(format!("no label {n}"));
                }
            }
            let mut uses = vec![];
            for (g, (b, us)) in &self.segs {
                let got = &m.1.iter().find(|s| Self::name(s.0) == *g).unwrap().2;
                let mut want = b.clone();
                for (o, l) in us {
                    let v = match self.defs.iter().find(|d| d.0 == *l) {
                        Some(d) => (start(d.1) + d.2) as u16,
                        None => got[*o] as u16 | (got[*o + 1] as u16) << 8,
                    };
                    want[*o..*o + 2].copy_from_slice(&v.to_le_bytes());
                    uses.push((SEGS.iter().find(|s| s.0 == *g).unwrap().1, (start(g) + o) as u16, l.clone()));
                }
                if *got != want {
                    let i = (0..want.len()).find(|&i| got[i] != want[i]).unwrap();
                    return Some(format!("byte {i:#x} of {g}: {:#x}, not {:#x}", got[i], want[i]));
                }
            }
            uses.sort();
            if let Some(r) = relocs {
                let mut r = r.to_vec();
                r.sort();
                if r != uses {
                    return Some(format!("relocations {r:x?}, not {uses:x?}"));
                }
            }
            None
        }
    }
    /// Sources and what is made of them, by `process` and by the assembler
    pub fn assembles() -> Option<String> {
        use telda2::{aalv::obj::Object, source::*};
        let dir = std::env::temp_dir().join(format!("telda-sources-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        struct Gone(std::path::PathBuf);
        impl Drop for Gone {
            fn drop(&mut self) {
                let _ = std::fs::remove_dir_all(&self.0);
            }
        }
        let gone = Gone(dir);
        let mut r = Rng(0x0f1e_2d3c_4b5a_6978);
        let mut inc = 0;
        let mut all = vec![];
        for i in 0..600 {
            let mut a = Asm::default();
            let n = 4 + r.below(40);
            let mut t = lines(&mut r, &mut a, &gone.0, 2, n, &mut inc);
            // most of what is used is there
            if r.below(8) > 0 {
                let left: Vec<String> = a.used.iter().filter(|u| !a.defs.iter().any(|d| d.0 == **u) && !a.refs.contains(*u)).cloned().collect();
                for l in left {
                    t += &format!(".seg text\n{l}:\n");
                    let at = a.segs.get("text").map(|s| s.0.len()).unwrap_or(0);
                    a.defs.push((l, "text", at));
                }
            }
            let p = gone.0.join(format!("s{i}.tela"));
            std::fs::write(&p, &t).unwrap();
            let short = if t.len() > 3000 { format!("{}...", &t[..3000]) } else { t };
            all.push((p, short, a));
        }
        for (p, t, a) in &all {
            let got = SourceLines::new(p).and_then(process);
            match (&got, a.refused()) {
                (Ok(_), Some(true)) => return Some(format!("{t}\nis accepted")),
                (Err(e), Some(false)) => return Some(format!("{t}\nis refused: {e}")),
                _ => (),
            }
            if let Ok(ps) = got {
                let labels = ps.labels.iter().map(|l| (l.0.to_string(), !matches!(l.1, SymbolType::Internal), l.2 as u8, l.3)).collect();
                let mut segs = vec![];
                for (k, d) in ps.dls {
                    let mut m = vec![];
                    for l in d.lines {
                        match l {
                            DataLine::Raw(b) => m.extend(b),
                            DataLine::Wide(Wide::Number(w)) => m.extend(w.to_le_bytes()),
                            DataLine::Wide(Wide::Label(i)) => m.extend(ps.labels[i].3.to_le_bytes()),
                            DataLine::Ins(o, d) => {
                                m.push(o);
                                write_data_operand(k, &mut m, |i, _| ps.labels[i].3, d);
                            }
                        }
                    }
                    if m.len() != d.size as usize {
                        return Some(format!("{t}\nsize {:#x}, {:#x} bytes", d.size, m.len()));
                    }
                    segs.push((k as u8, d.start, m));
                }
                if let Some(w) = a.wrong(&(labels, segs, ps.entry.map(|e| (e.0 as u8, e.1))), None) {
                    return Some(format!("{t}\n{w}"));
                }
            }
        }
        if let Ok(tc) = std::env::var("TELDA_TC") {
            for c in all.chunks(50) {
                let st = std::process::Command::new(&tc).args(c.iter().map(|x| &x.0)).stderr(std::process::Stdio::null()).status().unwrap();
                if !matches!(st.code(), Some(0 | 1)) {
                    return Some(format!("the assembler ends with {st}; sources:\n{}", c.iter().map(|x| &*x.1).collect::<Vec<_>>().join("\n----\n")));
                }
                for (p, t, a) in c {
                    let o = p.with_extension("to");
                    match (o.exists(), a.refused()) {
                        (true, Some(true)) => return Some(format!("{t}\nis assembled")),
                        (false, Some(false)) => return Some(format!("{t}\nis not assembled")),
                        (false, _) => continue,
                        _ => (),
                    }
                    let x = match Object::from_file(&o) {
                        Ok(o) => parts(&o),
                        Err(e) => return Some(format!("{t}\nis assembled to no object: {e}")),
                    };
                    let mut relocs = vec![];
                    for r in &x.7 {
                        match x.6.get(r.2 as usize) {
                            Some(s) => relocs.push((r.0, r.1, s.0.clone())),
                            None => return Some(format!("{t}\nrelocation of no symbol: {r:?}")),
                        }
                    }
                    if let Some(w) = a.wrong(&(x.6, x.5, x.1), Some(&relocs)) {
                        return Some(format!("{t}\nassembled: {w}"));
                    }
                }
            }
        }
        None
    }
}
#[cfg(not(kani))]
fn main() {
    let what = std::env::args().nth(1).unwrap();
    let f = match &*what {
        "mem" => native::mem,
        "alloc" => native::alloc,
        "space" => native::space,
        "load" => native::load,
        "objects" => native::objects,
        "assembles" => native::assembles,
        _ => std::process::exit(5),
    };
    let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || std::panic::catch_unwind(f)).unwrap().join().unwrap();
    match r {
        Ok(None) => println!("no failing input found"),
        Ok(Some(m)) => {
            println!("FOUND: {m}");
            std::process::exit(1);
        }
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            println!("FOUND: panic in the code under verification: {m:?}");
            std::process::exit(1);
        }
    }
}
#[cfg(kani)]
fn main() {}
