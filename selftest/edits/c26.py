F = "src/text/formatter/mod.rs"
H = "src/text/formatter/hex.rs"
D = "src/text/formatter/dec.rs"
ALL = ["C26"]
EDITS = []


def m(name, f, old, new):
    EDITS.append((name, [(f, old, new)], ALL))


def qt(name, *ed):
    EDITS.append(("q-" + name, list(ed), []))


LH = "fn format_line_hhh"
m("active", F, "(src.len() | 0xffff)", "(src.len() | 0xff)")
m("active-more", F, "(src.len() | 0xffff)", "(src.len() | 0xffffff)")
m("active-width", F, "((src.len() | 0xffff).leading_zeros()", "((width | 0xffff).leading_zeros()")
m("off-digits", F, "format_hex_single(header, offset, 6)", "format_hex_single(header, offset, 5)")
m("len-width", F, "format_hex_single(&mut header[13..], src.len(), len_active_bytes)", "format_hex_single(&mut header[13..], width, len_active_bytes)")
m("dec-width", F, "p += format_dec_single(&mut dst[p..], src.len());", "p += format_dec_single(&mut dst[p..], width);")
m("pad-one", F, """    if src.len() < width {
        // unlikely
        for i in src.len()..width {
            body[3 * i] = b' ';
            body[3 * i + 1] = b' ';
            body[3 * i + 2] = b' ';
            mosaic[i] = b' ';
        }
    }

    19 +""", """    if src.len() < width {
        // unlikely
        for i in src.len() + 1..width {
            body[3 * i] = b' ';
            body[3 * i + 1] = b' ';
            body[3 * i + 2] = b' ';
            mosaic[i] = b' ';
        }
    }

    19 +""")
m("pad-16", F, """    if src.len() < width {
        // unlikely
        for i in src.len()..width {
            body[3 * i] = b' ';
            body[3 * i + 1] = b' ';
            body[3 * i + 2] = b' ';
            mosaic[i] = b' ';
        }
    }

    p +""", """    if src.len() < width {
        // unlikely
        for i in src.len()..width.min((src.len() + 15) & !15) {
            body[3 * i] = b' ';
            body[3 * i + 1] = b' ';
            body[3 * i + 2] = b' ';
            mosaic[i] = b' ';
        }
    }

    p +""")
m("pad-first", F, """    19 + len_cols + 4 * width
}""", """    19 + len_cols + 4 * src.len().max(1).min(width)
}""")
m("reserve", F, """        buf.fill_uninit(reserve, |dst: &mut [u8]| {
            let offset = offset + s.pos;
            let len = unsafe { format_line_hhh(""", """        buf.fill_uninit(reserve - 8 * 31, |dst: &mut [u8]| {
            let offset = offset + s.pos;
            let len = unsafe { format_line_hhh(""")
m("reserve-len", F, """        let len = std::cmp::max(min_width, s.len);
        let reserve = 4 * ((len + 15) & !15) + 8 * 32;

        buf.fill_uninit(reserve, |dst: &mut [u8]| {
            let offset = offset + s.pos;
            let len = unsafe { format_line_ddh(""", """        let len = s.len;
        let reserve = 4 * ((len + 15) & !15) + 8 * 32;

        buf.fill_uninit(reserve, |dst: &mut [u8]| {
            let offset = offset + s.pos;
            let len = unsafe { format_line_ddh(""")
m("off-pos", F, """            let offset = offset + s.pos;
            let len = unsafe { format_line_ddh(""", """            let offset = offset.max(s.pos);
            let len = unsafe { format_line_ddh(""")
m("width-arg", F, "format_line_hhh(dst, src, offset, s.len.max(min_width))", "format_line_hhh(dst, src, offset, if s.len > 0 { s.len.max(min_width) } else { 0 })")
m("bin-len", F, """    for s in segments {
        buf.fill_uninit(s.len""", """    for s in segments.iter().filter(|s| s.len > 1) {
        buf.fill_uninit(s.len""")
m("empty", F, """    // TODO: unroll the loop
    for s in segments {
        let src = &stream[s.as_range()];
""", """    // TODO: unroll the loop
    for s in segments {
        let src = &stream[s.as_range()];
        if src.is_empty() && min_width == 0 {
            continue;
        }
""")
m("bin-src", F, "let src = &stream[s.as_range()];\n            unsafe", "let src = &stream[s.pos.min(stream.len() - s.len.min(stream.len()))..];\n            unsafe")
EDITS[-1] = (EDITS[-1][0], EDITS[-1][1], None)
m("given", F, "(self.formatter)(self.offset.0 + offset,", "(self.formatter)(offset,")
m("given-1", F, "(self.formatter)(self.offset.0 + offset,", "(self.formatter)(self.offset.1 + offset,")
m("form", F, "(ColumnFormat::None, ColumnFormat::None, ColumnFormat::Hexadecimal) => format_segments_hhh", "(ColumnFormat::None, ColumnFormat::None, ColumnFormat::Hexadecimal) => format_segments_ddh")
m("form-dec", F, "(ColumnFormat::Decimal, ColumnFormat::Decimal, ColumnFormat::Hexadecimal) => format_segments_ddh", "(ColumnFormat::Decimal, ColumnFormat::Decimal, ColumnFormat::Hexadecimal) => format_segments_hhh")
m("mos-127", H, "*x < b' ' || *x >= 127", "*x < b' ' || *x > 127")
m("mos-32", H, "*x < b' ' || *x >= 127", "*x <= b' ' || *x >= 127")
m("mos-ff", H, "*x < b' ' || *x >= 127", "*x < b' ' || (*x >= 127 && *x != 0xff)")
m("hex-shift", H, "let y = (val >> (4 * (2 * active_bytes - i - 1))) & 0x0f;", "let y = ((val as u32 as usize) >> (4 * (2 * active_bytes - i - 1))) & 0x0f;")
m("body-tbl", H, "dst[3 * i] = b\"0123456789abcdef\"[(x >> 4) as usize];", "dst[3 * i] = b\"0123456789abcdef\"[(x >> 4) as usize & 0x0e | (x >> 4) as usize & 1 & !(x >> 7) as usize];")
m("dec-zero", D, "let len = std::cmp::max(2, p);", "let len = p;")
m("dec-max", D, "while val > 0 {", "while val > 0 && p < 20 {")
m("v-hex-table", H, "0x46u8, 0x45, 0x44, 0x43, 0x42, 0x41, 0x19, 0x18, 0x17, 0x16, 0x15, 0x14, 0x13, 0x12, 0x11, 0x10,", "0x46u8, 0x45, 0x44, 0x43, 0x42, 0x41, 0x19, 0x18, 0x17, 0x16, 0x15, 0x14, 0x13, 0x12, 0x11, 0x30,")
m("v-blks", H, """    let n_blks = (len + 0x0f) >> 4;
    for _ in 0..n_blks {
        let x = _mm_loadu_si128(src as *const __m128i);
        let x = _mm256_cvtepu8_epi16(x);""", """    let n_blks = (len + 0x0e) >> 4;
    for _ in 0..n_blks {
        let x = _mm_loadu_si128(src as *const __m128i);
        let x = _mm256_cvtepu8_epi16(x);""")
m("v-mos", H, "let y = _mm_add_epi8(x, _mm_set1_epi8(1));", "let y = _mm_adds_epu8(x, _mm_set1_epi8(1));")
EDITS[-1] = (EDITS[-1][0], EDITS[-1][1], None)
m("v-mos-sp", H, "let is_ascii = _mm_cmpgt_epi8(y, offset);", "let is_ascii = _mm_cmpgt_epi8(x, offset);")
m("v-mos-sp2", H, "let is_ascii = _mm_cmpgt_epi8(y, offset);", "let is_ascii = _mm_cmpgt_epi8(x, _mm_set1_epi8(31));")
m("v-idx", H, "2u8, 0x80, 5, 4, 0x80, 7, 6, 0x80, 9, 8, 0x80, 11, 10, 0x80, 13, 12, 0, 0,", "2u8, 0x80, 5, 4, 0x80, 7, 6, 0x80, 9, 8, 0x80, 11, 10, 0x80, 13, 13, 0, 0,")
m("v-perm", H, "_mm256_permute4x64_epi64(x, 0xe9)", "_mm256_permute4x64_epi64(x, 0xe8)")
EDITS[-1] = (EDITS[-1][0], EDITS[-1][1], None)
m("v-step", H, "dst = dst.wrapping_add(48);\n    }\n\n    3 * len", "dst = dst.wrapping_add(47);\n    }\n\n    3 * len")

qt("pad-fill", (F, """        for i in src.len()..width {
            body[3 * i] = b' ';
            body[3 * i + 1] = b' ';
            body[3 * i + 2] = b' ';
            mosaic[i] = b' ';
        }
    }

    19 +""", """        body[3 * src.len()..].fill(b' ');
        mosaic[src.len()..].fill(b' ');
    }

    19 +"""))
qt("delim", (F, """    let (body, rem) = dst.split_at_mut(3 * width);
    format_hex_body(body, src);
    dst = rem;

    let (delim, rem) = dst.split_at_mut(2);
    delim[0] = b'|';
    delim[1] = b' ';
    dst = rem;

    // mosaic
    let (mosaic, rem) = dst.split_at_mut(width);
    format_mosaic(mosaic, src);
    dst = rem;
    dst[0] = b'\\n';

    if src.len() < width {
        // unlikely
        for i in src.len()..width {
            body[3 * i] = b' ';
            body[3 * i + 1] = b' ';
            body[3 * i + 2] = b' ';
            mosaic[i] = b' ';
        }
    }

    19 +""", """    let (body, dst) = dst.split_at_mut(3 * width);
    format_hex_body(body, src);

    let (delim, dst) = dst.split_at_mut(2);
    delim.copy_from_slice(b"| ");

    // mosaic
    let (mosaic, dst) = dst.split_at_mut(width);
    format_mosaic(mosaic, src);
    dst[0] = b'\\n';

    let mut i = src.len();
    while i < width {
        body[3 * i..3 * i + 3].fill(b' ');
        mosaic[i] = b' ';
        i += 1;
    }

    19 +"""))
qt("helper", (F, """    let (header, rem) = dst.split_at_mut(16 + len_cols);
    format_hex_single(header, offset, 6);
    format_hex_single(&mut header[13..], src.len(), len_active_bytes);
    header[14 + len_cols] = b'|';
    header[15 + len_cols] = b' ';
    dst = rem;
""", """    let (header, rem) = dst.split_at_mut(16 + len_cols);
    let p = format_hex_single(header, offset, 6);
    let p = p + format_hex_single(&mut header[p..], src.len(), len_active_bytes);
    put_bar(&mut header[p..]);
    dst = rem;
"""), (F, "unsafe fn format_line_hhh", "fn put_bar(dst: &mut [u8]) {\n    dst[0] = b'|';\n    dst[1] = b' ';\n}\n\nunsafe fn format_line_hhh"))
qt("index", (F, "    for s in segments {\n        buf.fill_uninit(s.len, |dst: &mut [u8]| {\n            let src = &stream[s.as_range()];\n            unsafe { std::ptr::copy_nonoverlapping(src.as_ptr(), dst.as_mut_ptr(), s.len) };\n",
             "    for s in segments.iter() {\n        buf.fill_uninit(s.len, |dst: &mut [u8]| {\n            dst[..s.len].copy_from_slice(&stream[s.pos..s.tail()]);\n"))
qt("mosaic", (H, """    for (x, y) in src.iter().zip(dst.iter_mut()) {
        *y = if *x < b' ' || *x >= 127 { b'.' } else { *x };
    }
""", """    for (i, &x) in src.iter().enumerate() {
        dst[i] = if (b' '..127).contains(&x) { x } else { b'.' };
    }
"""))
qt("body", (H, """    for (i, &x) in src.iter().enumerate() {
        dst[3 * i] = b"0123456789abcdef"[(x >> 4) as usize];
        dst[3 * i + 1] = b"0123456789abcdef"[(x & 0x0f) as usize];
        dst[3 * i + 2] = b' ';
    }
""", """    let table = b"0123456789abcdef";
    for (y, &x) in dst.chunks_exact_mut(3).zip(src.iter()) {
        let (hi, lo) = (x / 16, x % 16);
        y[0] = table[hi as usize];
        y[1] = table[lo as usize];
        y[2] = b' ';
    }
"""))
qt("dec", (D, """    while val > 0 {
        let (q, r) = (val / 10, val % 10);
        buf[p] = b"0123456789"[r];
        p += 1;
        val = q;
    }
""", """    loop {
        if val == 0 {
            break;
        }
        buf[p] = b'0' + (val % 10) as u8;
        val /= 10;
        p += 1;
    }
"""))
qt("hex", (H, """    for (i, x) in dst[..2 * active_bytes].iter_mut().enumerate() {
        let y = (val >> (4 * (2 * active_bytes - i - 1))) & 0x0f;
        *x = b"0123456789abcdef"[y];
    }
""", """    for i in 0..2 * active_bytes {
        let shift = 4 * (2 * active_bytes - i - 1);
        dst[i] = b"0123456789abcdef"[(val >> shift) & 0x0f];
    }
"""))
