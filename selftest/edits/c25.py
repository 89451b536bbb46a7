P = "src/text/parser/mod.rs"
N = "src/text/parser/naive.rs"
ALL = ["C25"]
EDITS = []


def m(name, f, old, new):
    EDITS.append((name, [(f, old, new)], ALL))


def qt(name, *ed):
    EDITS.append(("q-" + name, list(ed), []))


CUT = "            if parsed > rem_len || (!is_eof && parsed == rem_len && rem_len % 3 > 0) {\n"
DROP = "                let drop = ret.1.saturating_sub(rem_len / 3);\n                buf.truncate(buf.len() - drop);\n"
RET = "                return Some((len - rem_len % 3, false, false, true));\n"
m("cut-greater", P, CUT, "            if parsed > rem_len {\n")
m("cut-equal", P, CUT, "            if parsed >= rem_len {\n")
m("cut-eof", P, CUT, CUT.replace("!is_eof && ", ""))
m("drop-none", P, DROP, "")
m("drop-ceil", P, DROP, DROP.replace("rem_len / 3", "(rem_len + 2) / 3"))
m("cut-all", P, RET, RET.replace("len - rem_len % 3", "len"))
m("cut-none", P, RET, RET.replace("len - rem_len % 3", "len - rem_len"))
m("tail-block", P, "            is_in_tail = parsed < rem_len;\n", "            is_in_tail = is_in_tail || parsed == 0;\n")
m("tail-full", P, "            is_in_tail = parsed < 4 * 48;\n", "")
m("newline", P, "                rem_len = rem_len.saturating_sub(1);\n                self.src.consume(len - rem_len);\n                return Ok(Some((offset, span)));\n            }\n\n            let (_, rem_stream) = stream.split_at(fwd);\n            stream = rem_stream;\n        }\n\n        self.src.consume(len - rem_len);\n        self.read_line_continued(offset, span, is_in_tail, buf)\n    }\n\n    pub",
  "                self.src.consume(len - rem_len);\n                return Ok(Some((offset, span)));\n            }\n\n            let (_, rem_stream) = stream.split_at(fwd);\n            stream = rem_stream;\n        }\n\n        self.src.consume(len - rem_len);\n        self.read_line_continued(offset, span, is_in_tail, buf)\n    }\n\n    pub")
HEADC = """        self.src.consume(len - rem_len);
        self.read_line_continued(offset, span, is_in_tail, buf)
    }
}
"""
m("flag-lost", P, HEADC, HEADC.replace("is_in_tail", "false"))
m("swap", P, HEADC, HEADC.replace("offset, span", "span, offset"))
m("refeed-flag", P, "            is_in_tail = delim_found;\n\n            if refeed {\n                break;\n            }\n            if eol_found {\n                rem_len = rem_len.saturating_sub(1);\n                self.src.consume(len - rem_len);\n                return Ok(Some((offset, span)));\n            }\n\n            let (_, rem_stream) = stream.split_at(fwd);\n            stream = rem_stream;\n        }\n\n        self.src.consume(len - rem_len);\n        self.read_line_continued(offset, span, is_in_tail, buf)\n    }\n}",
  "            is_in_tail |= delim_found || refeed;\n\n            if refeed {\n                break;\n            }\n            if eol_found {\n                rem_len = rem_len.saturating_sub(1);\n                self.src.consume(len - rem_len);\n                return Ok(Some((offset, span)));\n            }\n\n            let (_, rem_stream) = stream.split_at(fwd);\n            stream = rem_stream;\n        }\n\n        self.src.consume(len - rem_len);\n        self.read_line_continued(offset, span, is_in_tail, buf)\n    }\n}")
m("delims", P, "(delims & 0xffffff) != 0x00207c20", "(delims & 0xffff) != 0x7c20")
m("head-fwd", P, "        let mut rem_len = len - fwd - 3;\n", "        let mut rem_len = len - fwd - 2;\n")
m("head-nl", P, "            let fwd = std::cmp::min(fwd + 1, len);\n            self.src.consume(fwd);\n", "            self.src.consume(fwd);\n")
m("span-place", P, "        Some((fwd1 + fwd2 + 1, offset as usize, span as usize))\n", "        Some((fwd1 + fwd2 + 1, span as usize, offset as usize))\n")
m("end-offset", P, "        if is_eof && len == 0 {\n            return Ok(Some((offset, span)));\n", "        if is_eof && len == 0 {\n            return Ok(Some((span, span)));\n")
m("dec-as-hex", P, "            ColumnFormat::Decimal => parse_dec_single,\n            ColumnFormat::Hexadecimal => parse_hex_single,\n            _ => panic!(\"unsupported parser for header.span",
  "            ColumnFormat::Decimal => parse_hex_single,\n            ColumnFormat::Hexadecimal => parse_hex_single,\n            _ => panic!(\"unsupported parser for header.span")
m("hex-g", N, "(b'a'..b'g')", "(b'a'..b'h')")
m("hex-F", N, "(b'A'..b'G')", "(b'A'..b'F')")
m("hex-colon", N, "    if x < b':' {\n", "    if x < b'9' {\n")
m("hex-shift", N, "hex = (hex << 4) | to_hex(x) as u64;", "hex = (hex << 4) ^ (to_hex(x) as u64 + (hex >> 20));")
m("hex-end", N, "        if x == b' ' || x == b'\\n' || x == b':' {\n            return Some((hex, i));\n", "        if x == b' ' || x == b'\\n' || x == b':' {\n            return Some((hex & 0xffffffff, i.min(8)));\n")
m("dec-nine", N, "        if !(b'0'..b':').contains(&x) {\n            return None;\n        }\n\n        n = n * 10", "        if !(b'0'..=b'z').contains(&x) {\n            return None;\n        }\n\n        n = n * 10")
m("dec-mul", N, "n = n * 10 + (x - b'0') as u64;", "n = (n << 3) + n + (x - b'0') as u64;")
m("sep", N, "x.len() == 2 || x[2] == b' '", "x.len() == 2 || x[2] <= b' '")
m("blank", N, "x.len() < 2 || x[0] == b' ' && x[1] == b' '", "x.len() < 2 || x[0] == b' ' || x[1] == b' '")
m("second", N, "is_valid_hex(x[0]) && is_valid_hex(x[1])", "is_valid_hex(x[0]) && (is_valid_hex(x[1]) || x[1] == b' ')")
m("put", N, "dst[i] = (to_hex(x[0]) << 4) | to_hex(x[1]);", "dst[n_elems.min(62)] = (to_hex(x[0]) << 4) | to_hex(x[1]);")
m("count", N, "        n_elems = i + 1;\n", "        n_elems = if x.len() == 3 { i + 1 } else { n_elems };\n")
m("bar-nl", N, "    let parse_len = parse_len.min(scan_len);\n", "")
m("bar-in-tail", N, "return Some(((scan_len, 0), 0));", "return Some(((scan_len, scan_len), 0));")
m("last-char", N, "        4 * 48\n    };", "        4 * 48 - 1\n    };")
qt("match", (N, """    if x < b':' {
        x - b'0'
    } else {
        (x - b'A' + 10) & 0x0f
    }
""", """    match x {
        b'0'..=b'9' => x - b'0',
        b'A'..=b'F' => x - b'A' + 10,
        _ => x - b'a' + 10,
    }
"""))
qt("valid", (N, "    (b'0'..b':').contains(&x) || (b'A'..b'G').contains(&x) || (b'a'..b'g').contains(&x)\n", "    x.is_ascii_hexdigit()\n"))
qt("valid2", (N, "    (b'0'..b':').contains(&x) || (b'A'..b'G').contains(&x) || (b'a'..b'g').contains(&x)\n", "    matches!(x, b'0'..=b'9' | b'A'..=b'F' | b'a'..=b'f')\n"))
qt("mul16", (N, "hex = (hex << 4) | to_hex(x) as u64;", "hex = hex * 16 + u64::from(to_hex(x));"))
qt("dec-incl", (N, "        if !(b'0'..b':').contains(&x) {\n            return None;\n        }\n\n        n = n * 10", "        if !x.is_ascii_digit() {\n            return None;\n        }\n\n        n = n * 10"))
qt("body-count", (N, "        dst[i] = (to_hex(x[0]) << 4) | to_hex(x[1]);\n        n_elems = i + 1;\n", "        let (h, l) = (to_hex(x[0]), to_hex(x[1]));\n        dst[n_elems] = h * 16 + l;\n        n_elems += 1;\n"))
qt("body-enum", (N, "    for (i, x) in src[..parse_len.min(scan_len)].chunks(3).enumerate() {", "    for x in src[..parse_len].chunks(3) {"),
   (N, "        dst[i] = (to_hex(x[0]) << 4) | to_hex(x[1]);\n        n_elems = i + 1;\n", "        dst[n_elems] = (to_hex(x[0]) << 4) | to_hex(x[1]);\n        n_elems += 1;\n"))
qt("position", (N, """        for (i, &x) in src[..4 * 48].iter().enumerate() {
            if x == c {
                return i;
            }
        }
        4 * 48
""", "        src[..4 * 48].iter().position(|&x| x == c).unwrap_or(4 * 48)\n"))
qt("drop", (P, DROP, "                let keep = std::cmp::min(ret.1, rem_len / 3);\n                buf.truncate(buf.len() + keep - ret.1);\n"))
qt("cut", (P, CUT, "            let is_cut = parsed == rem_len && rem_len % 3 != 0 && !is_eof;\n            if is_cut || parsed > rem_len {\n"))
qt("delims", (P, """        let mut delims = [0u8; 4];
        delims.copy_from_slice(&stream[fwd..fwd + 4]);
        let delims = u32::from_le_bytes(delims);

        if (delims & 0xff) == b'\\n' as u32 {
""", """        if stream[fwd] == b'\\n' {
"""), (P, "        if (delims & 0xffffff) != 0x00207c20 {\n", "        if &stream[fwd..fwd + 3] != b\" | \" {\n"))
qt("delims2", (P, """        let mut delims = [0u8; 4];
        delims.copy_from_slice(&stream[fwd..fwd + 4]);
        let delims = u32::from_le_bytes(delims);

        if (delims & 0xff) == b'\\n' as u32 {
""", """        if stream[fwd] == b'\\n' {
"""), (P, "        if (delims & 0xffffff) != 0x00207c20 {\n", "        if stream[fwd] != b' ' || stream[fwd + 1] != b'|' || stream[fwd + 2] != b' ' {\n"))
qt("slice", (P, "        let mut stream = stream.split_at(fwd + 3).1;\n", "        let mut stream = &stream[fwd + 3..];\n"))
qt("consumed", (P, "                rem_len = rem_len.saturating_sub(1);\n                self.src.consume(len - rem_len);\n                return Ok(Some((offset, span)));\n            }\n\n            let (_, rem_stream) = stream.split_at(fwd);\n            stream = rem_stream;\n        }\n\n        self.src.consume(len - rem_len);\n        self.read_line_continued(offset, span, is_in_tail, buf)\n    }\n\n    pub",
   "                let used = std::cmp::min(len - rem_len + 1, len);\n                self.src.consume(used);\n                return Ok(Some((offset, span)));\n            }\n\n            stream = &stream[fwd..];\n        }\n\n        self.src.consume(len - rem_len);\n        self.read_line_continued(offset, span, is_in_tail, buf)\n    }\n\n    pub"))
qt("head", (P, "        let (offset, fwd1) = (self.parse_offset)(stream)?;\n", "        let head = (self.parse_offset)(stream);\n        let (offset, fwd1) = match head {\n            Some(x) => x,\n            None => return None,\n        };\n"))
X = "src/text/parser/x86_64.rs"
m("v-tables", X, "let ub = [0x0au8, 0, 0x20, 0x3a, 0x47, 0, 0x67,", "let ub = [0x0au8, 0, 0x20, 0x3a, 0x47, 0, 0x68,")
m("v-lower", X, "0xffu8, 0xff, 0xff, 0x30, 0x37, 0xff, 0x57,", "0xffu8, 0xff, 0xff, 0x30, 0x37, 0xff, 0x56,")
m("v-shift", X, "let hex = ((l << 4) | h) >> shift;", "let hex = (((l << 4) | h) >> shift) & 0xffff_ffff_ffff;")
m("v-index", X, "[14u8, 12, 10, 8, 6, 4, 2, 0, 15, 13, 11, 9, 7, 5, 3, 1]", "[14u8, 12, 10, 8, 6, 4, 2, 0, 15, 13, 11, 9, 7, 5, 3, 0]")
m("v-valid", X, "    if (is_valid & mask) != mask {\n", "    if (is_valid & mask) == 0 {\n")
m("v-seps", X, "1 << (parse_len / 3)", "1 << ((parse_len + 1) / 3).saturating_sub(1)")
m("v-null", X, "let is_null = _mm_and_si128(", "let is_null = _mm_or_si128(")
m("v-step", X, "_mm_loadu_si128((chunk[24..])", "_mm_loadu_si128((chunk[25..])")
m("v-mask", X, "(((x3 << 12) | x2) << 24)", "(((x3 << 12) | x2) << 25)")
m("v-skip", X, "            is_in_tail = parse_len < 48;\n", "            is_in_tail = parse_len < 47;\n")
m("v-clip", X, "            let parse_len = parse_len.min(scan_len);\n            parsed += parse_len;\n", "            parsed += parse_len;\n            let parse_len = parse_len.min(scan_len);\n")
m("v-place", X, "&mut dst[n_elems..]", "&mut dst[parsed / 3..]")
qt("v-xor", (X, "let hex = _mm_or_si128(xl, _mm_slli_epi16(xh, 4));", "let hex = _mm_xor_si128(_mm_slli_epi16(xh, 4), xl);"))
qt("v-ptr", (X, "_mm_loadu_si128((chunk[12..]).as_ptr() as *const __m128i)", "_mm_loadu_si128(chunk.as_ptr().add(12) as *const __m128i)"))
qt("v-while", (X, "            let parse_len = find_delim(x0, x1, x2, x3, b'|');\n            is_in_tail = parse_len < 48;\n", "            let parse_len = find_delim(x0, x1, x2, x3, b'|');\n            if parse_len != 48 {\n                is_in_tail = true;\n            }\n"))
m("dec-long", N, "    for (i, &x) in src.iter().enumerate() {\n        if x == b' ' {\n            return Some((n, i));", "    for (i, &x) in src[..12].iter().enumerate() {\n        if x == b' ' {\n            return Some((n, i));")
m("hex-long", N, "for (i, &x) in src[..16].iter().enumerate() {\n        if x == b' '", "for (i, &x) in src[..10].iter().enumerate() {\n        if x == b' '")
m("dec-take", N, "    for (i, &x) in src.iter().enumerate() {\n        if x == b' ' {\n            return Some((n, i));", "    for (i, &x) in src.iter().take(14).enumerate() {\n        if x == b' ' {\n            return Some((n, i));")
