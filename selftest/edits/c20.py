Z = "src/byte/zip.rs"
FOLD = """            if x {
                shortest = std::cmp::min(shortest, y);
            }
            len = std::cmp::min(len, y);
"""
COPY = """                    unsafe { std::ptr::copy_nonoverlapping(*ptr, dst, $w) };
                    *ptr = ptr.wrapping_add($w);
                    dst = dst.wrapping_add($w);
"""
GEN = """                unsafe { std::ptr::copy_nonoverlapping(*ptr, dst, self.word_size) };
                *ptr = ptr.wrapping_add(self.word_size);
                dst = dst.wrapping_add(self.word_size);
"""
LOOPG = """        for _ in 0..bytes_per_src / self.word_size {
            for ptr in self.ptrs.iter_mut() {
""" + GEN + """            }
        }
"""
LOOPM = """            for _ in 0..bytes_per_src / $w {
                for ptr in self.ptrs.iter_mut() {
""" + COPY + """                }
            }
"""
TABLE = open("/repo/" + Z).read()
TABLE = TABLE[TABLE.index("        let gather_impls = ["):TABLE.index("        let len = srcs.len();")]
EDITS = [
    ("w8-16", [(Z, "gather_impl!(gather_impl_w8, 8);", "gather_impl!(gather_impl_w8, 4);")], ["C20"]),
    ("w16-8", [(Z, "gather_impl!(gather_impl_w16, 16);", "gather_impl!(gather_impl_w16, 8);")], ["C20"]),
    ("table-short", [(Z, "            Self::gather_impl_general,\n            Self::gather_impl_w16,", "            Self::gather_impl_w16,\n            Self::gather_impl_general,")], ["C20"]),
    ("index-15", [(Z, "std::cmp::min(word_size - 1, 16)", "std::cmp::min(word_size - 1, 15)")], ["C20"]),
    ("swap", [(Z, "            Self::gather_impl_w6,\n            Self::gather_impl_w7,", "            Self::gather_impl_w7,\n            Self::gather_impl_w6,")], ["C20"]),
    ("eof-all", [(Z, "            if x {\n                shortest = std::cmp::min(shortest, y);\n            }\n", "            if x && y < len {\n                shortest = std::cmp::min(shortest, y);\n            }\n")], ["C20"]),
    ("eof-lt", [(Z, "let is_eof = shortest <= len;", "let is_eof = shortest < len;")], ["C20"]),
    ("eof-len", [(Z, "let is_eof = shortest <= len;", "let is_eof = shortest != usize::MAX;")], ["C20"]),
    ("len-max", [(Z, "            len = std::cmp::min(len, y);", "            len = y;")], ["C20"]),
    ("len-words", [(Z, "let len = (len / self.word_size) * self.word_size;", "let len = len & !(self.word_size - 1);")], ["C20"]),
    ("len-up", [(Z, "let len = (len / self.word_size) * self.word_size;", "let len = ((len + self.word_size - 1) / self.word_size) * self.word_size;")], ["C20"]),
    ("consume-all", [(Z, "self.src.consume(bytes_per_src);", "self.src.consume(bytes_all);")], ["C20"]),
    ("consume-first", [(Z, "        for src in &mut self.srcs {\n            src.consume(bytes_per_src);\n        }", "        self.srcs[0].consume(bytes_per_src);")], ["C20"]),
    ("consume-skip", [(Z, "        for src in &mut self.srcs {\n            src.consume", "        for src in self.srcs.iter_mut().skip(1) {\n            src.consume")], ["C20"]),
    ("fill-skip", [(Z, "for src in &mut self.srcs {\n            let (x, y)", "for src in self.srcs.iter_mut().skip(1) {\n            let (x, y)")], ["C20"]),
    ("ptr-rev", [(Z, "self.srcs.iter_mut().zip(self.ptrs.iter_mut())", "self.srcs.iter_mut().rev().zip(self.ptrs.iter_mut())")], ["C20"]),
    ("ptr-off", [(Z, "*ptr = src.as_slice().as_ptr();", "*ptr = src.as_slice().as_ptr().wrapping_add(1);")], ["C20"]),
    ("gen-rev", [(Z, "            for ptr in self.ptrs.iter_mut() {\n                unsafe { std::ptr::copy_nonoverlapping(*ptr, dst, self", "            for ptr in self.ptrs.iter_mut().rev() {\n                unsafe { std::ptr::copy_nonoverlapping(*ptr, dst, self")], ["C20"]),
    ("gen-copy", [(Z, "dst, self.word_size) };", "dst, self.word_size.min(32)) };")], ["C20"]),
    ("gen-dst", [(Z, "dst = dst.wrapping_add(self.word_size);", "dst = dst.wrapping_add((self.word_size + 7) & !7);")], ["C20"]),
    ("gen-src", [(Z, "*ptr = ptr.wrapping_add(self.word_size);", "*ptr = ptr.wrapping_add(self.word_size.next_power_of_two());")], ["C20"]),
    ("gen-count", [(Z, "0..bytes_per_src / self.word_size {", "1..bytes_per_src / self.word_size {")], ["C20"]),
    ("gen-ret", [(Z, """        }

        Ok(self.srcs.len() * bytes_per_src)
    }

    fn gather(""", """        }

        Ok(bytes_per_src)
    }

    fn gather(""")], ["C20"]),
    ("mac-count", [(Z, "0..bytes_per_src / $w {", "0..bytes_per_src / $w.max(2) {")], ["C20"]),
    ("room", [(Z, "Ok((is_eof, len, self.srcs.len() * len))", "Ok((is_eof, len, len))")], ["C20"]),

    ("q-match", [(Z, TABLE, "        let g: fn(&mut Self, usize, &mut [u8]) -> Result<usize> = match word_size {\n            1 => Self::gather_impl_w1,\n            2 => Self::gather_impl_w2,\n            3 => Self::gather_impl_w3,\n            4 => Self::gather_impl_w4,\n            5 => Self::gather_impl_w5,\n            6 => Self::gather_impl_w6,\n            7 => Self::gather_impl_w7,\n            8 => Self::gather_impl_w8,\n            16 => Self::gather_impl_w16,\n            _ => Self::gather_impl_general,\n        };\n\n"), (Z, "gather_impl: gather_impls[index]", "gather_impl: g")], []),
    ("q-only-gen", [(Z, TABLE, ""), (Z, "gather_impl: gather_impls[index]", "gather_impl: Self::gather_impl_general"),
                    (Z, "    gather_impl!(gather_impl_w1, 1);\n    gather_impl!(gather_impl_w2, 2);\n    gather_impl!(gather_impl_w3, 3);\n    gather_impl!(gather_impl_w4, 4);\n    gather_impl!(gather_impl_w5, 5);\n    gather_impl!(gather_impl_w6, 6);\n    gather_impl!(gather_impl_w7, 7);\n    gather_impl!(gather_impl_w8, 8);\n    gather_impl!(gather_impl_w16, 16);\n", "")], []),
    ("q-get", [(Z, "        let index = std::cmp::min(word_size - 1, 16);\n", "        let chosen = gather_impls.get(word_size - 1).copied().unwrap_or(Self::gather_impl_general);\n"), (Z, "gather_impl: gather_impls[index]", "gather_impl: chosen")], []),
    ("q-ge", [(Z, "            if x {\n                shortest = std::cmp::min(shortest, y);\n            }\n            len = std::cmp::min(len, y);\n        }\n        let is_eof = shortest <= len;", "            if y < len {\n                is_eof = x;\n                len = y;\n            } else if y == len {\n                is_eof |= x;\n            }\n        }"), (Z, "let mut shortest = usize::MAX;", "let mut is_eof = false;")], []),
    ("q-minif", [(Z, "            len = std::cmp::min(len, y);", "            if y < len {\n                len = y;\n            }")], []),
    ("q-rem", [(Z, "let len = (len / self.word_size) * self.word_size;", "let len = len - len % self.word_size;")], []),
    ("q-idx", [(Z, "        for src in &mut self.srcs {\n            src.consume(bytes_per_src);\n        }", "        for i in 0..self.srcs.len() {\n            self.srcs[i].consume(bytes_per_src);\n        }")], []),
    ("q-foreach", [(Z, "        for src in &mut self.srcs {\n            src.consume(bytes_per_src);\n        }", "        self.srcs.iter_mut().for_each(|src| src.consume(bytes_per_src));")], []),
    ("q-while", [(Z, "        for src in &mut self.srcs {\n            src.consume(bytes_per_src);\n        }", "        let mut i = 0;\n        while i < self.srcs.len() {\n            self.srcs[i].consume(bytes_per_src);\n            i += 1;\n        }")], []),
    ("q-collect", [(Z, "        for (src, ptr) in self.srcs.iter_mut().zip(self.ptrs.iter_mut()) {\n            *ptr = src.as_slice().as_ptr();\n        }\n", "        self.ptrs = self.srcs.iter().map(|src| src.as_slice().as_ptr()).collect();\n")], []),
    ("q-enum", [(Z, "        for (src, ptr) in self.srcs.iter_mut().zip(self.ptrs.iter_mut()) {\n            *ptr = src.as_slice().as_ptr();\n        }\n", "        for (i, src) in self.srcs.iter().enumerate() {\n            self.ptrs[i] = src.as_slice().as_ptr();\n        }\n")], []),
    ("q-offset", [(Z, LOOPG, """        for i in 0..bytes_per_src / self.word_size {
            for ptr in self.ptrs.iter() {
                unsafe { std::ptr::copy_nonoverlapping(ptr.wrapping_add(i * self.word_size), dst, self.word_size) };
                dst = dst.wrapping_add(self.word_size);
            }
        }
""")], []),
    ("q-dstidx", [(Z, LOOPG, """        let n = self.ptrs.len();
        let dst = buf.as_mut_ptr();
        for i in 0..bytes_per_src / self.word_size {
            for (j, ptr) in self.ptrs.iter().enumerate() {
                let w = self.word_size;
                unsafe { std::ptr::copy_nonoverlapping(ptr.wrapping_add(i * w), dst.wrapping_add((i * n + j) * w), w) };
            }
        }
"""), (Z, "    fn gather_impl_general(&mut self, bytes_per_src: usize, buf: &mut [u8]) -> Result<usize> {\n        let mut dst = buf.as_mut_ptr();\n", "    fn gather_impl_general(&mut self, bytes_per_src: usize, buf: &mut [u8]) -> Result<usize> {\n")], []),
    ("q-words", [(Z, LOOPM, """            let mut n = bytes_per_src / $w;
            while n > 0 {
                for ptr in self.ptrs.iter_mut() {
                    let src = *ptr;
                    unsafe { std::ptr::copy_nonoverlapping(src, dst, $w) };
                    *ptr = src.wrapping_add($w);
                    dst = dst.wrapping_add($w);
                }
                n -= 1;
            }
""")], []),
    ("q-helper", [(Z, "        // teardown\n        let len = (len / self.word_size) * self.word_size;", "        let len = self.whole(len);"), (Z, "    fn consume(&mut self, bytes_per_src: usize) {", "    fn whole(&self, n: usize) -> usize {\n        (n / self.word_size) * self.word_size\n    }\n\n    fn consume(&mut self, bytes_per_src: usize) {")], []),
    ("q-early", [(Z, "            // if bytes_per_src == 0 {\n            //     return Ok(is_eof);\n            // }\n", "            if bytes_per_src == 0 {\n                return Ok(is_eof);\n            }\n")], []),
    ("q-chunks", [(Z, LOOPG, """        for (i, out) in buf.chunks_exact_mut(self.word_size).enumerate().take(bytes_per_src / self.word_size * self.ptrs.len()) {
            let n = self.ptrs.len();
            let ptr = &mut self.ptrs[i % n];
            unsafe { std::ptr::copy_nonoverlapping(*ptr, dst, self.word_size) };
            *ptr = ptr.wrapping_add(self.word_size);
            dst = dst.wrapping_add(out.len());
        }
""")], []),
    ("q-from", [(Z, "std::ptr::copy_nonoverlapping(*ptr, dst, self.word_size)", "dst.copy_from_nonoverlapping(*ptr, self.word_size)")], []),
]
EDITS += [
    ("q-tryfor", [(Z, "        for src in &mut self.srcs {\n            let (x, y) = src.fill_buf(request)?;\n" + FOLD + "        }\n", "        self.srcs.iter_mut().try_for_each(|src| -> Result<()> {\n            let (x, y) = src.fill_buf(request)?;\n" + FOLD + "            Ok(())\n        })?;\n")], []),
    ("fe-skip", [(Z, "        for src in &mut self.srcs {\n            src.consume(bytes_per_src);\n        }", "        self.srcs.iter_mut().skip(1).for_each(|src| src.consume(bytes_per_src));")], ["C20"]),
    ("q-w-hoist", [(Z, LOOPG, """        let w = self.word_size;
        let n_words = bytes_per_src / w;
        for _ in 0..n_words {
            for ptr in &mut self.ptrs {
                unsafe { std::ptr::copy_nonoverlapping(*ptr, dst, w) };
                *ptr = unsafe { ptr.add(w) };
                dst = unsafe { dst.add(w) };
            }
        }
""")], []),
]
