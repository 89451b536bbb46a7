SB, CA, CL, TE, ZE, RA, FU, CU = ("src/streambuf.rs", "src/byte/cat.rs", "src/byte/clip.rs", "src/byte/tee.rs", "src/byte/zero.rs", "src/byte/raw.rs", "src/filluninit.rs", "src/byte/cut.rs")
DP = "src/drain/patch.rs"

EDITS = [
    ("sb-target", [(SB, "std::cmp::max(self.target_len, self.pos.saturating_add(request))", "std::cmp::max(self.target_len, request)")], ["C17"]),
    ("sb-margin-late", [(SB, "        // first remove the margin\n        self.buf.truncate(self.len);\n", "        // first remove the margin\n        self.buf.truncate(self.len.max(1));\n")], ["C17"]),
    ("sb-thresh-len", [(SB, "self.buf.truncate((self.pos..tail).len());", "self.buf.truncate((self.pos..self.len).len());")], ["C17"]),
    ("sb-offset", [(SB, "            self.offset += self.pos;\n", "            self.offset += self.pos.min(amount);\n")], ["C17"]),
    ("sb-copy-len", [(SB, "self.buf.copy_within(self.pos..tail, 0);", "self.buf.copy_within(self.pos..self.len, 0);")], ["C17"]),
    ("sb-eof-forgot", [(SB, "                self.mark_eof();\n                break;", "                self.mark_eof();\n                if self.align == 1 && self.pos > 0 { self.is_eof = false; }\n                break;")], ["C17"]),
    ("sb-answer-len", [(SB, "        Ok((self.is_eof, self.len - self.pos))", "        Ok((self.is_eof, self.len))")], ["C17"]),
    ("sb-align-offset", [(SB, "        let tail = self.offset + self.buf.len();", "        let tail = self.offset + self.buf.len() - self.pos;")], ["C17"]),
    ("sb-consume0-target", [(SB, "self.target_len = (self.len + (self.len + 1) / 2).next_power_of_two();", "self.target_len = self.len.next_power_of_two();")], None),
    ("sb-extend-order", [(SB, "        // remove the margin\n        self.buf.truncate(self.len);\n\n        // append the input", "        // append the input")], ["C17"]),
    ("cat-dup", [(CA, "            buf.extend_from_slice(&stream[..bytes]);\n            self.dup = bytes;\n", "            buf.extend_from_slice(&stream[..bytes]);\n            self.dup = if is_eof_next { 0 } else { bytes };\n")], ["C17"]),
    ("cat-copy-all", [(CA, "&stream[self.dup..bytes]", "&stream[..bytes]")], ["C17"]),
    ("cat-advance", [(CA, "            self.i += is_eof as usize;", "            self.i += (is_eof && self.dup > 0) as usize;")], ["C17"]),
    ("cat-request", [(CA, ".fill_buf(request - (cached - self.dup))?", ".fill_buf(request - cached)?")], ["C17"]),
    ("cat-direct-eof", [(CA, "if is_eof || self.cache.len() > 0 {", "if (is_eof && self.i + 1 < self.srcs.len()) || self.cache.len() > 0 {")], ["C17"]),
    ("cat-consume-boundary", [(CA, "amount < self.cache.len() - self.dup {", "amount <= self.cache.len() {")], ["C17"]),
    ("cat-consume-from", [(CA, "        self.cache.consume(self.cache.len());\n        self.dup = 0;\n", "        self.cache.consume(self.cache.len());\n")], ["C17"]),
    ("cat-slice", [(CA, "        if self.cache.len() == 0 && self.i < self.srcs.len() {\n            // path 2 in `fill_buf`; the", "        if self.cache.len() <= self.dup && self.i < self.srcs.len() {\n            // path 2 in `fill_buf`; the")], ["C17"]),
    ("clip-skip-min", [(CL, "let consume_len = std::cmp::min(self.skip, bytes);", "let consume_len = std::cmp::min(self.skip, bytes.min(BLOCK_SIZE));\n            let consume_len = if is_eof { bytes } else { consume_len };")], ["C17"]),
    ("clip-eof-first", [(CL, "if is_eof && consume_len == bytes {", "if is_eof {")], ["C17"]),
    ("clip-eof-any", [(CL, "let is_eof = is_eof || bytes == self.rem;", "let is_eof = is_eof || bytes == self.rem || bytes < request - self.strip - 1;")], None),
    ("clip-no-rem-eof", [(CL, "let is_eof = is_eof || bytes == self.rem;", "let is_eof = is_eof || bytes > self.rem;")], ["C17"]),
    ("clip-strip-order", [(CL, "std::cmp::min(self.rem, bytes.saturating_sub(self.strip))", "std::cmp::min(self.rem, bytes).saturating_sub(self.strip)")], ["C17"]),
    ("clip-request", [(CL, "std::cmp::min(self.rem, request) + self.strip + 1;", "std::cmp::min(self.rem, request + self.strip) + 1;")], ["C17"]),
    ("clip-consume-rem", [(CL, "        self.rem -= amount;\n        self.src", "        self.rem = self.rem.saturating_sub(amount.min(BLOCK_SIZE));\n        self.src")], ["C17"]),
    ("tee-slice", [(TE, "cache.append(&stream[..bytes])", "cache.append(&stream[..bytes.min(BLOCK_SIZE)])")], ["C17"]),
    ("tee-append-start", [(TE, "self.file.seek(SeekFrom::End(0))?;", "self.file.seek(SeekFrom::Current(0))?;")], ["C17"]),
    ("tee-no-flag", [(TE, "                cache.clear_eof = true; // increment semaphore", "                cache.clear_eof = bytes > 0 && cache.error.is_none();")], None),
    ("tee-flag-err", [(TE, "                    cache.error = Some(err);\n                }\n                cache.clear_eof = true;", "                    cache.error = Some(err);\n                } else if bytes >= BLOCK_SIZE {\n                    cache.clear_eof = true;\n                }\n                cache.clear_eof |= bytes == 1;")], ["C17"]),
    ("tee-reader-flag", [(TE, "                    cache.clear_eof = false; // decrement", "                    // decrement")], None),
    ("tee-reader-noclear", [(TE, "                if cache.clear_eof {\n", "                if cache.clear_eof && self.buf.len() == 0 {\n")], ["C17"]),
    ("tee-reader-offset", [(TE, "                    self.offset += len;\n", "                    self.offset += len.min(BLOCK_SIZE - 1);\n")], ["C17"]),
    ("tee-drop-eof", [(TE, "                Ok((true, 0)) => break,", "                Ok((true, _)) => break,")], ["C17"]),
    ("tee-order", [(TE, "        let stream = self.src.as_slice();\n        debug_assert!(stream.len() >= bytes);\n", "        let stream = self.src.as_slice().to_vec();\n        self.src.consume(bytes);\n"), (TE, "        self.src.consume(bytes);\n    }\n}\n\nimpl Drop", "    }\n}\n\nimpl Drop")], None),
    ("zero-next", [(ZE, "self.next_len = std::cmp::max(self.next_len, request);", "self.next_len = std::cmp::min(std::cmp::max(self.next_len, request), BLOCK_SIZE);")], ["C17"]),
    ("zero-eof", [(ZE, "let is_eof = self.len <= self.offset + self.next_len;", "let is_eof = self.len <= self.offset + request;")], None),
    ("zero-eof2", [(ZE, "let is_eof = self.len <= self.offset + self.next_len;", "let is_eof = self.len <= self.offset + self.next_len + 1;")], ["C17"]),
    ("zero-consume0", [(ZE, "self.next_len = std::cmp::min(self.len - self.offset, 2 * self.next_len);", "self.next_len = std::cmp::min(self.len, 2 * self.next_len);")], ["C17"]),
    ("zero-filler", [(ZE, "            filler,\n", "            filler: 0,\n")], ["C17", "C09"]),
    ("raw-short", [(RA, "Ok(len == 0)", "Ok(len < BLOCK_SIZE)")], ["C17"]),
    ("raw-small", [(RA, "let len = buf.fill_uninit(BLOCK_SIZE,", "let len = buf.fill_uninit(BLOCK_SIZE / 4,")], []),
    ("fu-clip", [(FU, "unsafe { self.set_len(self.len() + clip) };", "unsafe { self.set_len(self.len() + clip.min(len - 1).max(1).min(clip)) };")], ["C17"]),
    ("fu-room", [(FU, "        if self.capacity() < self.len() + len {", "        if self.capacity() < len {")], ["C17"]),
    ("fu-shift", [(FU, "let new_len = 1 << shift.max(8);", "let new_len = 1 << shift.max(8) >> 1;")], ["C17"]),
    ("cached-eof", [(DP, "Ok((false, bytes))", "Ok((bytes == 0, bytes))")], None),
    # the same behaviour
    ("q-zero", [(ZE, "        let request = std::cmp::min(self.len - self.offset, request);\n        self.next_len = std::cmp::max(self.next_len, request);", "        let left = self.len - self.offset;\n        if self.next_len < request {\n            self.next_len = if request < left { request } else { left };\n        }")], []),
    ("q-clip", [(CL, "        let bytes = std::cmp::min(self.rem, bytes.saturating_sub(self.strip));\n        let is_eof = is_eof || bytes == self.rem;\n\n        Ok((is_eof, bytes))", "        let bytes = bytes.saturating_sub(self.strip);\n        if bytes >= self.rem {\n            return Ok((true, self.rem));\n        }\n        Ok((is_eof, bytes))")], []),
    ("q-clip-loop", [(CL, "        while self.skip > 0 {\n            let (is_eof, bytes) = self.src.fill_buf(BLOCK_SIZE)?;", "        loop {\n            if self.skip == 0 {\n                break;\n            }\n            let (is_eof, bytes) = self.src.fill_buf(BLOCK_SIZE)?;")], []),
    ("q-cat-helper", [(CA, "    fn accumulate_into_cache(", "    fn is_direct(&self) -> bool {\n        self.cache.len() == 0 && self.i < self.srcs.len()\n    }\n\n    fn accumulate_into_cache("), (CA, "        if self.cache.len() == 0 && self.i < self.srcs.len() {\n            // path 2 in `fill_buf`; the", "        if self.is_direct() {\n            // path 2 in `fill_buf`; the"), (CA, "        if self.cache.len() == 0 && self.i < self.srcs.len() {\n            // path 2 in `fill_buf` comes", "        if self.is_direct() {\n            // path 2 in `fill_buf` comes")], []),
    ("q-cat-if", [(CA, "            self.i += is_eof as usize;", "            if is_eof {\n                self.i += 1;\n            }")], []),
    ("q-cat-match", [(CA, "        let from_src = amount - (self.cache.len() - self.dup);\n        self.srcs[self.i].consume(from_src);\n\n        self.cache.consume(self.cache.len());\n        self.dup = 0;\n", "        let cached = self.cache.len();\n        self.cache.consume(cached);\n        let only_cached = cached - self.dup;\n        self.dup = 0;\n        let src = &mut self.srcs[self.i];\n        src.consume(amount - only_cached);\n")], []),
    ("q-sb-drain", [(SB, "            self.buf.copy_within(self.pos..tail, 0);\n            self.buf.truncate((self.pos..tail).len());\n", "            let _ = tail;\n            self.buf.drain(..self.pos);\n")], []),
    ("q-sb-while", [(SB, "            // break if long enough (do-while)\n            if self.buf.len() >= target_len {\n                break;\n            }", "            // go on if not long enough (do-while)\n            if self.buf.len() < target_len {\n                continue;\n            }\n            break;")], []),
    ("q-sb-helper", [(SB, "        self.len = self.buf.len();\n        self.buf.resize(self.len + MARGIN_SIZE, b'\\n');\n\n        Ok((self.is_eof, self.len - self.pos))", "        self.len = self.buf.len();\n        self.add_margin();\n        let bytes = self.len();\n        Ok((self.is_eof, bytes))"), (SB, "    fn mark_eof(", "    fn add_margin(&mut self) {\n        self.buf.resize(self.len + MARGIN_SIZE, b'\\n');\n    }\n\n    fn mark_eof(")], []),
    ("q-tee-bind", [(TE, "        let stream = self.src.as_slice();\n        debug_assert!(stream.len() >= bytes);\n", "        let stream = &self.src.as_slice()[..bytes];\n"), (TE, "cache.append(&stream[..bytes])", "cache.append(stream)")], []),
    ("q-tee-drop", [(TE, "                Ok((true, 0)) => break,\n                Ok((_, bytes)) => self.consume(bytes),", "                Ok((is_eof, bytes)) => {\n                    if is_eof && bytes == 0 {\n                        break;\n                    }\n                    self.consume(bytes);\n                }")], []),
    ("q-fu", [(FU, "        let clip = match ret {\n            Ok((_, clip)) => clip,\n            _ => 0,\n        };\n        unsafe { self.set_len(self.len() + clip) };", "        if let Ok((_, clip)) = &ret {\n            let new_len = self.len() + *clip;\n            unsafe { self.set_len(new_len) };\n        }")], []),
]
