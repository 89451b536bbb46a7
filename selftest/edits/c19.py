PA = "src/byte/patch.rs"
LOOP = open("/repo/" + PA).read()
LOOP = LOOP[LOOP.index("            let (_, len) = self.src.fill_buf(BLOCK_SIZE)?;"):LOOP.index("            self.src.consume(len);\n            Ok(is_eof)")]
EDITS = [
    ("skip-off", [(PA, "self.skip = patch_span - rem_len;", "self.skip = (patch_span - rem_len).saturating_sub(1);")], ["C19"]),
    ("skip-all", [(PA, "self.skip = patch_span - rem_len;", "self.skip = patch_span;")], ["C19"]),
    ("skip-none", [(PA, "                    self.skip = patch_span - rem_len;\n", "")], ["C19"]),
    ("gt", [(PA, "if patch_span >= rem_len {", "if patch_span > rem_len {")], ["C19"]),
    ("pos-left", [(PA, "                    self.offset += patch_span;\n                    self.skip", "                    self.offset += rem_len;\n                    self.skip")], ["C19"]),
    ("pos-stay", [(PA, "                self.offset += patch_span;\n                rem_len -= patch_span;", "                rem_len -= patch_span;")], ["C19"]),
    ("overlap-ge", [(PA, "if offset + span > next_offset {", "if offset + span >= next_offset {")], ["C19"]),
    ("overlap-off", [(PA, "if offset + span > next_offset {", "if offset > next_offset {")], ["C19"]),
    ("overlap-next-span", [(PA, "let span = self.span;\n        buf.extend_from_slice(&self.buf);\n\n        // read the next patch, compute the overlap between two patches\n        let (next_offset, _) = self.fill_buf()?;", "buf.extend_from_slice(&self.buf);\n        let (next_offset, span) = self.fill_buf()?;")], ["C19"]),
    ("not-cleared", [(PA, "        self.buf.clear();\n\n        if let", "        if let")], ["C19"]),
    ("never-primed", [(PA, "            self.is_primed = true;\n", "")], ["C19"]),
    ("not-primed", [(PA, "            is_primed: false,", "            is_primed: true,")], ["C19"]),
    ("next-bytes", [(PA, "        buf.extend_from_slice(&self.buf);\n\n        // read the next patch, compute the overlap between two patches\n        let (next_offset, _) = self.fill_buf()?;\n", "        let (next_offset, _) = self.fill_buf()?;\n        buf.extend_from_slice(&self.buf);\n")], ["C19"]),
    ("late", [(PA, "std::cmp::min(self.offset + rem_len, self.patch.offset)", "std::cmp::min(self.offset + rem_len, self.patch.offset.saturating_add(1))")], ["C19"]),
    ("stream-off", [(PA, "rem_stream.split_at(patch_span)", "rem_stream.split_at(patch_span.saturating_sub(1))")], ["C19"]),
    ("none-zero", [(PA, "            self.offset = usize::MAX;\n", "            self.offset = usize::MAX - 1;\n")], ["C19"]),
    ("skip-if", [(PA, "            while self.skip > 0 {", "            if self.skip > 0 {")], ["C19"]),
    ("skip-eof", [(PA, "if is_eof && len == 0 {", "if is_eof {")], ["C19"]),
    ("skip-len", [(PA, "self.skip -= consume_len;", "self.skip = 0;")], ["C19"]),
    ("early", [(PA, "                if rem_len == 0 {\n                    break false;\n                }\n                debug", "                if rem_len == 0 && self.patch.offset > self.offset {\n                    break false;\n                }\n                debug")], ["C19"]),
    ("start", [(PA, "            skip: 0,\n            offset: 0,", "            skip: 0,\n            offset: 1,")], ["C19"]),
    ("eof", [(PA, "                    self.skip = patch_span - rem_len;\n                    break false;", "                    self.skip = patch_span - rem_len;\n                    break self.skip > 0;")], ["C19"]),
    ("span-len", [(PA, "        let span = self.span;\n", "        let span = self.buf.len();\n")], ["C19"]),
    ("q-names", [(PA, LOOP, LOOP.replace("rem_len", "left").replace("fwd_len", "keep"))], []),
    ("q-index", [(PA, LOOP, """            let (_, len) = self.src.fill_buf(BLOCK_SIZE)?;
            let stream = self.src.as_slice();
            let mut done = 0;

            let is_eof = loop {
                if done == len {
                    break true;
                }
                let keep = (len - done).min(self.patch.offset - self.offset);
                buf.extend_from_slice(&stream[done..done + keep]);
                self.offset += keep;
                done += keep;
                if done == len {
                    break false;
                }
                let span = self.patch.feed(self.offset, buf)?;
                self.offset += span;
                if span >= len - done {
                    self.skip = done + span - len;
                    break false;
                }
                done += span;
            };

""")], []),
    ("q-while", [(PA, LOOP, """            let (_, len) = self.src.fill_buf(BLOCK_SIZE)?;
            let mut stream = &self.src.as_slice()[..len];

            let is_eof = stream.is_empty();
            while !stream.is_empty() {
                let keep = std::cmp::min(stream.len(), self.patch.offset - self.offset);
                let (head, rest) = stream.split_at(keep);
                buf.extend_from_slice(head);
                self.offset += keep;
                stream = rest;
                if stream.is_empty() {
                    break;
                }
                let span = self.patch.feed(self.offset, buf)?;
                self.offset += span;
                self.skip = span.saturating_sub(stream.len());
                stream = &stream[std::cmp::min(span, stream.len())..];
            }

""")], []),
    ("q-helper", [(PA, "            while self.skip > 0 {\n                let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;\n                if is_eof && len == 0 {\n                    return Ok(true);\n                }\n\n                let consume_len = std::cmp::min(self.skip, len);\n                self.src.consume(consume_len);\n                self.skip -= consume_len;\n            }\n", "            loop {\n                if self.skip == 0 {\n                    break;\n                }\n                let (is_eof, len) = self.src.fill_buf(BLOCK_SIZE)?;\n                if len == 0 && is_eof {\n                    return Ok(true);\n                }\n                let n = self.skip.min(len);\n                self.skip -= n;\n                self.src.consume(n);\n            }\n")], []),
    ("q-feed", [(PA, "        if let Some((offset, span)) = self.src.read_line(&mut self.buf)? {\n            self.offset = offset;\n            self.span = span;\n        } else {\n            self.offset = usize::MAX;\n            self.span = 0;\n        }\n        Ok((self.offset, self.span))", "        let (offset, span) = self.src.read_line(&mut self.buf)?.unwrap_or((usize::MAX, 0));\n        self.offset = offset;\n        self.span = span;\n        Ok((offset, span))")], []),
    ("q-feed2", [(PA, "        let span = self.span;\n        buf.extend_from_slice(&self.buf);\n\n        // read the next patch, compute the overlap between two patches\n        let (next_offset, _) = self.fill_buf()?;\n\n        if offset + span > next_offset {", "        buf.extend_from_slice(&self.buf);\n        let span = self.span;\n        let end = offset + span;\n        self.fill_buf()?;\n\n        if self.offset < end {")], []),
    ("q-prime", [(PA, "        if !self.is_primed {\n            self.patch.fill_buf()?;\n            self.is_primed = true;\n        }\n", "        if !std::mem::replace(&mut self.is_primed, true) {\n            self.patch.fill_buf()?;\n        }\n")], None),
]
