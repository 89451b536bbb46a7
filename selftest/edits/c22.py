G = "src/segment/guided.rs"
ALL = ["C22"]
PUSH = """            self.segments.push(Segment {
                pos: offset - self.src_consumed,
                len: span,
            });
"""
TAIL = """            if is_eof {
                self.clip_segments(bytes);
            } else if offset.saturating_add(span) > tail {
                self.max_consume = std::cmp::min(self.max_consume, offset - self.src_consumed);
                self.guide_consumed = self.segments.len() - 1; // do not expose the last segment
                break;
            }
"""
CLIP = """            last.len = std::cmp::min(last.len, bytes.saturating_sub(last.pos));
            if last.pos >= bytes {
                self.segments.pop();
            }
"""
FIRST = """        if is_eof {
            self.clip_segments(bytes);
        }

"""
ORDER = """            if offset < self.last_offset {
                return Err(anyhow!(
                    "records in the guide file must be sorted by their offsets ({:?} found after {:?})",
                    offset,
                    self.last_offset
                ));
            }
            self.last_offset = offset;
"""
NONE = """            if ret.is_none() {
                // the guide stream reached EOF
                self.guide_consumed = self.segments.len();
                break;
            }
            let (offset, span) = ret.unwrap();
"""
REQ = "std::cmp::max(BLOCK_SIZE, self.segments.last().map_or(0, |x| x.tail()))"
ASSERT = "        debug_assert!(is_eof || self.segments.last().map_or(0, |x| x.tail()) <= bytes);\n"
EDITS = [
    ("order-none", [(G, "            if offset < self.last_offset {", "            if offset < self.last_offset && span > 0 {")], ALL),
    ("order-not-kept", [(G, "            self.last_offset = offset;\n", "")], ALL),
    ("order-consumed", [(G, "            if offset < self.last_offset {", "            if offset < self.src_consumed {")], ALL),
    ("order-eq", [(G, "            if offset < self.last_offset {", "            if offset <= self.last_offset && self.last_offset > 0 {")], ALL),
    ("order-tail", [(G, "self.last_offset = offset;", "self.last_offset = offset + span;")], ALL),
    ("order-late", [(G, "            self.last_offset = offset;\n", ""), (G, TAIL, TAIL + "            self.last_offset = offset;\n")], ALL),
    ("pos", [(G, "pos: offset - self.src_consumed,", "pos: offset,")], None),
    ("pos-max", [(G, PUSH, PUSH.replace("len: span", "len: std::cmp::min(span, bytes)"))], ALL),
    ("tail-pos", [(G, "offset.saturating_add(span) > tail", "offset > tail")], ALL),
    ("tail-eq", [(G, "offset.saturating_add(span) > tail", "offset.saturating_add(span) > tail + 1")], ALL),
    ("tail-bytes", [(G, "offset.saturating_add(span) > tail", "offset.saturating_add(span) > bytes")], ALL),
    ("tail-wrap", [(G, "offset.saturating_add(span) > tail", "offset.wrapping_add(span) > tail")], ALL),
    ("max-not", [(G, "                self.max_consume = std::cmp::min(self.max_consume, offset - self.src_consumed);\n", "")], ALL),
    ("max-abs", [(G, "std::cmp::min(self.max_consume, offset - self.src_consumed)", "std::cmp::min(self.max_consume, offset)")], ALL),
    ("max-unbounded", [(G, "std::cmp::min(self.max_consume, offset - self.src_consumed)", "offset - self.src_consumed")], ALL),
    ("expose", [(G, "self.segments.len() - 1; // do not expose the last segment", "self.segments.len();")], ALL),
    ("no-count", [(G, "                self.guide_consumed = self.segments.len() - 1; // do not expose the last segment\n", "")], ALL),
    ("no-break", [(G, "// do not expose the last segment\n                break;", "\n")], ALL),
    ("drop-late", [(G, "                break;\n            }\n        }\n        Ok(())", "                self.segments.pop();\n                break;\n            }\n        }\n        Ok(())")], ALL),
    ("clip-none", [(G, TAIL, TAIL.replace("                self.clip_segments(bytes);\n", "                self.max_consume = bytes;\n"))], ALL),
    ("clip-len", [(G, "bytes.saturating_sub(last.pos));", "bytes);")], ALL),
    ("clip-gt", [(G, "if last.pos >= bytes {", "if last.pos > bytes {")], ALL),
    ("clip-no-pop", [(G, CLIP, CLIP.split("            if")[0])], ALL),
    ("clip-empty", [(G, "if last.pos >= bytes {", "if last.len == 0 {")], None),
    ("clip-max", [(G, "std::cmp::min(last.len, bytes.sat", "std::cmp::max(last.len, bytes.sat")], ALL),
    ("first-no-clip", [(G, FIRST, "")], ALL),
    ("first-always", [(G, FIRST, "        self.clip_segments(bytes);\n")], None),
    ("none-count", [(G, "                self.guide_consumed = self.segments.len();\n                break;", "                self.guide_consumed = self.segments.len().saturating_sub(!is_eof as usize);\n                break;")], ALL),
    ("none-keep", [(G, "                self.guide_consumed = self.segments.len();\n                break;", "                break;")], ALL),
    ("max-start", [(G, "        self.max_consume = bytes;\n", "        self.max_consume = std::cmp::max(self.max_consume, bytes);\n")], None),
    ("req", [(G, REQ, "BLOCK_SIZE")], ALL),
    ("req-pos", [(G, REQ, REQ.replace("x.tail()", "x.pos"))], ALL),
    ("req-len", [(G, REQ, REQ.replace("x.tail()", "x.len"))], ALL),
    ("req-first", [(G, REQ, REQ.replace(".last()", ".first()"))], ALL),
    ("consumed-not", [(G, "        self.src_consumed += bytes;\n", "")], ALL),
    ("consumed-set", [(G, "self.src_consumed += bytes;", "self.src_consumed = bytes;")], ALL),
    ("consumed-from", [(G, "self.src_consumed += bytes;", "self.src_consumed += from;")], ALL),
    ("swap-files", [(G, "            src,\n            guide: TextParser::new(guide,", "            src: guide,\n            guide: TextParser::new(src,")], ALL),
    ("format", [(G, 'from_str("xxx")', 'from_str("ddx")')], ALL),
    ("format-len", [(G, 'from_str("xxx")', 'from_str("xdx")')], ALL),
    ("skip-empty", [(G, PUSH, "            if span == 0 {\n                continue;\n            }\n" + PUSH)], ALL),
    ("reverse", [(G, "            self.segments.push(Segment {\n                pos: offset - self.src_consumed,\n                len: span,\n            });", "            self.segments.insert(0, Segment {\n                pos: offset - self.src_consumed,\n                len: span,\n            });")], None),
    # quiet
    ("q-match", [(G, NONE, """            let (offset, span) = match ret {
                Some(x) => x,
                None => {
                    self.guide_consumed = self.segments.len();
                    break;
                }
            };
""")], []),
    ("q-let-else", [(G, "            let ret = self.guide.read_line(&mut self.buf)?;\n" + NONE, """            let Some((offset, span)) = self.guide.read_line(&mut self.buf)? else {
                self.guide_consumed = self.segments.len();
                break;
            };
""")], []),
    ("q-while", [(G, "        loop {\n            // read the next guide to the buffer\n            self.buf.clear();\n\n            let ret = self.guide.read_line(&mut self.buf)?;\n" + NONE,
       "        self.guide_consumed = usize::MAX;\n        while let Some((offset, span)) = self.guide.read_line(&mut self.buf)? {\n            self.buf.clear();\n"),
       (G, "                break;\n            }\n        }\n        Ok(())", "                break;\n            }\n        }\n        if self.guide_consumed == usize::MAX {\n            self.guide_consumed = self.segments.len();\n        }\n        Ok(())")], []),
    ("q-order-helper", [(G, ORDER, "            self.check_order(offset)?;\n"), (G, "    fn clip_segments(", """    fn check_order(&mut self, offset: usize) -> Result<()> {
        if self.last_offset > offset {
            return Err(anyhow!("records in the guide file must be sorted by their offsets"));
        }
        self.last_offset = offset;
        Ok(())
    }

    fn clip_segments(""")], []),
    ("q-clip-before", [(G, PUSH + "\n" + TAIL, """            let pos = offset - self.src_consumed;
            if is_eof {
                if pos < bytes {
                    self.segments.push(Segment {
                        pos,
                        len: std::cmp::min(span, bytes - pos),
                    });
                }
                continue;
            }
            self.segments.push(Segment { pos, len: span });
            if span > bytes || pos > bytes - span {
                self.guide_consumed = self.segments.len() - 1;
                self.max_consume = std::cmp::min(bytes, pos);
                break;
            }
""")], []),
    ("q-count-first", [(G, PUSH, "            let count = self.segments.len();\n" + PUSH), (G, "self.segments.len() - 1; // do not expose the last segment", "count;")], []),
    ("q-clip-order", [(G, CLIP, """            if last.pos >= bytes {
                self.segments.pop();
            } else {
                last.len = std::cmp::min(last.len, bytes - last.pos);
            }
""")], []),
    ("q-clip-truncate", [(G, CLIP, """            last.len = std::cmp::min(last.len, bytes.saturating_sub(last.pos));
            if last.pos >= bytes {
                let len = self.segments.len() - 1;
                self.segments.truncate(len);
            }
""")], []),
    ("q-no-assert", [(G, ASSERT, "")], []),
    ("q-req-match", [(G, REQ, "match self.segments.last() {\n            Some(x) if x.tail() > BLOCK_SIZE => x.tail(),\n            _ => BLOCK_SIZE,\n        }")], []),
    ("q-max-if", [(G, "                self.max_consume = std::cmp::min(self.max_consume, offset - self.src_consumed);\n",
       "                let pos = offset - self.src_consumed;\n                if pos < self.max_consume {\n                    self.max_consume = pos;\n                }\n")], []),
    ("q-inline", [(G, "        self.extend_segment_buf(is_eof, bytes)?;\n\n        Ok((is_eof, bytes, self.guide_consumed, self.max_consume))",
                   "        match self.extend_segment_buf(is_eof, bytes) {\n            Ok(()) => Ok((is_eof, bytes, self.guide_consumed, self.max_consume)),\n            Err(e) => Err(e),\n        }")], []),
    ("q-cmp", [(G, "            if offset < self.last_offset {", "            if offset.cmp(&self.last_offset) == std::cmp::Ordering::Less {")], []),
    ("q-stop-at-end", [(G, "            if is_eof {\n                self.clip_segments(bytes);\n            } else", "            if is_eof && offset - self.src_consumed >= bytes {\n                self.segments.pop();\n                self.guide_consumed = self.segments.len();\n                break;\n            } else if is_eof {\n                self.clip_segments(bytes);\n            } else")], []),
    ("q-consumed-first", [(G, "        self.src_consumed += bytes;\n", ""), (G, "        self.src.consume(bytes);\n", "        self.src_consumed += bytes;\n        self.src.consume(bytes);\n")], []),
]
