MA, CU, RG, FI = "src/mapper.rs", "src/byte/cut.rs", "src/segment/range.rs", "src/segment/filter.rs"

EDITS = [
    # arithmetic
    ("trans-end-start", [(MA, "(EndAnchored(_), StartAnchored(x)) => x.saturating_sub(1),", "(EndAnchored(_), StartAnchored(x)) => x,")], None),
    ("trans-none", [(MA, "            (EndAnchored(_), StartAnchored(x)) => x.saturating_sub(1),\n", "")], None),
    ("margin-end-only", [(MA, "            (EndAnchored(x), StartAnchored(_)) => x,\n            (EndAnchored(x), EndAnchored(y)) => std::cmp::max(x, y),", "            (EndAnchored(x), StartAnchored(_)) => x,\n            (EndAnchored(x), EndAnchored(y)) => std::cmp::min(x, y),")], ["C18"]),
    ("margin-mixed", [(MA, "            (EndAnchored(x), StartAnchored(_)) => x,\n", "            (EndAnchored(_), StartAnchored(x)) => x,\n")], ["C18"]),
    ("range-end", [(MA, "                let end = y.saturating_sub(base);\n                let end = std::cmp::max(start, end);", "                let end = start + (y.saturating_sub(x));")], ["C18"]),
    ("flip-wrap", [(MA, "EndAnchored(x) => StartAnchored(tail.saturating_sub(x)),", "EndAnchored(x) if x <= tail => StartAnchored(tail - x),")], ["C18"]),
    ("right-anchor-start", [(MA, "matches!((self.start, self.end), (EndAnchored(_), _) | (_, EndAnchored(_)))", "matches!(self.end, EndAnchored(_))")], ["C18"]),
    ("sort-key-end", [(MA, "(StartAnchored(x), StartAnchored(y)) => (x, y),", "(StartAnchored(x), StartAnchored(y)) => (y, x),")], ["C18"]),
    ("from-clip-start", [(MA, "            EndAnchored(std::cmp::max(-mapper.start.offset, 0) as usize)", "            EndAnchored(mapper.start.offset.unsigned_abs())")], ["C18"]),
    ("from-end-side", [(MA, "        let end = if mapper.end.anchor == 0 {\n            StartAnchored", "        let end = if mapper.end.anchor == 0 && mapper.end.offset >= 0 {\n            StartAnchored")], ["C18"]),
    # the text
    ("coef", [(MA, "            [Var(id, 1), Val(c), Op('+')] => (*id, *c as isize),", "            [Var(id, _), Val(c), Op('+')] => (*id, *c as isize),")], ["C18"]),
    ("op-any", [(MA, "            [Var(id, 1), Val(c), Op('+')] => (*id, *c as isize),", "            [Var(id, 1), Val(c), Op(_)] => (*id, *c as isize),")], ["C18"]),
    ("default-anchor", [(MA, "            [Val(c)] => (const_default, *c as isize),", "            [Val(c)] => (if *c < 6 { const_default } else { 1 }, *c as isize),")], None),
    ("default-end", [(MA, "let default_anchors = [[\"s\", \"s\"], [\"e\", \"s\"]];", "let default_anchors = [[\"s\", \"s\"], [\"e\", \"e\"]];")], ["C18"]),
    ("evaluate-sub", [(MA, "        input[self.anchor] + self.offset\n", "        input[self.anchor] + self.offset.max(-4)\n")], ["C18"]),
    # cut
    ("cut-continue-start", [(CU, "            last_scanned = end;\n", "            last_scanned = start;\n")], ["C18"]),
    ("cut-continue-range", [(CU, "            last_scanned = end;\n", "            last_scanned = range.end;\n")], ["C18"]),
    ("cut-keep-ge", [(CU, "if !is_eof && range.end > scan_upto {", "if !is_eof && range.end >= scan_upto {")], []),
    ("cut-keep-start", [(CU, "if !is_eof && range.end > scan_upto {", "if !is_eof && range.start >= scan_upto {")], ["C18"]),
    ("cut-keep-lost", [(CU, "                self.filters.push(filter);\n                break;", "                if start < end { self.filters.push(filter); }\n                break;")], ["C18"]),
    ("cut-no-sort", [(CU, "            self.tail_filters.clear();\n            self.filters.sort_by_key(|x| Reverse(x.sort_key()));", "            self.tail_filters.clear();")], ["C18"]),
    ("cut-no-clear", [(CU, "            self.tail_filters.clear();\n", "            if self.filters.is_empty() { self.tail_filters.clear(); }\n")], None),
    ("cut-sort-up", [(CU, "            self.tail_filters.clear();\n            self.filters.sort_by_key(|x| Reverse(x.sort_key()));", "            self.tail_filters.clear();\n            self.filters.sort_by_key(|x| x.sort_key());")], ["C18"]),
    ("cut-tail-length", [(CU, "filter.to_left_anchored(offset + bytes)", "filter.to_left_anchored(bytes.max(offset))")], ["C18"]),
    ("cut-margin", [(CU, "let bytes = bytes.saturating_sub(self.tail_margin);", "let bytes = bytes.saturating_sub(self.tail_margin.min(2 << 20));")], None),
    ("cut-margin-not", [(CU, "let bytes = bytes.saturating_sub(self.tail_margin);", "let bytes = if self.filters.is_empty() { bytes.saturating_sub(self.tail_margin) } else { bytes };")], ["C18"]),
    ("cut-trans-relative", [(CU, "let clip = self.trans_offset.saturating_sub(offset);", "let clip = self.trans_offset;")], ["C18"]),
    ("cut-max-trans", [(CU, "x.trans_offset()).min()", "x.trans_offset()).max()")], ["C18"]),
    ("cut-end-early", [(CU, "let is_eof = is_eof || self.cutter.is_empty();", "let is_eof = is_eof || self.cutter.filters.is_empty();")], ["C18"]),
    ("cut-count", [(CU, "            self.src.consume(scanned);\n            self.src_consumed += scanned;", "            self.src.consume(scanned);\n            self.src_consumed += scanned.max(1);")], ["C18"]),
    # slices
    ("slice-start-gt", [(RG, "if start >= max_consume || end > tail {", "if start > max_consume || end > tail {")], None),
    ("slice-end-only", [(RG, "                max_consume = std::cmp::min(max_consume, start);\n                self.filters.push(filter);", "                max_consume = std::cmp::min(max_consume, end);\n                self.filters.push(filter);")], ["C18"]),
    ("slice-tail-ge", [(RG, "if start >= max_consume || end > tail {", "if start >= max_consume || end >= tail {")], ["C18"]),
    ("slice-clamp", [(RG, "            let end = std::cmp::min(range.end, clamp);", "            let end = range.end;")], ["C18"]),
    ("slice-empty-first", [(RG, "            if start >= end {\n                continue;\n            }\n\n            v.push", "            if start + 1 >= end {\n                continue;\n            }\n\n            v.push")], ["C18"]),
    ("slice-count", [(RG, "        self.src_consumed += bytes;", "        self.src_consumed += from;")], ["C18"]),
    ("slice-tails-left", [(RG, "self.tail_filters.is_empty() && self.filters.is_empty()", "self.filters.is_empty()")], ["C18"]),
    # lines
    ("lines-scan-from", [(FI, "let mut last_scanned = scanned;", "let mut last_scanned = 0;")], ["C18"]),
    ("lines-count", [(FI, "        self.src_consumed += src_count;", "        self.src_consumed += bytes;")], ["C18"]),
    ("lines-scanned", [(FI, "        self.src_scanned -= src_count;\n", "        self.src_scanned = self.src_scanned.min(src_count);\n")], ["C18"]),
    ("lines-tail-bytes", [(FI, "filter.to_left_anchored(offset + count)", "filter.to_left_anchored(offset + count - scanned)")], ["C18"]),
    ("lines-keep", [(FI, "if !is_eof && range.end > scan_upto {", "if range.end > scan_upto {")], None),
    ("lines-kept-apart", [(FI, "                if expr.has_right_anchor() {", "                if expr.has_right_anchor() && expr.tail_margin() > 0 {")], None),
    ("lines-dedup", [(FI, "        let scanned = std::cmp::max(scan_upto, scanned);\n        Ok(scanned)", "        v.dedup();\n\n        let scanned = std::cmp::max(scan_upto, scanned);\n        Ok(scanned)")], ["C18"]),
    ("lines-sort", [(FI, "        let scanned = std::cmp::max(scan_upto, scanned);\n        Ok(scanned)", "        if is_eof {\n            v.sort_by_key(|x| x.pos);\n        }\n\n        let scanned = std::cmp::max(scan_upto, scanned);\n        Ok(scanned)")], None),
    ("lines-retain", [(FI, "        let scanned = std::cmp::max(scan_upto, scanned);\n        Ok(scanned)", "        v.retain(|x| x.len > 0);\n\n        let scanned = std::cmp::max(scan_upto, scanned);\n        Ok(scanned)")], None),
    ("slice-dedup-pos", [(RG, "        v.dedup();\n", "        v.dedup_by_key(|x| x.pos);\n")], ["C18"]),
    ("q-slice-dedup-both", [(RG, "        v.dedup();\n", "        v.dedup_by_key(|x| (x.pos, x.len));\n")], []),
    # quiet
    ("q-peek-order", [(CU, "            let start = std::cmp::max(range.start, last_scanned);\n            let end = std::cmp::max(range.end, last_scanned);", "            let end = range.end.max(last_scanned);\n            let start = range.start.max(last_scanned);")], []),
    ("q-clamp", [(CU, "            let start = std::cmp::min(start, scan_upto);\n            let end = std::cmp::min(end, scan_upto);\n\n            v.extend_from_slice(&stream[start..end]);\n            last_scanned = end;", "            let start = start.min(scan_upto);\n            let end = end.min(scan_upto);\n\n            if start < end {\n                v.extend_from_slice(&stream[start..end]);\n                last_scanned = end;\n            }")], []),
    ("q-helper", [(CU, "        if is_eof && !self.tail_filters.is_empty() {\n            for filter in &self.tail_filters {\n                self.filters.push(filter.to_left_anchored(offset + bytes));\n            }\n\n            self.tail_filters.clear();\n            self.filters.sort_by_key(|x| Reverse(x.sort_key()));\n        }\n", "        if is_eof {\n            self.resolve(offset + bytes);\n        }\n"),
                  (CU, "    fn is_empty(&self) -> bool {", "    fn resolve(&mut self, total: usize) {\n        if self.tail_filters.is_empty() {\n            return;\n        }\n        let resolved: Vec<RangeMapper> = self.tail_filters.drain(..).map(|x| x.to_left_anchored(total)).collect();\n        self.filters.extend(resolved);\n        self.filters.sort_by(|a, b| b.sort_key().cmp(&a.sort_key()));\n    }\n\n    fn is_empty(&self) -> bool {")], []),
    ("q-loop", [(CU, "        while let Some(filter) = self.filters.pop() {\n", "        loop {\n            let filter = match self.filters.pop() {\n                Some(x) => x,\n                None => break,\n            };\n")], []),
    ("q-slice-if", [(RG, "            if start >= max_consume || end > tail {\n                max_consume = std::cmp::min(max_consume, start);\n                self.filters.push(filter);\n                break;\n            }\n            if start >= end {\n                continue;\n            }\n\n            v.push(Segment {\n                pos: start,\n                len: end - start,\n            });", "            let later = start >= max_consume || end > tail;\n            if later {\n                self.filters.push(filter);\n                max_consume = max_consume.min(start);\n                break;\n            }\n            if start < end {\n                v.push((start..end).into());\n            }")], []),
    ("q-drain", [(FI, "            for filter in &self.tail_filters {\n                self.filters.push(filter.to_left_anchored(offset + count));\n            }\n\n            self.tail_filters.clear();\n", "            let total = offset + count;\n            for filter in self.tail_filters.drain(..) {\n                self.filters.push(filter.to_left_anchored(total));\n            }\n")], []),
    ("q-from-str", [(MA, "        let start = if mapper.start.anchor == 0 {\n            StartAnchored(std::cmp::max(mapper.start.offset, 0) as usize)\n        } else {\n            EndAnchored(std::cmp::max(-mapper.start.offset, 0) as usize)\n        };\n\n        let end = if mapper.end.anchor == 0 {\n            StartAnchored(std::cmp::max(mapper.end.offset, 0) as usize)\n        } else {\n            EndAnchored(std::cmp::max(-mapper.end.offset, 0) as usize)\n        };\n", "        let place = |x: SegmentMapperAnchor| match x.anchor {\n            0 => StartAnchored(x.offset.max(0) as usize),\n            _ => EndAnchored((-x.offset).max(0) as usize),\n        };\n        let start = place(mapper.start);\n        let end = place(mapper.end);\n")], []),
    ("q-tokens", [(MA, "        let (anchor, offset) = match rpn.tokens().as_slice() {\n            [Val(c)] => (const_default, *c as isize),\n            [Var(id, 1)] => (*id, 0),", "        let tokens = rpn.tokens();\n        let (anchor, offset) = match &tokens[..] {\n            [Var(id, 1)] => (*id, 0),\n            [Val(c)] => (const_default, *c as isize),")], []),
    ("q-push-match", [(CU, "                if expr.has_right_anchor() {\n                    tail_filters.push(expr);\n                } else {\n                    filters.push(expr);\n                }", "                let to = if expr.has_right_anchor() { &mut tail_filters } else { &mut filters };\n                to.push(expr);")], []),
]
