X = "src/segment/exact.rs"
G = "src/segment/regex.rs"
LOOP = """        for pos in memchr::memmem::find_iter(&stream[self.scanned..bytes], &self.pattern) {
            self.segments.push(Segment {
                pos: self.scanned + pos,
                len,
            });
        }
"""
LAST = "        let last_tail = self.segments.last().map_or(0, |x| x.tail());\n"
MAX = "std::cmp::max(bytes - self.pattern.len() + 1, last_tail)"
SC = """        self.scanned = if is_eof {
            bytes
        } else {
            """ + MAX + """
        };
"""
FOR = """        for s in &segments[self.src_scanned..count] {
            self.matches
                .extend(self.re.find_iter(&stream[s.as_range()]).map(|x| to_segment(x, s.pos)));
        }
"""
SORT = "self.matches.sort_by_key(|x| (x.pos, x.len));"
CNT = """        self.count = if is_eof {
            self.matches.len()
        } else {
            self.matches.partition_point(|x| x.pos < max_consume)
        };
"""
ALL = ["C21"]
EDITS = [
    ("max-len", [(X, MAX, "std::cmp::max(bytes - self.pattern.len() + 2, last_tail)")], ALL),
    ("max-bytes", [(X, MAX, "std::cmp::max(bytes, last_tail)")], ALL),
    ("no-last", [(X, MAX, "bytes - self.pattern.len() + 1")], ALL),
    ("min", [(X, MAX, "std::cmp::min(bytes - self.pattern.len() + 1, last_tail)")], ALL),
    ("last-pos", [(X, "map_or(0, |x| x.tail());\n        self.sc", "map_or(0, |x| x.pos);\n        self.sc")], ALL),
    ("first", [(X, "self.segments.last().map_or", "self.segments.first().map_or")], None),
    ("rescan", [(X, "&stream[self.scanned..bytes]", "&stream[..bytes]")], ALL),
    ("rel", [(X, "pos: self.scanned + pos,", "pos,")], ALL),
    ("eof-short", [(X, SC, "        self.scanned = std::cmp::max((bytes + 1).saturating_sub(len), last_tail);\n        let _ = is_eof;\n")], ALL),
    ("full-max", [(X, "Ok((is_eof, bytes, self.segments.len(), self.scanned))", "Ok((is_eof, bytes, self.segments.len(), bytes))")], ALL),
    ("cap", [(X, LOOP, LOOP.replace("for pos in memchr::memmem::find_iter(&stream[self.scanned..bytes], &self.pattern) {", "for pos in memchr::memmem::find_iter(&stream[self.scanned..bytes], &self.pattern).take(1 << 16) {"))], None),
    ("skip-edge", [(X, LOOP, LOOP.replace("            self.segments.push", "            if self.scanned + pos + len == bytes && !is_eof {\n                continue;\n            }\n            self.segments.push"))], ALL),
    ("small-hay", [(X, "&stream[self.scanned..bytes]", "&stream[self.scanned..bytes & !1]")], ALL),
    ("long-ok", [(X, "if parsed >= 4 * 48 {", "if parsed > 4 * 48 {")], ALL),
    ("long-no", [(X, "if parsed >= 4 * 48 {", "if parsed >= 4 * 47 {")], ALL),
    ("text-1", [(X, "buf.truncate(filled);", "buf.truncate(std::cmp::min(filled, 63));")], ALL),
    ("empty-none", [(X, "            self.scanned = bytes;\n            return", "            return")], ALL),
    # regex
    ("r-all", [(G, "&segments[self.src_scanned..count]", "&segments[..count]")], ALL),
    ("r-seen", [(G, "        self.src_scanned = count;\n", "        self.src_scanned = if is_eof { count } else { count.saturating_sub(1) };\n")], ALL),
    ("r-one", [(G, "&segments[self.src_scanned..count]", "&segments[self.src_scanned..segments.len() - 1]")], ALL),
    ("r-nosort", [(G, "        " + SORT + "\n", "")], ALL),
    ("r-sortlen", [(G, SORT, "self.matches.sort_by_key(|x| (x.len, x.pos));")], ALL),
    ("r-sortif", [(G, SORT, "if is_eof {\n            " + SORT + "\n        }")], ALL),
    ("r-rev", [(G, SORT, "self.matches.sort_by(|x, y| y.pos.cmp(&x.pos));")], ALL),
    ("r-allnow", [(G, CNT, "        self.count = self.matches.len();\n")], ALL),
    ("r-le", [(G, "x.pos < max_consume)\n        };", "x.pos <= max_consume)\n        };")], ALL),
    ("r-tail", [(G, "x.pos < max_consume)\n        };", "x.tail() < max_consume)\n        };")], ALL),
    ("r-abs", [(G, "pos: pos + m.start(),", "pos: m.start(),")], ALL),
    ("r-end", [(G, "len: m.range().len(),", "len: m.end(),")], ALL),
    ("r-whole", [(G, "&stream[s.as_range()]", "&stream[s.pos..]")], ALL),
    ("r-nonempty", [(G, ".map(|x| to_segment(x, s.pos))", ".filter(|x| !x.range().is_empty()).map(|x| to_segment(x, s.pos))")], None),
    ("r-first", [(G, FOR, "        for s in &segments[self.src_scanned..count] {\n            if let Some(x) = self.re.find(&stream[s.as_range()]) {\n                self.matches.push(to_segment(x, s.pos));\n            }\n        }\n")], None),
    ("r-skip", [(G, FOR, FOR.replace("            self.matches\n", "            if s.len < 2 {\n                continue;\n            }\n            self.matches\n"))], ALL),
    ("r-max", [(G, "Ok((is_eof, bytes, self.count, max_consume))", "Ok((is_eof, bytes, self.count, bytes))")], ALL),
    ("r-eof", [(G, CNT, CNT.replace("if is_eof {", "if is_eof && count == 0 {"))], None),
    # behaviour kept
    ("q-ifelse", [(X, LAST + SC, """        let last_tail = match self.segments.last() {
            Some(x) => x.pos + x.len,
            None => 0,
        };
        if is_eof {
            self.scanned = bytes;
        } else {
            let next = bytes + 1 - len;
            self.scanned = if next > last_tail { next } else { last_tail };
        }
""".replace(" // matches", ""))], []),
    ("q-back", [(X, MAX, "std::cmp::max(bytes - self.pattern.len(), last_tail)")], []),
    ("q-finder", [(X, LOOP, """        let finder = memchr::memmem::Finder::new(&self.pattern);
        for pos in finder.find_iter(&stream[self.scanned..bytes]) {
            let pos = self.scanned + pos;
            self.segments.push(Segment { pos, len });
        }
""")], []),
    ("q-extend", [(X, LOOP, """        let scanned = self.scanned;
        self.segments
            .extend(memchr::memmem::find_iter(&stream[scanned..bytes], &self.pattern).map(|pos| Segment { pos: pos + scanned, len }));
""")], []),
    ("q-foreach", [(X, LOOP, """        let base = self.scanned;
        let segments = &mut self.segments;
        memchr::memmem::find_iter(&stream[base..bytes], &self.pattern).for_each(|pos| segments.push(Segment { pos: base + pos, len }));
""")], []),
    ("q-local", [(X, LOOP, """        let mut tail = &stream[self.scanned..bytes];
        let mut at = self.scanned;
        while let Some(pos) = memchr::memmem::find(tail, &self.pattern) {
            self.segments.push(Segment { pos: at + pos, len });
            at += pos + len;
            tail = &tail[pos + len..];
        }
""")], []),
    ("q-sub", [(X, LOOP, LOOP.replace("&stream[self.scanned..bytes]", "&stream[..bytes][self.scanned..]"))], []),
    ("q-emptylater", [(X, """        // no need to scan the bytes when the pattern is empty
        if self.pattern.is_empty() {
            self.scanned = bytes;
            return Ok((is_eof, bytes, 0, self.scanned));
        }

        let stream = self.src.as_slice();
        let len = self.pattern.len();
""", """        let len = self.pattern.len();
        if len == 0 {
            self.scanned = bytes;
            return Ok((is_eof, bytes, self.segments.len(), bytes));
        }
        let stream = self.src.as_slice();
""")], []),
    ("q-r-loops", [(G, FOR, """        for i in self.src_scanned..count {
            let s = &segments[i];
            let hay = &stream[s.pos..s.pos + s.len];
            for x in self.re.find_iter(hay) {
                self.matches.push(to_segment(x, s.pos));
            }
        }
""")], []),
    ("q-r-skip", [(G, "for s in &segments[self.src_scanned..count] {", "for s in segments[..count].iter().skip(self.src_scanned) {")], []),
    ("q-r-take", [(G, "for s in &segments[self.src_scanned..count] {", "for s in segments.iter().take(count).skip(self.src_scanned) {")], []),
    ("q-r-len", [(G, "len: m.range().len(),", "len: m.end() - m.start(),")], []),
    ("q-r-len2", [(G, "len: m.range().len(),", "len: m.len(),")], []),
    ("q-r-sortby", [(G, SORT, "self.matches.sort_by(|a, b| a.pos.cmp(&b.pos).then(a.len.cmp(&b.len)));")], []),
    ("q-r-unst", [(G, SORT, "self.matches.sort_unstable_by_key(|x| (x.pos, x.len));")], []),
    ("q-r-tuple", [(G, SORT, "self.matches.sort_by(|a, b| (a.pos, a.len).cmp(&(b.pos, b.len)));")], []),
    ("q-r-pos", [(G, "self.matches.partition_point(|x| x.pos < max_consume)", "self.matches.iter().take_while(|x| x.pos < max_consume).count()")], []),
    ("q-r-pos2", [(G, "self.matches.partition_point(|x| x.pos < max_consume)", "self.matches.iter().position(|x| x.pos >= max_consume).unwrap_or(self.matches.len())")], []),
    ("q-r-match", [(G, CNT, """        let n = match is_eof {
            true => self.matches.len(),
            false => self.matches.partition_point(|x| x.pos < max_consume),
        };
        self.count = n;
""")], []),
    ("q-r-helper", [(G, "        let to_segment = |m: Match, pos: usize| -> Segment {\n            Segment {\n                pos: pos + m.start(),\n                len: m.range().len(),\n            }\n        };\n\n", ""),
                    (G, "impl SegmentStream for RegexSlicer {", "fn to_segment(m: Match, pos: usize) -> Segment {\n    Segment {\n        pos: pos + m.start(),\n        len: m.range().len(),\n    }\n}\n\nimpl SegmentStream for RegexSlicer {")], []),
    ("q-r-flat", [(G, FOR, """        let re = &self.re;
        self.matches.extend(
            segments[self.src_scanned..count]
                .iter()
                .flat_map(|s| re.find_iter(&stream[s.as_range()]).map(move |x| to_segment(x, s.pos))),
        );
""")], []),
]
