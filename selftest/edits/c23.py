X = "src/segment/extend.rs"
B = "src/segment/bridge.rs"
M = "src/segment/merge.rs"
P = "src/mapper.rs"
ALL = ["C23"]
QUIET = []
HELD = """        let is_held = |x: &Segment| x.tail() > bytes || x.pos >= max_consume;
        self.count = self.segments.iter().position(is_held).unwrap_or(self.segments.len());
"""
FIRSTHELD = """        if let Some(s) = self.segments.get(self.count) {
            self.max_consume = std::cmp::min(self.max_consume, s.pos);
        }
"""
RETAIN = """            self.segments.retain(|x| x.pos < bytes);
"""
CUT = """            for s in &mut self.segments {
                s.len = std::cmp::min(s.len, bytes - s.pos);
            }
"""
SORT = """        self.segments.sort_by_key(|x| (x.pos, x.len));
"""
MAPX = """        for next in &segments[self.src_scanned..count] {
            for mapper in &self.mappers {
                if let Some(s) = map_segment(mapper, next) {
                    self.segments.push(s);
                }
            }
        }
"""
MADE = """            if start < end {
                Some(Segment {
                    pos: start,
                    len: end - start,
                })
            } else {
                None
            }
"""
CLIP = """            let start = (start.max(0) as usize).min(tail);
            let end = (end.max(0) as usize).min(tail);
"""
GAP = """                if prev_end >= curr_start {
                    prev_end = std::cmp::max(prev_end, curr_end);
                    continue;
                }
"""
GAPMAP = """                for mapper in &self.mappers {
                    if let Some(s) = map_segment(mapper, &[prev_end, curr_start]) {
                        self.segments.push(s);
                    }
                }
                prev_end = std::cmp::max(prev_end, curr_end);
"""
LAST = """        if is_eof && prev_end < bytes as isize {
            let bytes = bytes as isize;

            for mapper in &self.mappers {
                if let Some(s) = map_segment(mapper, &[prev_end, bytes]) {
                    self.segments.push(s);
                }
            }
            prev_end = bytes;
        }
"""
PHX = """        let phantom = [max_consume, max_consume + 1];
"""
PHMIN = """            std::cmp::min(start, end)
"""
APPEND = """        if self.end > start || (start - self.end) <= self.merge_threshold {
            self.count += 1;
            self.end = std::cmp::max(self.end, end);
            return None;
        }

        let popped = self.pop();
        self.init(start, end);

        Some(popped)
"""
SUSP = """        if !is_eof && max_consume <= self.furthest_margable_pos() {
            return None;
        }
"""
LOOPM = """            let consumed = self.acc.resume(&segments[self.src_scanned]);
            let src_scanned = self.src_scanned + consumed as usize;

            for next in &segments[src_scanned..count] {
                if let Some(s) = self.acc.append(next) {
                    self.segments.push(s);
                }
            }
"""


def both(name, old, new, fires):
    return [("x-" + name, [(X, old, new)], fires), ("b-" + name, [(B, old, new)], fires)]


EDITS = [
    # --extend
    ("x-window-lo", [(X, "&segments[self.src_scanned..count]", "&segments[0..count]")], ALL),
    ("x-window-hi", [(X, "&segments[self.src_scanned..count]", "&segments[self.src_scanned..]")], ALL),
    ("x-start-only", [(X, "m.evaluate(&s, &s)", "m.evaluate(&[s[0], s[0]], &s)")], ALL),
    ("x-first-mapper", [(X, "for mapper in &self.mappers {\n                if let", "for mapper in self.mappers.iter().take(1) {\n                if let")], ALL),
    ("x-skip-mapper", [(X, "for mapper in &self.mappers {\n                if let", "for mapper in &self.mappers[1..] {\n                if let")], ALL),
    ("x-break-mapper", [(X, "                    self.segments.push(s);\n", "                    self.segments.push(s);\n                    break;\n")], ALL),
    ("x-scanned-early", [(X, "        self.src_scanned = count;\n", "        self.src_scanned = count.max(1);\n")], ALL),
    ("x-phantom", [(X, PHX, "        let phantom = [max_consume + 1, max_consume + 1];\n")], ALL),
    ("x-phantom-end", [(X, PHX, "        let phantom = [max_consume, max_consume + 4];\n")], ALL),
    ("x-not-limited", [(X, "        self.max_consume = std::cmp::min(max_consume, self.max_consume);\n", "")], ALL),
    # --invert
    ("b-window-lo", [(B, "&segments[self.src_scanned..count]", "&segments[0..count]")], ALL),
    ("b-gap-eq", [(B, "if prev_end >= curr_start {", "if prev_end > curr_start {")], ["C23"]),
    ("b-prev-back", [(B, GAP, GAP.replace("prev_end = std::cmp::max(prev_end, curr_end);", "prev_end = curr_end;"))], ALL),
    ("b-prev-not", [(B, GAP, GAP.replace("                    prev_end = std::cmp::max(prev_end, curr_end);\n", ""))], ALL),
    ("b-prev-start", [(B, GAPMAP, GAPMAP.replace("prev_end = std::cmp::max(prev_end, curr_end);", "prev_end = std::cmp::max(prev_end, curr_start);"))], ALL),
    ("b-gap-end", [(B, "&[prev_end, curr_start]", "&[prev_end, curr_end]")], ALL),
    ("b-last-always", [(B, LAST, LAST.replace("is_eof && ", ""))], ALL),
    ("b-last-never", [(B, LAST, LAST.replace("is_eof && prev_end <", "is_eof && prev_end > 0 && prev_end <"))], ALL),
    ("b-last-from", [(B, LAST, LAST.replace("&[prev_end, bytes]", "&[self.last_end, bytes]"))], ALL),
    ("b-last-end-kept", [(B, "        self.last_end = prev_end;\n", "")], ALL),
    ("b-no-shift", [(B, "        self.last_end -= bytes as isize;\n", "")], ALL),
    ("b-phantom", [(B, "        let phantom = [self.last_end, self.last_end + 1];\n", "        let phantom = [self.last_end + 1, self.last_end + 1];\n")], ALL),
    ("b-first-mapper", [(B, GAPMAP, GAPMAP.replace("&self.mappers", "&self.mappers[..1]"))], ALL),
    # --merge
    ("m-lt", [(M, "(start - self.end) <= self.merge_threshold", "(start - self.end) < self.merge_threshold")], ALL),
    ("m-touching", [(M, "if self.end > start ||", "if self.end + 1 > start ||")], []),
    ("m-end-new", [(M, "            self.end = std::cmp::max(self.end, end);\n", "            self.end = end;\n")], ALL),
    ("m-threshold", [(M, "(start - self.end) <= self.merge_threshold", "(start - self.end) <= 0")], ALL),
    ("m-from-start", [(M, "(start - self.end) <= self.merge_threshold", "(start - self.start) <= self.merge_threshold")], ALL),
    ("m-suspend-eq", [(M, SUSP, SUSP.replace("<=", "<"))], ALL),
    ("m-suspend-early", [(M, SUSP, SUSP.replace("self.furthest_margable_pos()", "self.end"))], ALL),
    ("m-suspend-never", [(M, SUSP, SUSP.replace("!is_eof && ", ""))], ALL),
    ("m-room", [(M, "            self.max_consume = self.acc.start;\n", "            self.max_consume = self.acc.end;\n")], ALL),
    ("m-room-lt", [(M, "        if max_consume <= self.acc.furthest_margable_pos() {\n            self.max_consume", "        if max_consume < self.acc.furthest_margable_pos() {\n            self.max_consume")], ALL),
    ("m-no-unwind", [(M, "        self.acc.unwind(bytes);\n", "")], ALL),
    ("m-unwind-start", [(M, "        self.start -= bytes;\n", "")], ALL),
    ("m-unwind-end", [(M, "        self.end -= bytes;\n", "")], ALL),
    ("m-scanned", [(M, "        self.src_scanned = count;\n", "        self.src_scanned = count.saturating_sub(1);\n")], ALL),
    ("m-first-twice", [(M, "let src_scanned = self.src_scanned + consumed as usize;", "let src_scanned = self.src_scanned + 0 * consumed as usize;")], None),
    ("m-first-lost", [(M, "let src_scanned = self.src_scanned + consumed as usize;", "let src_scanned = self.src_scanned + 1 + 0 * consumed as usize;")], ALL),
    ("m-pop-len", [(M, "        Segment { pos, len: tail - pos }\n", "        Segment { pos, len: tail - pos + 0 * self.count }\n")], []),
    ("m-pop-keeps", [(M, "        self.count = 0;\n        self.start = usize::MAX;\n", "        self.start = usize::MAX;\n")], ALL),
    ("m-saturating", [(M, "self.end.saturating_add(self.merge_threshold)", "self.end.wrapping_add(self.merge_threshold)")], ALL),
    # mapper
    ("p-swapped", [(P, "(self.start.evaluate(start), self.end.evaluate(end))", "(self.start.evaluate(end), self.end.evaluate(start))")], ALL),
    ("p-end", [(P, "(self.start.evaluate(start), self.end.evaluate(end))", "(self.start.evaluate(start), self.end.evaluate(start))")], ALL),
    ("p-anchor", [(P, "input[self.anchor] + self.offset", "input[self.anchor ^ (self.offset < 0) as usize] + self.offset")], ALL),
    ("p-sign", [(P, "input[self.anchor] + self.offset", "input[self.anchor] - self.offset")], ALL),
    # quiet
    ("x-helper", [(X, MAPX, """        let mapped = Self::map_all(&segments[self.src_scanned..count], &self.mappers, tail);
        self.segments.extend(mapped);
"""), (X, "    fn update_count(", """    fn map_all(segments: &[Segment], mappers: &[SegmentMapper], tail: usize) -> Vec<Segment> {
        let mut v = Vec::new();
        for next in segments {
            for m in mappers {
                let s = [next.pos as isize, next.tail() as isize];
                let (start, end) = m.evaluate(&s, &s);
                let start = (start.max(0) as usize).min(tail);
                let end = (end.max(0) as usize).min(tail);
                if start < end {
                    v.push(Segment { pos: start, len: end - start });
                }
            }
        }
        v
    }

    fn update_count("""), (X, """        let map_segment = |m: &SegmentMapper, segment: &Segment| -> Option<Segment> {
            let s = [segment.pos as isize, segment.tail() as isize];
            let (start, end) = m.evaluate(&s, &s);

            let start = (start.max(0) as usize).min(tail);
            let end = (end.max(0) as usize).min(tail);

            // record the segment
""" + MADE + """        };

""", "")], QUIET),
    ("x-index", [(X, "        for next in &segments[self.src_scanned..count] {\n", "        for i in self.src_scanned..count {\n            let next = &segments[i];\n")], QUIET),
    ("x-match", [(X, """                if let Some(s) = map_segment(mapper, next) {
                    self.segments.push(s);
                }
""", """                match map_segment(mapper, next) {
                    None => continue,
                    Some(s) => self.segments.push(s),
                }
""")], QUIET),
    ("x-filter-map", [(X, """            for mapper in &self.mappers {
                if let Some(s) = map_segment(mapper, next) {
                    self.segments.push(s);
                }
            }
""", "            self.segments.extend(self.mappers.iter().filter_map(|m| map_segment(m, next)));\n")], QUIET),
    ("x-skip-take", [(X, "&segments[self.src_scanned..count]", "&segments[..count][self.src_scanned..]")], QUIET),
    ("m-index", [(M, """            for next in &segments[src_scanned..count] {
                if let Some(s) = self.acc.append(next) {
""", """            for i in src_scanned..count {
                if let Some(s) = self.acc.append(&segments[i]) {
""")], QUIET),
    ("m-saturating-sub", [(M, "if self.end > start || (start - self.end) <= self.merge_threshold {", "if start.saturating_sub(self.end) <= self.merge_threshold {")], QUIET),
    ("m-match", [(M, """        if let Some(s) = self.acc.suspend(is_eof, max_consume) {
            // the accumulator is popped as the last segment
            self.segments.push(s);
        }
        self.src_scanned = count;
""", """        self.src_scanned = count;
        match self.acc.suspend(is_eof, max_consume) {
            Some(s) => self.segments.push(s),
            None => {}
        }
""")], QUIET),
    ("m-flag", [(M, "    count: usize,\n    start: usize,", "    some: bool,\n    start: usize,"), (M, "            count: 0,\n            start", "            some: false,\n            start"), (M, "        self.count = 1;", "        self.some = true;"), (M, "        self.count = 0;\n", "        self.some = false;\n"), (M, "        if self.count > 0 {\n", "        if self.some {\n"), (M, "        debug_assert!(self.count > 0);\n", "        debug_assert!(self.some);\n"), (M, "            self.count += 1;\n", ""), (M, "        if self.count == 0 {\n            return None;", "        if !self.some {\n            return None;"), (M, "        if self.count == 0 {\n            return 0;", "        if !self.some {\n            return 0;")], QUIET),
    ("b-positive", [(B, GAP + """
                // map the gap then clip
""" + GAPMAP, """                if prev_end < curr_start {
                    for mapper in &self.mappers {
                        if let Some(s) = map_segment(mapper, &[prev_end, curr_start]) {
                            self.segments.push(s);
                        }
                    }
                }
                prev_end = std::cmp::max(prev_end, curr_end);
""")], QUIET),
    ("b-field", [(B, "        let mut prev_end = self.last_end;\n", "        let mut prev_end = self.last_end.max(isize::MIN);\n")], QUIET),
    ("b-max-if", [(B, GAPMAP, GAPMAP.replace("prev_end = std::cmp::max(prev_end, curr_end);", "prev_end = curr_end;"))], QUIET),
]
for e in (
    both("start-le", MADE, MADE.replace("start < end", "start <= end"), ALL),
    both("no-clip-0", CLIP, CLIP.replace("let start = (start.max(0) as usize)", "let start = (start.max(1) as usize)"), ALL),
    both("drop-negative", CLIP, "            if start < 0 {\n                return None;\n            }\n" + CLIP, ALL),
    both("len-short", MADE, MADE.replace("len: end - start,", "len: (end - start).min(1 << 20),"), ALL),
    both("retain", RETAIN, "", ALL),
    both("retain-le", RETAIN, RETAIN.replace("<", "<="), ALL),
    both("no-cut", CUT, "", ALL),
    both("cut-off", CUT, CUT.replace("bytes - s.pos", "bytes"), ALL),
    both("no-sort", SORT, "", ALL),
    both("sort-pos", SORT, SORT.replace("(x.pos, x.len)", "x.pos"), ALL),
    both("sort-len", SORT, SORT.replace("(x.pos, x.len)", "(x.len, x.pos)"), ALL),
    both("held-ge", HELD, HELD.replace("x.tail() > bytes", "x.tail() >= bytes"), ALL),
    both("held-tail", HELD, HELD.replace("x.tail() > bytes || ", ""), ALL),
    both("held-max", HELD, HELD.replace(" || x.pos >= max_consume", ""), ALL),
    both("held-max-gt", HELD, HELD.replace("x.pos >= max_consume", "x.pos > max_consume"), ALL),
    both("held-room", FIRSTHELD, "", ALL),
    both("held-room-tail", FIRSTHELD, FIRSTHELD.replace("s.pos", "s.tail()"), ALL),
    both("answer", "Ok((is_eof, bytes, self.count, self.max_consume))", "Ok((is_eof, bytes, self.segments.len(), self.max_consume))", ALL),
    both("slices", "(stream, &self.segments[..self.count])", "(stream, &self.segments)", ALL),
    both("phantom-start", PHMIN, "            let _ = end;\n            start\n", ALL),
    both("phantom-max", "self.mappers.iter().map(eval_phantom).min().unwrap_or(0)", "self.mappers.iter().map(eval_phantom).max().unwrap_or(0)", ALL),
    both("count-all", "            self.count = self.segments.len();\n            return;\n", "            return;\n", ALL),
    # quiet
    both("q-take-while", HELD, HELD.replace("self.segments.iter().position(is_held).unwrap_or(self.segments.len())", "self.segments.iter().take_while(|x| !is_held(x)).count()"), QUIET),
    both("q-then", SORT, SORT.replace("sort_by_key(|x| (x.pos, x.len))", "sort_by(|x, y| x.pos.cmp(&y.pos).then(x.len.cmp(&y.len)))"), QUIET),
    both("q-unstable", SORT, SORT.replace("sort_by_key", "sort_unstable_by_key"), QUIET),
    both("q-tuple", SORT, SORT.replace("sort_by_key(|x| (x.pos, x.len))", "sort_by(|x, y| (x.pos, x.len).cmp(&(y.pos, y.len)))"), QUIET),
    both("q-early", MADE, """            if start >= end {
                return None;
            }
            let len = end - start;
            Some(Segment { pos: start, len })
""", QUIET),
    both("q-clip-tail", CLIP, "            let start = (std::cmp::max(0, start) as usize).min(tail);\n            let end = std::cmp::min(std::cmp::max(0, end) as usize, tail);\n", QUIET),
    both("q-min-if", FIRSTHELD, """        if self.count < self.segments.len() {
            let pos = self.segments[self.count].pos;
            if pos < self.max_consume {
                self.max_consume = pos;
            }
        }
""", QUIET),
    both("q-held-split", HELD, """        let fits = |x: &Segment| x.tail() <= bytes && x.pos < max_consume;
        let n = self.segments.iter().position(|x| !fits(x));
        self.count = match n {
            Some(n) => n,
            None => self.segments.len(),
        };
""", QUIET),
    both("q-cut-iter", CUT, """            self.segments.iter_mut().for_each(|s| s.len = s.len.min(bytes - s.pos));
""", QUIET),
    both("q-cut-if", CUT, CUT.replace("                s.len = std::cmp::min(s.len, bytes - s.pos);\n", "                if s.tail() > bytes {\n                    s.len = bytes - s.pos;\n                }\n"), QUIET),
    both("q-loop", HELD, """        self.count = 0;
        while self.count < self.segments.len() {
            let x = &self.segments[self.count];
            if x.tail() > bytes || x.pos >= max_consume {
                break;
            }
            self.count += 1;
        }
""", QUIET),
    both("q-min-loop", "        let max_consume = self.mappers.iter().map(eval_phantom).min().unwrap_or(0);\n", """        let mut lowest = isize::MAX;
        for m in &self.mappers {
            lowest = std::cmp::min(lowest, eval_phantom(m));
        }
        let max_consume = lowest;
""", QUIET),
):
    EDITS.extend(e)
