G = "src/segment/%s.rs"
TAIL = '''        let from = self.segments.partition_point(|x| x.pos < bytes);
        let to = self.segments.len();

        self.segments.copy_within(from..to, 0);
        self.segments.truncate(to - from);

        for s in &mut self.segments {
            s.pos -= bytes;
        }
'''
M, X, B, W, RA, F, GU, RE, EX = (G % x for x in ("merge", "extend", "bridge", "walk", "range", "filter", "guided", "regex", "exact"))
S, P = "src/drain/scatter.rs", "src/drain/patch.rs"
ALL = [M, X, B, W, RA, F, GU, EX]


def tail(f, new):
    return (f, TAIL, new)


EDITS = [
    ("scanned-from", [(M, "        self.src_scanned -= src_count;", "        let _ = src_count;"), (M, "        self.acc.unwind(bytes);", "        self.src_scanned -= from;\n        self.acc.unwind(bytes);")], ["C16"]),
    ("no-scanned", [(X, "        let (bytes, src_count) = self.src.consume(bytes)?;\n        self.src_scanned -= src_count;\n", "        let (bytes, src_count) = self.src.consume(bytes)?;\n        self.src_scanned = self.src_scanned.saturating_sub(src_count * (bytes & 1));\n")], ["C16"]),
    ("scanned-zero", [(B, "        self.src_scanned -= src_count;\n", "        let _ = src_count;\n        self.src_scanned = 0;\n")], ["C16"]),
    ("pp-le", [tail(X, TAIL.replace("x.pos < bytes", "x.pos <= bytes"))], ["C16"]),
    ("pp-tail", [tail(RA, TAIL.replace("x.pos < bytes", "x.tail() <= bytes"))], ["C16"]),
    ("trunc-to", [tail(F, TAIL.replace("truncate(to - from)", "truncate(to)"))], ["C16"]),
    ("req-bytes", [(F, "        let bytes = std::cmp::min(bytes, self.max_consume);\n        let (bytes, src_count) = self.src.consume(bytes)?;\n        self.src_scanned -= src_count;\n        self.src_consumed += src_count;", "        let bytes = std::cmp::min(bytes, self.max_consume);\n        let (_, src_count) = self.src.consume(bytes)?;\n        self.src_scanned -= src_count;\n        self.src_consumed += src_count;")], ["C16"]),
    ("no-clip", [(B, "        let bytes = std::cmp::min(bytes, self.max_consume);\n", "")], None),
    ("no-clip-walk", [(W, "        let bytes = std::cmp::min(bytes, self.pos);\n        self.src", "        self.src")], ["C16"]),
    ("consumed-bytes", [(F, "self.src_consumed += src_count;", "self.src_consumed += bytes;")], ["C16"]),
    ("consumed-cond", [(RA, "        self.src_consumed += bytes;\n", "        if from > 0 {\n            self.src_consumed += bytes;\n        }\n")], ["C16"]),
    ("guide-consumed", [(GU, "        self.src_consumed += bytes;\n", "        self.src_consumed += from;\n")], ["C16"]),
    ("no-unwind-end", [(M, "        self.start -= bytes;\n        self.end -= bytes;", "        self.start -= bytes;")], ["C16"]),
    ("last-end", [(B, "        self.last_end -= bytes as isize;\n", "        if from > 0 {\n            self.last_end -= bytes as isize;\n        }\n")], ["C16"]),
    ("last-end-clamp", [(B, "        self.last_end -= bytes as isize;\n", "        self.last_end = std::cmp::max(0, self.last_end - bytes as isize);\n")], ["C16"]),
    ("move-first", [tail(X, TAIL.replace("for s in &mut self.segments {", "for s in self.segments.iter_mut().skip(1) {"))], ["C16"]),
    ("early-out", [tail(M, "        if self.segments.is_empty() {\n            return Ok((bytes, 0));\n        }\n\n" + TAIL)], ["C16"]),
    ("early-bytes", [(RE, "        if bytes == 0 {\n            return Ok((0, 0));", "        if bytes < 16 {\n            return Ok((0, 0));")], ["C16"]),
    ("ret-srccount", [(X, "        self.max_consume -= bytes;\n\n        Ok((bytes, from))", "        self.max_consume -= bytes;\n\n        Ok((bytes, src_count))")], ["C16"]),
    ("ret-to", [(M, "        self.max_consume -= bytes;\n\n        Ok((bytes, from))", "        self.max_consume -= bytes;\n\n        Ok((bytes, to))")], ["C16"]),
    ("rescan", [(X, "for next in &segments[self.src_scanned..count] {", "for next in &segments[..count] {")], ["C16"]),
    ("overscan", [(X, "for next in &segments[self.src_scanned..count] {", "for next in &segments[self.src_scanned..] {")], ["C16"]),
    ("scanned-len", [(B, "        self.src_scanned = count;\n", "        self.src_scanned = segments.len();\n")], ["C16"]),
    ("scanned-only-some", [(M, "        self.src_scanned = count;\n", "        if !is_eof {\n            self.src_scanned = count;\n        }\n")], None),
    ("regex-old", [(RE, "for s in &segments[self.src_scanned..count] {", "for s in &segments[self.src_scanned.min(1)..count] {")], ["C16"]),
    ("regex-count", [(RE, "        self.count = if is_eof {\n            self.matches.len()\n        } else {\n            self.matches.partition_point(|x| x.pos < max_consume)\n        };\n\n        Ok((is_eof, bytes, self.count, max_consume))", "        self.count = if is_eof {\n            self.matches.len()\n        } else {\n            self.matches.partition_point(|x| x.pos < max_consume)\n        };\n\n        Ok((is_eof, bytes, self.matches.len(), max_consume))")], ["C16"]),
    ("through-skip", [(S, "            self.src_consumed -= count;\n            self.offset += bytes;\n            self.lines += count;\n\n            Ok(is_eof)", "            self.src_consumed = 0;\n            self.offset += bytes;\n            self.lines += count;\n\n            Ok(is_eof)")], ["C16"]),
    ("through-offset", [(S, "            self.src_consumed -= count;\n            self.offset += bytes;\n            self.lines += count;\n\n            Ok(is_eof)", "            self.src_consumed -= count;\n            self.offset += max_consume.min(bytes + 1);\n            self.lines += count;\n\n            Ok(is_eof)")], ["C16"]),
    ("through-all", [(S, "&segments[self.src_consumed..count], buf);\n            self.src_consumed = count;", "&segments[self.src_consumed..], buf);\n            self.src_consumed = segments.len();")], ["C16"]),
    ("patch-skip", [(P, "                scanned = count - consumed;", "                scanned = consumed.min(count - consumed);")], ["C16"]),
    ("patch-offset", [(P, "                offset += bytes;\n\n", "                offset += max_consume;\n\n")], None),
    ("patch-end", [(P, "                if is_eof && bytes == 0 {\n                    break;\n                }\n\n                let (stream", "                if is_eof && max_consume == 0 {\n                    break;\n                }\n\n                let (stream")], None),
    ("patch-eof", [(P, "                if is_eof && bytes == 0 {\n                    break;\n                }\n\n                let (stream", "                if is_eof && count == 0 {\n                    break;\n                }\n\n                let (stream")], ["C16"]),
    ("patch-bytes0", [(P, "                if is_eof && bytes == 0 {\n                    break;\n                }\n\n                let (stream", "                if bytes == 0 {\n                    break;\n                }\n\n                let (stream")], None),
    ("q-drain", [tail(f, '''        let from = self.segments.partition_point(|x| x.pos < bytes);
        self.segments.drain(..from);

        self.segments.iter_mut().for_each(|s| s.pos -= bytes);
''') for f in ALL], []),
    ("q-idx", [tail(f, '''        let to = self.segments.len();
        let from = self.segments.iter().take_while(|x| x.pos < bytes).count();

        self.segments.copy_within(from.., 0);
        self.segments.truncate(to - from);

        for i in 0..self.segments.len() {
            self.segments[i].pos -= bytes;
        }
''') for f in ALL], []),
    ("q-count-loop", [tail(f, '''        let mut from = 0;
        while from < self.segments.len() && self.segments[from].pos < bytes {
            from += 1;
        }
        self.segments.drain(0..from);

        for s in self.segments.iter_mut() {
            s.pos -= bytes;
        }
''') for f in ALL], []),
    ("q-retain", [tail(f, '''        let before = self.segments.len();
        self.segments.retain(|x| x.pos >= bytes);
        let from = before - self.segments.len();

        for s in self.segments.iter_mut() {
            s.pos = s.pos - bytes;
        }
''') for f in ALL], []),
    ("q-while-idx", [tail(f, TAIL.replace("for s in &mut self.segments {\n            s.pos -= bytes;\n        }", "let mut i = 0;\n        while i < self.segments.len() {\n            self.segments[i].pos -= bytes;\n            i += 1;\n        }")) for f in ALL], []),
    ("q-last-iter", [tail(f, TAIL.replace("for s in &mut self.segments {\n            s.pos -= bytes;\n        }", "let rest = self.segments.as_mut_slice();\n        for Segment { pos, .. } in rest.iter_mut() {\n            *pos -= bytes;\n        }")) for f in ALL], []),
    ("move-from1", [tail(X, TAIL.replace("for s in &mut self.segments {", "for s in &mut self.segments[1..] {"))], ["C16"]),
    ("q-helper", [(G % "mod", "pub trait SegmentStream", '''pub fn forward(segments: &mut Vec<Segment>, bytes: usize) -> usize {
    let from = segments.partition_point(|x| x.pos < bytes);
    let to = segments.len();

    segments.copy_within(from..to, 0);
    segments.truncate(to - from);

    for s in segments.iter_mut() {
        s.pos -= bytes;
    }
    from
}

pub trait SegmentStream''')] + [tail(f, "        let from = super::forward(&mut self.segments, bytes);\n") for f in ALL], []),
    ("q-split-off", [tail(f, '''        let from = self.segments.partition_point(|x| x.pos < bytes);
        self.segments = self.segments.split_off(from);

        for s in &mut self.segments {
            s.pos -= bytes;
        }
''') for f in ALL], []),
    ("q-fields-first", [(M, "        let from = self.segments.partition_point(|x| x.pos < bytes);\n", "        self.acc.unwind(bytes);\n        self.max_consume -= bytes;\n\n        let from = self.segments.partition_point(|x| bytes > x.pos);\n"), (M, "            s.pos -= bytes;\n        }\n        self.acc.unwind(bytes);\n        self.max_consume -= bytes;\n", "            s.pos -= bytes;\n        }\n")], []),
    ("q-min-if", [(RA, "        let bytes = std::cmp::min(bytes, self.max_consume);\n", "        let bytes = if bytes < self.max_consume { bytes } else { self.max_consume };\n"), (W, "        let bytes = std::cmp::min(bytes, self.pos);\n        self.src", "        let bytes = bytes.min(self.pos);\n        self.src")], []),
    ("q-tuple", [(X, "        let (bytes, src_count) = self.src.consume(bytes)?;\n", "        let ret = self.src.consume(bytes)?;\n        let (bytes, src_count) = (ret.0, ret.1);\n")], []),
    ("q-zero", [(X, "        self.src_scanned -= src_count;\n", "        if bytes == 0 {\n            self.src_scanned -= src_count;\n            return Ok((0, 0));\n        }\n        self.src_scanned -= src_count;\n")], None),
    ("q-scan-iter", [(X, "for next in &segments[self.src_scanned..count] {", "for next in segments[self.src_scanned..count].iter() {"), (B, "for &next in &segments[self.src_scanned..count] {", "for next in segments[..count][self.src_scanned..].iter() {")], []),
    ("q-scan-skip", [(X, "for next in &segments[self.src_scanned..count] {", "for next in segments.iter().take(count).skip(self.src_scanned) {")], []),
    ("q-scan-idx", [(X, "for next in &segments[self.src_scanned..count] {", "for i in self.src_scanned..count {\n            let next = &segments[i];")], []),
    ("q-through-locals", [(S, "            self.src_consumed = count;\n\n            // consumed bytes and count\n            let (bytes, count) = self.src.consume(max_consume)?;\n            if is_eof {\n                debug_assert!(bytes == max_consume);\n            }\n\n            self.src_consumed -= count;\n", "            // consumed bytes and count\n            let (bytes, dropped) = self.src.consume(max_consume)?;\n            if is_eof {\n                debug_assert!(bytes == max_consume);\n            }\n\n            self.src_consumed = count - dropped;\n            let count = dropped;\n")], []),
    ("q-patch-while", [(P, "                scanned = count - consumed;\n                offset += bytes;\n", "                offset += bytes;\n                scanned = count;\n                scanned -= consumed;\n")], []),
    ("q-patch-helper", [(P, "                let (stream, segments) = patch.as_slices();\n                formatter.format_segments(offset, stream, &segments[scanned..count], &mut buf);\n\n                // some segments may be left unconsumed\n                let (bytes, consumed) = patch.consume(max_consume)?;\n                scanned = count - consumed;\n                offset += bytes;\n", "                scanned = dump(&mut patch, &formatter, &mut offset, scanned, count, max_consume, &mut buf)?;\n"), (P, "pub struct PatchDrain {", '''fn dump(patch: &mut Box<dyn SegmentStream>, formatter: &TextFormatter, offset: &mut usize, scanned: usize, count: usize, max_consume: usize, buf: &mut Vec<u8>) -> Result<usize> {
    let (stream, segments) = patch.as_slices();
    formatter.format_segments(*offset, stream, &segments[scanned..count], buf);
    let (bytes, consumed) = patch.consume(max_consume)?;
    *offset += bytes;
    Ok(count - consumed)
}

pub struct PatchDrain {''')], []),
]
