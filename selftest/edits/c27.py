S = "src/drain/scatter.rs"
P = "src/drain/patch.rs"
ALL = ["C27"]
EDITS = []


def m(name, f, old, new):
    EDITS.append((name, [(f, old, new)], ALL))


def qt(name, *ed):
    EDITS.append(("q-" + name, list(ed), []))


m("off-max", P, "offset += bytes;", "offset += max_consume;")
m("off-count", P, "offset += bytes;", "offset += bytes.min(BLOCK_SIZE);")
EDITS[-1] = (EDITS[-1][0], EDITS[-1][1], None)
m("scanned", P, "scanned = count - consumed;", "scanned = 0;")
m("scanned-2", P, "scanned = count - consumed;", "scanned = count;")
m("flush", P, "            writer.write_all(&buf)?;\n            writer.close();", "            if buf.len() >= BLOCK_SIZE {\n                writer.write_all(&buf)?;\n            }\n            writer.close();")
m("clear", P, "                    writer.write_all(&buf)?;\n                    buf.clear();", "                    writer.write_all(&buf)?;")
m("early", P, "                if is_eof && bytes == 0 {\n                    break;", "                if is_eof && bytes == 0 {\n                    if scanned > 0 {\n                        return Ok(());\n                    }\n                    break;")
m("s-off", S, "            self.offset += bytes;\n            self.lines += count;\n        }", "            self.offset += max_consume;\n            self.lines += count;\n        }")
m("s-lines", S, "            self.offset += bytes;\n            self.lines += count;\n        }", "            self.offset += bytes;\n            self.lines = count;\n        }")
m("s-lines-2", S, "self.lines + self.src_consumed + i)", "self.lines + i)")
m("s-pos", S, "self.offset + s[0].pos,", "self.offset,")
m("s-clear", S, "                self.buf.clear();\n", "                if i > 0 {\n                    self.buf.clear();\n                }\n")
m("s-clear-2", S, "                self.buf.clear();\n", "")
m("s-consumed", S, "            self.src_consumed -= count;\n            self.offset += bytes;\n            self.lines += count;\n        }", "            self.src_consumed = 0;\n            self.offset += bytes;\n            self.lines += count;\n        }")
m("s-skip", S, ".windows(1).enumerate()", ".windows(1).skip(1).enumerate()")
m("t-off", S, "            self.offset += bytes;\n            self.lines += count;\n\n            Ok(is_eof)", "            self.offset += bytes.max(count);\n            self.lines += count;\n\n            Ok(is_eof)")
EDITS[-1] = (EDITS[-1][0], EDITS[-1][1], None)
m("t-off-none", S, "            self.offset += bytes;\n            self.lines += count;\n\n            Ok(is_eof)", "            if count > 0 {\n                self.offset += bytes;\n            }\n            self.lines += count;\n\n            Ok(is_eof)")
EDITS[-1] = (EDITS[-1][0], EDITS[-1][1], None)
m("t-off-eof", S, "            self.offset += bytes;\n            self.lines += count;\n\n            Ok(is_eof)", "            if max_consume > 4096 {\n                self.offset += bytes;\n            }\n            self.lines += count;\n\n            Ok(is_eof)")
m("t-old", S, "&segments[self.src_consumed..count], buf);\n            self.src_consumed = count;\n\n            // consumed bytes and count\n            let (bytes, count) = self.src.consume(max_consume)?;\n            if is_eof {", "&segments[self.src_consumed..count], buf);\n            self.src_consumed = count;\n\n            // consumed bytes and count\n            let (bytes, count) = self.src.consume(max_consume)?;\n            self.src_consumed = self.src_consumed.min(1) * self.src_consumed;\n            if is_eof {")
EDITS[-1] = (EDITS[-1][0], EDITS[-1][1], None)
m("t-skip", S, "            let (stream, segments) = self.src.as_slices();\n\n            self.formatter\n", "            let (stream, segments) = self.src.as_slices();\n            if is_eof && count == 1 {\n                self.src.consume(max_consume)?;\n                return Ok(true);\n            }\n\n            self.formatter\n")
EDITS[-1] = (EDITS[-1][0], EDITS[-1][1], None)
m("t-part", S, "&segments[self.src_consumed..count], buf);", "&segments[self.src_consumed..count.min(self.src_consumed + 4)], buf);")
m("more", P, "patch.consume(max_consume)?", "patch.consume(max_consume + 1)?")
EDITS[-1] = (EDITS[-1][0], EDITS[-1][1], None)

qt("local", (P, "                let (bytes, consumed) = patch.consume(max_consume)?;\n                scanned = count - consumed;\n                offset += bytes;\n", "                let done = patch.consume(max_consume)?;\n                offset = offset + done.0;\n                scanned = count - done.1;\n"))
qt("helper", (S, "            self.src_consumed -= count;\n            self.offset += bytes;\n            self.lines += count;\n        }", "            self.advance(bytes, count);\n        }"),
   (S, "    fn fill_buf_impl_scatter(", "    fn advance(&mut self, bytes: usize, count: usize) {\n        self.src_consumed -= count;\n        self.offset += bytes;\n        self.lines += count;\n    }\n\n    fn fill_buf_impl_scatter("))
qt("windows", (S, "            for (i, s) in segments[self.src_consumed..count].windows(1).enumerate() {\n", "            let new = &segments[self.src_consumed..count];\n            for (i, s) in new.chunks(1).enumerate() {\n"))
qt("order", (S, "                self.buf.clear();\n                self.formatter.format_segments(self.offset, stream, s, &mut self.buf);\n                self.file\n                    .as_mut()\n                    .unwrap()\n                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + self.src_consumed + i)?;\n", "                let (at, no) = (self.offset + s[0].pos, self.src_consumed + i + self.lines);\n                self.formatter.format_segments(self.offset, stream, s, &mut self.buf);\n                self.file.as_mut().unwrap().dump_segment(&self.buf, at, no)?;\n                self.buf.clear();\n"))
m("patch-silent", P, "                formatter.format_segments(offset, stream, &segments[scanned..count], &mut buf);\n", "                let _ = (&formatter, stream, &segments[scanned..count]);\n")
m("scatter-silent", S, "                self.formatter.format_segments(self.offset, stream, s, &mut self.buf);\n", "                let _ = stream;\n")
m("off-first", S, "            offset: 0,\n", "            offset: 1,\n")
m("lines-first", S, "            lines: 0,\n", "            lines: 1,\n")
m("skip-first", S, "            src_consumed: 0,\n", "            src_consumed: 1,\n")
m("skip-first2", P, "let mut scanned = 0;", "let mut scanned = 1;")
qt("init", (S, "            offset: 0,\n            lines: 0,\n", "            offset: usize::MIN,\n            lines: Default::default(),\n"))
m("fmt-offset", S, "TextFormatter::new(format, (0, 0))", "TextFormatter::new(format, (1, 0))")
m("fmt-offset2", P, "TextFormatter::new(out_format, (0, 0))", "TextFormatter::new(out_format, (16, 0))")
m("sparse", S, "            self.src_consumed -= count;\n            self.offset += bytes;\n            self.lines += count;\n\n            Ok(is_eof)", "            self.src_consumed -= count;\n            if count > 0 {\n                self.offset += bytes;\n            }\n            self.lines += count;\n\n            Ok(is_eof)")
m("sparse2", P, "offset += bytes;", "if consumed > 0 {\n                    offset += bytes;\n                }")
qt("sparse", (S, "            self.src_consumed -= count;\n            self.offset += bytes;\n            self.lines += count;\n\n            Ok(is_eof)", "            self.offset += bytes;\n            if count > 0 {\n                self.src_consumed -= count;\n                self.lines += count;\n            }\n\n            Ok(is_eof)"))
