P = "src/pipeline.rs"
EDITS = [
    ("wrap", [(P, "Some(filler) if filler <= 255 => filler as u8", "Some(filler) if filler <= 256 => filler as u8")], ["C09"]),
    ("wrap-all", [(P, "            Some(filler) if filler <= 255 => filler as u8,\n            Some(filler) => return Err(anyhow!(\"filler must be within [0, 256) (got: {})\", filler)),", "            Some(filler) => filler as u8,")], ["C09"]),
    ("too-strict", [(P, "Some(filler) if filler <= 255", "Some(filler) if filler < 255")], ["C09"]),
    ("default-space", [(P, "            _ => 0,\n        };\n\n        let pipeline", "            _ => b' ',\n        };\n\n        let pipeline")], ["C09"]),
    ("pad-zero", [(P, "ClipStream::new(prev, clipper, self.filler)", "ClipStream::new(prev, clipper, 0)")], ["C09"]),
    ("tail-pad-zero", [("src/byte/clip.rs", "                Box::new(ZeroStream::new(tail, filler)),\n", "                Box::new(ZeroStream::new(tail, 0)),\n")], ["C09"]),
    ("gap-zero", [("src/byte/text.rs", "buf.resize(buf.len() + fwd_len, filler);", "buf.resize(buf.len() + fwd_len, 0);")], ["C09"]),
    ("align-zero", [("src/streambuf.rs", "self.buf.resize(rounded - self.offset, self.filler);", "self.buf.resize(rounded - self.offset, 0);")], ["C09"]),
    ("zero-regrow", [("src/byte/zero.rs", "self.buf.resize(self.next_len + MARGIN_SIZE, self.filler);", "self.buf.resize(self.next_len + MARGIN_SIZE, 0);")], ["C09"]),
    ("text-aligned", [(P, "let align = if self.in_format.is_binary() { self.word_size } else { 1 };", "let align = self.word_size;")], ["C09"]),
    ("text-result-unaligned", [(P, "Box::new(TextStream::new(source, self.word_size, self.filler, &self.in_format))", "Box::new(TextStream::new(source, 1, self.filler, &self.in_format))")], ["C09"]),
    ("binary-unaligned", [(P, "let align = if self.in_format.is_binary() { self.word_size } else { 1 };", "let align = if self.in_format.is_gapless() { 1 } else { self.word_size };")], ["C09"]),
    ("q-try-from", [(P, "        let filler = match m.filler {\n            Some(filler) if filler <= 255 => filler as u8,\n            Some(filler) => return Err(anyhow!(\"filler must be within [0, 256) (got: {})\", filler)),\n            _ => 0,\n        };", "        let filler = m.filler.unwrap_or(0);\n        if filler > u8::MAX as usize {\n            return Err(anyhow!(\"filler must be within [0, 256) (got: {})\", filler));\n        }\n        let filler = filler as u8;")], []),
    ("q-range", [(P, "            Some(filler) if filler <= 255 => filler as u8,", "            Some(filler) if (0..256).contains(&filler) => filler as u8,")], []),
    ("q-local", [("src/byte/zero.rs", "        self.buf.resize(self.next_len + MARGIN_SIZE, self.filler);", "        let len = self.next_len + MARGIN_SIZE;\n        let filler = self.filler;\n        self.buf.resize(len, filler);")], []),
    ("q-parser-match", [(P, "        let align = if self.in_format.is_binary() { self.word_size } else { 1 };\n        let source = Box::new(RawStream::new(source, align, self.filler));\n        if self.in_format.is_binary() {\n            source\n        } else if", "        if self.in_format.is_binary() {\n            return Box::new(RawStream::new(source, self.word_size, self.filler));\n        }\n        let source = Box::new(RawStream::new(source, 1, self.filler));\n        if")], []),
]
