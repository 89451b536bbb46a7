P = "src/pipeline.rs"
T = "src/text/mod.rs"
PP = "src/text/parser/mod.rs"
F = "src/text/formatter/mod.rs"
EDITS = [
    ("d-as-hex", [(T, '"d" | "ddx" => return InoutFormat::new("d", "d", "x", cols)', '"d" | "ddx" => return InoutFormat::new("d", "x", "x", cols)')], ["C10"]),
    ("nnx-gap", [(T, '"nnx" => return InoutFormat::new("n", "n", "x", cols),', '"nnx" => return InoutFormat::new("x", "n", "x", cols),')], ["C10"]),
    ("gapless-or", [(T, "self.offset == ColumnFormat::None && self.span == ColumnFormat::None", "self.offset == ColumnFormat::None || self.span == ColumnFormat::None")], ["C10"]),
    ("parsable-body", [(T, "matches!(self.body, None | Hexadecimal))", "matches!(self.body, None | Hexadecimal | Binary))")], ["C10"]),
    ("formattable-ndx", [(T, "(None, None, Hexadecimal) | (Decimal", "(None, _, Hexadecimal) | (Decimal")], ["C10"]),
    ("no-check", [(P, "        if !out_format.is_formattable() {", "        if !out_format.is_formattable() && !m.inplace {")], ["C10"]),
    ("no-check-in", [(P, "        if !in_format.is_parsable() {\n            return Err(anyhow!(\"unsupported input format: {:?}\", in_format));\n        }\n", "")], ["C10"]),
    ("patch-by-informat", [(P, "PatchStream::new(prev, self.open_file(file)?, &self.patch_format)", "PatchStream::new(prev, self.open_file(file)?, &self.in_format)")], ["C10"]),
    ("cmd-by-outformat", [(P, "                        &self.out_format,\n                        &self.patch_format,", "                        &self.out_format,\n                        &self.out_format,")], ["C10"]),
    ("default-inplace", [(P, 'if m.inplace && written_back { "b" }', 'if m.inplace || written_back { "b" }')], ["C10"]),
    ("default-inplace2", [(P, 'if m.inplace && written_back { "b" }', 'if m.inplace { "b" }')], ["C10"]),
    ("span-dec", [(PP, "        let parse_span = match &format.span {", "        let parse_span = match &format.offset {")], ["C10"]),
    ("fmt-swap", [(F, "ColumnFormat::Decimal, ColumnFormat::Decimal, ColumnFormat::Hexadecimal) => format_segments_ddh", "ColumnFormat::Decimal, ColumnFormat::Decimal, ColumnFormat::Hexadecimal) => format_segments_hhh")], ["C10"]),
    ("guide-d", [("src/segment/guided.rs", 'InoutFormat::from_str("xxx")', 'InoutFormat::from_str("ddx")')], ["C10"]),
    ("swap-in-out", [(P, "ScatterDrain::new(prev, file, &self.out_format)", "ScatterDrain::new(prev, file, &self.in_format)")], ["C10"]),
    ("gapless-always", [(P, "} else if self.in_format.is_gapless() {", "} else if self.in_format.is_gapless() || self.word_size > 8 {")], ["C10"]),
    ("q-letter-table", [(T, "        let b = s.as_bytes();\n        match (b[0], b.len() > 1) {\n            (b'n', false) => Ok(ColumnFormat::None),\n            (b'b', false) => Ok(ColumnFormat::Binary),\n            (b'd', false) => Ok(ColumnFormat::Decimal),\n            (b'x', false) => Ok(ColumnFormat::Hexadecimal),\n            (b'@' | b'=' | b'<' | b'>' | b'!', true) => Ok(ColumnFormat::Struct(s.to_string())),\n            _ =>", "        match s {\n            \"n\" => Ok(ColumnFormat::None),\n            \"b\" => Ok(ColumnFormat::Binary),\n            \"d\" => Ok(ColumnFormat::Decimal),\n            \"x\" => Ok(ColumnFormat::Hexadecimal),\n            _ if s.len() > 1 && \"@=<>!\".contains(&s[..1]) => Ok(ColumnFormat::Struct(s.to_string())),\n            _ =>")], []),
    ("q-direct", [(T, '"b" | "nnb" => return InoutFormat::new("n", "n", "b", cols),', '"b" | "nnb" => {\n                return Ok(InoutFormat {\n                    offset: ColumnFormat::None,\n                    span: ColumnFormat::None,\n                    body: ColumnFormat::Binary,\n                    cols,\n                })\n            }')], []),
    ("q-default-fn", [(P, "        let in_format = m\n            .in_format\n            .clone()\n            .unwrap_or_else(|| InoutFormat::from_str_with_columns(default_in_signature, cols).unwrap());", "        let in_format = match &m.in_format {\n            Some(x) => x.clone(),\n            None => InoutFormat::from_str_with_columns(default_in_signature, cols)?,\n        };")], []),
    ("q-match-formatter", [(F, "        let formatter = if format.is_binary() {\n            format_segments_binary\n        } else {\n            match (&format.offset, &format.span, &format.body) {", "        let formatter = {\n            match (&format.offset, &format.span, &format.body) {\n                (ColumnFormat::None, ColumnFormat::None, ColumnFormat::Binary) => format_segments_binary,")], []),
    ("q-loop-sources", [(P, "let mut sources: Vec<_> = sources.into_iter().map(|x| self.build_parser(x)).collect();", "let mut parsed = Vec::new();\n        for x in sources {\n            parsed.push(self.build_parser(x));\n        }\n        let mut sources = parsed;")], []),
    ("sigs-3", [("src/text/mod.rs", "if sigs.len() > 3 {", "if sigs.len() >= 3 {")], ["C10"]),
    ("sigs-4", [("src/text/mod.rs", "if sigs.len() > 3 {", "if sigs.len() > 4 {")], ["C10"]),
]
