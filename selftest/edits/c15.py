W = "src/segment/walk.rs"
LOAD = "        let stream = src.as_slice();\n        let stream = &stream[offset..offset + 8];\n"
EDITS = [
    ("h-width", [(W, '(b"h", VarAttr { is_array: true, id: 2 })', '(b"h", VarAttr { is_array: true, id: 4 })')], ["C15"]),
    ("swap-names", [(W, '(b"i", VarAttr { is_array: true, id: 4 })', '(b"i", VarAttr { is_array: true, id: 8 })'), (W, '(b"l", VarAttr { is_array: true, id: 8 })', '(b"l", VarAttr { is_array: true, id: 4 })')], ["C15"]),
    ("not-array", [(W, '(b"l", VarAttr { is_array: true, id: 8 })', '(b"l", VarAttr { is_array: false, id: 8 })')], ["C15"]),
    ("be", [(W, "i64::from_le_bytes(stream.try_into().unwrap())", "i64::from_be_bytes(stream.try_into().unwrap())")], ["C15"]),
    ("unsigned", [(W, "        Ok((val << shift) >> shift)", "        Ok((((val as u64) << shift) >> shift) as i64)")], ["C15"]),
    ("shift-off", [(W, "let shift = 64 - 8 * elem_size;", "let shift = 56 - 8 * (elem_size - 1) + 8 * (elem_size == 8) as usize;")], ["C15"]),
    ("no-skip", [(W, "checked_mul(elem_size).and_then(|x| x.checked_add(skip))", "checked_mul(elem_size).and_then(|x| x.checked_add(skip & 1))")], ["C15"]),
    ("no-scale", [(W, "let offset = (index as usize).checked_mul(elem_size)", "let offset = Some(index as usize)")], ["C15"]),
    ("short-read", [(W, "        if bytes < min_fill_bytes {\n            return Ok(0);", "        if bytes < offset {\n            return Ok(0);")], ["C15"]),
    ("neg-index", [(W, "        if index < 0 {\n            return Err(anyhow!(\"slice index being negative (got: {index}).\"));\n        }", "        let index = index.max(0);")], ["C15"]),
    ("error-lost", [(W, "        if let Some(err) = error {\n            return Err(err.context(format!(\"failed on evaluating expression: {:?}\", &self.expr)));\n        }", "        let _ = error;")], ["C15"]),
    ("zero-span", [(W, "        if val <= 0 {", "        if val < 0 {")], ["C15"]),
    ("neg-span", [(W, "        if val <= 0 {", "        if val == 0 {")], ["C15"]),
    ("one-refused", [(W, "        if val <= 0 {", "        if val <= 1 {")], ["C15"]),
    ("tail-dropped", [(W, "self.pos.saturating_add(chunk_len) > bytes && !is_eof", "self.pos.saturating_add(chunk_len) > bytes")], ["C15"]),
    ("rev-spans", [(W, "        for span in &self.spans {", "        for span in self.spans.iter().rev() {")], ["C15"]),
    ("no-clip", [(W, "let len = std::cmp::min(self.pos + span, bytes) - self.pos;", "let len = *span;")], ["C15"]),
    ("clip-wrong", [(W, "let len = std::cmp::min(self.pos + span, bytes) - self.pos;", "let len = std::cmp::min(*span, bytes);")], ["C15"]),
    ("step-len", [(W, "            self.pos += span;", "            self.pos += len.max(1);")], None),
    ("step-double", [(W, "            self.pos += span;", "            self.pos += span + (*span > 4096) as usize;")], ["C15"]),
    ("rsplit", [(W, "unwrap_or(exprs).split(',')", "unwrap_or(exprs).rsplit(',')")], ["C15"]),
    ("chunk-pos", [(W, "let span = f.get_next_span(self.pos, &mut self.src)?;", "let span = f.get_next_span(self.pos + chunk_len, &mut self.src)?;")], None),
    ("q-min", [(W, "let len = std::cmp::min(self.pos + span, bytes) - self.pos;", "let len = (bytes - self.pos).min(*span);")], []),
    ("q-load", [(W, LOAD, "        let stream = src.as_slice();\n        let stream = &stream[offset..][..8];\n")], []),
    ("q-match", [(W, "        let val = i64::from_le_bytes(stream.try_into().unwrap());\n        let shift = 64 - 8 * elem_size;\n        Ok((val << shift) >> shift)",
                  "        let val = match elem_size {\n            1 => i8::from_le_bytes([stream[0]]) as i64,\n            2 => i16::from_le_bytes(stream[..2].try_into().unwrap()) as i64,\n            4 => i32::from_le_bytes(stream[..4].try_into().unwrap()) as i64,\n            _ => i64::from_le_bytes(stream.try_into().unwrap()),\n        };\n        Ok(val)")], []),
    ("q-helper", [(W, "        // always in the little endian for now\n", "        Ok(Self::load(src.as_slice(), offset, elem_size))\n    }\n\n    fn load(stream: &[u8], offset: usize, elem_size: usize) -> i64 {\n"), (W, LOAD, "        let stream = &stream[offset..offset + 8];\n"), (W, "        Ok((val << shift) >> shift)", "        (val << shift) >> shift")], []),
    ("q-question", [(W, "        let offset = (index as usize).checked_mul(elem_size).and_then(|x| x.checked_add(skip));\n        let min_fill_bytes = offset.and_then(|x| x.checked_add(elem_size));\n        let (offset, min_fill_bytes) = offset\n            .zip(min_fill_bytes)\n            .with_context(|| format!(\"slice index being too large (got: {index}).\"))?;\n",
                     "        let too_large = || format!(\"slice index being too large (got: {index}).\");\n        let offset = (index as usize).checked_mul(elem_size).with_context(too_large)?;\n        let offset = skip.checked_add(offset).with_context(too_large)?;\n        let min_fill_bytes = offset.checked_add(elem_size).with_context(too_large)?;\n")], []),
    ("q-insert", [(W, "        let vars: HashMap<&[u8], VarAttr> = [\n            (b\"b\", VarAttr { is_array: true, id: 1 }),\n            (b\"h\", VarAttr { is_array: true, id: 2 }),\n            (b\"i\", VarAttr { is_array: true, id: 4 }),\n            (b\"l\", VarAttr { is_array: true, id: 8 }),\n        ]\n        .iter()\n        .map(|(x, y)| (x.as_slice(), *y))\n        .collect();",
                   "        let mut vars: HashMap<&[u8], VarAttr> = HashMap::new();\n        vars.insert(b\"b\", VarAttr { is_array: true, id: 1 });\n        vars.insert(b\"h\", VarAttr { is_array: true, id: 2 });\n        vars.insert(b\"i\", VarAttr { is_array: true, id: 4 });\n        vars.insert(b\"l\", VarAttr { is_array: true, id: 8 });")], []),
    ("q-error-match", [(W, "            Self::get_array_element(skip, id, val, src).unwrap_or_else(|err| {\n                error.get_or_insert(err);\n                0\n            })", "            match Self::get_array_element(skip, id, val, src) {\n                Ok(val) => val,\n                Err(err) => {\n                    error = Some(err);\n                    0\n                }\n            }")], []),
    ("q-index-loop", [(W, "        for span in &self.spans {\n            if self.pos >= bytes {\n                break;\n            }\n", "        for i in 0..self.spans.len() {\n            let span = &self.spans[i];\n            if bytes <= self.pos {\n                break;\n            }\n")], []),
    ("q-local-pos", [(W, "        for span in &self.spans {\n            if self.pos >= bytes {\n                break;\n            }\n\n            let len = std::cmp::min(self.pos + span, bytes) - self.pos;", "        for &span in &self.spans {\n            if self.pos >= bytes {\n                break;\n            }\n\n            let end = std::cmp::min(self.pos + span, bytes);\n            let len = end - self.pos;"), (W, "            if len < *span {", "            if len < span {")], []),
    ("q-try-from", [(W, "        if val <= 0 {\n            return Err(anyhow!(\n                \"slice span being non-positive on evaluating expression: {:?} (got: {}).\",\n                &self.expr,\n                val\n            ));\n        }\n        Ok(val as usize)",
                     "        match usize::try_from(val) {\n            Ok(val) if val > 0 => Ok(val),\n            _ => Err(anyhow!(\n                \"slice span being non-positive on evaluating expression: {:?} (got: {}).\",\n                &self.expr,\n                val\n            )),\n        }")], []),
    ("q-loop", [(W, "            let (is_eof, bytes) = self.extend_segment_buf(chunk_len)?;\n            if self.pos >= bytes {\n                break (is_eof, bytes);\n            }\n        };", "            let filled = self.extend_segment_buf(chunk_len)?;\n            if self.pos < filled.1 {\n                continue;\n            }\n            break filled;\n        };")], []),
]
