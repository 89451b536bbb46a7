S = "src/drain/scatter.rs"
T = "src/template.rs"
OPENS = '''                let mut file = if self.files.get(&file).is_some() {
                    OpenOptions::new().read(false).write(true).append(true).open(file)?
                } else {
                    self.files.insert(file.to_string());
                    OpenOptions::new().read(false).write(true).create(true).truncate(true).open(file)?
                };
'''
LOOP = '''            for (i, s) in segments[self.src_consumed..count].windows(1).enumerate() {
                self.buf.clear();
                self.formatter.format_segments(self.offset, stream, s, &mut self.buf);
                self.file
                    .as_mut()
                    .unwrap()
                    .dump_segment(&self.buf, self.offset + s[0].pos, self.lines + self.src_consumed + i)?;
            }
'''
EDITS = [
    ("swap-nl", [(S, "0 => offset as i64,\n                    1 => line as i64,", "0 => line as i64,\n                    1 => offset as i64,")], ["C11"]),
    ("n-rel", [(S, "self.offset + s[0].pos, self.lines", "s[0].pos, self.lines")], ["C11"]),
    ("l-rel", [(S, "self.lines + self.src_consumed + i)?", "self.lines + i)?")], ["C11"]),
    ("l-block", [(S, "self.lines + self.src_consumed + i)?", "self.src_consumed + i)?")], ["C11"]),
    ("lines-once", [(S, "            self.offset += bytes;\n            self.lines += count;\n        }\n    }\n}", "            self.offset += bytes;\n            self.lines = count;\n        }\n    }\n}")], ["C11"]),
    ("offset-max", [(S, "            self.offset += bytes;\n            self.lines += count;\n        }\n    }\n}", "            self.offset += bytes * (count > 0) as usize;\n            self.lines += count;\n        }\n    }\n}")], ["C11"]),
    ("offset-cond", [(S, "            self.offset += bytes;\n            self.lines += count;\n        }\n    }\n}", "            if count > 0 {\n                self.offset += bytes;\n            }\n            self.lines += count;\n        }\n    }\n}")], ["C11"]),
    ("trunc-again", [(S, "write(true).append(true).open(file)?", "write(true).create(true).truncate(true).open(file)?")], ["C11"]),
    ("append-first", [(S, "                    self.files.insert(file.to_string());\n                    OpenOptions::new().read(false).write(true).create(true).truncate(true).open(file)?", "                    self.files.insert(file.to_string());\n                    OpenOptions::new().read(false).write(true).create(true).append(true).open(file)?")], ["C11"]),
    ("not-remembered", [(S, "                    self.files.insert(file.to_string());\n", "                    if line > 0 {\n                        self.files.insert(file.to_string());\n                    }\n")], ["C11"]),
    ("no-truncate-fixed", [(S, "OpenOptions::new().read(false).write(true).create(true).truncate(true).open(file)?;\n        Ok(Drain", "OpenOptions::new().read(false).write(true).create(true).open(file)?;\n        Ok(Drain")], ["C11"]),
    ("no-clear", [(S, "                self.buf.clear();\n", "                if i > 0 {\n                    self.buf.clear();\n                }\n")], ["C11"]),
    ("skip-kept", [(S, "            self.src_consumed = count;\n\n            // consumed bytes and count\n            let (bytes, count) = self.src.consume(max_consume)?;\n            self.src_consumed -= count;\n            self.offset += bytes;\n            self.lines += count;\n        }\n    }\n}", "            self.src_consumed = count;\n\n            // consumed bytes and count\n            let (bytes, count) = self.src.consume(max_consume)?;\n            self.src_consumed = 0;\n            self.offset += bytes;\n            self.lines += count;\n        }\n    }\n}")], ["C11"]),
    ("dash-file", [(S, 'file.is_empty() || file == "-"', 'file.is_empty()')], ["C11"]),
    ("partial", [(S, "                file.write_all(buf)?\n            }", "                file.write(buf)?;\n            }")], ["C11"]),
    ("windows2", [(S, ".windows(1).enumerate()", ".windows(2).enumerate()")], ["C11"]),
    ("render-order", [(T, "            s.push_str(&elem.fixed);\n\n            if let Some(var)", "            if let Some(var)"), (T, "                s.push_str(&fmt);\n            }", "                s.push_str(&fmt);\n            }\n            s.push_str(&elem.fixed);")], ["C11"]),
    ("array-var", [(S, '(b"l", VarAttr { is_array: false, id: 1 })', '(b"l", VarAttr { is_array: true, id: 1 })')], ["C11"]),
    ("same-id", [(S, '(b"l", VarAttr { is_array: false, id: 1 })', '(b"l", VarAttr { is_array: false, id: 0 })')], ["C11"]),
    ("q-insert", [(S, OPENS, '''                let mut file = if self.files.insert(file.to_string()) {
                    OpenOptions::new().write(true).create(true).truncate(true).open(file)?
                } else {
                    OpenOptions::new().append(true).open(file)?
                };
''')], []),
    ("q-contains", [(S, OPENS, '''                let seen = self.files.contains(&file);
                let mut options = OpenOptions::new();
                options.write(true);
                if seen {
                    options.append(true);
                } else {
                    options.create(true).truncate(true);
                }
                let opened = options.open(&file)?;
                if !seen {
                    self.files.insert(file);
                }
                let mut file = opened;
''')], []),
    ("q-create", [(S, OPENS, '''                let mut file = if self.files.contains(file.as_str()) {
                    File::options().append(true).open(file)?
                } else {
                    let f = File::create(&file)?;
                    self.files.insert(file);
                    f
                };
''')], []),
    ("q-counter", [(S, LOOP, '''            let mut line = self.lines + self.src_consumed;
            for s in segments[self.src_consumed..count].chunks(1) {
                self.buf.clear();
                self.formatter.format_segments(self.offset, stream, s, &mut self.buf);
                let file = self.file.as_mut().unwrap();
                file.dump_segment(&self.buf, s[0].pos + self.offset, line)?;
                line += 1;
            }
''')], []),
    ("q-range", [(S, LOOP, '''            for i in self.src_consumed..count {
                let s = &segments[i..i + 1];
                self.buf.clear();
                self.formatter.format_segments(self.offset, stream, s, &mut self.buf);
                let file = self.file.as_mut().unwrap();
                file.dump_segment(&self.buf, s[0].pos + self.offset, self.lines + i)?;
            }
''')], []),
    ("q-from-ref", [(S, LOOP, '''            for (i, s) in segments[self.src_consumed..count].iter().enumerate() {
                let mut buf = Vec::new();
                self.formatter.format_segments(self.offset, stream, std::slice::from_ref(s), &mut buf);
                let (offset, line) = (self.offset + s.pos, self.lines + self.src_consumed + i);
                self.file.as_mut().unwrap().dump_segment(&buf, offset, line)?;
            }
''')], []),
    ("q-if-let", [(S, "                let file = template.render(|id, _| match id {\n                    0 => offset as i64,\n                    1 => line as i64,\n                    _ => 0,\n                })?;", "                let vars = [offset as i64, line as i64];\n                let file = template.render(|id, _| if id < 2 { vars[id] } else { 0 })?;")], []),
    ("q-skip-sub", [(S, "            self.src_consumed = count;\n\n            // consumed bytes and count\n            let (bytes, count) = self.src.consume(max_consume)?;\n            self.src_consumed -= count;\n            self.offset += bytes;\n            self.lines += count;\n        }\n    }\n}", "            let (bytes, dropped) = self.src.consume(max_consume)?;\n            self.src_consumed = count - dropped;\n            self.lines += dropped;\n            self.offset += bytes;\n        }\n    }\n}")], []),
    ("q-helper", [(S, "            // consumed bytes and count\n            let (bytes, count) = self.src.consume(max_consume)?;\n            self.src_consumed -= count;\n            self.offset += bytes;\n            self.lines += count;\n        }\n    }\n}", "            self.advance(max_consume)?;\n        }\n    }\n\n    fn advance(&mut self, max_consume: usize) -> Result<()> {\n        let (bytes, count) = self.src.consume(max_consume)?;\n        self.src_consumed -= count;\n        self.offset += bytes;\n        self.lines += count;\n        Ok(())\n    }\n}")], []),
    ("q-vars-lit", [(S, '''        let vars = [
            (b"n", VarAttr { is_array: false, id: 0 }), // byte offset
            (b"l", VarAttr { is_array: false, id: 1 }), // line
        ];
        let vars: HashMap<&[u8], VarAttr> = vars.iter().map(|(x, y)| (x.as_slice(), *y)).collect();''', '''        let mut vars: HashMap<&[u8], VarAttr> = HashMap::new();
        for (id, name) in [b"n", b"l"].into_iter().enumerate() {
            vars.insert(name, VarAttr { is_array: false, id });
        }''')], None),
]
