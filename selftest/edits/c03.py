M = "src/main.rs"
RAW = "src/byte/raw.rs"
EDITS = [
    ("raw-read-unwrap-or", [(RAW, "Ok(self.src.read(arr)?)", "Ok(self.src.read(arr).unwrap_or(0))")], ["C03"]),
    ("raw-read-iflet", [(RAW, "let len = buf.fill_uninit(BLOCK_SIZE, |arr| Ok(self.src.read(arr)?))?;\n            Ok(len == 0)",
        "let len = match buf.fill_uninit(BLOCK_SIZE, |arr| Ok(self.src.read(arr)?)) {\n                Ok(len) => len,\n                Err(_) => return Ok(true),\n            };\n            Ok(len == 0)")], ["C03"]),
    ("raw-read-kind-eof", [(RAW, "let len = buf.fill_uninit(BLOCK_SIZE, |arr| Ok(self.src.read(arr)?))?;",
        "let len = buf.fill_uninit(BLOCK_SIZE, |arr| match self.src.read(arr) {\n                Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => Ok(0),\n                x => Ok(x?),\n            })?;")], ["C03"]),
    ("raw-read-print", [(RAW, "let len = buf.fill_uninit(BLOCK_SIZE, |arr| Ok(self.src.read(arr)?))?;",
        "let len = buf.fill_uninit(BLOCK_SIZE, |arr| match self.src.read(arr) {\n                Err(e) => {\n                    eprintln!(\"warning: {}\", e);\n                    Ok(0)\n                }\n                Ok(x) => Ok(x),\n            })?;")], ["C03"]),
    ("sources-skip", [(M, "            let file = std::fs::File::open(file)?;\n            v.push(Box::new(file));", "            if let Ok(file) = std::fs::File::open(file) {\n                v.push(Box::new(file));\n            }")], ["C03"]),
    ("write-ignored", [(M, "drain.write_all(&slice[..bytes])?;", "let _ = drain.write_all(&slice[..bytes]);")], ["C03"]),
    ("thread-unjoined", [("src/drain/patch.rs", "thread.join().map_err(|_| anyhow!(\"the thread feeding CMD aborted\"))??;", "let _ = thread.join();")], ["C03"]),
    ("thread-inner", [("src/drain/patch.rs", "thread.join().map_err(|_| anyhow!(\"the thread feeding CMD aborted\"))??;", "let _r = thread.join().map_err(|_| anyhow!(\"the thread feeding CMD aborted\"))?;")], ["C03"]),
    ("scatter-write", [("src/drain/scatter.rs", "file.write_all(buf)?\n            }", "file.write_all(buf).ok();\n            }")], ["C03"]),
    ("tee-append", [("src/byte/tee.rs", "                if let Err(err) = cache.append(&stream[..bytes]) {\n                    cache.error = Some(err);\n                }", "                if let Err(err) = cache.append(&stream[..bytes]) {\n                    eprintln!(\"cache: {}\", err);\n                }")], ["C03"]),
    ("guide-linewise", [("src/segment/guided.rs", "let ret = self.guide.read_line(&mut self.buf)?;", "let ret = self.guide.read_line(&mut self.buf).unwrap_or_default();")], ["C03"]),
    ("rename-unchecked", [(M, "std::fs::rename(&tmpfile, &input[0])?;", "std::fs::rename(&tmpfile, &input[0]).unwrap_or(());")], ["C03"]),
    ("pipe-kind-widened", [("src/drain/patch.rs", "err.kind() == ErrorKind::BrokenPipe =>", "err.kind() == ErrorKind::BrokenPipe || err.kind() == ErrorKind::WouldBlock =>")], ["C03"]),
    ("is-err-continue", [("src/byte/zip.rs", "            let (x, y) = src.fill_buf(request)?;", "            let r = src.fill_buf(request);\n            if r.is_err() {\n                continue;\n            }\n            let (x, y) = r?;")], ["C03"]),
    ("q-retry", [(RAW, "let len = buf.fill_uninit(BLOCK_SIZE, |arr| Ok(self.src.read(arr)?))?;",
        "let len = buf.fill_uninit(BLOCK_SIZE, |arr| loop {\n                match self.src.read(arr) {\n                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,\n                    x => return Ok(x?),\n                }\n            })?;")], []),
    ("q-context", [(M, "let file = std::fs::File::open(file)?;", "let file = std::fs::File::open(file).with_context(|| format!(\"open {}\", file))?;")], []),
    ("q-match", [(M, "let file = std::fs::File::open(file)?;", "let file = match std::fs::File::open(file) {\n                Ok(f) => f,\n                Err(e) => return Err(e.into()),\n            };")], []),
    ("q-let-else", [("src/drain/scatter.rs", "            let (bytes, count) = self.src.consume(max_consume)?;\n            self.src_consumed -= count;\n            self.offset += bytes;\n            self.lines += count;\n        }", "            let r = self.src.consume(max_consume);\n            if let Err(e) = r {\n                return Err(e);\n            }\n            let (bytes, count) = r?;\n            self.src_consumed -= count;\n            self.offset += bytes;\n            self.lines += count;\n        }")], []),
    ("q-map", [("src/byte/tee.rs", "        self.src.fill_buf(request)\n", "        self.src.fill_buf(request).map(|(a, b)| (a, b))\n")], []),
    ("q-andthen", [(RAW, "Ok(self.src.read(arr)?)", "self.src.read(arr).map_err(anyhow::Error::from).and_then(|n| Ok(n))")], []),
    ("q-try-for-each", [(M, "    for file in files.iter() {\n        if file == \"-\" {\n            v.push(Box::new(std::io::stdin()));\n        } else {\n            let file = std::fs::File::open(file)?;\n            v.push(Box::new(file));\n        }\n    }\n",
        "    files.iter().try_for_each(|file| -> Result<()> {\n        if file == \"-\" {\n            v.push(Box::new(std::io::stdin()));\n        } else {\n            let file = std::fs::File::open(file)?;\n            v.push(Box::new(file));\n        }\n        Ok(())\n    })?;\n")], []),
    ("q-collect", [(M, "    let mut v: Vec<Box<dyn Read + Send>> = Vec::new();\n    for file in files.iter() {\n        if file == \"-\" {\n            v.push(Box::new(std::io::stdin()));\n        } else {\n            let file = std::fs::File::open(file)?;\n            v.push(Box::new(file));\n        }\n    }\n    Ok(v)",
        "    files\n        .iter()\n        .map(|file| -> Result<Box<dyn Read + Send>> {\n            if file == \"-\" {\n                return Ok(Box::new(std::io::stdin()));\n            }\n            Ok(Box::new(std::fs::File::open(file)?))\n        })\n        .collect()")], []),
]
