M = "src/main.rs"
EDITS = [
    ("rename-first", [(M, "            let stream = pipeline.spawn_stream(sources)?;\n            consume_stream(stream, drain)?;\n\n            std::fs::rename(&tmpfile, &input[0])?;",
      "            std::fs::rename(&tmpfile, &input[0])?;\n            let stream = pipeline.spawn_stream(sources)?;\n            consume_stream(stream, drain)?;")], ["C01"]),
    ("ignore-consume-error", [(M, "            consume_stream(stream, drain)?;\n\n            std::fs::rename", "            let _ = consume_stream(stream, drain);\n\n            std::fs::rename")], ["C01"]),
    ("stop-at-eof", [(M, "if is_eof && bytes == 0 {", "if is_eof {")], ["C01", "C02"]),
    ("stop-at-empty", [(M, "if is_eof && bytes == 0 {", "if bytes == 0 {")], ["C01", "C02"]),
    ("tmp-elsewhere", [(M, 'format!("{}.tmp", &input[0])', 'format!("/tmp/nd.{}", std::process::id())')], ["C01"]),
    ("direct-write", [(M, 'let drain = Box::new(File::create(&tmpfile)?);', 'let drain = Box::new(File::create(&input[0])?);')], ["C01"]),
    ("bufwriter-unflushed", [(M, 'let drain = Box::new(File::create(&tmpfile)?);', 'let drain = Box::new(std::io::BufWriter::new(File::create(&tmpfile)?));')], ["C01"]),
    ("write-not-all", [(M, "drain.write_all(&slice[..bytes])?;", "let _n = drain.write(&slice[..bytes])?;")], ["C02"]),
    ("wrong-count", [(M, "stream.consume(bytes);", "stream.consume(slice_len);"), (M, "drain.write_all(&slice[..bytes])?;", "let slice_len = slice.len();\n        drain.write_all(&slice[..bytes])?;")], ["C02"]),
    ("whole-slice", [(M, "drain.write_all(&slice[..bytes])?;", "drain.write_all(slice)?;")], ["C02"]),
    # quiet
    ("q-match", [(M, "if is_eof && bytes == 0 {\n            break;\n        }", "match (is_eof, bytes) {\n            (true, 0) => break,\n            _ => {}\n        }")], []),
    ("q-return", [(M, "if is_eof && bytes == 0 {\n            break;\n        }", "if bytes == 0 && is_eof {\n            return Ok(());\n        }")], []),
    ("q-nested", [(M, "if is_eof && bytes == 0 {\n            break;\n        }", "let done = is_eof && bytes < 1;\n        if done {\n            break;\n        }")], []),
    ("q-helper", [(M, "            let stream = pipeline.spawn_stream(sources)?;\n            consume_stream(stream, drain)?;\n\n            std::fs::rename(&tmpfile, &input[0])?;",
      "            edit_one(&pipeline, sources, drain, &tmpfile, &input[0])?;"),
      (M, "fn build_sources", "fn edit_one(pipeline: &Pipeline, sources: Vec<Box<dyn Read + Send>>, drain: Box<File>, tmp: &str, to: &str) -> Result<()> {\n    let stream = pipeline.spawn_stream(sources)?;\n    consume_stream(stream, drain)?;\n    std::fs::rename(tmp, to)?;\n    Ok(())\n}\n\nfn build_sources")], []),
    ("q-match-err", [(M, "            consume_stream(stream, drain)?;\n\n            std::fs::rename", "            match consume_stream(stream, drain) {\n                Ok(()) => {}\n                Err(e) => return Err(e),\n            }\n\n            std::fs::rename")], []),
    ("q-iflet-err", [(M, "            consume_stream(stream, drain)?;\n\n            std::fs::rename", "            if let Err(e) = consume_stream(stream, drain) {\n                return Err(e.context(\"in-place\"));\n            }\n\n            std::fs::rename")], []),
    ("q-for-input", [(M, "        for input in inputs.windows(1) {\n            let sources = build_sources(input)?;", "        for i in 0..inputs.len() {\n            let input = &inputs[i..i + 1];\n            let sources = build_sources(input)?;")], []),
    ("q-while", [(M, "    loop {\n        let (is_eof, bytes) = stream.fill_buf(BLOCK_SIZE)?;\n        if is_eof && bytes == 0 {\n            break;\n        }\n", "    let (mut is_eof, mut bytes) = stream.fill_buf(BLOCK_SIZE)?;\n    while !(is_eof && bytes == 0) {\n"),
      (M, "        stream.consume(bytes);\n", "        stream.consume(bytes);\n        (is_eof, bytes) = stream.fill_buf(BLOCK_SIZE)?;\n")], []),
    ("q-bufwriter-flushed", [(M, "drain: Box<dyn Write>) -> Result<()> {\n    let mut stream = stream;\n    let mut drain = drain;", "drain: Box<dyn Write>) -> Result<()> {\n    let mut stream = stream;\n    let mut drain = std::io::BufWriter::new(drain);"),
      (M, "        stream.consume(bytes);\n    }\n\n    Ok(())", "        stream.consume(bytes);\n    }\n    drain.flush()?;\n\n    Ok(())")], []),
    ("q-tmp-plus", [(M, 'format!("{}.tmp", &input[0])', 'input[0].clone() + ".tmp"')], []),
    ("q-split-at", [(M, "drain.write_all(&slice[..bytes])?;", "let (head, _) = slice.split_at(bytes);\n        drain.write_all(head)?;")], []),
]
