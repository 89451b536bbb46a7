M = "src/main.rs"
EDITS = [
    ("rename-unwrap", [(M, "std::fs::rename(&tmpfile, &input[0])?;", "std::fs::rename(&tmpfile, &input[0]).unwrap();")], ["C04"]),
    ("open-expect", [(M, "let file = std::fs::File::open(file)?;", "let file = std::fs::File::open(file).expect(\"open\");")], ["C04"]),
    ("open-match-panic", [(M, "let file = std::fs::File::open(file)?;", "let file = match std::fs::File::open(file) {\n                Ok(f) => f,\n                Err(e) => panic!(\"{}\", e),\n            };")], ["C04"]),
    ("regex-unwrap", [("src/segment/regex.rs", "Regex::new(pattern)?", "Regex::new(pattern).unwrap()")], ["C04"]),
    ("rpn-unwrap", [("src/template.rs", "Rpn::new(name.as_str(), vars)?", "Rpn::new(name.as_str(), vars).unwrap()")], ["C04"]),
    ("parse-usize-unguarded", [("src/eval.rs", '    let val = val.unwrap();\n    let converted = val.try_into();\n    if converted.is_err() {\n        return Err(anyhow!("negative value is not allowed for this option ({:?} gave {:?}).", s, val));\n    }\n', '    let val = val.unwrap();\n    let converted = val.try_into();\n')], ["C04"]),
    ("head-only", [("src/eval.rs", "if head.is_err() || tail.is_err() {\n        return Err(anyhow!(\n            \"negative", "if head.is_err() {\n        return Err(anyhow!(\n            \"negative")], ["C04"]),
    ("pager-expect", [(M, 'args.split_first().context("empty PAGER command")?', 'args.split_first().expect("empty PAGER command")')], ["C04"]),
    ("q-guard-match", [("src/eval.rs", '    let val = val.unwrap();\n    let converted = val.try_into();\n    if converted.is_err() {\n        return Err(anyhow!("negative value is not allowed for this option ({:?} gave {:?}).", s, val));\n    }\n    Ok(converted.unwrap())', '    let val = val.unwrap();\n    match val.try_into() {\n        Ok(x) => Ok(x),\n        Err(_) => Err(anyhow!("negative value is not allowed for this option ({:?} gave {:?}).", s, val)),\n    }')], []),
    ("q-is-ok", [("src/eval.rs", '    if converted.is_err() {\n        return Err(anyhow!("negative value is not allowed for this option ({:?} gave {:?}).", s, val));\n    }\n    Ok(converted.unwrap())', '    if converted.is_ok() {\n        return Ok(converted.unwrap());\n    }\n    Err(anyhow!("negative value is not allowed for this option ({:?} gave {:?}).", s, val))')], []),
    ("q-const-pattern", [("src/template.rs", 'let brace_matcher = Regex::new(r"\\{.*?\\}").unwrap();', 'let pattern = r"\\{.*?\\}";\n        let brace_matcher = Regex::new(pattern).expect("constant pattern");')], []),
]
