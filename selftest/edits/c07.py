P = "src/pipeline.rs"
EDITS = [
    ("zip-inplace", [(P, "            (false, None, Some(word)) => (word, Zip),", "            (_, None, Some(word)) => (word, Zip),")], ["C07"]),
    ("walk-wins", [(P, "            (None, None, Some(exprs), None, None) => (0, Walk(exprs.to_string())),", "            (None, None, Some(exprs), _, None) => (0, Walk(exprs.to_string())),")], ["C07"]),
    ("out-wins", [(P, "            (Some(file), None) => (file.is_empty()", "            (Some(file), _) => (file.is_empty()")], ["C07"]),
    ("default-width", [(P, "(16, Width(ConstSlicerParams::from_raw(16, None)?))", "(16, Width(ConstSlicerParams::from_raw(8, None)?))")], ["C07"]),
    ("default-zip", [(P, "(false, None, None) => (1, Cat)", "(false, None, None) => (1, Zip)")], ["C07"]),
    ("default-align", [(P, "(false, None, None) => (1, Cat)", "(false, None, None) => (16, Cat)")], ["C07"]),
    ("find-guide-refused", [(P, "        // slice manipulators\n", "        if m.guide.is_some() && m.zip.is_some() {\n            return Err(anyhow!(\"not supported\"));\n        }\n\n        // slice manipulators\n")], ["C07"]),
    ("q-counts", [(P, "        let (word_size, node) = match (m.inplace, m.cat, m.zip) {\n            (true, None, None) => (1, Inplace),\n            (false, Some(align), None) => (align, Cat),\n            (false, None, Some(word)) => (word, Zip),\n            (false, None, None) => (1, Cat),\n            _ => return Err(anyhow!(\"--inplace, --cat, and --zip are exclusive.\")),\n        };", "        if (m.inplace && m.cat.is_some()) || (m.inplace && m.zip.is_some()) || (m.cat.is_some() && m.zip.is_some()) {\n            return Err(anyhow!(\"--inplace, --cat, and --zip are exclusive.\"));\n        }\n        let (word_size, node) = if m.inplace {\n            (1, Inplace)\n        } else if let Some(word) = m.zip {\n            (word, Zip)\n        } else {\n            (m.cat.unwrap_or(1), Cat)\n        };")], []),
    ("q-helper", [(P, "        let (written_back, node) = match (&m.output, &m.patch_back) {\n            (Some(file), None) => (file.is_empty() || file == \"-\", Scatter(file.to_string())),\n            (None, Some(command)) => (false, PatchBack(command.to_string())),\n            (None, None) => (true, Scatter(\"-\".to_string())),\n            _ => return Err(anyhow!(\"--output and --patch-back are exclusive.\")),\n        };", "        let (written_back, node) = drain_node(m)?;"), (P, "impl Pipeline {\n", "fn drain_node(m: &PipelineArgs) -> Result<(bool, Node)> {\n    Ok(match (&m.output, &m.patch_back) {\n        (Some(file), None) => (file.is_empty() || file == \"-\", Scatter(file.clone())),\n        (None, Some(command)) => (false, PatchBack(command.clone())),\n        (None, None) => (true, Scatter(\"-\".to_string())),\n        _ => return Err(anyhow!(\"--output and --patch-back are exclusive.\")),\n    })\n}\n\nimpl Pipeline {\n")], []),
    ("q-count-some", [(P, "        let (cols, node) = match", "        let slicers = [m.width.is_some(), m.find.is_some(), m.walk.is_some(), m.slice.is_some(), m.guide.is_some()];\n        if slicers.iter().filter(|x| **x).count() > 1 {\n            return Err(anyhow!(\"--width, --find, --walk, --slice, and --guide are exclusive.\"));\n        }\n        let (cols, node) = match")], []),
]
