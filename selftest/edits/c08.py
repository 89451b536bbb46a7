P = "src/pipeline.rs"
EXT = "        if let Some(extend) = &m.extend {\n            nodes.push(Extend(extend.to_string()));\n        }\n"
MRG = "        if let Some(thresh) = m.merge {\n            nodes.push(Merge(thresh));\n        }\n"
INV = "        if let Some(invert) = &m.invert {\n            nodes.push(Bridge(invert.to_string()));\n        }\n"
CUT = "        if let Some(exprs) = &m.cut {\n            nodes.push(Cut(exprs.to_string()));\n        }\n"
PAT = "        if let Some(file) = &m.patch {\n            nodes.push(Patch(file.to_string()));\n        }\n"
TEE = "        if m.patch_back.is_some() {\n            nodes.push(Tee);\n        }\n"
EDITS = [
    ("swap-extend-merge", [(P, EXT + MRG, MRG + EXT)], ["C08"]),
    ("swap-invert-extend", [(P, INV + EXT, EXT + INV)], ["C08"]),
    ("cut-last", [(P, CUT, ""), (P, TEE, CUT + TEE)], ["C08"]),
    ("tee-before-patch", [(P, PAT + TEE, TEE + PAT)], ["C08"]),
    ("wrong-field", [(P, "nodes.push(Bridge(invert.to_string()))", "nodes.push(Bridge(m.extend.as_ref().unwrap_or(invert).to_string()))")], ["C08"]),
    ("ctor-swap", [(P, "BridgeStream::new(prev, invert)?", "ExtendStream::new(prev, invert)?")], ["C08"]),
    ("const-arg", [(P, "MergeStream::new(prev, *thresh)", "MergeStream::new(prev, (*thresh).max(1))")], ["C08"]),
    ("merge-zero-skip", [(P, "        if let Some(thresh) = m.merge {\n", "        if let Some(thresh) = m.merge.filter(|x| *x > 0) {\n")], ["C08"]),
    ("invert-needs-regex", [(P, "        if let Some(invert) = &m.invert {\n", "        if let (Some(invert), None) = (&m.invert, &m.extend) {\n")], ["C08"]),
    ("zip-word", [(P, "(false, None, Some(word)) => (word, Zip)", "(false, None, Some(word)) => (word.next_power_of_two(), Zip)")], ["C08"]),
    ("slicer-swap", [(P, "(None, None, None, Some(exprs), None) => (0, Slice(exprs.to_string()))", "(None, None, None, Some(exprs), None) => (0, Walk(exprs.to_string()))")], ["C08"]),
    ("lines-drop-prev", [(P, "                    let next = Box::new(FilterStream::new(prev, exprs)?);\n                    (cache, NodeInstance::Segment(next))", "                    let next = Box::new(FilterStream::new(prev, exprs)?);\n                    let next: Box<dyn SegmentStream> = if exprs.is_empty() { return Err(anyhow!(\"empty\")) } else { next };\n                    (cache, NodeInstance::Segment(next))")], []),
    ("q-swap-push", [(P, CUT, "        nodes.extend(m.cut.as_ref().map(|exprs| Cut(exprs.to_string())));\n")], []),
    ("q-helper", [(P, INV + EXT + MRG, "        push_filters(m, &mut nodes);\n"), (P, "impl Pipeline {\n", "fn push_filters(m: &PipelineArgs, nodes: &mut Vec<Node>) {\n" + INV + EXT + MRG + "}\n\nimpl Pipeline {\n")], []),
    ("q-clone", [(P, "nodes.push(Extend(extend.to_string()))", "nodes.push(Extend(extend.clone()))")], []),
    ("q-vec", [(P, "        let mut nodes = Vec::new();\n\n", ""), (P, "        nodes.push(node);\n\n        // cut -> pad", "        let mut nodes = vec![node];\n\n        // cut -> pad")], []),
    ("q-pad", [(P, "            if pad != (0, 0) {", "            if pad.0 != 0 || pad.1 != 0 {")], []),
    ("q-spawn-helper", [(P, "                (Cut(exprs), NodeInstance::Byte(prev)) => {\n                    let next = Box::new(CutStream::new(prev, exprs)?);\n                    (cache, NodeInstance::Byte(next))\n                }", "                (Cut(exprs), NodeInstance::Byte(prev)) => (cache, NodeInstance::Byte(build_cut(prev, exprs)?)),"), (P, "impl Pipeline {\n", "fn build_cut(prev: Box<dyn ByteStream>, exprs: &str) -> Result<Box<dyn ByteStream>> {\n    Ok(Box::new(CutStream::new(prev, exprs)?))\n}\n\nimpl Pipeline {\n")], []),
]
