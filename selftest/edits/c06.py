M = "src/main.rs"
P = "src/pipeline.rs"
CNT = "args.count_stdin() + args.pipeline.count_stdin() + stdin_by_default as usize > 1"
EDITS = [
    ("no-guide", [(P, "        if let Some(patch) = &self.guide {\n            count += is_stdin(patch) as usize;\n        }\n", "")], ["C06"]),
    ("assign-not-add", [(P, "        if let Some(patch) = &self.guide {\n            count += is_stdin(patch) as usize;", "        if let Some(patch) = &self.guide {\n            count = is_stdin(patch) as usize;")], ["C06"]),
    ("gt2", [(M, CNT, CNT.replace("> 1", "> 2"))], ["C06"]),
    ("no-default", [(M, " + stdin_by_default as usize > 1", " > 1")], ["C06"]),
    ("no-dev-stdin", [(P, 'x == "-" || x == "/dev/stdin" };\n\n        let mut count', 'x == "-" };\n\n        let mut count')], ["C06"]),
    ("no-dev-stdin-main", [(M, 'x == "-" || x == "/dev/stdin"', 'x == "-"')], ["C06"]),
    ("inplace-after", [(M, "        if args.count_stdin() > 0 {\n            return Err(anyhow!(\"stdin (\\\"-\\\" or \\\"/dev/stdin\\\") must not be used with '--inplace'\"));\n        }\n\n", "")], ["C06"]),
    ("inplace-gt1", [(M, "        if args.count_stdin() > 0 {", "        if args.count_stdin() > 1 {")], ["C06"]),
    ("any-instead", [(M, "self.inputs.iter().filter(|&x| is_stdin(x)).count()", "self.inputs.iter().any(|x| is_stdin(x)) as usize")], ["C06"]),
    ("ge-refuses", [(M, CNT, CNT.replace("> 1", "> 0"))], ["C06"]),
    ("reader-empty", [(P, 'if file == "-" {', 'if file == "-" || file.is_empty() {')], ["C06"]),
    ("q-loop", [(M, "        self.inputs.iter().filter(|&x| is_stdin(x)).count()", "        let mut count = 0;\n        for x in &self.inputs {\n            if is_stdin(x) {\n                count += 1;\n            }\n        }\n        count")], []),
    ("q-map-or", [(P, "        if let Some(patch) = &self.patch {\n            count += is_stdin(patch) as usize;\n        }\n", "        count += self.patch.as_ref().map_or(0, |patch| is_stdin(patch) as usize);\n")], []),
    ("q-helper", [(M, "        let is_stdin = |x: &str| -> bool { x == \"-\" || x == \"/dev/stdin\" };\n\n        self.inputs", "        self.inputs"), (M, "impl Args {", "fn is_stdin(x: &str) -> bool {\n    matches!(x, \"-\" | \"/dev/stdin\")\n}\n\nimpl Args {")], []),
    ("q-contains", [(M, 'x == "-" || x == "/dev/stdin"', '["-", "/dev/stdin"].contains(&x)')], []),
    ("q-ensure", [(M, "if " + CNT + " {", "let uses = [args.count_stdin(), args.pipeline.count_stdin(), stdin_by_default as usize];\n    if uses[0] + uses[1] + uses[2] >= 2 {")], []),
    ("q-order", [(M, "        if args.count_stdin() > 0 {\n            return Err(anyhow!(\"stdin (\\\"-\\\" or \\\"/dev/stdin\\\") must not be used with '--inplace'\"));\n        }\n\n        let mut inputs = args.inputs;\n        inputs.sort();\n        inputs.dedup();\n", "        let stdins = args.count_stdin();\n        let mut inputs = args.inputs;\n        inputs.sort();\n        inputs.dedup();\n        if stdins >= 1 {\n            return Err(anyhow!(\"stdin (\\\"-\\\" or \\\"/dev/stdin\\\") must not be used with '--inplace'\"));\n        }\n")], []),
    ("q-flatten", [(P, "        let mut count = 0;\n        if let Some(patch) = &self.patch {\n            count += is_stdin(patch) as usize;\n        }\n        if let Some(patch) = &self.guide {\n            count += is_stdin(patch) as usize;\n        }\n        count\n", "        [&self.patch, &self.guide].into_iter().flatten().filter(|x| is_stdin(x)).count()\n")], []),
]
