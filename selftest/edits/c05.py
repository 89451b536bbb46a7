M = "src/main.rs"
EDITS = [
    ("exit-any-kind", [(M, "(e.kind() != std::io::ErrorKind::BrokenPipe, false)", "(e.kind() == std::io::ErrorKind::Other, false)")], ["C05"]),
    ("exit-eof-quiet", [(M, "(e.kind() != std::io::ErrorKind::BrokenPipe, false)", "(!matches!(e.kind(), std::io::ErrorKind::BrokenPipe | std::io::ErrorKind::NotFound), false)")], ["C05"]),
    ("exit-zero", [(M, "std::process::exit(is_error as i32);", "std::process::exit(print_usage as i32);")], ["C05"]),
    ("top-only", [(M, "err.root_cause().downcast_ref", "err.downcast_ref")], ["C05"]),
    ("no-chain", [(M, '            err.chain().for_each(|x| eprint!(": {x}"));\n', '            err.chain().take(1).for_each(|x| eprint!(": {x}"));\n')], ["C05"]),
    ("noexit", [(M, "        std::process::exit(is_error as i32);", "        if print_usage {\n            std::process::exit(1);\n        }")], ["C05"]),
    ("stdout-err", [(M, '            eprint!("error");', '            print!("error");')], ["C05"]),
    ("q-code", [(M, "std::process::exit(is_error as i32);", "if is_error {\n            std::process::exit(1);\n        }\n        std::process::exit(0)")], []),
    ("q-match", [(M, "(e.kind() != std::io::ErrorKind::BrokenPipe, false)", "match e.kind() {\n                std::io::ErrorKind::BrokenPipe => (false, false),\n                _ => (true, false),\n            }")], []),
    ("q-loop", [(M, '            err.chain().for_each(|x| eprint!(": {x}"));\n', '            for cause in err.chain() {\n                eprint!(": {cause}");\n            }\n')], []),
    ("q-alt", [(M, '            eprint!("error");\n            err.chain().for_each(|x| eprint!(": {x}"));\n            eprintln!();\n', '            eprintln!("error: {err:#}");\n')], []),
    ("q-helper", [(M, "        let (is_error, print_usage) = if let Some(e) = err.root_cause().downcast_ref::<std::io::Error>() {\n            (e.kind() != std::io::ErrorKind::BrokenPipe, false)\n        } else {\n            (true, true)\n        };", "        let (is_error, print_usage) = classify(&err);"), (M, "fn main_impl(", "fn classify(err: &anyhow::Error) -> (bool, bool) {\n    let io = err.root_cause().downcast_ref::<std::io::Error>();\n    let quiet = io.map_or(false, |e| e.kind() == std::io::ErrorKind::BrokenPipe);\n    (!quiet, io.is_none())\n}\n\nfn main_impl(")], []),
]
