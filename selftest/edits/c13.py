E = "src/eval.rs"
EDITS = [
    ("and-below-xor", [(E, "                    '^' => 1,\n                    '&' => 2,", "                    '^' => 2,\n                    '&' => 1,")], ["C13"]),
    ("right-assoc", [(E, "rank(latter) > rank(former)", "rank(latter) >= rank(former)")], ["C13"]),
    ("rem-as-add", [(E, "c == '*' || c == '/' || c == '%'\n}", "c == '*' || c == '/'\n}")], ["C13"]),
    ("cmp-first", [(E, "                    '&' => 2,\n                    _ => 3,", "                    '&' => 2,\n                    'g' => 2,\n                    _ => 3,")], ["C13"]),
    ("prefix-mul", [(E, "(&Prefix(_), &Op(latter)) => is_pow(latter),", "(&Prefix(p), &Op(latter)) => is_pow(latter) || (p == '!' && is_muldiv(latter)),")], ["C13"]),
    ("shift-le", [(E, "fn is_shift(c: char) -> bool {\n    c == '<' || c == '>'", "fn is_shift(c: char) -> bool {\n    c == '<' || c == '>' || c == 'l'")], ["C13"]),
    ("q-table", [(E, "            // comparison -> '&' -> '^' -> '|', in the same order as C\n            let rank = |op: char| -> usize {\n                match op {\n                    '|' => 0,\n                    '^' => 1,\n                    '&' => 2,\n                    _ => 3,\n                }\n            };", "            fn rank(op: char) -> usize {\n                if is_cmp(op) {\n                    10\n                } else if op == '&' {\n                    8\n                } else if op == '^' {\n                    6\n                } else {\n                    4\n                }\n            }"), (E, "            debug_assert!([former, latter].iter().all(|&op| is_cmp(op) || rank(op) < 3));\n", "")], []),
    ("q-levels", [(E, "            if is_muldiv(former) || is_muldiv(latter) {\n                return !is_muldiv(former);\n            } else if is_addsub(former) || is_addsub(latter) {\n                return !is_addsub(former);\n            } else", "            if is_muldiv(former) {\n                return false;\n            }\n            if is_muldiv(latter) {\n                return true;\n            }\n            if is_addsub(former) {\n                return false;\n            }\n            if is_addsub(latter) {\n                return true;\n            }\n           ")], []),
]
