E = "src/eval.rs"
EDITS = [
    ("sar-to-shl", [(E, "x >> ((-y as usize) & 0x3f)", "x >> ((y as usize) & 0x3f)")], ["C12"]),
    ("logical-shift", [(E, "        '>' => {\n            if y >= 0 {\n                x >> ((y as usize) & 0x3f)", "        '>' => {\n            if y >= 0 {\n                ((x as u64) >> ((y as usize) & 0x3f)) as i64")], ["C12"]),
    ("shift-mask", [(E, "x << ((y as usize) & 0x3f)\n            } else {\n                x >>", "x << ((y as usize) & 0x1f)\n            } else {\n                x >>")], ["C12"]),
    ("rem-euclid", [(E, "'%' => x.checked_rem(y)?", "'%' => x.checked_rem_euclid(y)?")], ["C12"]),
    ("div-plain", [(E, "'/' => x.checked_div(y)?", "'/' => {\n            if y == 0 {\n                return None;\n            }\n            x / y\n        }")], ["C12"]),
    ("div-zero-0", [(E, "'/' => x.checked_div(y)?", "'/' => x.checked_div(y).unwrap_or(0)")], ["C12"]),
    ("le-as-lt", [(E, "Op('L') => rpn.extend_from_slice(&[(Op('~'), lhs), (Prefix('G'), 1)])", "Op('L') => rpn.extend_from_slice(&[(Op('~'), lhs), (Val(-1), 0), (Op('+'), 2), (Prefix('G'), 1)])")], ["C12"]),
    ("gt-swapped", [(E, "Op('g') => rpn.extend_from_slice(&[(Op('-'), lhs)", "Op('g') => rpn.extend_from_slice(&[(Op('~'), lhs)")], ["C12"]),
    ("g-positive", [(E, "'G' => (x >= 0) as i64", "'G' => (x > 0) as i64")], ["C12"]),
    ("ge-token", [(E, "return Some(Op(if first == '>' { 'G' } else { 'L' }));", "return Some(Op(if first == '<' { 'G' } else { 'L' }));")], ["C12"]),
    ("fuse-plus-hash", [(E, "('+', '#') => '#',", "('+', '#') => '+',")], ["C12"]),
    ("swap-hash", [(E, "        '-' => '~',\n        '~' => '-',", "        '-' => '~',\n        '~' => '-',\n        '#' => '+',")], ["C12"]),
    ("peel-rhs", [(E, "'~' => ('-', '#'),", "'~' => ('+', '#'),")], ["C12"]),
    ("is-id-rem", [(E, "'*' | '/' => x == 1,", "'*' | '/' | '%' => x == 1,")], ["C12"]),
    ("comm-shift", [(E, "matches!(op, '+' | '-' | '#' | '~' | '*' | '&' | '|' | '^')", "matches!(op, '+' | '-' | '#' | '~' | '*' | '/' | '&' | '|' | '^')")], ["C12"]),
    ("not-neg", [(E, "'!' => !x,", "'!' => (x == 0) as i64,")], ["C12"]),
    ("q-shift-fn", [(E, "fn apply_op(c: char, x: i64, y: i64)", "fn shift_left(x: i64, n: i64) -> i64 {\n    if n < 0 {\n        return x >> (n.wrapping_neg() & 63);\n    }\n    x.wrapping_shl(n as u32)\n}\n\nfn apply_op(c: char, x: i64, y: i64)"), (E, "        '<' => {\n            if y >= 0 {\n                x << ((y as usize) & 0x3f)\n            } else {\n                x >> ((-y as usize) & 0x3f)\n            }\n        }", "        '<' => shift_left(x, y),")], []),
    ("q-guarded-div", [(E, "'/' => x.checked_div(y)?", "'/' => {\n            if y == 0 || (x == i64::MIN && y == -1) {\n                return None;\n            }\n            x / y\n        }")], []),
    ("q-wrapping", [(E, "'#' => -(x + y),\n        '~' => -(x - y),", "'#' => x.wrapping_add(y).wrapping_neg(),\n        '~' => y - x,")], []),
    ("q-not", [(E, "'!' => !x,", "'!' => -1 - x,")], []),
    ("q-push", [(E, "Op('G') => rpn.extend_from_slice(&[(Op('-'), lhs), (Prefix('G'), 1)]),", "Op('G') => {\n            rpn.push((Op('-'), lhs));\n            rpn.push((Prefix('G'), 1));\n        }")], []),
    ("q-ifs", [(E, "fn swap_op_hands(op: char) -> char {\n    match op {\n        '-' => '~',\n        '~' => '-',\n        _ => op, // '+' => '+',\n    }\n}", "fn swap_op_hands(op: char) -> char {\n    if op == '-' {\n        return '~';\n    }\n    if op == '~' {\n        '-'\n    } else {\n        op\n    }\n}")], []),
    ("q-g-if", [(E, "'G' => (x >= 0) as i64", "'G' => {\n            if x < 0 {\n                0\n            } else {\n                1\n            }\n        }")], []),
    ("q-sign-num", [(E, "    match (s1, s2) {\n        ('+', '+') => '+',\n        ('+', '-') => '-',\n        ('-', '+') => '-',\n        ('-', '-') => '+',\n        _ => panic!(\"unexpected ops: {s1}, {s2}.\"),\n    }", "    debug_assert!(\"+-\".contains(s1) && \"+-\".contains(s2));\n    if s1 == s2 {\n        '+'\n    } else {\n        '-'\n    }")], []),
    ("q-parse-op", [(E, "        let next = *it.peek()?;\n        if first != next {\n            if next == '=' {\n                it.next()?;\n                return Some(Op(if first == '>' { 'G' } else { 'L' }));\n            }\n            return Some(Op(if first == '>' { 'g' } else { 'l' }));\n        }\n        it.next()?;\n        return Some(Op(first));", "        let op = match (first, *it.peek()?) {\n            ('<', '<') | ('>', '>') => first,\n            ('<', '=') => 'L',\n            ('>', '=') => 'G',\n            ('<', _) => return Some(Op('l')),\n            _ => return Some(Op('g')),\n        };\n        it.next()?;\n        return Some(Op(op));")], []),
]
