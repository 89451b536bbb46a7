E = "src/eval.rs"
EDITS = [
    ("octal-10", [(E, "=> { it.next()?; (it.next()?, 8) }", "=> { it.next()?; (it.next()?, 10) }")], ["C14"]),
    ("upper-x", [(E, "Some(&x) if tolower(x) == 'x' =>", "Some(&x) if x == 'x' =>")], ["C14"]),
    ("leading-zero", [(E, "            _ => (first, 8),", "            _ => (first, 10),")], ["C14"]),
    ("tera", [(E, "Some(&x) if tolower(x) == 't' => parse_prefix(4, it)?", "Some(&x) if tolower(x) == 't' => parse_prefix(3, it)?")], ["C14"]),
    ("exa5", [(E, "parse_prefix(6, it)?", "parse_prefix(5, it)?")], ["C14"]),
    ("ki-1000", [(E, "prefix_base = 1024;", "prefix_base = 1000 + 24 * (n == 1) as i64;")], ["C14"]),
    ("digit-gt", [(E, "        if digit >= num_base {\n            return None;", "        if digit > num_base {\n            return None;")], ["C14"]),
    ("digit-clip", [(E, "        if digit >= num_base {\n            return None;\n        }", "        if digit >= num_base {\n            break;\n        }")], ["C14"]),
    ("wrap", [(E, "val = val.checked_mul(num_base)?.checked_add(digit)?;", "val = val.wrapping_mul(num_base).wrapping_add(digit);")], ["C14"]),
    ("wrap-scale", [(E, "Some(Val(val.checked_mul(scaler)?))", "Some(Val(val * scaler))")], ["C14"]),
    ("upper-hex", [(E, "return Some((false, (c as i64) - ('A' as i64) + 10));", "return Some((false, (c as i64) - ('a' as i64) + 10));")], ["C14"]),
    ("e-in-hex", [(E, "if num_base < 16 && digit == 14 {", "if num_base <= 16 && digit == 14 {")], None),
    ("usize-cast", [(E, "    let converted = val.try_into();\n    if converted.is_err() {\n        return Err(anyhow!(\"negative value is not allowed for this option ({:?} gave {:?}).\", s, val));\n    }\n    Ok(converted.unwrap())", "    Ok(val as usize)")], ["C14"]),
    ("q-lower", [(E, "    let tolower = |c: char| {\n        if c.is_ascii_uppercase() {\n            std::char::from_u32(c as u32 - ('A' as u32) + ('a' as u32)).unwrap()\n        } else {\n            c\n        }\n    };", "    let tolower = |c: char| c.to_ascii_lowercase();")], []),
    ("q-scale-match", [(E, "    Some(prefix_base.pow(n))", "    let mut scale = 1;\n    for _ in 0..n {\n        scale *= prefix_base;\n    }\n    Some(scale)")], None),
    ("q-base-match", [(E, "            Some(&x) if tolower(x) == 'b' => { it.next()?; (it.next()?, 2) }\n            Some(&x) if tolower(x) == 'o' => { it.next()?; (it.next()?, 8) }\n", "            Some(&('b' | 'B')) => { it.next()?; (it.next()?, 2) }\n            Some('o' | 'O') => { it.next(); let c = it.next()?; (c, 8) }\n")], []),
    ("q-fold", [(E, "    for &digit in &digits {\n        if digit >= num_base {\n            return None;\n        }\n        val = val.checked_mul(num_base)?.checked_add(digit)?;\n    }", "    for digit in digits.iter() {\n        if !(*digit < num_base) {\n            return None;\n        }\n        let shifted = val.checked_mul(num_base)?;\n        val = shifted.checked_add(*digit)?;\n    }")], []),
    ("q-usize-if", [(E, "    let converted = val.try_into();\n    if converted.is_err() {\n        return Err(anyhow!(\"negative value is not allowed for this option ({:?} gave {:?}).\", s, val));\n    }\n    Ok(converted.unwrap())", "    if val < 0 {\n        return Err(anyhow!(\"negative value is not allowed for this option ({:?} gave {:?}).\", s, val));\n    }\n    Ok(val as usize)")], []),
    ("q-usize-try", [(E, "    let converted = val.try_into();\n    if converted.is_err() {\n        return Err(anyhow!(\"negative value is not allowed for this option ({:?} gave {:?}).\", s, val));\n    }\n    Ok(converted.unwrap())", "    usize::try_from(val).map_err(|_| anyhow!(\"negative value is not allowed for this option ({:?} gave {:?}).\", s, val))")], []),
]
