"""package ids"""
L = "src/lib.rs"
CASES = []


def c(n, p, *e):
    CASES.append(dict(n="id-" + n, p=p, e=[(L, o, w) for o, w in e]))


B = "C22"
c("b-opaque-hash", B, ("(version.1 + 2, repr.rfind('#').unwrap_or(repr.len() - 1))", "(version.1 + 2, repr.find('#').unwrap_or(repr.len() - 1))"))
c("b-opaque-paren", B, ("(version.1 + 2, repr.rfind('#').unwrap_or(repr.len() - 1))", "(version.1 + 2, repr.rfind('#').unwrap_or(repr.len()))"))
c("b-opaque-open", B, ("(version.1 + 2, repr.rfind", "(version.1 + 1, repr.rfind"))
c("b-opaque-query", B, ("(version.1 + 2, repr.rfind('#').unwrap_or(repr.len() - 1))", "(version.1 + 2, repr.find('?').or_else(|| repr.rfind('#')).unwrap_or(repr.len() - 1))"))
c("b-shift", B, ("                            vmn -= before - decoded.len();\n", ""))
c("b-shift2", B, ("vmn -= before - decoded.len();", "vmn = repr.find('#')?;"))
c("b-at-all", B, ("if let Some(split) = repr[vmn..].find('@') {\n                        ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))", "if let Some(split) = repr.find('@') {\n                        ((vmn + 1, split), (split + 1, repr.len()))"))
c("b-2d", B, ('"2D" | "2d" => \'-\'', '"2D" | "2d" => \'_\''))
c("b-2b", B, ('"2B" | "2b" => \'+\'', '"2B" | "2b" => \' \''))
c("b-lower", B, ('"3A" | "3a" => \':\'', '"3A" => \':\''))
c("b-missing", B, ('                                    "40" => \'@\',\n', ""))
c("b-swap", B, ('"3C" | "3c" => \'<\',\n                                    "3D" | "3d" => \'=\',\n                                    "3E" | "3e" => \'>\',', '"3C" | "3c" => \'<\',\n                                    "3D" | "3d" => \'>\',\n                                    "3E" | "3e" => \'=\','))
c("b-skip2", B, ("encoded = &encoded[pi + 3..];", "encoded = &encoded[pi + 2..];"))
c("b-pre", B, ("decoded.push_str(&encoded[..pi]);", "decoded.push_str(encoded[..pi].trim_end_matches('/'));"))
c("b-noquery", B, ("let end = repr[begin..].rfind('?').map_or(vmn, |q| q + begin);", "let end = vmn;"))
c("b-source-query", B, ("[name, version, (0, vmn)]", "[name, version, (0, repr.find('?').unwrap_or(vmn))]"))
c("b-https", B, ('if repr.starts_with("git+") {', 'if repr.starts_with("git+https://") {'))
c("b-first", B, ("                                decoded.push(c);\n                                encoded = &encoded[pi + 3..];\n", "                                decoded.push(c);\n                                decoded.push_str(&encoded[pi + 3..]);\n                                break;\n"))
c("b-dash", B, ("((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))", "((vmn + 1, vmn + split), (vmn + split + 1, repr.rfind('+').filter(|p| *p > vmn).unwrap_or(repr.len())))"))
c("b-git-suffix", B, ("((begin, end), (vmn + 1, repr.len()))", '((begin, repr[begin..end].find(\'.\').map_or(end, |d| begin + d)), (vmn + 1, repr.len()))'))
c("b-contains", B, ("if repr[end..].contains('%') {", "if repr[..end].contains('%') {"))
c("r-vmn-at", None, ("let mut vmn = repr.rfind('#')?;", "let mut vmn = repr.find('#')?;"))
c("r-opaque-version", None, ("repr[name.1 + 1..].find(' ')? + name.1 + 1", "repr.rfind(' ')?"))
c("b-slash", B, ("let begin = repr.rfind('/')? + 1;", "let begin = repr.rfind(['/', ':'])? + 1;"))

c("r-opaque-paren", None, ("(version.1 + 2, repr.rfind('#').unwrap_or(repr.len() - 1))", "(repr.find('(')? + 1, repr.rfind('#').unwrap_or_else(|| repr.len() - 1))"))
c("r-match", None, ("(version.1 + 2, repr.rfind('#').unwrap_or(repr.len() - 1))", "(version.1 + 2, match repr.rfind('#') { Some(h) => h, None => repr.len() - 1 })"))
c("r-ends", None, ("(version.1 + 2, repr.rfind('#').unwrap_or(repr.len() - 1))", "(version.1 + 2, match repr.rfind('#') { Some(h) => h, None if repr.ends_with(')') => repr.len() - 1, None => repr.len() })"))
c("r-while", None, ("""                            loop {
                                let Some(pi) = encoded.find('%') else {
                                    decoded.push_str(encoded);
                                    break;
                                };
""", """                            while let Some(pi) = encoded.find('%') {"""), ("                                encoded = &encoded[pi + 3..];\n                            }\n", "                                encoded = &encoded[pi + 3..];\n                            }\n                            decoded.push_str(encoded);\n"))
c("r-nocheck", None, ("if repr[end..].contains('%') {", "{"))
c("r-at", None, ("if let Some(split) = repr[vmn..].find('@') {\n                        ((vmn + 1, vmn + split), (vmn + split + 1, repr.len()))", "if let Some(split) = repr[vmn + 1..].find('@') {\n                        let at = vmn + 1 + split;\n                        ((vmn + 1, at), (at + 1, repr.len()))"))
c("r-after", None, ("                                decoded.push(c);\n                                encoded = &encoded[pi + 3..];\n", "                                encoded = &encoded[pi + 3..];\n                                decoded.push(c);\n"))
c("r-diff", None, ("vmn -= before - decoded.len();", "vmn = vmn + decoded.len() - before;"))
c("r-rfind-again", None, ("vmn -= before - decoded.len();", "let _ = before;\n                            vmn = repr.rfind('#')?;"))
c("r-split-once", None, ("""                let name = (0, repr.find(' ')?);
                let version = (name.1 + 1, repr[name.1 + 1..].find(' ')? + name.1 + 1);
""", """                let (n, rest) = repr.split_once(' ')?;
                let (v, _) = rest.split_once(' ')?;
                let name = (0, n.len());
                let version = (name.1 + 1, name.1 + 1 + v.len());
"""))
c("r-qfind", None, ("repr[begin..].rfind('?').map_or(vmn, |q| q + begin)", "repr[begin..].find('?').map_or(vmn, |q| q + begin)"))
c("r-early", None, ("            Some(components)\n        };\n\n        if let Some(components) = parse() {\n            Self { repr, components }\n        } else {\n            panic!(\"unable to parse package id '{repr}'\");\n        }", "            Some(components)\n        };\n\n        match parse() {\n            Some(components) => Self { repr, components },\n            None => panic!(\"unable to parse package id '{repr}'\"),\n        }"))
c("r-replace-range", None, ("                            repr.truncate(end);\n                            repr.push_str(&decoded);\n", "                            repr = format!(\"{}{decoded}\", &repr[..end]);\n"))
c("r-radix", None, ("                                let c = match encoding {\n", "                                let c = if let Some(b) = u8::from_str_radix(encoding, 16).ok().filter(|b| b.is_ascii_alphabetic()) { b as char } else { match encoding {\n"), ("                                        &repr[end..]\n                                    ),\n                                };\n", "                                        &repr[end..]\n                                    ),\n                                } };\n"))
c("r-prefix", None, ('let end = if repr.starts_with("git+") {', 'let end = if repr.strip_prefix("git+").is_some() {'))
