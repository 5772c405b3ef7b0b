//! The bounded input spaces shared by the text-level properties.
use crate::engine::*;

/// Every character class the scanner distinguishes, one representative each.
pub const CHARS: &[&str] = &[
    "a", " ", "\n", "-", ":", "?", ",", "[", "]", "{", "}", "#", "&", "*", "!", "|", ">", "'", "\"", "%", "\t", "\r",
    "\\", ".", "<", "1", "0", "\u{e9}", "\u{2028}", "\u{85}", "\u{feff}", "@", "~", "\u{1f389}", "=", "_", "/",
];

/// Lexical atoms: whole indicators, so that short sequences reach deep states.
pub const ATOMS: &[&str] = &[
    "a", "- ", "? ", ": ", ", ", "[", "]", "{", "}", "\n", "  ", "#", "&a ", "*a ", "!t ", "|\n", ">\n", "'", "\"",
    "--- ", "...\n", "%YAML 1.1\n",
];

/// Where one character matters, written as U+0001.
const PLACES: &[&str] = &[
    "!<\u{1}> a", "!<a\u{1}b> c", "!\u{1}!a b", "!a\u{1}!b c", "%TAG !\u{1}! x\n--- !\u{1}!a b", "%TAG !a!\u{1} x\n--- a", "%TAG !a! x\u{1}y\n--- !a!b c",
    "%\u{1}\n--- a", "%A\u{1} b\n--- a", "%YAML\u{1}1.1\n--- a", "%YAML \u{1}.1\n--- a", "%YAML 1\u{1}1\n--- a", "%YAML 1.1\u{1}\n--- a", "%YAML 1.\u{1}\n--- a",
    "%TAG\u{1}!a! x\n--- a", "|\u{1}\n a\n", "- >\u{1} # b\n  a\n", "|2\u{1}\n   a\n", "|-\u{1}\n  a\n\n", "!%\u{1}1 a", "!%4\u{1} a", "---\u{1}a", "a\n---\u{1}b", "...\u{1}a", "a\n...\u{1}b",
    "-\u{1}a", "?\u{1}a", ":\u{1}a", "a:\u{1}b", "[a:\u{1}b]", "[?\u{1}a]", "[-\u{1}a]", "{a:\u{1}b}", "{\"a\":\u{1}b}", "'a'\u{1}: b", "\"a\"\u{1}b", "*a\u{1}b", "*a\u{1}: b", "&a\u{1}[b]", "[a]\u{1}b", "[a]\u{1}: b",
    "- a\u{1}# b", "a\u{1}#b", "a #\u{1}b\nc", "a\n\u{1}b", "a\n \u{1}b: c", "a: b\n\u{1}c: d", "- a\n\u{1}- b", "'a\u{1}\n b'", "\"a\\\u{1}b\"", "\"a\\\n\u{1}b\"", "\"\\x4\u{1}\"", "\"\\u00\u{1}1\"", "\"\\U0000\u{1}041\"",
    "|\n a\u{1}\n b", "|\n  a\n \u{1}b", ">\n a\n\u{1}\n b", "!a\u{1}b", "[!a\u{1}b]", "[&a\u{1}b]", "[*a\u{1}b]", "{*a\u{1}:b}", "\u{1}a: b", "\u{1}\n- a", "%YAML 1.1 \u{1}\n--- a", "!!\u{1} a", "!a!\u{1} b",
];
/// Where two characters matter.
const PAIRED: &[&str] = &[
    "\u{1}\u{2}", "- \u{1}\u{2}a", "[\u{1}\u{2}]", "{a: \u{1}\u{2}b}", "a\u{1}\u{2}b", "[a\u{1}\u{2}b]", "\"\u{1}\u{2}\"", "\"a\\\u{1}\u{2}\"", "'\u{1}\u{2}'", "|\u{1}\u{2}\n  a\n", ">\n \u{1}\u{2}a\n b",
    "!\u{1}\u{2} a", "!%\u{1}\u{2} a", "--\u{1}\u{2}a", "a\n..\u{1}\u{2}", "a:\u{1}\u{2}b: c", "\"a\"\u{1}\u{2}b", "a: &b\u{1}\u{2}c", "a\n\u{1}\u{2}b",
];

/// Texts of which every part is prolonged: all constructs, with what may go
/// wrong in them.
pub const SNIPPETS: &[&str] = &[
    "a: b\n", "- a\n- b\n", "? a\n: b\n", "[a, b]", "{a: b, c: d}", "- - a\n  - b\n", "a:\n  b: c\nd: e\n", "a:\n- b\n- c\nd: e\n",
    "- a b\n  c d\n- e\n", "a b\n c\n\n d\n", "'a b'\n", "'a ''b''\n  c'\n", "\"a b\"\n", "\"a\\n\\x41 b\\\n  c\"\n", "\"a \n\n  b\": c\n", "a: |\n  b\n   c\n\n  d\n",
    "- |-\n  b\n\n- |+\n  c\n\n- d", "- >\n  a b\n  c\n\n   d\n  e\n- f", "- |2 # a\n    b\n", "- >1+\n  a\n b\n\n", "&a b: &c d\n", "- &a b\n- *a\n", "*a : b\n", "[&a b, *a , c]", "&a [b]: c\n",
    "!a b: !!c d\n", "!<a:b> c\n", "%TAG !a! b\n--- !a!c d\n", "%TAG ! b:\n--- !c [d]\n", "%YAML 1.1\n--- a\n", "%a b c\n--- d\n", "!%41%c3%a9 a\n", "--- a\n... # b\n--- c\n", "--- |\n a\n...\n", "a\n...\nb\n", "# a\n# b\nc # d\n",
    "\n\n a\n", "a:   b   # c\n", "a :\tb\n", "-\ta\n", "{a: [b, {c: d}], e: 'f'}", "[a: b, ? c : d, [e]: f]", "{? a b : c, d, 'e': f}", "{\"a\":b,'c':d}", "[a\n b,\n c]", "{a: b\n  c, d\n  : e}",
    "? - a\n  - b\n: c: d\n  e: f\n", "? |\n  a\n: >\n  b\n", "- ? a\n  : b\n- c: d\n", "a: 'b\n c\n\n d'\n", "a: \"b\\u00e9\\\" c\"\n", "\u{e9}\u{2603}: \u{1f389}\n", "a\u{85}b\u{2028}c\n", "a\r\nb: c\r\n", "\u{feff}a: b\n",
    // Refused, here and by libyaml.
    "a: b: c\n", "[a", "{a: b", "\"a\n", "'a\n", "a: [b\nc: d\n", "a\nb: c\n", "- a\nb\n", "a: - b\n", "\"\\q\"\n", "*a\n*b: c\n", "%YAML 1.1 a\n---\n", "%TAG !a b\n---\n", "!a!b c\n", "&a &b c\n", "@a\n", "a: @b\n", "|a\n b\n", "- |\n    \n a\n",
    "a: b\n  c: d\n", "a:\n  b: c\n d: e\n", "? a\n- b\n", "\"a\nb\": c\n", "[a\nb]: c\n", "--- a\n%b\n", "a: \"b\" c\n", "a: 'b'c\n", "]\n", "a: }\n", "\"a\n--- b\"\n", "*\n", "&\n", "!<a b\n", "%\n", "!%4 a\n",
];
/// What stands inside many others, and around it.
const INNER: &[&str] = &[
    "a", "a: b", "- a", "a\nb", "a:\n  b", "a: b\nc: d", "- a\n- b", "? a\n: b", "? a", "'a\n b'", "\"a\n b\"", "\"a\": b", "'a':b", "|\n  a\n", ">\n  a\n  b\n", "&a b", "*a", "!a b", "&a", "!a", "[a]: b", "[a: b]", "{a}", "{a: b\n c}", "[? a\n: b]",
    ": a", "", "\n", "# a\n", "a # b\n", "a,", "a, b", "a, b: c", "]", "}", "\n---\na", "\n...\na", "\"a", "@", "a b: c d", "- - a\n  - b", "a: - b",
];
const AROUND: &[(&str, &str, usize)] = &[
    ("[", "]", 0), ("{a: ", "}", 0), ("{? ", "}", 0), ("{", ": a}", 0), ("[a, ", ", b]", 0), ("[[", "]]", 0), ("[{a: ", "}]", 0), ("- ", "", 2), ("? ", "", 2), ("- - ", "", 4), ("- ? ", "", 4), ("[? ", "]", 0), ("[\n", "\n]", 0),
];

/// A snippet and the place and length of a part of it.
pub type Part = (usize, usize, usize);
/// Every part of one to `longest` characters of every snippet. Without `deep`,
/// those that would nest collections are left out.
pub fn parts(longest: usize, deep: bool) -> Vec<Part> {
    let mut at = vec![];
    for (k, s) in SNIPPETS.iter().enumerate() {
        let c: Vec<char> = s.chars().collect();
        for len in 1..=longest {
            for p in 0..(c.len() + 1).saturating_sub(len) {
                if deep || !c[p..p + len].iter().any(|c| "[{-?:".contains(*c)) {
                    at.push((k, p, len));
                }
            }
        }
    }
    at
}
/// The snippet with the part repeated.
pub fn grow((k, p, len): Part, n: usize) -> Vec<u8> {
    let c: Vec<char> = SNIPPETS[k].chars().collect();
    let part: String = c[p..p + len].iter().collect();
    format!("{}{}{}", c[..p].iter().collect::<String>(), part.repeat(n), c[p + len..].iter().collect::<String>()).into_bytes()
}
/// Every part of the snippets, repeated.
pub fn stretched(kind: &'static str, sizes: &[usize], longest: usize, deep: bool) -> Scope {
    let (at, sizes) = (parts(longest, deep), sizes.to_vec());
    let name = format!("{} parts of {} texts repeated {:?} times", at.len(), SNIPPETS.len(), sizes);
    index(kind, name, (at.len() * sizes.len()) as u64, move |i| grow(at[i as usize / sizes.len()], sizes[i as usize % sizes.len()]))
}
/// Numbered items ($ is the number): a start, the item, an end, and what
/// follows it, where @ is one of the numbers.
const NUMBERED: &[(&str, &str, &str, &[&str])] = &[
    ("", "- &a$ b\n", "", &["- *a@\n", "- &a@ c\n", "- [*a@ , &a@ d]\n", "--- *a@\n", "--- &a@ b\n", "- &a d\n- *a\n"]),
    ("[", "&a$ b, ", "]", &["\n", ": *a@\n", "\n--- [*a@ ]\n"]),
    ("{", "&a$ b: c, ", "*a@ : d}\n", &["", "--- {&a@ b: *a@ }\n"]),
    ("{", "? &a$ [b] : *a$ , ", "&a@ d: e}\n", &[""]),
    ("", "&a$ b: *a$\n", "", &["*a@ : c\n", "&a@ d: e\n", "--- *a@\n"]),
    ("", "? &a$\n: !t$ b\n", "", &["? *a@\n", "? &a@ c\n"]),
    ("", "- &a$\n  - *a$\n", "", &["- *a@\n", "- &a@\n"]),
    ("", "--- &a$ b\n", "", &["--- *a@\n", "--- [&a@ c, *a@ ]\n", "...\n&a@ b\n"]),
    ("", "%TAG !a$! x\n--- !a$!b c\n...\n", "", &["--- !a@!b c\n", "%TAG !a@! y\n--- !a@!b c\n"]),
    ("", "%TAG !a$! x$\n", "", &["%TAG !a@! y\n--- b\n", "--- !a@!b c\n", "%TAG ! y\n--- !b [!a@!c d, !!e f]\n", "%TAG !! y\n--- !!b [!a@!c d, !!e f]\n", "%YAML 1.1\n--- !a@!b c\n--- !a@!b c\n"]),
    ("%YAML 1.1\n", "%TAG !a$! x$\n", "", &["%YAML 1.1\n--- a\n", "--- a\n", "%TAG !b! z\n%TAG !a@! y\n--- b\n"]),
    ("", "k$: v$\n", "", &["k@: w\n", "k@\n", "? k@\n"]),
    ("", "- k$: v\n  l$: w\n", "", &["- k@: w\n", " - k@\n"]),
    ("- ", "[k$: v], ", "a\n", &[""]),
    ("[", "!t$ a, ", "!t@ b]\n", &[""]),
    ("[", "a, ", "&n x, *n ]\n", &["--- *n\n"]),
    ("[&n x, ", "a, ", "*n ]\n", &["--- *n\n"]),
    ("", "- a\n", "- &n [b, *n ]\n- *n\n", &["- &n c\n"]),
    ("&n a: b\n", "c: d\n", "e: *n\n", &["&n f: g\n"]),
    ("", "a: b\n", "&n c: *n\n", &["*n : *m\n"]),
    ("- &n a\n", "- *n\n", "- &n b\n", &[""]),
    ("- &n [a]\n", "- *n\n", "- *m\n", &[""]),
    ("", "--- a\n", "--- [&n b, *n ]\n", &["--- *n\n", "... %\n", "%TAG !a! b\n"]),
    ("", "a\n...\n", "%TAG !a! b\n--- !a!c d\n", &["--- !a!c d\n"]),
    ("%TAG !a! b\n", "--- !a!c d\n...\n", "--- !a!c d\n", &[""]),
];
/// Every snippet so far behind a comment that a boundary of a buffer (of so many
/// bytes) falls on each of its bytes.
pub fn across(kind: &'static str, texts: Vec<Vec<u8>>, bounds: &[usize]) -> Scope {
    let mut v = vec![];
    for (t, x) in texts.iter().enumerate() {
        for b in bounds {
            v.extend((0..=x.len().min(24)).map(|o| (t, b - o)));
        }
    }
    index(kind, format!("{} texts with a boundary of {bounds:?} bytes at each of their bytes", texts.len()), v.len() as u64, move |i| {
        let (t, n) = v[i as usize];
        let mut s = b"#".to_vec();
        s.extend(b"x".repeat(n.saturating_sub(2)));
        s.push(b'\n');
        s.extend(&texts[t]);
        s
    })
}
pub fn snippets() -> Vec<Vec<u8>> {
    SNIPPETS.iter().map(|s| s.as_bytes().to_vec()).collect()
}
/// A text with one thing changed: operation `k` replaces, removes or adds a
/// character.
fn edit(t: &[char], k: usize, with: &[char]) -> Vec<char> {
    let (n, w) = (t.len(), with.len());
    let mut v = t.to_vec();
    match k {
        k if k < n => drop(v.remove(k)),
        k if k < n + n * w => v[(k - n) / w] = with[(k - n) % w],
        k => v.insert((k - n - n * w) / w, with[(k - n - n * w) % w]),
    }
    v
}
fn edits(n: usize, w: usize) -> usize {
    n + n * w + (n + 1) * w
}
const EDIT: &[char] = &[
    ' ', '\n', '\t', '\r', ':', '-', '?', ',', '[', ']', '{', '}', '#', '&', '*', '!', '|', '>', '\'', '"', '%', '@', '`', '.', '\\', 'a', '0', '=', '<', '~', '\u{e9}', '\u{feff}', '\u{2028}', '\u{85}', '\u{1f389}', '\u{7}',
];
/// Every snippet with one or two changes.
fn edited(kind: &'static str, with: &'static [char], twice: bool) -> Scope {
    let texts: Vec<Vec<char>> = SNIPPETS.iter().map(|s| s.chars().collect()).collect();
    // The first case of each text.
    let mut starts = vec![0u64];
    for t in &texts {
        let k = edits(t.len(), with.len()) as u64;
        // The second change is made to a text that may be one longer.
        let k2 = if twice { edits(t.len() + 1, with.len()) as u64 } else { 1 };
        starts.push(starts.last().unwrap() + k * k2);
    }
    let n = *starts.last().unwrap();
    index(kind, format!("{} texts with {} of {} characters changed, added or removed", texts.len(), if twice { "two" } else { "one" }, with.len()), n, move |i| {
        let t = starts.partition_point(|s| *s <= i) - 1;
        let (i, n) = ((i - starts[t]) as usize, edits(texts[t].len(), with.len()));
        let mut v = edit(&texts[t], i % n, with);
        if twice && i / n < edits(v.len(), with.len()) {
            v = edit(&v, i / n, with);
        }
        v.into_iter().collect::<String>().into_bytes()
    })
}
/// Every snippet after every other, and in place of every letter of every
/// other.
fn composed(kind: &'static str) -> Scope {
    let mut v: Vec<(usize, usize, usize)> = vec![];
    for (t, x) in SNIPPETS.iter().enumerate() {
        for s in 0..SNIPPETS.len() {
            v.extend((0..4).map(|p| (t, s, p)));
            for (p, _) in x.char_indices().filter(|(_, c)| c.is_ascii_lowercase()) {
                v.extend([(t, s, 4 + 2 * p), (t, s, 5 + 2 * p)]);
            }
        }
    }
    index(kind, format!("{} texts after and inside each other ({} cases)", SNIPPETS.len(), v.len()), v.len() as u64, move |i| {
        let (t, s, p) = v[i as usize];
        let (t, s) = (SNIPPETS[t], SNIPPETS[s]);
        match p {
            0 => format!("{t}{s}"),
            1 => format!("{t}\n{s}"),
            2 => format!("{t}\n--- {s}"),
            3 => format!("{t}\n...\n{s}"),
            p => {
                let (at, inside) = ((p - 4) / 2, p % 2 == 1);
                let column = t[..at].chars().rev().take_while(|c| *c != '\n').count();
                let s = s.trim_end_matches('\n');
                let s = if inside { s.replace('\n', &format!("\n{}", " ".repeat(column))) } else { s.to_string() };
                format!("{}{s}{}", &t[..at], &t[at + 1..])
            }
        }
        .into_bytes()
    })
}
/// What looks like a document marker.
fn markers(kind: &'static str) -> Scope {
    const BEFORE: &[&str] = &["", "a\n", "'a\n", "\"a\n", "|\n a\n", ">\n a\n", "[a\n", "{a: b\n", "a: b\n", "- a\n", "--- a\n", "# c\n", "a:\n", "a: |\n  b\n", "- ", "\u{feff}", "a\r", "a\u{2028}", "? a\n", "...\n", "%YAML 1.1\n", "a\n ", "'a'\n"];
    const AFTER: &[&str] = &["", " b\n", "\tb", "\nb", "b", "\rb", "\u{85}b", "' ", "\" ", "]", ": b", "#", " #"];
    const OF: &[u8] = b"-.a :";
    let k = OF.len();
    let n = BEFORE.len() * AFTER.len() * k * k * k;
    index(kind, format!("all of 3 of {k} characters in {} places with {} endings", BEFORE.len(), AFTER.len()), n as u64, move |i| {
        let i = i as usize;
        let (b, i) = (BEFORE[i % BEFORE.len()], i / BEFORE.len());
        let (a, i) = (AFTER[i % AFTER.len()], i / AFTER.len());
        let mut v = b.as_bytes().to_vec();
        v.extend([OF[i % k], OF[i / k % k], OF[i / k / k]]);
        v.extend(a.as_bytes());
        v
    })
}
/// Long runs of numbered items, and something that depends on one of them.
pub fn numbered(kind: &'static str, sizes: &[usize]) -> Scope {
    let mut v: Vec<(usize, usize, usize, usize)> = vec![];
    for (t, x) in NUMBERED.iter().enumerate() {
        for f in 0..x.3.len() {
            for n in sizes {
                let which = if x.1.contains('$') && *n > 1 { 4 } else { 1 };
                // Anchors and directives are searched one by one.
                let slow = x.1.contains("&a$") && !x.1.contains("---") || x.1.contains("%TAG !a$! x$");
                if *n <= if slow { 1100 } else { 100_000 } {
                    v.extend((0..which).map(|j| (t, f, *n, j)));
                }
            }
        }
    }
    let name = format!("{} kinds of numbered items {sizes:?} times, and what refers to one of them ({} cases)", NUMBERED.len(), v.len());
    index(kind, name, v.len() as u64, move |i| {
        let (t, f, n, j) = v[i as usize];
        let (start, item, end, follows) = NUMBERED[t];
        let which = [0, 1, n / 2, n - 1][j].to_string();
        let mut s = start.to_string();
        for k in 0..n {
            s += &item.replace('$', &k.to_string());
        }
        s += &format!("{end}{}", follows[f]).replace('@', &which);
        s.into_bytes()
    })
}
/// Every small text inside many of the same collections.
pub fn nested(kind: &'static str, depths: &[usize]) -> Scope {
    let ds = depths.to_vec();
    let n = INNER.len() * AROUND.len() * 2 * ds.len();
    index(kind, format!("{} texts inside {} kinds of collections to the depths {ds:?}, in a block sequence or not", INNER.len(), AROUND.len()), n as u64, move |i| {
        let mut i = i as usize;
        let mut take = |n: usize| {
            let r = i % n;
            i /= n;
            r
        };
        let (inner, (open, close, indent), d, first) = (INNER[take(INNER.len())], AROUND[take(AROUND.len())], ds[take(ds.len())], take(2));
        let indent = format!("\n{}", " ".repeat(indent * d + 2 * first * (indent > 0) as usize));
        format!("{}{}{}{}\n", if first == 1 { "- " } else { "" }, open.repeat(d), inner.replace('\n', &indent), close.repeat(d)).into_bytes()
    })
}

pub fn text(kind: &'static str, thorough: bool, scale: usize) -> Vec<Scope> {
    // scale 0: light (expensive checks), 1: normal.
    let d = |q: usize, t: usize| {
        let x = if thorough { t } else { q };
        if scale == 0 {
            x - 1
        } else {
            x
        }
    };
    let mut v = vec![
        tree(kind, "characters", CHARS, d(4, 5)),
        tree(kind, "lexical atoms", ATOMS, d(5, 6)),
        tree(kind, "block structure", &["a", "-", ":", "?", " ", "\n"], d(8, 10)),
        tree_ps(kind, "nested block structure", "- a:\n", &["a", "- ", ": ", "? ", "  ", "\n"], &[""], d(7, 9)),
        tree_ps(kind, "flow structure", "[", &["[", "]", "{", "}", ",", ":", "?", "a", " "], &[""], d(6, 7)),
        tree_ps(kind, "flow mapping", "{", &["{", "}", ",", ":", "? ", "a", " ", "\n", "\"b\""], &[""], d(6, 7)),
        tree_ps(
            kind,
            "flow in block",
            "a: ",
            &["[", "]", "{", "}", ", ", ": ", "? ", "a", "\n", " ", "- "],
            &["", "\nb: c"],
            d(5, 6),
        ),
        tree_ps(
            kind,
            "literal block scalar",
            "|",
            &[" ", "\n", "a", "#", "+", "-", "2", "\t", "\r", "\u{85}"],
            &["", "\nb"],
            d(5, 7),
        ),
        tree_ps(kind, "folded block scalar", ">", &[" ", "\n", "a", "#", "-", "+", "1", "\t", "\u{2028}"], &["", "\nb"], d(5, 7)),
        tree_ps(
            kind,
            "folded block scalar by lines",
            ">\n",
            &[" a\n", "  b\n", " \tc\n", "\n", "  \n", " \t\n", " # d\n", "   e\r\n", " - f\n", " g\u{2028}"],
            &["", "h"],
            d(5, 6),
        ),
        tree_ps(
            kind,
            "literal block scalars by lines",
            "- |2+\n",
            &["   a\n", "    b\n", "   \tc\n", "\n", "  \n", "     \n", "- |-\n", "- >-\n", "- >+\n", "- |1\n", " d\n", "# e\n", "- f\n"],
            &["", "...\n"],
            d(4, 5),
        ),
        tree_ps(
            kind,
            "quoted scalars by lines",
            "- \"",
            &["a\n", " b\n", "\n", "\tc\n", "  \n", "d\\\n", "\\ \n", "e \n", "---\n", "... f\n", "\"\n", "\" : g\n", "- '"],
            &["", "\""],
            d(4, 5),
        ),
        tree(
            kind,
            "structure by lines",
            &[
                "a\n", "- b\n", "c: d\n", "e:\n", "-\n", "? f\n", ": g\n", "?\n", " h\n", " - i\n", " j: k\n", " l:\n", " ? m\n", " : n\n", "  - - o\n", "  p: q\n", "  - r: s\n",
                "   t: u\n", "# v\n", " [w,\n", "{x: y}\n", " ]\n", "--- &z\n", "!!s\n",
            ],
            d(4, 5),
        ),
        tree_ps(kind, "folded block scalar body", ">\n", &[" ", "\n", "a", "\t", "\u{2028}"], &["", "\nb"], d(7, 9)),
        tree_ps(kind, "indented block scalar", "k:\n - |\n", &[" ", "\n", "a", "\t", "- ", ": "], &["", "\n"], d(6, 8)),
        tree_ps(
            kind,
            "block scalar header",
            "- >",
            &["0", "1", "2", "9", "+", "-", " ", "#", "\n", "  a", "a"],
            &["", "\n"],
            d(5, 6),
        ),
        tree_ps(
            kind,
            "double-quoted scalar",
            "\"",
            &["\\", "\"", "x", "u", "4", "0", "a", " ", "\n", "n", "\t", "\r\n", "---"],
            &["", "\""],
            d(5, 6),
        ),
        tree_ps(kind, "unicode escapes", "\"\\", &["x", "u", "U", "0", "4", "1", "d", "8", "F", "g"], &["", "\""], d(5, 6)),
        tree_ps(kind, "long escapes", "\"\\U00", &["0", "1", "d", "8", "F", "\"", "g"], &["", "\"", "\n"], d(6, 7)),
        tree_ps(kind, "single-quoted scalar", "'", &["'", " ", "\n", "a", "\t", "\r", "\u{85}", "\u{2028}", "#", ": ", "---", "..."], &["", "'"], d(5, 6)),
        tree_ps(
            kind,
            "multi-line plain scalar",
            "a",
            &["a", " ", "\n", "\t", "#", ":", "-", "\r\n", "---", "... ", "\u{2028}", "?", ","],
            &[""],
            d(5, 6),
        ),
        tree_ps(kind, "plain scalar in a mapping", "k: a", &["a", " ", "\n", "\t", "#", ": ", "- ", "\r", "? "], &[""], d(6, 7)),
        tree_ps(kind, "plain scalar in a flow", "[a", &["a", " ", "\n", "\t", "#", ":", "-", ",", "]", "?", "{"], &["", "]"], d(5, 6)),
        tree_ps(
            kind,
            "tags",
            "!",
            &["!", "<", ">", "a", "%4", "1", "%", ",", "[", "]", " ", "\n", "'", "~", "-"],
            &["", " b"],
            d(5, 6),
        ),
        tree_ps(
            kind,
            "tag URI escapes",
            "!<",
            &["%", "C3", "A9", "E2", "82", "AC", "F0", "9F", "8E", "80", "41", "FF", ">", "a"],
            &["", "> b"],
            d(5, 7),
        ),
        tree_ps(kind, "tags in a flow", "[!", &["!", "a", ",", "]", "[", "{", "}", " ", "<", ">", ":", "b"], &["", "]"], d(5, 6)),
        tree_ps(
            kind,
            "anchors and aliases",
            "",
            &["&a", "*a", "&b", "*b", " ", "\n", "- ", ": ", "x", "!t", "[", "]", ","],
            &[""],
            d(5, 7),
        ),
        tree_ps(
            kind,
            "directives",
            "%",
            &["YAML", "TAG", " ", "1", ".", "2", "!", "!a!", "tag:x", "\n", "#", "--- ", "X", "\t"],
            &["", "\n--- a"],
            d(5, 6),
        ),
        tree_ps(
            kind,
            "tag directives in use",
            "%TAG !",
            &["a! ", " ", "! ", "x", "\n", "--- ", "!a!y", "!!z", "!w", "%41", "%TAG !", "... "],
            &[""],
            d(5, 6),
        ),
        tree_ps(
            kind,
            "version directive",
            "%YAML ",
            &["1", ".", "2", "0", "9", "\n", " ", "--- ", "#", "999999999", "-"],
            &["", "\n--- a"],
            d(5, 6),
        ),
        tree(
            kind,
            "document structure",
            &["---", "...", "\n", " ", "a", "%YAML 1.1\n", "%TAG ! b\n", "# c", "!x ", "- "],
            d(6, 7),
        ),
        tree(
            kind,
            "many documents",
            &["--- ", "...\n", "a\n", "%TAG !e! e:\n", "!e!x ", "!!y ", "&n ", "*n\n", "---\n", "%YAML 1.2\n"],
            d(5, 7),
        ),
        tree(kind, "line breaks", &["\r", "\n", "\u{85}", "\u{2028}", "a", " ", "- ", "#", "'", "|"], d(5, 7)),
        tree(kind, "byte order marks", &["\u{feff}", "a", "\n", "--- ", "...\n", " ", "#", "%YAML 1.1\n", "- "], d(6, 7)),
        tree(
            kind,
            "forbidden characters",
            &["a", "\n", "\u{0}", "\u{7}", "\u{7f}", "\u{80}", "\u{9f}", "\u{fffe}", "\u{ffff}", "\"", "'", "#", "- "],
            d(4, 5),
        ),
    ];
    // Every single escape character and every code point in every lexical
    // position.
    v.push(index(kind, "every two-character escape, in 4 contexts".into(), 128 * 4, |i| {
        let c = (i / 4) as u8 as char;
        match i % 4 {
            0 => format!("\"\\{c}\""),
            1 => format!("\"\\{c}"),
            2 => format!("\"a\\{c} b\\{c}41424344\" : x"),
            _ => format!("- \"\\{c}\n  b\""),
        }
        .into_bytes()
    }));
    // Every character in more places, and every pair of characters in some.
    let rare: Vec<char> = (0..0x180u32).chain([0x1680, 0x2000, 0x200b, 0x2028, 0x2029, 0x202f, 0x3000, 0xff01, 0xff1a]).filter_map(char::from_u32).collect();
    let n = (rare.len() * PLACES.len()) as u64;
    v.push(index(kind, format!("{} characters in {} places", rare.len(), PLACES.len()), n, move |i| {
        let c = rare[i as usize / PLACES.len()].to_string();
        PLACES[i as usize % PLACES.len()].replace('\u{1}', &c).into_bytes()
    }));
    let pick = |i: u64| match i {
        0 => '\u{85}',
        1 => '\u{2028}',
        2 => '\u{a0}',
        3 => '\u{e9}',
        4 => '\u{feff}',
        5 => '\u{1f389}',
        6 => '\u{fffe}',
        7 => '\u{0}',
        _ => i as u8 as char,
    };
    v.push(index(kind, format!("pairs of 128 characters in {} places", PAIRED.len()), 128 * 128 * PAIRED.len() as u64, move |i| {
        let (p, i) = (PAIRED[i as usize % PAIRED.len()], i / PAIRED.len() as u64);
        p.replace('\u{1}', &pick(i % 128).to_string()).replace('\u{2}', &pick(i / 128).to_string()).into_bytes()
    }));
    if thorough {
        v.push(stretched(kind, &[2, 3, 8, 9, 10, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4096], 3, true));
        v.push(stretched(kind, &[8192, 16384, 32767, 32768, 65535, 65536, 65537], 1, false));
        v.push(numbered(kind, &[1, 2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258, 511, 512, 513, 514, 1023, 1024, 1025, 4096, 16_384, 32_768, 65_534, 65_536, 65_540]));
        v.push(nested(kind, &[1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1024]));
    } else {
        let sizes: &[usize] = if scale == 0 { &[9, 64, 128, 256, 1023] } else { &[2, 9, 16, 65, 127, 128, 255, 256, 257, 1023, 1024, 1025] };
        v.push(stretched(kind, sizes, 3 - (scale == 0) as usize, true));
        v.push(stretched(kind, if scale == 0 { &[65536] } else { &[4096, 32768, 65536] }, 1, false));
        let sizes: &[usize] = if scale == 0 { &[9, 17, 130, 258, 514, 65_536] } else { &[1, 2, 3, 8, 9, 10, 16, 17, 18, 32, 33, 34, 64, 66, 128, 130, 256, 257, 258, 514, 1025, 32_768, 65_536] };
        v.push(numbered(kind, sizes));
        v.push(nested(kind, if scale == 0 { &[2, 10, 128, 256] } else { &[1, 2, 9, 10, 16, 64, 127, 128, 129, 254, 255, 256, 257, 512] }));
    }
    v.push(edited(kind, EDIT, false));
    if thorough {
        v.push(edited(kind, &[' ', '\n', ':', '-', ',', ']', 'a', '"', '#', '?', '[', '{', '&', '!'], true));
    } else if scale > 0 {
        v.push(edited(kind, &[' ', '\n', ':', '-', ',', ']', 'a'], true));
    }
    v.push(composed(kind));
    v.push(markers(kind));
    v.push(tree(kind, "lines of directives", &["%TAG !a! x\n", "%TAG !b! y\n", "%TAG !! z\n", "%TAG ! w\n", "%YAML 1.1\n", "--- !a!c d\n", "%YAML 1.2\n"], d(5, 7)));
    let step: u64 = if thorough { 1 } else { 7 };
    let all: Vec<u32> = (0..0x11_0000u32)
        .filter(|c| char::from_u32(*c).is_some())
        .filter(|c| *c < 0x3100 || *c as u64 % step == 0 || (*c & 0xffff) >= 0xfe00 || (*c & 0xffff) < 0x10 || (0xd700..0xe010).contains(c))
        .collect();
    let ctxs = 8u64;
    let n = all.len() as u64 * ctxs;
    v.push(index(
        kind,
        format!("{} code points x {ctxs} lexical positions", all.len()),
        n,
        move |i| {
            let c = char::from_u32(all[(i / ctxs) as usize]).unwrap();
            match i % ctxs {
                0 => format!("{c}"),
                1 => format!("a{c}b: {c}c"),
                2 => format!("\"{c} {c}\n{c}\""),
                3 => format!("'{c} {c}\n{c}': '{c}'"),
                4 => format!("&a{c} b #{c}\n"),
                5 => format!("!a{c} b"),
                6 => format!("- |\n {c}a\n {c}\n- >\n a\n {c}b"),
                _ => format!("%TAG !a! {c}\n--- [{c}, *{c}]"),
            }
            .into_bytes()
        },
    ));
    let uall: u64 = 0x11_0000;
    v.push(index(
        kind,
        format!("numeric escapes \\x, \\u and \\U of every code point (step {step} above U+3100)"),
        uall + 0x10000 + 0x100 + 64,
        move |i| {
            if i < uall {
                let c = i;
                if c >= 0x3100 && c % step != 0 && (c & 0xffff) >= 0x10 && (c & 0xffff) < 0xfff0 && !(0xd7f0..0xe010).contains(&c) {
                    // Covered by its neighbours in this tier: a fixed case.
                    return b"\"\\U00003100\"".to_vec();
                }
                format!("\"\\U{c:08x}\"")
            } else if i < uall + 0x10000 {
                format!("\"\\u{:04X}\"", i - uall)
            } else if i < uall + 0x10100 {
                format!("\"\\x{:02x}\"", i - uall - 0x10000)
            } else {
                let k = i - uall - 0x10100;
                format!("\"\\U{:08x}\"", 0x0010_fff0u64 + k * 0x111_1111)
            }
            .into_bytes()
        },
    ));
    v
}

/// Long inputs, encoded compactly: case bytes are "template;n" and expand()
/// builds the text. Sizes straddle the limits the format or libyaml defines:
/// 1024-character simple keys, 16384-byte buffers, 255/256 nesting.
pub fn expand(case: &[u8]) -> Option<Vec<u8>> {
    let s = std::str::from_utf8(case).ok()?;
    let mut it = s.split(';');
    let t = it.next()?;
    let n: usize = it.next()?.parse().ok()?;
    if n > 300_000 {
        return None;
    }
    let r = |x: &str| x.repeat(n);
    Some(
        match t {
            "key" => format!("{}: v\n", r("k")),
            "key2" => format!("{}: v\n", r("\u{e9}")),
            "key4" => format!("{}: v\n", r("\u{1f389}")),
            "key2b" => format!("a: b\n{} : v\n", r("\u{e9}")),
            "qkey" => format!("\"{}\": v\n", r("k")),
            "qkey2" => format!("'{}': v\n", r("\u{2603}")),
            "fkey" => format!("[{}: v]\n", r("k")),
            "fkey2" => format!("{{{}: v, a: b}}\n", r("\u{e9}")),
            "fqkey" => format!("{{\"{}\": v}}\n", r("k")),
            "jkey" => format!("{{\"{}\":v}}\n", r("k")),
            "akey" => format!("&{} a: v\n", r("k")),
            "lkey" => format!("*{} : v\n", r("k")),
            "tkey" => format!("!{} a: v\n", r("k")),
            "skey" => format!("[{}]: v\n", r("a,")),
            "wkey" => format!("a{}: v\n", r(" ")),
            "plain" => format!("- {}\n- b\n", r("a")),
            "plain2" => format!("- {}\n- b\n", r("\u{e9}")),
            "plain3" => format!("- {}\n- b\n", r("\u{2603}")),
            "plain4" => format!("- {}\n- b\n", r("\u{1f389}")),
            "words" => format!("- {}\n- b\n", r("ab ")),
            "lines" => format!("- {}\n- b\n", r("ab\n  ")),
            "dq" => format!("- \"{}\"\n- b\n", r("a\\n")),
            "dqf" => format!("- \"{}\"\n- b\n", r("a\n ")),
            "sq" => format!("- '{}'\n- b\n", r("''")),
            "lit" => format!("- |\n{}- b\n", r("  ab\n")),
            "fold" => format!("- >\n{}- b\n", r("  ab\n")),
            "litblank" => format!("- |\n{} x\n- b\n", r("\n")),
            "comment" => format!("#{}\na: b\n", r("c")),
            "comment2" => format!("a: b #{}\n", r("\u{e9}")),
            "blank" => format!("{}a: b\n", r("\n")),
            "crlf" => format!("{}a: b\n", r("\r\n")),
            "spaces" => format!("{}a\n", r(" ")),
            "cols" => format!("{0}a: b\n{0}c:\n{0}- d\n", r(" ")),
            "cols2" => format!("{0}- a\n{0}- b: c\n{0} d\n", r(" ")),
            "anchor" => format!("- &{} a\n- b\n", r("x")),
            "tag" => format!("- !{} a\n- b\n", r("x")),
            "seqs" => r("- "),
            "maps" => {
                let mut o = String::new();
                for i in 0..n.min(400) {
                    o.push_str(&" ".repeat(i));
                    o.push_str("a:\n");
                }
                o
            }
            "fseq" => format!("{}{}", r("["), r("]")),
            "fseqo" => r("["),
            "fseqc" => format!("[{}", r("]")),
            "fmap" => format!("{}{}", r("{a: "), r("}")),
            "fmapo" => r("{a: "),
            "fmapk" => format!("{}{}", r("{"), r("}")),
            "qseq" => r("? "),
            "items" => r("- a\n"),
            "pairs" => r("a: b\n"),
            "fitems" => format!("[{}]", r("a, ")),
            "docs" => r("--- a\n"),
            "docs2" => r("--- a\n...\n"),
            "vers" => format!("%YAML {}.1\n--- a\n", r("1")),
            "reserved" => format!("%{} b\n--- a\n", r("X")),
            "prefix" => format!("%TAG !a! {}\n--- !a!b c\n", r("p")),
            "handle" => format!("%TAG !{}! p\n--- !{}!b c\n", r("h"), r("h")),
            "tagdirs" => {
                let mut o = String::new();
                for i in 0..n.min(3000) {
                    o.push_str(&format!("%TAG !h{i}! p{i}\n"));
                }
                o.push_str("--- !h0!x a\n");
                o
            }
            "anchors" => {
                let mut o = String::new();
                for i in 0..n.min(3000) {
                    o.push_str(&format!("- &a{i} x\n- *a{}\n", i / 2));
                }
                o
            }
            _ => return None,
        }
        .into_bytes(),
    )
}

const FAMILIES: &[&str] = &[
    "key", "key2", "key4", "key2b", "qkey", "qkey2", "fkey", "fkey2", "fqkey", "jkey", "akey", "lkey", "tkey", "skey", "wkey", "plain",
    "plain2", "plain3", "plain4", "words", "lines", "dq", "dqf", "sq", "lit", "fold", "litblank", "comment", "comment2",
    "blank", "crlf", "spaces", "cols", "cols2", "anchor", "tag", "seqs", "maps", "fseq", "fseqo", "fseqc", "fmap", "fmapo", "fmapk",
    "qseq", "items", "pairs", "fitems", "docs", "docs2", "vers", "reserved", "prefix", "handle", "tagdirs", "anchors",
];

/// Families whose cost grows with the square of the nesting depth.
const NESTED: &[&str] = &["seqs", "maps", "fseq", "fseqo", "fmap", "fmapo", "fmapk", "qseq", "anchors", "tagdirs"];

pub fn long(kind: &'static str, thorough: bool) -> Scope {
    long_to(kind, thorough, if thorough { usize::MAX } else { 8200 })
}
/// The same with the nested families cut off, for checks that run many
/// variants of every input.
pub fn long_lite(kind: &'static str, thorough: bool) -> Scope {
    long_to(kind, thorough, if thorough { 2100 } else { 600 })
}
fn long_to(kind: &'static str, thorough: bool, nested: usize) -> Scope {
    let mut ns: Vec<usize> = vec![1, 2, 3, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 999, 1000, 1001];
    ns.extend(340..344);
    ns.extend(509..516);
    ns.extend(1017..1030);
    ns.extend([2047, 2048, 2049, 4095, 4096, 4097, 8189, 8190, 8191, 8192, 8193]);
    if thorough {
        ns.extend([16379, 16380, 16381, 16382, 16383, 16384, 16385, 16386, 32768, 49151, 49152, 49153, 65536]);
        ns.extend(5458..5464);
        ns.extend(500..540);
        ns.extend(1000..1060);
    } else {
        ns.extend([16382, 16383, 16384, 16385]);
    }
    ns.sort();
    ns.dedup();
    let mut v = vec![];
    for f in FAMILIES {
        for n in &ns {
            if *n <= nested || !NESTED.contains(f) {
                v.push(format!("{f};{n}").into_bytes());
            }
        }
    }
    list(kind, &format!("{} long-input families x up to {} sizes", FAMILIES.len(), ns.len()), v)
}

/// The input text of a "text" or "long" case.
pub fn input(kind: &str, case: &[u8]) -> Option<Vec<u8>> {
    match kind {
        "text" => Some(case.to_vec()),
        "long" => expand(case),
        _ => None,
    }
}

fn btree(kind: &'static str, name: &str, prefix: &[u8], atoms: &[&[u8]], suffixes: &[&[u8]], depth: usize) -> Scope {
    Scope {
        kind,
        name: format!("{name} (prefix {prefix:02x?}, all sequences of at most {depth} of {} byte atoms, {} endings)", atoms.len(), suffixes.len()),
        gen: Gen::Tree {
            prefix: prefix.to_vec(),
            atoms: atoms.iter().map(|a| a.to_vec()).collect(),
            suffixes: suffixes.iter().map(|a| a.to_vec()).collect(),
            depth,
            filter: None,
        },
    }
}

/// Byte-level spaces: every class of UTF-8 lead and continuation byte, byte
/// order marks, UTF-16 code units including surrogates.
pub fn bytes(kind: &'static str, thorough: bool) -> Vec<Scope> {
    let t = thorough as usize;
    let a: &[&[u8]] = &[
        b"a", b"\n", b" ", b"\x00", b"\x7f", b"\x80", b"\xbf", b"\xc0", b"\xc2", b"\xdf", b"\xe0", b"\xed", b"\xef", b"\xbb", b"\xf0",
        b"\xf4", b"\xf8", b"\xfe", b"\xff", b"\xa0", b"\x90",
    ];
    let le: &[&[u8]] = &[b"a\0", b"\n\0", b"- ", b"\x00\xd8", b"\x3c\xd8", b"\x89\xdf", b"\x00\xdc", b"\xff\xfe", b"\xfe\xff", b"\x00", b"\0\0", b"\xe9\0", b"[\0"];
    let be: &[&[u8]] = &[b"\0a", b"\0\n", b" -", b"\xd8\x00", b"\xd8\x3c", b"\xdf\x89", b"\xdc\x00", b"\xff\xfe", b"\xfe\xff", b"\x00", b"\0\0", b"\0\xe9", b"\0["];
    vec![
        btree(kind, "bytes", b"", a, &[b""], 3 + t),
        btree(kind, "bytes in a scalar", b"- a", &[b"\xc2", b"\xa0", b"\x80", b"\xe2", b"\x98", b"\x83", b"\xf0", b"\x9f", b"\x8e", b"\x89", b"b", b"\xff"], &[b"", b"\nc"], 4 + t),
        btree(kind, "UTF-16LE after a byte order mark", b"\xff\xfe", le, &[b""], 3 + t),
        btree(kind, "UTF-16BE after a byte order mark", b"\xfe\xff", be, &[b""], 3 + t),
        btree(kind, "UTF-8 after a byte order mark", b"\xef\xbb\xbf", &[b"a", b"\xef\xbb\xbf", b"\n", b"- ", b"\xef", b"\xbb", b"\xff", b"\xc3\xa9"], &[b""], 4 + t),
        index(kind, "all byte strings of length 2".into(), 65536, |i| vec![(i >> 8) as u8, i as u8]),
    ]
}
