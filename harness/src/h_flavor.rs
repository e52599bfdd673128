//! Flavors: names, presets, hooq.toml.
use crate::flav::*;
use crate::model::*;
use crate::u::*;
use vs::*;

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
/// A flavor that differs from all others in every setting.
fn unlike(n: &str, k: usize) -> Tb {
    let mut t = tb(n);
    t.method = Some(format!(".{n}{k}($nth, $source, $lv)"));
    t.targets = Some(vec![["?", "return", "tail_expr"][k % 3]]);
    t.binds = vec![("lv".into(), format!("{k} + 1"))];
    t
}
fn names_toml() -> Vec<Tb> {
    let mut a = unlike("a", 0);
    let mut b = unlike("b", 1);
    b.subs.push(unlike("c", 2));
    a.subs.push(b);
    a.subs.push(unlike("x1", 3));
    vec![a, unlike("ab", 4), unlike("b_c", 5)]
}
fn env0() -> Env {
    let mut e = Env::default();
    e.add("Q0", "Zed".into());
    e
}
fn expect_flavor(attr: Ts, path: &[S], v: &[Fl], e: &Env) -> bool {
    let i = probe_fn(vec![]);
    match find(v, path) {
        Some(f) => {
            run_flavor(attr, &f.traits, &i, &f.cx, e, "a flavor name selects exactly the flavor of that path");
            true
        }
        None => {
            run_err(attr, &i, e, &not_found(path, v), "an unknown flavor is an error naming it and all there are");
            false
        }
    }
}
/// `#[hooq(<path>)]` for every path of one to three short names.
#[unsafe(no_mangle)]
pub extern "C" fn h_flavor_path() {
    let t = names_toml();
    let e = env0();
    use_toml(&t, &e);
    let v = store(&t, &e);
    let n = choice(3) as usize + 1;
    let mut path = vec![];
    for _ in 0..n {
        let s = sym_ident(choice(3) as usize + 1);
        for k in ["as", "if", "in", "fn", "do", "let", "for", "mut", "mod", "pub", "ref", "use", "box", "dyn", "try"] {
            if k.len() == s.len() {
                assume(s != k);
            }
        }
        path.push(s);
    }
    let mut toks = vec![];
    for (i, p) in path.iter().enumerate() {
        if i > 0 {
            toks.extend(ts("::"));
        }
        toks.push(proc_macro2::TokenTree::Ident(ident(p)));
    }
    let found = expect_flavor(toks.into_iter().collect(), &path, &v, &e);
    cover(if found { ["one", "two", "three"][n - 1] } else { ["not one", "not two", "not three"][n - 1] });
}
fn text_flavor(n: usize) {
    let t = names_toml();
    let mut e = env0();
    let s = sym_text(n);
    assume(!s.as_bytes().contains(&b'\''));
    e.add("Zz9", s.clone());
    use_toml(&t, &e);
    let v = store(&t, &e);
    let b = s.as_bytes();
    let (mut path, mut cur, mut i) = (vec![], vec![], 0);
    while i < b.len() {
        if b[i] == b'.' {
            path.push(std::mem::take(&mut cur));
        } else if b[i] == b':' && i + 1 < b.len() && b[i + 1] == b':' {
            path.push(std::mem::take(&mut cur));
            i += 1;
        } else {
            cur.push(b[i]);
        }
        i += 1;
    }
    path.push(cur);
    let path: Vec<S> = path.into_iter().map(|p| unsafe { S::from_utf8_unchecked(p) }).collect();
    let attr = e.subst(ts("flavor = \"Zz9\""));
    if path.iter().any(|p| p.is_empty()) {
        run_err(attr, &probe_fn(vec![]), &e, "flavor names must not include empty one", "an empty name in a flavor path is an error");
        cover("empty name");
        return;
    }
    let found = expect_flavor(attr, &path, &v, &e);
    cover(match (found, path.len()) {
        (true, 1) => "one",
        (true, _) => "more",
        (false, 1) => "not one",
        _ => "not more",
    });
}
/// `flavor = "<any text>"` of up to four characters.
#[unsafe(no_mangle)]
pub extern "C" fn h_flavor_text() {
    text_flavor(choice(5) as usize);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_flavor_text_all() {
    text_flavor(choice(7) as usize);
}
/// Preset names: every one, one letter replaced by any other character.
#[unsafe(no_mangle)]
pub extern "C" fn h_flavor_near() {
    let e = env0();
    set_toml("proj", None);
    let v = presets();
    let all = names(&v);
    let n = choice(all.len() as u8) as usize;
    let mut b = all[n].clone().into_bytes();
    let at = concretize(usize_in(0, b.len() - 1));
    let c = u8_in(0x21, 0x7e);
    assume((c != b'"') & (c != b'\\') & (c != b'\'') & (c != b'.') & (c != b':'));
    if b[at] != b':' {
        b[at] = c;
    }
    let s = unsafe { S::from_utf8_unchecked(b) };
    let mut e2 = e.clone();
    e2.add("Zz9", s.clone());
    let path: Vec<S> = s.split("::").map(|x| x.to_string()).collect();
    let found = expect_flavor(e2.subst(ts("flavor = \"Zz9\"")), &path, &v, &e2);
    cover(if found { "found" } else { "not found" });
}
/// Flavor names with something that is not a name.
#[unsafe(no_mangle)]
pub extern "C" fn h_flavor_form() {
    let t = names_toml();
    let e = env0();
    use_toml(&t, &e);
    let v = store(&t, &e);
    let f: &[(&str, Result<&[&str], &str>)] = &[
        ("", Ok(&["default"])),
        ("::a", Ok(&["a"])),
        ("::a::b", Ok(&["a", "b"])),
        ("a::b", Ok(&["a", "b"])),
        ("a::b::c", Ok(&["a", "b", "c"])),
        ("flavor = \"a.b::c\"", Ok(&["a", "b", "c"])),
        ("flavor = r\"a.b\"", Ok(&["a", "b"])),
        ("flavor = r#\"a::b.c\"#", Ok(&["a", "b", "c"])),
        ("a,", Ok(&["a"])),
        ("r#a", Ok(&["r#a"])),
        ("crate::a", Ok(&["crate", "a"])),
        ("a::<u8>", Err("")),
        ("a::<u8>::b", Err("")),
        ("a(u8)", Err("")),
        ("Fn::(u8)", Err("")),
        ("a b", Err("")),
        ("a; b", Err("")),
        ("a.b", Err("")),
        ("a::", Err("")),
        ("\"a\"", Err("")),
        ("1", Err("")),
        ("flavor = a", Err("")),
        ("flavor = 'a'", Err("")),
        ("flavor = b\"a\"", Err("")),
        ("flavor = \"a\" + \"b\"", Err("")),
        ("flavor = \"\"", Err("flavor names must not include empty one")),
        ("flavor = \"a.\"", Err("flavor names must not include empty one")),
        ("flavor", Ok(&["flavor"])),
        ("flavor =", Err("")),
        ("x::flavor = \"a\"", Err("")),
        (",", Err("")),
        ("a,,b", Err("")),
        ("unsafe(a)", Err("")),
    ];
    let (src, want) = f[choice(f.len() as u8) as usize];
    match want {
        Ok(p) => {
            expect_flavor(ts(src), &strs(p), &v, &e);
        }
        Err("") => expect_any_err(&hooq(ts(src), e.subst(ts(&isrc(&probe_fn(vec![]))))), "anything but a flavor name is an error"),
        Err(m) => run_err(ts(src), &probe_fn(vec![]), &e, m, "a malformed flavor name is an error"),
    }
    cover(src);
}

// ---- hooq.toml -----------------------------------------------------------------
/// Field `f` of table `t`, with a value of level `k`.
fn set_field(t: &mut Tb, f: u8, k: usize) {
    match f {
        0 => t.traits = Some(match k {
            0 => strs(&["a::Tr", "::b::Tr"]),
            1 => vec![],
            _ => strs(&["Tc"]),
        }),
        1 => t.method = Some([".m0($nth, $v)", "m1($expr, $source)", ".m2($fn_name)"][k].into()),
        2 => t.targets = Some([vec!["?"], vec![], vec!["return", "tail_expr"]][k].clone()),
        3 => t.idents = Some([strs(&["Q0"]), vec![], strs(&["Q0", "Q1"])][k].clone()),
        4 => t.ignore = Some([strs(&["Q0"]), vec![], strs(&["Ok", "Q1"])][k].clone()),
        5 => t.results = Some([strs(&["Rt"]), vec![], strs(&["Q1", "Rt"])][k].clone()),
        6 => t.macros = Some(k == 1),
        7 => t.binds = vec![("v".into(), ["10", "\"s\".len()", "[1, 2]"][k].into()), (["w", "x", "w"][k].into(), "0".into())],
        _ => t.idents = Some([strs(&["!Q0"]), strs(&["Q1", "!Q0"]), strs(&["!Q1", "!Q0"])][k].clone()),
    }
}
fn tenv() -> Env {
    let mut e = Env::default();
    e.add("Q0", sym_name("Z", 1));
    e.add("Q1", sym_name("Z", 1));
    e
}
fn base_method(t: &mut Tb) {
    if t.method.is_none() {
        t.method = Some(".m($nth, $v)".into());
    }
    if !t.binds.iter().any(|b| b.0 == "v") {
        t.binds.push(("v".into(), "1".into()));
    }
}
const FMSG: &str = "a flavor has its own settings, and its parent's where it has none";
/// One setting, set or not on each of three levels, over four bases.
#[unsafe(no_mangle)]
pub extern "C" fn h_toml_fields() {
    let (f, base, mask) = (choice(9), choice(5), choice(8));
    let e = tenv();
    let mut lv = [tb("fa"), tb("fb"), tb("fc")];
    match base {
        1 => lv[0].name = "default".into(),
        2 => lv[0].name = "log".into(),
        3 => {
            lv[0].name = "tracing".into();
            lv[1].name = "warn".into();
        }
        4 => lv[0].name = "anyhow".into(),
        _ => {}
    }
    base_method(&mut lv[0]);
    for (k, t) in lv.iter_mut().enumerate() {
        if mask & (1 << k) != 0 {
            set_field(t, f, k);
        }
    }
    if f == 7 {
        base_method(&mut lv[0]);
    }
    let [mut a, mut b, c] = lv;
    let path: Vec<S> = [&a.name, &b.name, &c.name].iter().map(|s| s.to_string()).collect();
    let n = choice(3) as usize + 1;
    b.subs.push(c);
    a.subs.push(b);
    let t = vec![a];
    use_toml(&t, &e);
    let v = store(&t, &e);
    let fl = find(&v, &path[..n]).unwrap();
    run_flavor(ts(&path[..n].join("::")), &fl.traits, &probe_fn(vec![]), &fl.cx, &e, FMSG);
    cover(["traits", "method", "targets", "idents", "ignore", "results", "macros", "bindings", "idents with !"][f as usize]);
}
/// Two settings on different tables at once; flavors beside them.
#[unsafe(no_mangle)]
pub extern "C" fn h_toml_two() {
    let (f, g, k) = (choice(9), choice(9), choice(4));
    let e = tenv();
    let (mut a, mut b, mut s, mut d) = (tb("fa"), tb("fb"), tb("fs"), tb("default"));
    base_method(&mut a);
    base_method(&mut d);
    set_field(&mut a, f, 0);
    set_field(&mut s, g, 1);
    set_field(&mut b, g, 2);
    set_field(&mut d, f, 1);
    base_method(&mut a);
    base_method(&mut b);
    base_method(&mut d);
    a.subs.push(s);
    let t = vec![b, a, d];
    use_toml(&t, &e);
    let v = store(&t, &e);
    let path: &[&str] = [&["fa"][..], &["fb"], &["fa", "fs"], &["default"]][k as usize];
    let fl = find(&v, &strs(path)).unwrap();
    run_flavor(ts(if k == 3 { "".into() } else { path.join("::") }.as_str()), &fl.traits, &probe_fn(vec![]), &fl.cx, &e, FMSG);
    cover(path[path.len() - 1]);
}
/// Two settings in one table, over one that has the second.
#[unsafe(no_mangle)]
pub extern "C" fn h_toml_pair() {
    let (f, g) = (choice(9), choice(9));
    let e = tenv();
    let (mut a, mut s) = (tb("fa"), tb("fs"));
    let sub = flag();
    let k = choice(3) as usize;
    if sub {
        set_field(&mut a, g, 1);
    }
    let t = if sub { &mut s } else { &mut a };
    set_field(t, f, k);
    if !(matches!((f, g), (3, 8) | (8, 3)) || f == g) {
        set_field(t, g, 2 - k);
    }
    base_method(&mut a);
    if s.binds.len() == 2 {
        base_method(&mut s);
    }
    if sub {
        a.subs.push(s);
    }
    let t = vec![a];
    use_toml(&t, &e);
    let v = store(&t, &e);
    let path = strs(if sub { &["fa", "fs"] } else { &["fa"] });
    let fl = find(&v, &path).unwrap();
    run_flavor(ts(&path.join("::")), &fl.traits, &probe_fn(vec![]), &fl.cx, &e, FMSG);
    cover(["traits", "method", "targets", "idents", "ignore", "results", "macros", "bindings", "idents with !"][f as usize]);
}
/// Any names: which of them coincide decides what overrides what.
fn toml_names(sub: bool) {
    let mut e = env0();
    for (p, top) in [("F0", true), ("F1", true), ("F2", false), ("F3", false), ("F4", true), ("F5", false)] {
        e.add(p, if top == sub { format!("z{}", &p[..1]) } else { sym_name("z", 1) });
    }
    e.add("V6", sym_name("v", 1));
    let dup = !sub && e.get("F0") == e.get("F1");
    if sub {
        e.0.retain(|x| x.0 != "F1");
        e.add("F1", "zz".into());
    }
    let (mut a, mut b, mut c, mut d) = (tb("F0"), tb("F1"), tb("F2"), tb("F3"));
    a.method = Some(".ma($nth, $va, $vb)".into());
    a.binds = vec![("va".into(), "1".into()), ("vb".into(), "1".into())];
    b.method = Some(".mb($nth, $bindings)".into());
    b.targets = Some(vec!["?"]);
    c.method = Some(".mc($nth, $va, $vb)".into());
    d.targets = Some(vec!["return"]);
    d.binds = vec![("V6".into(), "3".into())];
    d.btable = flag();
    let mut same = false;
    if sub {
        same = e.get("F2") == e.get("F3");
        a.subs = vec![c, d];
    } else {
        b.subs.push(d);
        a.subs.push(c);
    }
    let t = if flag() { vec![a, b] } else { vec![b, a] };
    use_toml(&t, &e);
    let mut path = vec![e.get("F4")];
    if sub {
        path.push(e.get("F5"));
    }
    let attr = e.subst(ts(if sub { "flavor = \"F4.F5\"" } else { "flavor = \"F4\"" }));
    let i = probe_fn(vec![]);
    if dup || same {
        expect_prefix(&hooq(attr, e.subst(ts(&isrc(&i)))), "failed to load hooq.toml: failed to parse toml from file `", "two tables of one name are an error");
        cover("twice");
        return;
    }
    let mut v = store(&t, &e);
    fn ren(v: &mut [Fl], e: &Env) {
        for f in v {
            f.name = e.get(&f.name);
            ren(&mut f.subs, e);
        }
    }
    ren(&mut v, &e);
    match find(&v, &path) {
        Some(f) => {
            run_flavor(attr, &f.traits, &i, &f.cx, &e, "a table defines the flavor of its name and no other");
            cover(if sub { "sub flavor" } else { "flavor" });
        }
        None => {
            run_err(attr, &i, &e, &not_found(&path, &v), "a name that no table has is not found");
            cover("not found");
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_toml_names() {
    toml_names(true);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_toml_names_top() {
    toml_names(false);
}
fn expect_prefix(got: &Ts, want: &str, msg: &str) {
    if !is_symbolic() && std::env::var_os("VSYM_SHOW").is_some() {
        println!("GOT  {got}\nWANT error {want}…");
    }
    match err_lit(got) {
        Some(l) => {
            let w = proc_macro2::Literal::string(want).to_string();
            let w = &w.as_bytes()[..w.len() - 1];
            check_same(&l.as_bytes()[..l.len().min(w.len())], w, msg)
        }
        None => check(false, msg),
    }
}
/// Mistakes in hooq.toml.
#[unsafe(no_mangle)]
pub extern "C" fn h_toml_bad() {
    let e = env0();
    const T: &str = "failed to parse toml from file `";
    const B: &[(&str, &str)] = &[
        ("[empty]\nmethod = '.x()'", "special flavor `empty` can't be overridden"),
        ("[empty]", "special flavor `empty` can't be overridden"),
        ("[other]\n[empty.sub]", "special flavor `empty` can't be overridden"),
        ("[\"\"]", "flavor name must not be empty"),
        ("[a.\"\"]\nmethod = '.x()'", "flavor name must not be empty"),
        ("[a]\ntrait_uses = ['a b']", "failed to parse trait_uses: "),
        ("[a]\ntrait_uses = ['a::T', '']", "failed to parse trait_uses: "),
        ("[a]\ntrait_uses = ['1']", "failed to parse trait_uses: "),
        ("[a]\nmethod = '.x('", "failed to parse method: "),
        ("[a]\nmethod = '\"x'", "failed to parse method: "),
        ("[a]\nmethod = '.x(]'", "failed to parse method: "),
        ("[a]\nbindings = { v = '1 +' }", "failed to parse bindings: "),
        ("[a]\nbindings = { v = '' }", "failed to parse bindings: "),
        ("[a.b.bindings]\nv = 'let'", "failed to parse bindings: "),
        ("[a]\nhook_targets = ['?', 'tail']", "invalid hook_targets value. got: tail\nexpected: \"?\", \"return\", \"tail_expr\""),
        ("[a]\nhook_targets = ['']", "invalid hook_targets value. got: \nexpected: \"?\", \"return\", \"tail_expr\""),
        ("[a", T),
        ("a = 1", T),
        ("method = '.x()'", T),
        ("[a]\nmethod = 1", T),
        ("[a]\nmethod = ['.x()']", T),
        ("[a]\nhook_targets = '?'", T),
        ("[a]\nhook_targets = [1]", T),
        ("[a]\nhook_in_macros = 'true'", T),
        ("[a]\nhook_in_macros = 1", T),
        ("[a]\nbindings = { v = 1 }", T),
        ("[a]\nbindings = ['v']", T),
        ("[a]\nresult_types = 'R'", T),
        ("[a]\ntail_expr_idents = 1", T),
        ("[a]\nignore_tail_expr_idents = true", T),
        ("[a]\nunknown = 1", T),
        ("[a]\nunknown = 'x'", T),
        ("[a]\nmethod = '.x()'\nmethod = '.y()'", T),
        ("[a]\n[a]", T),
        ("[[a]]", T),
        ("[a]\nx = [{}]", T),
    ];
    let i = choice(B.len() as u8) as usize;
    let how = choice(3);
    let (body, want) = B[i];
    let text = match how {
        0 => body.to_string(),
        1 => format!("# first\n{body}\n"),
        _ => format!("{body}\n[zz]\nhook_in_macros = true\n[zz.y]\n"),
    };
    set_toml("proj", Some(&text));
    let attr = ["", "empty", "zz::y", "trait_use(A), hook"][choice(4) as usize];
    let inert = choice(2) == 1;
    let it = probe_fn(vec![]);
    let got = hooq(ts(attr), e.subst(ts(&isrc(&it))));
    let _ = inert;
    expect_prefix(&got, &format!("failed to load hooq.toml: {want}"), "a mistake in hooq.toml is reported, whatever flavor is asked for");
    cover(&body.replace('\n', " / "));
}
fn toml_target(n: usize) {
    let mut e = env0();
    let s = sym_text(n);
    assume(!s.as_bytes().contains(&b'\''));
    e.add("Zz9", s.clone());
    let known = match &s[..] {
        "?" | "question" => Some("?"),
        "return" => Some("return"),
        "tail_expr" | "tail expr" | "tailexpr" | "tailExpr" => Some("tail_expr"),
        "all" => Some("all"),
        _ => None,
    };
    set_toml("proj", Some(&e.text("[fa]\nmethod = '.m($nth)'\nhook_targets = ['Zz9']")));
    match known {
        Some(k) => {
            let mut t = tb("fa");
            t.method = Some(".m($nth)".into());
            t.targets = Some(vec![k]);
            let v = store(&[t], &e);
            let f = find(&v, &strs(&["fa"])).unwrap();
            run_flavor(ts("fa"), &f.traits, &probe_fn(vec![]), &f.cx, &e, "hook_targets in hooq.toml takes the documented spellings");
            cover("known");
        }
        None => {
            run_err(
                ts("fa"),
                &probe_fn(vec![]),
                &e,
                &format!("failed to load hooq.toml: invalid hook_targets value. got: {s}\nexpected: \"?\", \"return\", \"tail_expr\""),
                "any other text in hook_targets is an error naming it",
            );
            cover("unknown");
        }
    }
}
/// Any text as a target in hooq.toml.
#[unsafe(no_mangle)]
pub extern "C" fn h_toml_target() {
    toml_target(choice(10) as usize);
}

/// Whether the bytes are UTF-8 (The Unicode Standard, table 3-7).
fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0..=0x7f => (0, 0, 0),
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xe1..=0xef => (2, 0x80, 0xbf),
            0xf0 => (3, 0x90, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            _ => return false,
        };
        for k in 1..=n {
            let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xbf) };
            if i + k >= b.len() || b[i + k] < l || b[i + k] > h {
                return false;
            }
        }
        i += n + 1;
    }
    true
}
/// A file that cannot be read as text.
fn toml_file(n: usize) {
    let e = env0();
    let bad = |m: &str| {
        let got = hooq(ts(["fa", "empty", ""][choice(3) as usize]), e.subst(ts(&isrc(&probe_fn(vec![])))));
        expect_prefix(&got, "failed to load hooq.toml: failed to ", m);
    };
    if flag() {
        set_toml_dir("proj");
        bad("a hooq.toml that cannot be read is reported");
        return cover("unreadable");
    }
    let b: Vec<u8> = (0..n).map(|_| u8_in(0, 255)).collect();
    for c in &b {
        assume(*c != b'\n' && *c != b'\r');
    }
    set_toml_bytes("proj", &[b"# ", &b[..], b"\n[fa]\nmethod = '.m()'\n"].concat());
    if !utf8(&b) {
        bad("a hooq.toml that is not UTF-8 is reported");
        cover("not UTF-8");
    } else if b.iter().any(|c| (*c < 0x20 && *c != b'\t') || *c == 0x7f) {
        bad("control characters in hooq.toml are reported");
        cover("control");
    } else {
        let mut t = tb("fa");
        t.method = Some(".m()".into());
        let v = store(&[t], &e);
        let f = find(&v, &strs(&["fa"])).unwrap();
        run_flavor(ts("fa"), &f.traits, &probe_fn(vec![]), &f.cx, &e, "comments in hooq.toml mean nothing");
        cover("text");
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_toml_file() {
    toml_file(choice(3) as usize);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_toml_file3() {
    toml_file(3);
}
