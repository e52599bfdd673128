use vs::*;
#[unsafe(no_mangle)]
pub extern "C" fn h_smoke() {
    let r = hq::hooq("empty".parse().unwrap(), "fn f() -> R<(), String> { g()?; h() }".parse().unwrap());
    let s = r.to_string();
    log(&s);
    check(s.len() > 3, "nonempty");
}
/// Parts of the standard library that code under test may come to use.
#[unsafe(no_mangle)]
pub extern "C" fn h_std() {
    use std::collections::*;
    let t = crate::u::sym_text(2);
    let s = format!("some::text {t} with::words and a longer tail of characters");
    let n = u8_in(0, 20) as usize;
    let k = choice(32);
    let r: String = match k {
        0 => format!("{}", s.contains("::wo")),
        1 => format!("{:?}", s.find("th")),
        2 => s.split("::").map(|x| x.len().to_string()).collect::<Vec<_>>().join(","),
        3 => s.rsplit(' ').map(str::trim).collect::<Vec<_>>().concat(),
        4 => s.replace("words", &t),
        5 => s.to_lowercase() + &s.to_uppercase(),
        6 => {
            let mut v: Vec<&str> = s.split_whitespace().collect();
            v.sort_unstable_by(|a, b| b.len().cmp(&a.len()).then(a.cmp(b)));
            v.dedup();
            v.join("|")
        }
        7 => {
            let mut m = BTreeMap::new();
            for c in s.chars() { *m.entry(c).or_insert(0usize) += 1; }
            format!("{m:?}")
        }
        8 => {
            let m: BTreeSet<String> = s.split(' ').map(|x| x.to_string()).collect();
            m.into_iter().rev().collect()
        }
        9 => {
            let m: HashSet<&str> = s.split(' ').collect();
            let mut v: Vec<_> = m.iter().collect();
            v.sort();
            format!("{v:?}")
        }
        10 => {
            let mut q: VecDeque<char> = s.chars().collect();
            q.rotate_left(n);
            while q.len() > 20 { q.pop_front(); }
            q.into_iter().collect()
        }
        11 => format!("{:>w$}|{:<w$}|{:^5}|{:04}|{:x}|{:?}", t, "é", 'c', n, n, t, w = n),
        12 => format!("{:?}", t.trim().parse::<usize>()),
        13 => format!("{}", (n * 37 + 1).ilog10()),
        14 => s.char_indices().filter(|(i, _)| i % 3 == 0).map(|(_, c)| c).collect(),
        15 => s.chars().rev().skip(n).step_by(2).take_while(|c| *c != 'x').collect(),
        16 => format!("{:?}", std::path::Path::new(&s).join("a/b.rs").file_name()),
        17 => format!("{:?}", std::path::Path::new("/a/b").join(&t).extension()),
        18 => s.lines().zip(1..).map(|(l, i)| format!("{i}{l}")).collect(),
        19 => format!("{:?}", s.split_once("::").map(|(a, b)| (b.len(), a.to_owned()))),
        20 => format!("{:?}", s.strip_prefix("some").and_then(|x| x.strip_suffix(&t))),
        21 => std::iter::repeat_n(&*t, n).collect::<String>(),
        22 => { let c: std::borrow::Cow<str> = if n > 3 { (&*s).into() } else { t.clone().into() }; c.into_owned() }
        23 => { let c = std::cell::OnceCell::new(); c.get_or_init(|| t.clone()).clone() }
        24 => { let c = std::sync::RwLock::new(t.clone()); c.write().unwrap().push('x'); c.read().unwrap().clone() }
        25 => s.as_bytes().chunks(7).map(|c| c.iter().map(|b| *b as u32).sum::<u32>().to_string()).collect(),
        26 => format!("{:?}", s.bytes().rposition(|b| b == b' ')),
        27 => { let mut v: Vec<String> = s.split(' ').map(String::from).collect(); v.retain(|x| x.len() > 3); v.swap(0, 1); v.drain(..1).collect() }
        28 => format!("{:?}", s.matches(char::is_alphabetic).count()),
        29 => format!("{:?}", s.eq_ignore_ascii_case(&t)),
        30 => { static C: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(3); format!("{}", C.fetch_add(n, std::sync::atomic::Ordering::SeqCst)) }
        _ => { let mut h = BinaryHeap::new(); for b in s.bytes() { h.push(b); } format!("{:?}", h.pop()) }
    };
    log(&format!("{k} {}", r.len()));
    check(!r.is_empty() || k == 10 || k == 15 || k == 21 || n < 99, "nonempty");
    cover(&format!("{k}"));
}
