// Runs the Rust crate for the concrete side of the checks.  Request: one line, fields separated by tabs, strings in
// hexadecimal; answer: one line.  RS_TABLE replaces the dictionary.
use latkerlo_jvotci::*;
use std::io::{BufRead, Write};

fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}

fn list(v: &[String]) -> String {
    v.iter().map(|s| hex(s)).collect::<Vec<_>>().join(",")
}

fn pairs(v: &[[usize; 2]]) -> String {
    v.iter().map(|p| format!("{}-{}", p[0], p[1])).collect::<Vec<_>>().join(",")
}

fn settings(s: &str) -> Settings {
    let v: Vec<u32> = s.split(',').map(|x| x.parse().unwrap()).collect();
    Settings {
        generate_cmevla: v[0] == 1,
        y_hyphens: match v[1] { 0 => YHyphenSetting::Standard, 1 => YHyphenSetting::AllowY, _ => YHyphenSetting::ForceY },
        consonants: match v[2] {
            0 => ConsonantSetting::Cluster,
            1 => ConsonantSetting::TwoConsonants,
            _ => ConsonantSetting::OneConsonant,
        },
        exp_rafsi: v[3] == 1,
        glides: v[4] == 1,
        allow_mz: v[5] == 1,
    }
}

fn fields(s: &Settings) -> String {
    format!("{},{},{},{},{},{}", s.generate_cmevla as u32, s.y_hyphens as u32, s.consonants as u32, s.exp_rafsi as u32,
            s.glides as u32, s.allow_mz as u32)
}

fn error<E: std::fmt::Debug>(e: E) -> String {
    let s = format!("{e:?}");
    format!("err\t{}", s.split('(').next().unwrap())
}

fn answer(q: &[&str]) -> String {
    let set = if q.len() > 1 && !q[1].is_empty() { settings(q[1]) } else { Settings::default() };
    let a: Vec<String> = q[2..].iter().map(|x| unhex(x)).collect();
    match q[0] {
        "get_lujvo" => match get_lujvo(&a[0], &set) { Ok(s) => format!("ok\t{}", hex(&s)), Err(e) => error(e) },
        "get_lujvo_with_analytics" => match get_lujvo_with_analytics(&a[0], &set) {
            Ok((s, n, p)) => format!("ok\t{}\t{}\t{}", hex(&s), n, pairs(&p)),
            Err(e) => error(e),
        },
        "get_lujvo_from_list" => match jvozba::get_lujvo_from_list(&a, &set) {
            Ok((s, n, p)) => format!("ok\t{}\t{}\t{}", hex(&s), n, pairs(&p)),
            Err(e) => error(e),
        },
        "get_veljvo" => match get_veljvo(&a[0], &set) { Ok(v) => format!("ok\t{}\t{}", v.len(), list(&v)), Err(e) => error(e) },
        "score_lujvo" => match score_lujvo(&a[0], &set) { Ok(n) => format!("ok\t{n}"), Err(e) => error(e) },
        "is_brivla" => format!("ok\t{}", is_brivla(&a[0], &set) as u32),
        "analyze_brivla" => match analyze_brivla(&a[0], &set) {
            Ok((t, v)) => format!("ok\t{t:?}\t{}\t{}", v.len(), list(&v)),
            Err(e) => error(e),
        },
        "normalize" => format!("ok\t{}", hex(&normalize(&a[0]))),
        "get_rafsi_indices" => {
            let v: Vec<&str> = a.iter().map(String::as_str).collect();
            format!("ok\t{}", pairs(&tools::get_rafsi_indices(&v)))
        }
        "show" => format!("ok\t{}", hex(&set.to_string())),
        "parse" => match a[0].parse::<Settings>() { Ok(s) => format!("ok\t{}", fields(&s)), Err(_) => "err\tSettingsError".into() },
        "apply_flags" => {
            let mut s = set;
            match s.apply_flags(&a[0]) {
                Some(()) => format!("ok\t{}", fields(&s)),
                None => format!("none\t{}", fields(&s)),
            }
        }
        "all_settings" => format!("ok\t{}", SETTINGS_ITERATOR.iter().map(fields).collect::<Vec<_>>().join(";")),
        _ => "err\tunknown request".into(),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let q: Vec<&str> = line.split('\t').collect();
        let r = std::panic::catch_unwind(|| answer(&q)).unwrap_or_else(|_| "err\tpanic".into());
        let mut o = out.lock();
        writeln!(o, "{r}").unwrap();
        o.flush().unwrap();
    }
}
