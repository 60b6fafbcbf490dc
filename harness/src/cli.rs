use crate::fw::{self, Prop};

/// `run <ID> [law]`, `replay <file>`, `list`
pub fn main(table: &[(&'static str, fn() -> Prop)]) {
    fw::install_panic_hook();
    let get = |id: &str| table.iter().find(|(i, _)| *i == id).map(|(_, f)| f());
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    if a.get(1).map(|s| s.as_str()) == Some("run") && std::env::var_os("KV_CHILD").is_none() {
        std::process::exit(supervise(&a));
    }
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let id = a.get(2).expect("property id");
            match get(id) {
                Some(p) => fw::run_prop(p, &tier, seed, a.get(3).map(|s| s.as_str())),
                None => {
                    eprintln!("unknown property {id}");
                    2
                }
            }
        }
        Some("replay") => {
            let f = a.get(2).expect("file");
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).expect("read")).expect("json");
            let id = v["property"].as_str().unwrap();
            let p = get(id).expect("property");
            let l = p.laws.iter().find(|l| v["law"] == l.name).expect("law");
            match (l.replay)(&v["value"]) {
                Ok(Ok(o)) => {
                    println!("holds: {o:?}");
                    0
                }
                Ok(Err(e)) => {
                    println!("[{}] {}", e.sig, e.msg);
                    println!("VIOLATION property={id} replay={f}");
                    1
                }
                Err(e) => {
                    eprintln!("{e}");
                    2
                }
            }
        }
        Some("list") => {
            for (id, f) in table {
                println!("{} {}", id, f().laws.iter().map(|l| l.name).collect::<Vec<_>>().join(" "));
            }
            0
        }
        _ => {
            eprintln!("usage: run <ID> [law] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}

/// Runs the check in a child process so that an abort of the code under test (stack overflow, double
/// panic, allocation failure) is reported with the input that caused it.
fn supervise(a: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("exe");
    let child = |args: &[String], trace: Option<&std::path::Path>, quiet: bool| {
        let mut c = std::process::Command::new(&exe);
        c.args(args).env("KV_CHILD", "1");
        if let Some(t) = trace {
            c.env("KV_TRACE", t);
        }
        if quiet {
            c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        }
        c.status().expect("spawn")
    };
    let st = child(&a[1..], None, false);
    let crashed = |s: &std::process::ExitStatus| matches!(s.signal(), Some(4 | 6 | 7 | 8 | 11));
    if !crashed(&st) {
        return st.code().unwrap_or(3);
    }
    let id = a[2].clone();
    let dir = fw::verif_dir().join("replays").join(format!("{id}-crash"));
    std::fs::remove_dir_all(&dir).ok();
    std::fs::create_dir_all(&dir).expect("replays");
    child(&a[1..], Some(&dir), true);
    let mut files: Vec<_> = std::fs::read_dir(&dir).expect("replays").flatten().map(|e| e.path()).collect();
    files.sort();
    for f in files {
        let Ok(s) = std::fs::read_to_string(&f) else { continue };
        let Ok(mut v) = serde_json::from_str::<serde_json::Value>(&s) else { continue };
        v["property"] = id.clone().into();
        v["message"] = format!("the process ended with signal {:?}", st.signal()).into();
        std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap()).ok();
        let args = vec!["replay".to_string(), f.display().to_string()];
        if crashed(&child(&args, None, true)) {
            println!("law {} broken: the process ended with signal {:?}", v["law"], st.signal());
            println!("VIOLATION property={id} replay={}", f.display());
            return 1;
        }
        std::fs::remove_file(&f).ok();
    }
    println!("INCONCLUSIVE: the check ended with signal {:?} and the input was not found again", st.signal());
    3
}
