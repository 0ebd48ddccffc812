mod alloc;
mod behave;
mod corpus;
mod cx;
mod large;
mod oracle;
mod props;
mod samples;
mod sched;
mod stock;
mod sut;
mod watch;

use std::process::{exit, Command};
use std::time::Duration;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

pub struct Meta {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&cx::Cx),
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let thorough = args.iter().any(|a| a == "--thorough") || (tier == "thorough" && !args.iter().any(|a| a == "--quick"));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if id == "selftest" {
        props::selftest::run();
        return;
    }
    if id == "one" {
        sut::install_hook();
        props::c01::one(&args[2..]);
        return;
    }
    if id == "compile" {
        // mc compile 50|51 <flush> <file> [strip]: the generator's output for a program on stdin
        let (v, flush) = (if args[2] == "50" { model::ops::Ver::L50 } else { model::ops::Ver::L51 }, args[3].parse().unwrap());
        let s = sut::Sets::flush(flush, 50);
        let src = std::io::read_to_string(std::io::stdin()).unwrap();
        let mut p = model::gen::comp(&model::parse::parse(&src), v, s.input(v)).unwrap();
        if args.get(5).is_some() {
            p = props::util::Strip::ALL.apply(&p);
        }
        std::fs::write(&args[4], model::chunk::write(v, &model::chunk::Fmt::NATIVE, s.input(v), &p)).unwrap();
        return;
    }
    if id == "seq" {
        sut::install_hook();
        props::c21::seq(&args[2..]);
        return;
    }
    if id == "near" {
        sut::install_hook();
        props::c21::near_child(&args[2..]);
        return;
    }
    let Some(meta) = props::all().into_iter().find(|m| m.id == id) else {
        eprintln!("unknown property {id}");
        exit(2)
    };
    if let Ok(path) = std::env::var("VP_WATCH") {
        // worker process
        watch::attach(&path);
        watch::limit_memory(24 << 30);
        watch::spawn_watchdog(Duration::from_secs(20));
        sut::install_hook();
        let cx = cx::Cx::new(meta.id, thorough, seed);
        (meta.run)(&cx);
        exit(cx.finish(&meta));
    }
    // supervising process
    let dir = std::env::temp_dir().join(format!("vp-mc-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let file = dir.join("watch");
    std::fs::File::create(&file).and_then(|f| f.set_len((watch::SLOTS * watch::SLOT) as u64)).expect("watch file");
    let st = Command::new(std::env::current_exe().unwrap()).args(&args[1..]).env("VP_WATCH", &file).status().expect("worker");
    let pending = watch::pending(&file.to_string_lossy());
    let _ = std::fs::remove_dir_all(&dir);
    use std::os::unix::process::ExitStatusExt;
    let sig = st.signal();
    let died = matches!(sig, Some(6) | Some(11) | Some(7)) || st.code() == Some(watch::HANG);
    if died && !pending.is_empty() {
        let why = if st.code() == Some(watch::HANG) {
            "a conversion did not end within 20 s".to_string()
        } else {
            format!("the process died with signal {} during a conversion (stack overflow, abort or memory exhaustion)", sig.unwrap())
        };
        let cx = cx::Cx::new(meta.id, thorough, seed);
        let mut t = format!("property: {id}\nwhat: {why}\nconversions under way:\n");
        for (d, p) in &pending {
            t += &format!("{d}\ninput ({} bytes): {}\n", p.len(), cx::hex(&p[..p.len().min(20000)]));
        }
        cx.eval();
        cx.violation(0, "process".into(), why, t);
        exit(cx.finish(&meta));
    }
    match st.code() {
        Some(c) => exit(c),
        None => exit(3),
    }
}
