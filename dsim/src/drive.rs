//! Orchestration: workers, seeds, minimisation, replay files, evidence.
use crate::rt::{self, cstr, RunResult, Sp};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::time::{Duration, Instant};

pub type Workload = fn();

fn shm<T>() -> *mut T {
    unsafe {
        let p = libc::mmap(
            core::ptr::null_mut(),
            core::mem::size_of::<T>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut T
    }
}

/// Resets the parts of the shared result that are read back (the big arrays are length-delimited).
fn reset(r: *mut RunResult, keep_streams: bool) {
    unsafe {
        let (w, s, f, fine) = ((*r).n_w, (*r).n_s, (*r).n_f, (*r).fine);
        let head = core::mem::offset_of!(RunResult, st);
        core::ptr::write_bytes(r as *mut u8, 0, head);
        (*r).loglen = 0;
        if keep_streams {
            (*r).n_w = w;
            (*r).n_s = s;
            (*r).n_f = f;
            (*r).fine = fine;
        }
    }
}

const WALL_MS: u64 = 30_000;

/// Runs one execution in a forked child and fills in crash outcomes.
fn exec(r: *mut RunResult, f: Workload) {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            if std::env::var_os("DSIM_STDERR").is_none() {
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
                libc::dup2(n, 2);
            }
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // CPU-time backstop for loops the simulator cannot see
            let it = libc::itimerval { it_interval: core::mem::zeroed(), it_value: libc::timeval { tv_sec: (WALL_MS / 1000) as i64, tv_usec: 0 } };
            extern "C" {
                fn setitimer(which: libc::c_int, n: *const libc::itimerval, o: *mut libc::itimerval) -> libc::c_int;
            }
            setitimer(2, &it, core::ptr::null_mut());
            rt::run_child(r, f);
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if (*r).status == 0 {
            let (cls, msg) = if libc::WIFSIGNALED(st) {
                let sig = libc::WTERMSIG(st);
                if sig == libc::SIGPROF {
                    ("hang".to_string(), "the run did not finish".to_string())
                } else {
                    (format!("crash-signal-{sig}"), format!("the process died of signal {sig}"))
                }
            } else {
                ("died".to_string(), format!("the process ended early (status {st:#x})"))
            };
            put(&mut (*r).cls, &cls);
            put(&mut (*r).msg, &msg);
            (*r).status = 2;
        }
    }
}
fn put(d: &mut [u8], s: &str) {
    let n = s.len().min(d.len() - 1);
    d[..n].copy_from_slice(&s.as_bytes()[..n]);
    d[n] = 0;
}

#[derive(Clone, Default)]
pub struct Streams {
    pub seed: u64,
    pub fine: u32,
    pub w: Vec<u32>,
    pub s: Vec<Sp>,
    pub f: Vec<Sp>,
}
impl Streams {
    fn take(r: *const RunResult) -> Self {
        unsafe {
            let r = &*r;
            Streams { seed: r.seed, fine: r.fine, w: r.w[..r.n_w as usize].to_vec(), s: r.s[..r.n_s as usize].to_vec(), f: r.f[..r.n_f as usize].to_vec() }
        }
    }
    fn load(&self, r: *mut RunResult) {
        reset(r, false);
        unsafe {
            let r = &mut *r;
            r.replay = 1;
            r.seed = self.seed;
            r.fine = self.fine;
            r.n_w = self.w.len() as u32;
            r.w[..self.w.len()].copy_from_slice(&self.w);
            r.n_s = self.s.len() as u32;
            r.s[..self.s.len()].copy_from_slice(&self.s);
            r.n_f = self.f.len() as u32;
            r.f[..self.f.len()].copy_from_slice(&self.f);
        }
    }
    fn size(&self) -> usize {
        self.w.len() + self.s.len() + self.f.len()
    }
}

fn minimise(start: &Streams, cls: &str, r: *mut RunResult, f: Workload, budget: Duration) -> (Streams, u32) {
    let t0 = Instant::now();
    let mut best = start.clone();
    let mut tries = 0u32;
    let mut test = |c: &Streams| -> bool {
        if t0.elapsed() > budget || tries > 6000 {
            return false;
        }
        tries += 1;
        c.load(r);
        exec(r, f);
        unsafe { (*r).status == 2 && cstr(&(*r).cls) == cls }
    };
    for _round in 0..3 {
        let before = best.size() as u64 + best.w.iter().map(|&x| x as u64).sum::<u64>();
        // faults, schedule
        for which in 0..2 {
            let len = |b: &Streams| if which == 0 { b.f.len() } else { b.s.len() };
            let mut chunk = len(&best).max(1);
            loop {
                let mut i = 0;
                while i < len(&best) {
                    let mut c = best.clone();
                    let v = if which == 0 { &mut c.f } else { &mut c.s };
                    let e = (i + chunk).min(v.len());
                    v.drain(i..e);
                    if test(&c) {
                        best = c;
                    } else {
                        i += chunk;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk = (chunk / 2).max(1);
            }
        }
        // workload: delete spans, then shrink values
        let mut chunk = (best.w.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.w.len() {
                let mut c = best.clone();
                let e = (i + chunk).min(c.w.len());
                c.w.drain(i..e);
                if test(&c) {
                    best = c;
                } else {
                    i += if chunk > 13 { chunk / 2 } else { 1 };
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = if chunk > 13 { (chunk / 2).max(13) } else { chunk - 1 };
        }
        for i in 0..best.w.len() {
            for v in [0u32, 1, best.w.get(i).copied().unwrap_or(0) / 2] {
                if i < best.w.len() && best.w[i] > v {
                    let mut c = best.clone();
                    c.w[i] = v;
                    if test(&c) {
                        best = c;
                        break;
                    }
                }
            }
        }
        while best.w.last() == Some(&0) {
            let mut c = best.clone();
            c.w.pop();
            if test(&c) {
                best = c;
            } else {
                break;
            }
        }
        let after = best.size() as u64 + best.w.iter().map(|&x| x as u64).sum::<u64>();
        if after == before || t0.elapsed() > budget {
            break;
        }
    }
    (best, tries)
}

fn fmt_sp(v: &[Sp]) -> String {
    v.iter().map(|p| format!("{}:{}", p.idx, p.val)).collect::<Vec<_>>().join(" ")
}
fn parse_sp(s: &str) -> Vec<Sp> {
    s.split_whitespace()
        .map(|p| {
            let (a, b) = p.split_once(':').expect("bad pair");
            Sp { idx: a.parse().unwrap(), val: b.parse().unwrap() }
        })
        .collect()
}

fn write_replay(path: &str, prop: &str, s: &Streams, r: *const RunResult, orig: u64, note: &str) {
    let r = unsafe { &*r };
    let mut o = String::new();
    let _ = writeln!(o, "dsim-replay 1");
    let _ = writeln!(o, "property {prop}");
    let _ = writeln!(o, "build {}", build_name());
    let _ = writeln!(o, "seed {}", s.seed);
    let _ = writeln!(o, "found-with-seed {orig}");
    let _ = writeln!(o, "fine {}", s.fine);
    let _ = writeln!(o, "class {}", cstr(&r.cls));
    let _ = writeln!(o, "message {}", cstr(&r.msg).replace('\n', " / "));
    let _ = writeln!(o, "hash {:016x}", r.hash);
    let _ = writeln!(o, "W {}", s.w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    let _ = writeln!(o, "S {}", fmt_sp(&s.s));
    let _ = writeln!(o, "F {}", fmt_sp(&s.f));
    let _ = writeln!(o, "# {note}");
    let _ = writeln!(o, "# W: workload choices; S: scheduling decision:thread where it departs from the default; F: fault query:value");
    let log = String::from_utf8_lossy(&r.log[..r.loglen as usize]).into_owned();
    let lines: Vec<&str> = log.lines().collect();
    let skip = lines.len().saturating_sub(600);
    if skip > 0 {
        let _ = writeln!(o, "# ... {skip} earlier trace lines left out");
    }
    for l in &lines[skip..] {
        let _ = writeln!(o, "# {l}");
    }
    std::fs::write(path, o).expect("cannot write the replay file");
}

pub fn build_name() -> &'static str {
    if cfg!(feature = "small") {
        "small"
    } else if cfg!(feature = "safe") {
        "safe"
    } else if cfg!(debug_assertions) {
        "debug"
    } else {
        "release"
    }
}

fn replay(path: &str) -> i32 {
    let txt = std::fs::read_to_string(path).expect("cannot read the replay file");
    let mut s = Streams::default();
    let (mut prop, mut cls, mut msg, mut hash) = (String::new(), String::new(), String::new(), String::new());
    for l in txt.lines() {
        if l.starts_with('#') {
            continue;
        }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => prop = v.into(),
            "seed" => s.seed = v.parse().unwrap(),
            "fine" => s.fine = v.parse().unwrap(),
            "class" => cls = v.into(),
            "message" => msg = v.into(),
            "hash" => hash = v.into(),
            "W" => s.w = v.split_whitespace().map(|x| x.parse().unwrap()).collect(),
            "S" => s.s = parse_sp(v),
            "F" => s.f = parse_sp(v),
            "build" => {
                if v != build_name() {
                    eprintln!("this replay file was made by the {v} build; this is the {} build", build_name());
                    return 3;
                }
            }
            _ => {}
        }
    }
    let f = lookup(&prop);
    let r = shm::<RunResult>();
    s.load(r);
    unsafe { (*r).log_on = 1 };
    exec(r, f);
    let rr = unsafe { &*r };
    print!("{}", String::from_utf8_lossy(&rr.log[..rr.loglen as usize]));
    if rr.status == 2 {
        let (c, m, h) = (cstr(&rr.cls), cstr(&rr.msg).replace('\n', " / "), format!("{:016x}", rr.hash));
        println!("violation: {c}: {m}");
        println!("exact: {}", if c == cls && m == msg && h == hash { "yes (same class, message and trace hash)" } else { "no" });
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    println!("no violation (status {})", rr.status);
    0
}

fn lookup(p: &str) -> Workload {
    crate::w::TABLE.iter().find(|e| e.0 == p).unwrap_or_else(|| panic!("unknown property {p}")).1
}

#[repr(C)]
struct Stats {
    runs: u64,
    steps: u64,
    switches: u64,
    simtime: u64,
    atomics: u64,
    allocs: u64,
    accesses: u64,
    ops: u64,
    stale: u64,
    multi: u64,
    nontrivial: u64,
    faulted: u64,
    overflow: u64,
    harness_err: u64,
    cut: u64,
    maxsteps: u64,
    strat: [u64; 8],
    threads: [u64; 8],
    fq: [u64; rt::NFK],
    fi: [u64; rt::NFK],
    viol: u64,
    viol_seed: u64,
    err_msg: [u8; 1024],
    n_hash: u64,
    hashes: [u64; HCAP],
    n_state: u64,
    states: [u64; SCAP],
}
const HCAP: usize = 1 << 21;
const SCAP: usize = 1 << 16;

struct Opts {
    prop: String,
    tier: String,
    seed: u64,
    runs: u64,
    secs: f64,
    workers: usize,
    replay_dir: String,
    stats_out: Option<String>,
    dump: Option<String>,
}

fn mix64(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
fn seed_of(base: u64, i: u64) -> u64 {
    // 48-bit seeds: readable, and independent streams per base seed
    mix64(base.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(i)) >> 16
}

/// Things with process-wide lazy initialisation are initialised before forking.
fn warm_up() {
    unsafe {
        let mut c: libc::cpu_set_t = core::mem::zeroed();
        libc::sched_getaffinity(0, core::mem::size_of::<libc::cpu_set_t>(), &mut c);
    }
    crate::w::warm_up();
}

fn worker(o: &Opts, id: usize, st: *mut Stats, stop: *mut u32, f: Workload, deadline: Instant) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        // one CPU per worker: hand-overs between simulated threads are then cheap
        let n = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as usize;
        let mut c: libc::cpu_set_t = core::mem::zeroed();
        libc::CPU_SET(id % n, &mut c);
        libc::syscall(libc::SYS_sched_setaffinity, 0, core::mem::size_of::<libc::cpu_set_t>(), &c);
    }
    let r = shm::<RunResult>();
    let st = unsafe { &mut *st };
    let mut i = id as u64;
    let mut seen: HashSet<u64> = HashSet::new();
    let mut seen_st: HashSet<u64> = HashSet::new();
    while i < o.runs && unsafe { core::ptr::read_volatile(stop) } == 0 && Instant::now() < deadline {
        reset(r, false);
        unsafe { (*r).seed = seed_of(o.seed, i) };
        exec(r, f);
        let rr = unsafe { &*r };
        st.runs += 1;
        st.steps += rr.steps;
        st.maxsteps = st.maxsteps.max(rr.steps);
        st.switches += rr.switches;
        st.simtime += rr.simtime;
        st.atomics += rr.atomics;
        st.allocs += rr.allocs;
        st.accesses += rr.accesses;
        st.ops += rr.ops as u64;
        st.stale += rr.stale;
        st.strat[rr.strat as usize & 7] += 1;
        st.threads[rr.nthreads as usize & 7] += 1;
        let mut any = false;
        for k in 0..rt::NFK {
            st.fq[k] += rr.fq[k];
            st.fi[k] += rr.fi[k];
            any |= rr.fi[k] > 0;
        }
        st.faulted += any as u64;
        st.multi += (rr.switches > 0) as u64;
        st.overflow += (rr.overflow != 0) as u64;
        if rr.nontrivial != 0 && rr.status != 4 {
            st.nontrivial += 1;
            if seen.insert(rr.hash) && (st.n_hash as usize) < HCAP {
                st.hashes[st.n_hash as usize] = rr.hash;
                st.n_hash += 1;
            }
        }
        for k in 0..rr.n_st as usize {
            if seen_st.insert(rr.st[k]) && (st.n_state as usize) < SCAP {
                st.states[st.n_state as usize] = rr.st[k];
                st.n_state += 1;
            }
        }
        if rr.status == 3 {
            st.harness_err += 1;
            st.err_msg = rr.msg;
            unsafe { core::ptr::write_volatile(stop, 1) };
        } else if rr.status == 4 {
            st.cut += 1;
            st.err_msg = rr.msg;
        } else if rr.status == 2 {
            st.viol = 1;
            st.viol_seed = rr.seed;
            unsafe { core::ptr::write_volatile(stop, 1) };
            break;
        }
        i += o.workers as u64;
    }
    unsafe { libc::_exit(0) }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn sample(f: Workload, base: u64, i: u64, r: *mut RunResult) -> String {
    reset(r, false);
    unsafe {
        (*r).seed = seed_of(base, i);
        (*r).log_on = 1;
    }
    exec(r, f);
    let rr = unsafe { &*r };
    let log = String::from_utf8_lossy(&rr.log[..rr.loglen as usize]).into_owned();
    let mut lines: Vec<String> = log.lines().take(60).map(|l| l.trim().to_string()).collect();
    let total = log.lines().count();
    if total > 60 {
        lines.push(format!("... {} more lines", total - 60));
    }
    format!(
        "{{\"seed\": {}, \"threads\": {}, \"steps\": {}, \"switches\": {}, \"trace\": [{}]}}",
        rr.seed,
        rr.nthreads,
        rr.steps,
        rr.switches,
        lines.iter().map(|l| jstr(l)).collect::<Vec<_>>().join(", ")
    )
}

fn check(o: Opts) -> i32 {
    let f = lookup(&o.prop);
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(o.secs);
    let stop = shm::<u32>();
    let mut stats: Vec<*mut Stats> = Vec::new();
    let mut pids = Vec::new();
    for id in 0..o.workers {
        let st = shm::<Stats>();
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            worker(&o, id, st, stop, f, deadline);
        }
        stats.push(st);
        pids.push(pid);
    }
    for p in pids {
        let mut s = 0;
        unsafe { libc::waitpid(p, &mut s, 0) };
        if s != 0 {
            eprintln!("dsim: a worker ended with status {s:#x}");
            return 4;
        }
    }
    let ss: Vec<&Stats> = stats.iter().map(|p| unsafe { &**p }).collect();
    let sum = |g: &dyn Fn(&Stats) -> u64| ss.iter().map(|s| g(s)).sum::<u64>();
    if let Some(s) = ss.iter().find(|s| s.harness_err > 0) {
        eprintln!("dsim: harness error: {}", cstr(&s.err_msg));
        return 4;
    }
    let runs = sum(&|s| s.runs);
    if let Some(s) = ss.iter().find(|s| s.cut > 0) {
        println!("note: {} of {} runs were cut short: {}", sum(&|s| s.cut), runs, cstr(&s.err_msg));
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut hs: HashSet<u64> = HashSet::new();
    let mut sts: HashSet<u64> = HashSet::new();
    for s in &ss {
        hs.extend(&s.hashes[..s.n_hash as usize]);
        sts.extend(&s.states[..s.n_state as usize]);
    }
    let mut code = 0;
    let mut viol_line = String::new();
    if let Some(s) = ss.iter().filter(|s| s.viol != 0).min_by_key(|s| s.viol_seed) {
        let r = shm::<RunResult>();
        reset(r, false);
        unsafe { (*r).seed = s.viol_seed };
        exec(r, f);
        let (ok, cls, msg, ovf) = unsafe { ((*r).status == 2, cstr(&(*r).cls), cstr(&(*r).msg), (*r).overflow) };
        if !ok {
            eprintln!("dsim: seed {} failed once and passed when repeated: the simulator is not deterministic", s.viol_seed);
            return 4;
        }
        println!("found: seed {} [{}] {}: {}", s.viol_seed, build_name(), cls, msg);
        let orig = Streams::take(r);
        // does the explicit form reproduce it?
        orig.load(r);
        exec(r, f);
        let same = unsafe { (*r).status == 2 && cstr(&(*r).cls) == cls } && ovf == 0;
        let (best, tries) = if same { minimise(&orig, &cls, r, f, Duration::from_secs(40)) } else { (orig.clone(), 0) };
        best.load(r);
        unsafe { (*r).log_on = 1 };
        exec(r, f);
        let note = format!("minimised from {} to {} recorded choices in {} runs", orig.size(), best.size(), tries);
        let _ = std::fs::create_dir_all(&o.replay_dir);
        let path = format!("{}/{}-{}-{}.replay", o.replay_dir, o.prop, build_name(), s.viol_seed);
        write_replay(&path, &o.prop, &best, r, s.viol_seed, &note);
        println!("minimised: {note}");
        println!("violation: {}: {}", unsafe { cstr(&(*r).cls) }, unsafe { cstr(&(*r).msg) });
        viol_line = format!("VIOLATION property={} replay={}", o.prop, path);
        println!("{viol_line}");
        code = 1;
    }
    if let Some(p) = &o.stats_out {
        let r = shm::<RunResult>();
        let samples: Vec<String> = (0..3).map(|i| sample(f, o.seed, i, r)).collect();
        let mut fm = BTreeMap::new();
        for k in 0..rt::NFK {
            let (q, i) = (sum(&|s| s.fq[k]), sum(&|s| s.fi[k]));
            if q > 0 {
                fm.insert(rt::fk::NAMES[k], (i, q));
            }
        }
        let faults = fm.iter().map(|(k, (i, q))| format!("{}: {{\"injected\": {i}, \"opportunities\": {q}}}", jstr(k))).collect::<Vec<_>>().join(", ");
        let names = ["random walk", "priority (PCT)", "quantum round robin", "stalled thread", "run to completion"];
        let strat = names.iter().enumerate().map(|(k, n)| format!("{}: {}", jstr(n), sum(&|s| s.strat[k]))).collect::<Vec<_>>().join(", ");
        let thr = (1..8).filter(|&k| sum(&|s| s.threads[k]) > 0).map(|k| format!("\"{k}\": {}", sum(&|s| s.threads[k]))).collect::<Vec<_>>().join(", ");
        let j = format!(
            "{{\"build\": {}, \"runs\": {runs}, \"wall_s\": {wall:.3}, \"runs_per_hour\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"distinct_states\": {}, \"runs_with_context_switches\": {}, \"runs_with_faults\": {}, \"context_switches\": {}, \"scheduling_steps\": {}, \"max_steps_in_a_run\": {}, \"simulated_time_s\": {:.3}, \"operations\": {}, \"atomic_operations\": {}, \"allocations\": {}, \"checked_memory_accesses\": {}, \"stale_values_served\": {}, \"trace_overflows\": {}, \"runs_cut_short\": {}, \"faults\": {{{faults}}}, \"strategies\": {{{strat}}}, \"threads_per_run\": {{{thr}}}, \"violation\": {}, \"samples\": [{}]}}",
            jstr(build_name()),
            (runs as f64 / wall * 3600.0) as u64,
            sum(&|s| s.nontrivial),
            hs.len(),
            sts.len(),
            sum(&|s| s.multi),
            sum(&|s| s.faulted),
            sum(&|s| s.switches),
            sum(&|s| s.steps),
            ss.iter().map(|s| s.maxsteps).max().unwrap_or(0),
            sum(&|s| s.simtime) as f64 / 1e9,
            sum(&|s| s.ops),
            sum(&|s| s.atomics),
            sum(&|s| s.allocs),
            sum(&|s| s.accesses),
            sum(&|s| s.stale),
            sum(&|s| s.overflow),
            sum(&|s| s.cut),
            jstr(&viol_line),
            samples.join(", ")
        );
        std::fs::write(p, j).expect("cannot write statistics");
    }
    if let Some(p) = &o.dump {
        let mut v: Vec<u64> = hs.into_iter().collect();
        v.sort();
        std::fs::write(p, v.iter().map(|x| format!("{x:016x}\n")).collect::<String>()).unwrap();
    }
    eprintln!("{} [{}]: {runs} runs in {wall:.1} s, violation: {}", o.prop, build_name(), code == 1);
    code
}

/// Runs each of the first n seeds twice and compares the complete trace hashes and statistics.
fn determinism(prop: &str, base: u64, n: u64) -> i32 {
    let f = lookup(prop);
    let r = shm::<RunResult>();
    for i in 0..n {
        let mut out = Vec::new();
        for rep in 0..3 {
            if rep < 2 {
                reset(r, false);
                unsafe { (*r).seed = seed_of(base, i) };
            } else {
                Streams::take(r).load(r); // third time from the recorded choices
            }
            exec(r, f);
            let x = unsafe { &*r };
            if rep == 2 && out.last().map(|o: &(u64, u64, u64, u32, String, u32)| o.5 != 0).unwrap_or(false) {
                continue;
            }
            out.push((x.hash, x.steps, x.ticks, x.status, cstr(&x.msg), x.overflow));
        }
        if out.iter().any(|o| *o != out[0]) {
            println!("seed {} is not deterministic: {:?}", seed_of(base, i), out);
            return 1;
        }
    }
    println!("{prop}: {n} seeds identical in 2 seeded runs and 1 run from recorded choices");
    0
}

pub fn main() -> i32 {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    rt::install();
    warm_up();
    match a.first().map(|s| s.as_str()) {
        Some("check") => check(Opts {
            prop: a[1].clone(),
            tier: get("--tier").unwrap_or("quick".into()),
            seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
            runs: get("--runs").and_then(|s| s.parse().ok()).unwrap_or(20000),
            secs: get("--secs").and_then(|s| s.parse().ok()).unwrap_or(30.0),
            workers: get("--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
            replay_dir: get("--replays").unwrap_or("/tmp/replays".into()),
            stats_out: get("--stats"),
            dump: get("--dump"),
        }),
        Some("replay") => replay(&a[1]),
        Some("determinism") => determinism(&a[1], 1, get("--n").and_then(|s| s.parse().ok()).unwrap_or(200)),
        Some("one") => {
            let f = lookup(&a[1]);
            let r = shm::<RunResult>();
            reset(r, false);
            unsafe {
                (*r).seed = a[2].parse().unwrap();
                (*r).log_on = 1;
            }
            exec(r, f);
            let rr = unsafe { &*r };
            print!("{}", String::from_utf8_lossy(&rr.log[..rr.loglen as usize]));
            println!("status {} {} {} hash {:016x} steps {} op {}", rr.status, cstr(&rr.cls), cstr(&rr.msg), rr.hash, rr.steps, cstr(&rr.op));
            (rr.status != 1) as i32
        }
        Some("list") => {
            for e in crate::w::TABLE {
                println!("{}", e.0);
            }
            0
        }
        _ => {
            eprintln!("usage: dsim check|replay|one|determinism|list ...");
            2
        }
    }
}
#[allow(dead_code)]
fn unused(o: &Opts) -> &str {
    &o.tier
}
