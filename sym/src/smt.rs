//! SMT-LIB2 solver process (z3), one per thread, with a hard watchdog.
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Res {
    Sat(HashMap<String, f64>),
    Unsat,
    Unknown(String),
}

/// solver processes alive now
pub static PIDS: std::sync::Mutex<Vec<u32>> = std::sync::Mutex::new(vec![]);
/// end every solver process (used when the program ends with cases still running)
pub fn kill_all() {
    if let Ok(p) = PIDS.lock() {
        if !p.is_empty() {
            let _ = Command::new("kill").arg("-9").args(p.iter().map(|x| x.to_string())).stdout(Stdio::null()).stderr(Stdio::null()).status();
        }
    }
}
pub struct Solver {
    bin: &'static str,
    child: Option<Child>,
    rx: Option<Receiver<String>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
}

impl Drop for Solver {
    fn drop(&mut self) {
        self.kill();
    }
}

impl Solver {
    pub fn new() -> Self {
        Solver { bin: "z3-new", child: None, rx: None, queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, max_time: 0.0 }
    }
    fn kill(&mut self) {
        if let Some(mut c) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
            if let Ok(mut p) = PIDS.lock() {
                p.retain(|x| *x != c.id());
            }
        }
        self.rx = None;
    }
    fn ensure(&mut self) {
        if self.child.is_some() {
            return;
        }
        let mut c = Command::new(self.bin)
            .arg("-in")
            .arg("-memory:3000")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("z3 must be installed");
        if let Ok(mut p) = PIDS.lock() {
            p.push(c.id());
        }
        let out = c.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        self.child = Some(c);
        self.rx = Some(rx);
    }
    fn read_until_done(&mut self, limit: Duration) -> Result<Vec<String>, String> {
        let mut out = vec![];
        let end = Instant::now() + limit;
        loop {
            let left = end.saturating_duration_since(Instant::now());
            match self.rx.as_ref().unwrap().recv_timeout(left) {
                Ok(l) => {
                    if l.trim() == "__done__" {
                        return Ok(out);
                    }
                    out.push(l);
                }
                Err(RecvTimeoutError::Timeout) => return Err("watchdog timeout".into()),
                Err(RecvTimeoutError::Disconnected) => return Err("solver died".into()),
            }
        }
    }
    /// `decls_and_asserts` is a complete script without check-sat; `vars` are queried on sat.
    pub fn check(&mut self, logic: Option<&str>, body: &str, vars: &[String], timeout_ms: u64) -> Res {
        let t0 = Instant::now();
        let r = self.check_inner(logic, body, vars, timeout_ms);
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        self.max_time = self.max_time.max(dt);
        self.queries += 1;
        match &r {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown(_) => self.unknown += 1,
        }
        if let Ok(p) = std::env::var("SYM_DUMP") {
            let s = format!("{:?} {dt:.3}s\n{}\n-----\n", match &r { Res::Sat(_) => "sat".to_string(), Res::Unsat => "unsat".into(), Res::Unknown(w) => format!("unknown {w}") }, body);
            let _ = std::fs::OpenOptions::new().create(true).append(true).open(p).and_then(|mut f| f.write_all(s.as_bytes()));
        }
        r
    }
    fn check_inner(&mut self, logic: Option<&str>, body: &str, vars: &[String], timeout_ms: u64) -> Res {
        self.ensure();
        let mut s = String::with_capacity(body.len() + 300);
        s.push_str("(reset)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n");
        s.push_str(&format!("(set-option :timeout {timeout_ms})\n"));
        if let Some(l) = logic {
            s.push_str(&format!("(set-logic {l})\n"));
        }
        s.push_str(body);
        s.push_str("\n(check-sat)\n(echo \"__done__\")\n");
        let limit = Duration::from_millis(timeout_ms + 3000);
        let w = self.child.as_mut().unwrap().stdin.as_mut().unwrap().write_all(s.as_bytes());
        if w.is_err() {
            self.kill();
            return Res::Unknown("write failed".into());
        }
        let _ = self.child.as_mut().unwrap().stdin.as_mut().unwrap().flush();
        let out = match self.read_until_done(limit) {
            Ok(o) => o,
            Err(e) => {
                self.kill();
                return Res::Unknown(e);
            }
        };
        if let Some(e) = out.iter().find(|l| l.contains("(error")) {
            return Res::Unknown(e.clone());
        }
        match out.last().map(|s| s.trim()) {
            Some("unsat") => Res::Unsat,
            Some("sat") => {
                let mut m = HashMap::new();
                if !vars.is_empty() {
                    let q = format!("(get-value ({}))\n(echo \"__done__\")\n", vars.join(" "));
                    let _ = self.child.as_mut().unwrap().stdin.as_mut().unwrap().write_all(q.as_bytes());
                    let _ = self.child.as_mut().unwrap().stdin.as_mut().unwrap().flush();
                    match self.read_until_done(Duration::from_millis(10000)) {
                        Ok(o) => {
                            let txt = o.join(" ");
                            if txt.contains("(error") {
                                return Res::Unknown(txt);
                            }
                            parse_values(&txt, &mut m);
                        }
                        Err(e) => {
                            self.kill();
                            return Res::Unknown(e);
                        }
                    }
                }
                Res::Sat(m)
            }
            Some(o) => Res::Unknown(o.to_string()),
            None => Res::Unknown("no answer".into()),
        }
    }
}

fn parse_values(s: &str, m: &mut HashMap<String, f64>) {
    let toks: Vec<String> = {
        let mut v = vec![];
        let mut cur = String::new();
        for ch in s.chars() {
            match ch {
                '(' | ')' => {
                    if !cur.is_empty() {
                        v.push(std::mem::take(&mut cur));
                    }
                    v.push(ch.to_string());
                }
                c if c.is_whitespace() => {
                    if !cur.is_empty() {
                        v.push(std::mem::take(&mut cur));
                    }
                }
                c => cur.push(c),
            }
        }
        v
    };
    // ((name expr) (name expr) ...)
    let mut i = 1;
    while i < toks.len() && toks[i] == "(" {
        let name = toks[i + 1].clone();
        let mut j = i + 2;
        let val = parse_expr(&toks, &mut j);
        m.insert(name, val);
        i = j + 1;
    }
}
fn parse_expr(t: &[String], i: &mut usize) -> f64 {
    if t[*i] == "(" {
        *i += 1;
        let op = t[*i].clone();
        *i += 1;
        let mut args = vec![];
        while t[*i] != ")" {
            args.push(parse_expr(t, i));
        }
        *i += 1;
        match op.as_str() {
            "-" if args.len() == 1 => -args[0],
            "-" => args[0] - args[1..].iter().sum::<f64>(),
            "/" => args[0] / args[1],
            "+" => args.iter().sum(),
            "*" => args.iter().product(),
            "to_real" => args[0],
            _ => f64::NAN,
        }
    } else {
        let s = t[*i].trim_end_matches('?').to_string();
        *i += 1;
        s.parse::<f64>().unwrap_or(f64::NAN)
    }
}
