//! One-shot SMT queries: z3 through a pipe, cvc5 as a second opinion when z3 gives up.
use crate::term::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

pub enum Res {
    Sat(Rc<Model>),
    Unsat,
    Unknown(String),
}

pub struct Solver {
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
    pub z3: String,
    pub timeout_ms: u64,
    cache: HashMap<Vec<Tid>, Option<Rc<Model>>>, // None: unsat
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub fallback: u64,
    pub secs: f64,
    pub max_secs: f64,
    pub fp_queries: u64,
    pub dump: Option<String>,
}

impl Solver {
    pub fn new(z3: &str, timeout_ms: u64) -> Solver {
        Solver {
            child: None,
            z3: z3.to_string(),
            timeout_ms,
            cache: HashMap::new(),
            queries: 0,
            cache_hits: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            fallback: 0,
            secs: 0.0,
            max_secs: 0.0,
            fp_queries: 0,
            dump: std::env::var("SYMEX_DUMP").ok(),
        }
    }
    fn start(&mut self) {
        let mut ch = Command::new(&self.z3)
            .arg("-in")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("z3");
        let i = ch.stdin.take().unwrap();
        let o = BufReader::new(ch.stdout.take().unwrap());
        self.child = Some((ch, i, o));
    }
    pub fn check(&mut self, cons: &[Tid]) -> Res {
        let mut key: Vec<Tid> = cons.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        let mut e = Emit::new();
        for t in &key {
            e.assert(*t);
        }
        self.queries += 1;
        if e.has_fp {
            self.fp_queries += 1;
        }
        let t0 = Instant::now();
        let mut r = self.ask_z3(&e);
        if let Res::Unknown(_) = r {
            self.fallback += 1;
            r = self.ask_cvc5(&e);
        }
        let dt = t0.elapsed().as_secs_f64();
        self.secs += dt;
        if dt > self.max_secs {
            self.max_secs = dt;
        }
        if let Some(d) = &self.dump {
            if dt > 0.5 {
                let _ = std::fs::write(format!("{}/q{}-{:.1}.smt2", d, self.queries, dt), format!("{}(check-sat)\n", e.text));
            }
        }
        match &r {
            Res::Sat(m) => {
                self.sat += 1;
                self.cache.insert(key, Some(m.clone()));
            }
            Res::Unsat => {
                self.unsat += 1;
                self.cache.insert(key, None);
            }
            Res::Unknown(_) => self.unknown += 1,
        }
        r
    }
    fn getval(vars: &[u32]) -> String {
        let names: Vec<String> = vars.iter().map(|v| format!("v{}", v)).collect();
        format!("(get-value ({}))\n", names.join(" "))
    }
    fn ask_z3(&mut self, e: &Emit) -> Res {
        if self.child.is_none() {
            self.start();
        }
        let timeout = self.timeout_ms;
        let (_, i, o) = self.child.as_mut().unwrap();
        let text = format!("(reset)\n(set-option :timeout {})\n{}(check-sat)\n(echo \"--\")\n", timeout, e.text);
        if i.write_all(text.as_bytes()).and_then(|_| i.flush()).is_err() {
            self.child = None;
            return Res::Unknown("z3 pipe".into());
        }
        let mut ans = String::new();
        loop {
            let mut l = String::new();
            match o.read_line(&mut l) {
                Ok(0) | Err(_) => {
                    self.child = None;
                    return Res::Unknown("z3 died".into());
                }
                _ => {}
            }
            let l = l.trim();
            if l == "--" {
                break;
            }
            ans.push_str(l);
            ans.push('\n');
        }
        if ans.contains("(error") {
            return Res::Unknown(format!("z3: {}", ans));
        }
        match ans.trim() {
            "unsat" => Res::Unsat,
            "sat" => {
                if e.vars.is_empty() {
                    return Res::Sat(Rc::new(Model::new()));
                }
                let (_, i, o) = self.child.as_mut().unwrap();
                let _ = i.write_all(format!("{}(echo \"--\")\n", Self::getval(&e.vars)).as_bytes());
                let _ = i.flush();
                let mut txt = String::new();
                loop {
                    let mut l = String::new();
                    match o.read_line(&mut l) {
                        Ok(0) | Err(_) => {
                            self.child = None;
                            return Res::Unknown("z3 died".into());
                        }
                        _ => {}
                    }
                    if l.trim() == "--" {
                        break;
                    }
                    txt.push_str(&l);
                }
                match parse_model(&txt) {
                    Some(m) => Res::Sat(Rc::new(m)),
                    None => Res::Unknown(format!("z3 model: {}", txt)),
                }
            }
            a => Res::Unknown(format!("z3: {}", a)),
        }
    }
    fn ask_cvc5(&mut self, e: &Emit) -> Res {
        let text = format!(
            "(set-logic QF_BVFP)\n(set-option :produce-models true)\n{}(check-sat)\n{}",
            e.text,
            if e.vars.is_empty() { String::new() } else { Self::getval(&e.vars) }
        );
        let ch = Command::new("cvc5")
            .args(["--lang", "smt2", "--fp-exp", &format!("--tlimit={}", self.timeout_ms)])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn();
        let mut ch = match ch {
            Ok(c) => c,
            Err(_) => return Res::Unknown("no cvc5".into()),
        };
        {
            let mut i = ch.stdin.take().unwrap();
            let _ = i.write_all(text.as_bytes());
        }
        let out = match ch.wait_with_output() {
            Ok(o) => String::from_utf8_lossy(&o.stdout).into_owned(),
            Err(_) => return Res::Unknown("cvc5".into()),
        };
        let first = out.lines().next().unwrap_or("").trim();
        match first {
            "unsat" => Res::Unsat,
            "sat" => {
                if out.contains("(error") {
                    return Res::Unknown(format!("cvc5 {}", out));
                }
                if e.vars.is_empty() {
                    return Res::Sat(Rc::new(Model::new()));
                }
                match parse_model(&out[4..]) {
                    Some(m) => Res::Sat(Rc::new(m)),
                    None => Res::Unknown("cvc5 model".into()),
                }
            }
            _ => Res::Unknown(format!("solver gave no verdict within {} ms", self.timeout_ms)),
        }
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        if let Some((mut c, i, _)) = self.child.take() {
            drop(i);
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

fn parse_model(s: &str) -> Option<Model> {
    let mut m = Model::new();
    let toks: Vec<&str> = s.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|t| !t.is_empty()).collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        let v: u32 = toks[i].strip_prefix('v')?.parse().ok()?;
        let t = toks[i + 1];
        let x = if let Some(h) = t.strip_prefix("#x") {
            u128::from_str_radix(h, 16).ok()?
        } else if let Some(b) = t.strip_prefix("#b") {
            u128::from_str_radix(b, 2).ok()?
        } else {
            return None;
        };
        m.insert(v, x);
        i += 2;
    }
    Some(m)
}
