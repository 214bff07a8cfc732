//! Running the command line tool in scratch directories.
use std::ffi::OsString;
use std::fs;
use std::io::{self, Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Mutex, Once};
use std::time::{Duration, Instant};

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
    fn kill(pid: i32, sig: i32) -> i32;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;
const LIMIT: Duration = Duration::from_secs(60);

/// The directory all scratch directories are in; made and removed by the supervising process.
pub fn base() -> PathBuf {
    match std::env::var_os("VMC_SCRATCH") {
        Some(d) => PathBuf::from(d),
        None => std::env::temp_dir().join(format!("vmc-scratch-{}", std::process::id())),
    }
}

pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let d = base().join(NEXT.fetch_add(1, Relaxed).to_string());
        fs::create_dir_all(&d).expect("cannot make a scratch directory");
        Scratch(d)
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
    pub fn put(&self, name: &str, bytes: impl AsRef<[u8]>) -> PathBuf {
        let p = self.path(name);
        fs::write(&p, bytes).expect("cannot write a scratch file");
        p
    }
    pub fn get(&self, name: &str) -> Result<Vec<u8>, String> {
        fs::read(self.path(name)).map_err(|e| format!("cannot read the written file {name}: {e}"))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Input<'a> {
    Null,
    File(&'a [u8]),
    /// through a pipe in pieces of the given size
    Pipe(&'a [u8], usize),
}

pub struct Call<'a> {
    pub args: Vec<OsString>,
    pub input: Input<'a>,
    /// largest size of written files
    pub file_limit: Option<u64>,
    pub env: Vec<(&'a str, &'a str)>,
    /// standard output is a full device
    pub full: bool,
}

impl<'a> Call<'a> {
    pub fn new<T: Into<OsString>>(args: impl IntoIterator<Item = T>) -> Call<'a> {
        Call { args: args.into_iter().map(|a| a.into()).collect(), input: Input::Null, file_limit: None, env: vec![], full: false }
    }
    pub fn input(mut self, input: Input<'a>) -> Self {
        self.input = input;
        self
    }
}

#[derive(Debug)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub text: String,
    pub errors: String,
}

static RUNNING: Mutex<Vec<(u32, Instant)>> = Mutex::new(vec![]);

fn reaper() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(500));
            for (pid, start) in RUNNING.lock().unwrap().iter() {
                if start.elapsed() > LIMIT {
                    unsafe { kill(*pid as i32, 9) };
                }
            }
        });
    });
}

impl<'a> Call<'a> {
    pub fn run(&self, dir: &Scratch) -> Result<Out, String> {
        reaper();
        let exe = std::env::var_os("VMC_CLI").expect("VMC_CLI is not set");
        let mut c = Command::new(exe);
        c.args(&self.args).current_dir(&dir.0).env_clear().stderr(Stdio::piped());
        c.envs(self.env.iter().cloned());
        if self.full {
            c.stdout(fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| format!("/dev/full: {e}"))?);
        } else {
            c.stdout(Stdio::piped());
        }
        match self.input {
            Input::Null => {
                c.stdin(Stdio::null());
            }
            Input::File(b) => {
                let p = dir.put("stdin", b);
                c.stdin(fs::File::open(p).unwrap());
            }
            Input::Pipe(..) => {
                c.stdin(Stdio::piped());
            }
        }
        if let Some(n) = self.file_limit {
            unsafe {
                c.pre_exec(move || {
                    signal(SIGXFSZ, 1);
                    if setrlimit(RLIMIT_FSIZE, &[n, n]) != 0 {
                        return Err(io::Error::last_os_error());
                    }
                    Ok(())
                });
            }
        }
        let mut child = c.spawn().map_err(|e| format!("cannot start the command line tool: {e}"))?;
        let pid = child.id();
        RUNNING.lock().unwrap().push((pid, Instant::now()));
        let (mut out, mut err) = (vec![], vec![]);
        let (mut stdin, mut stdout, mut stderr) = (child.stdin.take(), child.stdout.take(), child.stderr.take());
        std::thread::scope(|s| {
            if let Input::Pipe(b, n) = self.input {
                let mut pipe = stdin.take().unwrap();
                if b.len() < 4096 && n >= b.len() {
                    let _ = pipe.write_all(b);
                    drop(pipe);
                } else {
                    s.spawn(move || {
                        for piece in b.chunks(n) {
                            if pipe.write_all(piece).is_err() {
                                break;
                            }
                        }
                    });
                }
            }
            if let Some(o) = stdout.as_mut() {
                let _ = o.read_to_end(&mut out);
            }
            if let Some(e) = stderr.as_mut() {
                let _ = e.read_to_end(&mut err);
            }
        });
        // not to be killed once it was waited for
        let status = loop {
            let mut running = RUNNING.lock().unwrap();
            if let Some(s) = child.try_wait().map_err(|e| format!("wait: {e}"))? {
                running.retain(|r| r.0 != pid);
                break s;
            }
            drop(running);
            std::thread::sleep(Duration::from_micros(50));
        };
        Ok(Out { code: status.code(), signal: status.signal(), text: String::from_utf8_lossy(&out).into(), errors: String::from_utf8_lossy(&err).into() })
    }
}

/// The parts of the output that matter.
#[derive(Debug, Default, PartialEq)]
pub struct Answer {
    /// `s` lines
    pub status: Vec<String>,
    /// numbers of the `v` lines
    pub values: Option<Vec<i64>>,
    /// `t` lines
    pub transcript: Vec<String>,
}

impl Out {
    pub fn answer(&self) -> Result<Answer, String> {
        let mut a = Answer::default();
        if !self.text.is_empty() && !self.text.ends_with('\n') {
            return Err(format!("the output does not end in a newline: {:?}", self.text));
        }
        for line in self.text.lines() {
            match line.as_bytes() {
                [b'c'] | [b'c', b' ', ..] => {}
                [b's', b' ', ..] => a.status.push(line[2..].to_string()),
                [b't', b' ', ..] => a.transcript.push(line[2..].trim_end().to_string()),
                [b'v'] | [b'v', b' ', ..] => {
                    let v = a.values.get_or_insert_with(Vec::new);
                    for t in line[1..].split_ascii_whitespace() {
                        v.push(t.parse().map_err(|_| format!("bad value {t:?} in {line:?}"))?);
                    }
                }
                _ => return Err(format!("unexpected output line {line:?}")),
            }
        }
        Ok(a)
    }
    pub fn diagnostic(&self) -> bool {
        !self.errors.trim().is_empty() || self.text.lines().any(|l| l.contains("ERROR") || l.starts_with("error"))
    }
    pub fn show(&self) -> String {
        format!("exit {:?} signal {:?}, output {:?}, errors {:?}", self.code, self.signal, self.text, self.errors)
    }
    /// No verdict, a diagnostic, exit code 1 (or one that is no verdict).
    pub fn refused(&self, strict: bool) -> Result<(), String> {
        if self.text.lines().any(|l| l.starts_with("s SAT") || l.starts_with("s UNSAT") || l.starts_with("s VERIFIED") || l.starts_with('v')) {
            return Err(format!("a verdict was printed: {}", self.show()));
        }
        match self.code {
            Some(1) => {}
            Some(n) if !strict && n != 10 && n != 20 => {}
            _ => return Err(format!("wrong exit code: {}", self.show())),
        }
        if !self.diagnostic() {
            return Err(format!("no diagnostic: {}", self.show()));
        }
        Ok(())
    }
}

pub fn remove_base(dir: &Path) {
    let _ = fs::remove_dir_all(dir);
}
