//! Runs command lines: in fresh processes of the development and release builds, or - much faster -
//! in a batch server (the program built with `--cfg ripcalc_batch`). Whatever a batch server
//! reports as a failure is confirmed on the regular builds before it counts.

use std::io::Write;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, Command, Stdio};

#[derive(Clone, Debug)]
pub enum Fail {
    /// The property does not hold for this case.
    Violation(String),
    /// The machinery itself failed; says nothing about the property.
    Harness(String),
}
pub type R<T> = Result<T, Fail>;

pub fn violation<T>(msg: impl Into<String>) -> R<T> {
    Err(Fail::Violation(msg.into()))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
    Code(i32),
    Signal(i32),
    /// Used up its allowance of CPU time (several thousand times what is ever needed).
    CpuLimit,
    /// Waits for something that does not come, without using any CPU time.
    Asleep,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Out {
    pub status: Status,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}
impl Out {
    pub fn text(&self) -> R<&str> {
        std::str::from_utf8(&self.out).map_err(|_| Fail::Violation("standard output is not valid UTF-8".into()))
    }
    pub fn lines(&self) -> R<Vec<&str>> {
        let t = self.text()?;
        if !t.is_empty() && !t.ends_with('\n') {
            return violation(format!("the output does not end with a line break: {:?}", tail(t)));
        }
        Ok(t.lines().collect())
    }
    pub fn describe(&self) -> String {
        let out = String::from_utf8_lossy(&self.out);
        let err = String::from_utf8_lossy(&self.err);
        format!("status {:?}, stdout {:?}, stderr {:?}", self.status, clip(&out), clip(&err))
    }
    /// Requires exit status 0.
    pub fn ok(self) -> R<Out> {
        if self.status == Status::Code(0) {
            Ok(self)
        } else {
            violation(format!("expected success, got {}", self.describe()))
        }
    }
    /// Requires exit status 1, a message and nothing that looks like a result.
    pub fn refused(self) -> R<Out> {
        if self.status != Status::Code(1) {
            violation(format!("expected a refusal (exit status 1), got {}", self.describe()))
        } else if self.err.is_empty() && self.out.is_empty() {
            violation("refused without any message")
        } else if !self.out.is_empty() {
            violation(format!("refused, but printed results: {}", self.describe()))
        } else {
            Ok(self)
        }
    }
    pub fn clean(&self) -> bool {
        matches!(self.status, Status::Code(0) | Status::Code(1))
    }
}
pub fn clip(s: &str) -> String {
    if s.len() <= 2000 {
        return s.to_string();
    }
    let mut n = 2000;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{}... ({} bytes)", &s[..n], s.len())
}
fn tail(s: &str) -> &str {
    let mut n = s.len().saturating_sub(80);
    while !s.is_char_boundary(n) {
        n += 1;
    }
    &s[n..]
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Profile {
    Dev,
    Release,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Batch,
    Proc(Profile),
}

#[derive(Clone, Debug)]
pub struct Bins {
    pub dev: PathBuf,
    pub release: PathBuf,
    pub batch: Option<PathBuf>,
    /// The library preloaded to change the world around a process (see shim/shim.c).
    pub shim: Option<PathBuf>,
    /// Whether the library can forbid system calls.
    pub confinement: bool,
    /// Builds with only the named optional features: development builds of the program, or why
    /// there is none.
    pub reduced: Vec<(String, Result<PathBuf, String>)>,
}

/// How standard output is made to fail.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Fault {
    /// File-size limit of this many bytes.
    SizeLimit(u64),
    /// A pipe nobody reads any more.
    ClosedPipe,
    /// A pipe whose reader goes away after this many bytes; the pipe itself holds 4096.
    ReaderLeaves(u64),
    /// Such a pipe, whose reader stays, but sends this signal after so many bytes.
    Told(u64, i32),
    /// /dev/full.
    DeviceFull,
    /// Not standard output but standard error: /dev/full.
    MessagesFull,
    /// Standard error: a pipe nobody reads any more.
    MessagesClosed,
}

/// What surrounds a process without being any of its business.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Around {
    /// Environment variables (none of which forces colours on).
    pub vars: Vec<(String, String)>,
    /// Working directory; "gone" for one that has been removed.
    pub dir: String,
    /// What the program is called (argv[0]), unless empty.
    #[serde(default)]
    pub name: String,
    /// What can be read from standard input.
    pub input: String,
}

pub const CPU_SECONDS: u64 = 8;
const AS_LIMIT: u64 = 1 << 30;
const FSIZE_LIMIT: u64 = 256 << 20;
const BATCH_TIMEOUT_MS: i32 = 15_000;
const WALL_TIMEOUT_MS: i32 = 120_000;
const WALL_SLICE_MS: i32 = 10_000;

fn cvt(r: i32, what: &str) -> R<i32> {
    if r < 0 {
        Err(Fail::Harness(format!("{}: {}", what, std::io::Error::last_os_error())))
    } else {
        Ok(r)
    }
}

fn memfd() -> R<OwnedFd> {
    let fd = cvt(unsafe { libc::memfd_create(c"ripverif".as_ptr(), libc::MFD_CLOEXEC) }, "memfd_create")?;
    Ok(unsafe { OwnedFd::from_raw_fd(fd) })
}
fn dup(fd: &OwnedFd) -> R<OwnedFd> {
    fd.try_clone().map_err(|e| Fail::Harness(format!("dup: {}", e)))
}
fn pipe() -> R<(OwnedFd, OwnedFd)> {
    let mut fds = [0i32; 2];
    cvt(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) }, "pipe2")?;
    Ok(unsafe { (OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1])) })
}

/// Both sides of a new terminal that passes on everything as it is.
fn terminal(columns: u16) -> Option<(OwnedFd, OwnedFd)> {
    unsafe {
        let master = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if master < 0 {
            return None;
        }
        let master = OwnedFd::from_raw_fd(master);
        let m = master.as_raw_fd();
        let mut name = [0 as libc::c_char; 128];
        if libc::grantpt(m) < 0 || libc::unlockpt(m) < 0 || libc::ptsname_r(m, name.as_mut_ptr(), name.len()) != 0 {
            return None;
        }
        let slave = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if slave < 0 {
            return None;
        }
        let slave = OwnedFd::from_raw_fd(slave);
        let s = slave.as_raw_fd();
        let mut attr: libc::termios = std::mem::zeroed();
        let size = libc::winsize { ws_row: 24, ws_col: columns, ws_xpixel: 0, ws_ypixel: 0 };
        if libc::tcgetattr(s, &mut attr) < 0 {
            return None;
        }
        libc::cfmakeraw(&mut attr);
        if libc::tcsetattr(s, libc::TCSANOW, &attr) < 0 || libc::ioctl(s, libc::TIOCSWINSZ, &size) < 0 {
            return None;
        }
        Some((master, slave))
    }
}

/// What somebody might change about a terminal.
fn settings(master: &OwnedFd) -> R<Vec<u32>> {
    unsafe {
        let mut attr: libc::termios = std::mem::zeroed();
        let mut size: libc::winsize = std::mem::zeroed();
        cvt(libc::tcgetattr(master.as_raw_fd(), &mut attr), "tcgetattr")?;
        cvt(libc::ioctl(master.as_raw_fd(), libc::TIOCGWINSZ, &mut size), "TIOCGWINSZ")?;
        let mut v = vec![attr.c_iflag, attr.c_oflag, attr.c_cflag, attr.c_lflag, size.ws_row as u32, size.ws_col as u32];
        v.extend(attr.c_cc.iter().map(|c| *c as u32));
        Ok(v)
    }
}

/// Takes what was written to the file (by a process sharing its offset) and rewinds it.
fn drain(fd: RawFd) -> R<Vec<u8>> {
    let len = unsafe { libc::lseek(fd, 0, libc::SEEK_CUR) };
    if len < 0 {
        return Err(Fail::Harness(format!("lseek: {}", std::io::Error::last_os_error())));
    }
    let mut buf = vec![0u8; len as usize];
    let mut done = 0usize;
    while done < buf.len() {
        let n = unsafe { libc::pread(fd, buf[done..].as_mut_ptr().cast(), buf.len() - done, done as i64) };
        if n <= 0 {
            return Err(Fail::Harness(format!("pread: {}", std::io::Error::last_os_error())));
        }
        done += n as usize;
    }
    unsafe { libc::lseek(fd, 0, libc::SEEK_SET) };
    Ok(buf)
}

fn set_limit(pid: i32, resource: u32, soft: u64, hard: u64) {
    let lim = libc::rlimit { rlim_cur: soft, rlim_max: hard };
    // the process may have ended already, so errors are of no interest
    unsafe { libc::prlimit(pid, resource as _, &lim, std::ptr::null_mut()) };
}

fn wait_status(st: std::process::ExitStatus) -> Status {
    match (st.code(), st.signal()) {
        (Some(c), _) => Status::Code(c),
        (_, Some(libc::SIGXCPU)) => Status::CpuLimit,
        (_, Some(s)) => Status::Signal(s),
        _ => Status::Signal(0),
    }
}

/// The state of a process and the CPU time it has used.
fn activity(pid: i32) -> Option<(char, u64)> {
    let stat = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let mut fields = stat.rsplit_once(')')?.1.split_whitespace();
    let state = fields.next()?.chars().next()?;
    let fields: Vec<&str> = fields.collect();
    Some((state, fields.get(10)?.parse::<u64>().ok()? + fields.get(11)?.parse::<u64>().ok()?))
}

/// Waits until there is something to be read, or until the child appears to wait for something
/// itself; it is then killed, and the result says so.
fn wait_readable(fd: i32, child: &mut Child) -> R<Option<Status>> {
    let mut last = None;
    for _ in 0..WALL_TIMEOUT_MS / WALL_SLICE_MS {
        let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
        let n = unsafe { libc::poll(&mut p, 1, WALL_SLICE_MS) };
        if n > 0 {
            return Ok(None);
        }
        let now = activity(child.id() as i32);
        if n == 0 && now == last && matches!(now, Some(('S', _))) {
            let _ = child.kill();
            let _ = child.wait();
            return Ok(Some(Status::Asleep));
        }
        last = now;
    }
    let _ = child.kill();
    let _ = child.wait();
    Err(Fail::Harness("a process neither ended nor used up its CPU time".into()))
}

/// Waits for a child; kills it and reports a harness error if the wall clock runs out.
fn wait_child(child: &mut Child) -> R<Status> {
    let pid = child.id() as i32;
    let pidfd = unsafe { libc::syscall(libc::SYS_pidfd_open, pid, 0) } as i32;
    if pidfd >= 0 {
        let pidfd = unsafe { OwnedFd::from_raw_fd(pidfd) };
        if let Some(status) = wait_readable(pidfd.as_raw_fd(), child)? {
            return Ok(status);
        }
    }
    child.wait().map(wait_status).map_err(|e| Fail::Harness(format!("wait: {}", e)))
}

struct BatchServer {
    child: Child,
    stdin: ChildStdin,
    resp: OwnedFd,
    out: OwnedFd,
    err: OwnedFd,
}
enum BatchError {
    /// The command line ended or stalled the server.
    Died,
    Stalled,
    Other(Fail),
}
impl From<Fail> for BatchError {
    fn from(f: Fail) -> Self {
        BatchError::Other(f)
    }
}
impl BatchServer {
    fn start(path: &PathBuf, color: bool) -> R<BatchServer> {
        let out = memfd()?;
        let err = memfd()?;
        let (resp, resp_w) = pipe()?;
        let high = cvt(unsafe { libc::fcntl(resp_w.as_raw_fd(), libc::F_DUPFD_CLOEXEC, 64) }, "dup")?;
        let high = unsafe { OwnedFd::from_raw_fd(high) };
        drop(resp_w);
        let mut cmd = Command::new(path);
        cmd.env_clear().env("RUST_BACKTRACE", "0");
        if color {
            cmd.env("CLICOLOR_FORCE", "1");
        }
        cmd.current_dir("/").stdin(Stdio::piped()).stdout(Stdio::from(dup(&out)?)).stderr(Stdio::from(dup(&err)?));
        let raw = high.as_raw_fd();
        unsafe {
            cmd.pre_exec(move || {
                if libc::dup2(raw, 3) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
        let mut child = cmd.spawn().map_err(|e| Fail::Harness(format!("starting the batch server: {}", e)))?;
        let pid = child.id() as i32;
        set_limit(pid, libc::RLIMIT_AS as u32, AS_LIMIT, AS_LIMIT);
        set_limit(pid, libc::RLIMIT_FSIZE as u32, FSIZE_LIMIT, FSIZE_LIMIT);
        let stdin = child.stdin.take().unwrap();
        Ok(BatchServer { child, stdin, resp, out, err })
    }
    fn run(&mut self, args: &[&[u8]]) -> Result<Out, BatchError> {
        let mut req = Vec::new();
        req.extend((args.len() as u32).to_le_bytes());
        for a in args {
            req.extend((a.len() as u32).to_le_bytes());
            req.extend_from_slice(a);
        }
        let sent = self.stdin.write_all(&req);
        let mut got = 0usize;
        let mut buf = [0u8; 4];
        while sent.is_ok() && got < 4 {
            let mut p = libc::pollfd { fd: self.resp.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            let n = unsafe { libc::poll(&mut p, 1, BATCH_TIMEOUT_MS) };
            if n < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            if n == 0 {
                let _ = self.child.kill();
                let _ = self.child.wait();
                return Err(BatchError::Stalled);
            }
            let n = unsafe { libc::read(self.resp.as_raw_fd(), buf[got..].as_mut_ptr().cast(), 4 - got) };
            if n <= 0 {
                break;
            }
            got += n as usize;
        }
        if got < 4 {
            let _ = self.child.kill();
            self.child.wait().map_err(|e| Fail::Harness(format!("wait: {}", e)))?;
            return Err(BatchError::Died);
        }
        let out = drain(self.out.as_raw_fd())?;
        let err = drain(self.err.as_raw_fd())?;
        Ok(Out { status: Status::Code(i32::from_le_bytes(buf)), out, err })
    }
}
impl Drop for BatchServer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub struct Exec {
    pub bins: Bins,
    pub mode: Mode,
    batch: [Option<BatchServer>; 2],
    out: OwnedFd,
    err: OwnedFd,
    /// Processor time that an ordinary process may use (reset for every case).
    pub cpu_seconds: u64,
    /// Command lines of the current case.
    pub trace: Vec<String>,
    pub invocations: u64,
    pub processes: u64,
    /// Command lines that a batch server could not survive and that were run in a process instead.
    pub batch_deaths: u64,
}
impl Exec {
    pub fn new(bins: &Bins, mode: Mode) -> R<Exec> {
        Ok(Exec {
            bins: bins.clone(),
            mode,
            batch: [None, None],
            out: memfd()?,
            err: memfd()?,
            cpu_seconds: CPU_SECONDS,
            trace: Vec::new(),
            invocations: 0,
            processes: 0,
            batch_deaths: 0,
        })
    }

    pub fn run<S: AsRef<[u8]>>(&mut self, args: &[S]) -> R<Out> {
        self.run_colored(args, false)
    }

    pub fn run_colored<S: AsRef<[u8]>>(&mut self, args: &[S], color: bool) -> R<Out> {
        match self.mode {
            Mode::Batch => {
                self.note(args, color, "");
                let refs: Vec<&[u8]> = args.iter().map(|a| a.as_ref()).collect();
                let slot = color as usize;
                if self.batch[slot].is_none() {
                    let path = self.bins.batch.clone().ok_or_else(|| Fail::Harness("no batch build".into()))?;
                    self.batch[slot] = Some(BatchServer::start(&path, color)?);
                }
                self.invocations += 1;
                match self.batch[slot].as_mut().unwrap().run(&refs) {
                    Ok(out) => Ok(out),
                    Err(BatchError::Other(f)) => Err(f),
                    Err(BatchError::Died) | Err(BatchError::Stalled) => {
                        // let a fresh process speak for this command line
                        self.batch[slot] = None;
                        self.batch_deaths += 1;
                        self.spawn(args, color, Profile::Dev)
                    }
                }
            }
            Mode::Proc(profile) => self.run_proc(args, color, profile),
        }
    }

    pub fn run_proc<S: AsRef<[u8]>>(&mut self, args: &[S], color: bool, profile: Profile) -> R<Out> {
        self.note(args, color, if profile == Profile::Release { " (release build)" } else { "" });
        self.invocations += 1;
        self.spawn(args, color, profile)
    }

    /// Runs a command line in a build with only some of the optional features.
    pub fn run_reduced<S: AsRef<[u8]>>(&mut self, args: &[S], color: bool, features: &str) -> R<Out> {
        self.note(args, color, &format!(" (build with only these optional features: {:?})", features));
        let program = match self.bins.reduced.iter().find(|r| r.0 == features) {
            None => return Err(Fail::Harness(format!("no build with the features {:?}", features))),
            Some((_, Err(why))) => return violation(format!("with only these optional features the program does not even compile: {:?}: {}", features, why)),
            Some((_, Ok(path))) => path.clone(),
        };
        self.invocations += 1;
        let mut cmd = Command::new(program);
        self.equip(&mut cmd, args, color);
        self.finish(cmd)
    }

    /// Runs a command line in an unusual environment.
    pub fn run_around<S: AsRef<[u8]>>(&mut self, args: &[S], around: &Around, profile: Profile) -> R<Out> {
        let vars: Vec<String> = around.vars.iter().map(|(k, v)| show_cmdline(&[format!("{}={}", k, v)])["ripcalc ".len()..].to_string()).collect();
        self.note(args, false, &format!(" ({:?} build; called {:?} in {} with {} and {} bytes of input)", profile, if around.name.is_empty() { "as usual" } else { &around.name }, around.dir, if vars.is_empty() { "no variables".into() } else { vars.join(" ") }, around.input.len()));
        self.invocations += 1;
        let mut cmd = self.command(args, false, profile);
        surround(&mut cmd, around)?;
        self.finish(cmd)
    }

    /// Runs a command line with the shim preloaded. `file` is what every file contains that the
    /// program opens, `vars` are further environment variables.
    pub fn run_shim<S: AsRef<[u8]>>(&mut self, args: &[S], config: &str, file: Option<&str>, profile: Profile) -> R<Out> {
        self.note(args, false, &format!("   [{:?} build, RIPSHIM={}{}]", profile, config, file.map_or(String::new(), |f| format!(", every file has {:?}", clip(f)))));
        self.invocations += 1;
        let cmd = self.shim_command(args, config, file, profile)?;
        self.finish(cmd)
    }

    fn shim_command<S: AsRef<[u8]>>(&mut self, args: &[S], config: &str, file: Option<&str>, profile: Profile) -> R<Command> {
        const FD: i32 = 100;
        let shim = self.bins.shim.clone().ok_or_else(|| Fail::Harness("no shim".into()))?;
        let mut cmd = self.command(args, false, profile);
        cmd.env("LD_PRELOAD", shim).env("HOME", "/home/someone").env("USER", "someone").env("XDG_CONFIG_HOME", "/home/someone/.config");
        if let Some(text) = file {
            let memory = memfd()?;
            let mut f = std::fs::File::from(dup(&memory)?);
            f.write_all(text.as_bytes()).map_err(|e| Fail::Harness(format!("file contents: {}", e)))?;
            unsafe {
                cmd.pre_exec(move || if libc::dup2(memory.as_raw_fd(), FD) < 0 { Err(std::io::Error::last_os_error()) } else { Ok(()) });
            }
            cmd.env("RIPSHIM", format!("{},f=/proc/self/fd/{}", config, FD));
        } else {
            cmd.env("RIPSHIM", config);
        }
        Ok(cmd)
    }

    /// Runs a command line where it must not have any effects besides its output; on a terminal of
    /// the given width, if there is one. Says what became of standard input.
    pub fn run_confined<S: AsRef<[u8]>>(&mut self, args: &[S], config: &str, around: &Around, file: Option<&str>, columns: Option<u16>, profile: Profile) -> R<(Out, Option<String>)> {
        self.invocations += 1;
        let mut cmd = self.shim_command(args, config, file, profile)?;
        surround(&mut cmd, &Around { input: String::new(), ..around.clone() })?;
        let suffix = format!("   [{:?} build, confined, RIPSHIM={}; {:?}{}]", profile, config, around, if columns.is_some() { ", on a terminal" } else { "" });
        self.note(args, false, &suffix);
        if let Some((master, slave)) = columns.and_then(terminal) {
            let watch = dup(&master)?;
            let before = settings(&watch)?;
            cmd.stdin(Stdio::from(dup(&slave)?)).stderr(Stdio::from(dup(&slave)?));
            let out = self.finish_terminal(cmd, master, slave)?;
            let changed = before != settings(&watch)?;
            return Ok((out, changed.then(|| "the settings of the terminal have changed".to_string())));
        }
        // a file that others read on from; a pipe that others read from
        if around.input.len() % 2 == 0 {
            let memory = memfd()?;
            let mut f = std::fs::File::from(dup(&memory)?);
            f.write_all(around.input.as_bytes()).and_then(|_| f.write_all(b"more input\n")).map_err(|e| Fail::Harness(format!("standard input: {}", e)))?;
            let len = unsafe { libc::lseek(memory.as_raw_fd(), 0, libc::SEEK_CUR) };
            unsafe { libc::lseek(memory.as_raw_fd(), 3, libc::SEEK_SET) };
            cmd.stdin(Stdio::from(dup(&memory)?));
            let flags = unsafe { libc::fcntl(memory.as_raw_fd(), libc::F_GETFL) };
            let out = self.finish(cmd)?;
            let at = unsafe { libc::lseek(memory.as_raw_fd(), 0, libc::SEEK_CUR) };
            let end = unsafe { libc::lseek(memory.as_raw_fd(), 0, libc::SEEK_END) };
            let now = unsafe { libc::fcntl(memory.as_raw_fd(), libc::F_GETFL) };
            let note = if (at, end) != (3, len) {
                Some(format!("standard input, a file, was read or written: at byte {} of {}, where it was at 3 of {}", at, end, len))
            } else if flags != now {
                Some("the flags of standard input have changed".to_string())
            } else {
                None
            };
            return Ok((out, note));
        }
        let (r, w) = pipe()?;
        std::fs::File::from(w).write_all(around.input.as_bytes()).map_err(|e| Fail::Harness(format!("standard input: {}", e)))?;
        cmd.stdin(Stdio::from(dup(&r)?));
        let out = self.finish(cmd)?;
        let mut left: libc::c_int = 0;
        cvt(unsafe { libc::ioctl(r.as_raw_fd(), libc::FIONREAD, &mut left) }, "FIONREAD")?;
        let flags = unsafe { libc::fcntl(r.as_raw_fd(), libc::F_GETFL) };
        let note = if left as usize != around.input.len() {
            Some(format!("only {} of {} bytes are left of standard input", left, around.input.len()))
        } else if flags & (libc::O_NONBLOCK | libc::O_ASYNC) != 0 {
            Some("the flags of standard input have changed".to_string())
        } else {
            None
        };
        Ok((out, note))
    }

    /// Runs a command line on a terminal of the given width, which receives standard output.
    /// `None` if there are no terminals here.
    pub fn run_terminal<S: AsRef<[u8]>>(&mut self, args: &[S], columns: u16, profile: Profile) -> R<Option<Out>> {
        let Some((master, slave)) = terminal(columns) else { return Ok(None) };
        self.note(args, false, &format!("   [on a terminal of {} columns]", columns));
        self.invocations += 1;
        let mut cmd = self.command(args, false, profile);
        cmd.stderr(Stdio::from(dup(&self.err)?));
        self.finish_terminal(cmd, master, slave).map(Some)
    }

    fn finish_terminal(&mut self, mut cmd: Command, master: OwnedFd, slave: OwnedFd) -> R<Out> {
        self.processes += 1;
        cmd.env("TERM", "xterm-256color");
        cmd.stdout(Stdio::from(slave));
        let mut child = spawn_retry(&mut cmd)?;
        drop(cmd); // our copy of the terminal's other side
        let pid = child.id() as i32;
        set_limit(pid, libc::RLIMIT_CPU as u32, CPU_SECONDS, CPU_SECONDS + 2);
        set_limit(pid, libc::RLIMIT_AS as u32, AS_LIMIT, AS_LIMIT);
        set_limit(pid, libc::RLIMIT_FSIZE as u32, FSIZE_LIMIT, FSIZE_LIMIT);
        let mut out = Vec::new();
        let mut buf = [0u8; 4096];
        loop {
            let n = unsafe { libc::read(master.as_raw_fd(), buf.as_mut_ptr().cast(), buf.len()) };
            if n < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            if n <= 0 {
                // EIO: nobody has the other side open any more
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        let status = wait_child(&mut child);
        let err = drain(self.err.as_raw_fd())?;
        Ok(Out { status: status?, out, err })
    }

    fn note<S: AsRef<[u8]>>(&mut self, args: &[S], color: bool, suffix: &str) {
        if self.trace.len() < 40 {
            let mut line = show_cmdline(args);
            if color {
                line.insert_str(0, "CLICOLOR_FORCE=1 ");
            }
            line.push_str(suffix);
            self.trace.push(line);
        }
    }

    fn command<S: AsRef<[u8]>>(&self, args: &[S], color: bool, profile: Profile) -> Command {
        let mut cmd = Command::new(if profile == Profile::Dev { &self.bins.dev } else { &self.bins.release });
        self.equip(&mut cmd, args, color);
        cmd
    }

    fn equip<S: AsRef<[u8]>>(&self, cmd: &mut Command, args: &[S], color: bool) {
        cmd.env_clear().env("RUST_BACKTRACE", "0").current_dir("/").stdin(Stdio::null());
        if color {
            cmd.env("CLICOLOR_FORCE", "1");
        }
        for a in args {
            cmd.arg(std::ffi::OsString::from_vec(a.as_ref().to_vec()));
        }
    }

    fn spawn<S: AsRef<[u8]>>(&mut self, args: &[S], color: bool, profile: Profile) -> R<Out> {
        let cmd = self.command(args, color, profile);
        self.finish(cmd)
    }

    fn finish(&mut self, mut cmd: Command) -> R<Out> {
        self.processes += 1;
        cmd.stdout(Stdio::from(dup(&self.out)?)).stderr(Stdio::from(dup(&self.err)?));
        let mut child = spawn_retry(&mut cmd)?;
        let pid = child.id() as i32;
        set_limit(pid, libc::RLIMIT_CPU as u32, self.cpu_seconds, self.cpu_seconds + 2);
        set_limit(pid, libc::RLIMIT_AS as u32, AS_LIMIT, AS_LIMIT);
        set_limit(pid, libc::RLIMIT_FSIZE as u32, FSIZE_LIMIT, FSIZE_LIMIT);
        let status = wait_child(&mut child);
        let out = drain(self.out.as_raw_fd())?;
        let err = drain(self.err.as_raw_fd())?;
        Ok(Out { status: status?, out, err })
    }

    /// Runs a command line with standard output failing; what was delivered is in `out`.
    pub fn run_faulty<S: AsRef<[u8]>>(&mut self, args: &[S], fault: Fault, profile: Profile) -> R<Out> {
        let messages = matches!(fault, Fault::MessagesFull | Fault::MessagesClosed);
        self.note(args, false, &format!("   [standard {}: {:?}]", if messages { "error" } else { "output" }, fault));
        self.invocations += 1;
        self.processes += 1;
        let mut cmd = self.command(args, false, profile);
        cmd.stderr(Stdio::null());
        let mut reader: Option<(OwnedFd, u64)> = None;
        match fault {
            Fault::SizeLimit(k) => {
                cmd.stdout(Stdio::from(dup(&self.out)?));
                unsafe {
                    cmd.pre_exec(move || {
                        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                        let lim = libc::rlimit { rlim_cur: k, rlim_max: k };
                        if libc::setrlimit(libc::RLIMIT_FSIZE, &lim) < 0 {
                            return Err(std::io::Error::last_os_error());
                        }
                        Ok(())
                    });
                }
            }
            Fault::ClosedPipe | Fault::MessagesClosed => {
                let (r, w) = pipe()?;
                drop(r);
                // a process being started by another thread may still have a copy of the reading end
                let mut p = libc::pollfd { fd: w.as_raw_fd(), events: 0, revents: 0 };
                let mut tries = 0;
                while unsafe { libc::poll(&mut p, 1, 0) } <= 0 || p.revents & libc::POLLERR == 0 {
                    tries += 1;
                    if tries > 60_000 {
                        return Err(Fail::Harness("a pipe keeps its reader".into()));
                    }
                    std::thread::sleep(std::time::Duration::from_millis(1));
                }
                if messages {
                    cmd.stderr(Stdio::from(w));
                } else {
                    cmd.stdout(Stdio::from(w));
                }
            }
            Fault::ReaderLeaves(n) | Fault::Told(n, _) => {
                let (r, w) = pipe()?;
                cvt(unsafe { libc::fcntl(w.as_raw_fd(), libc::F_SETPIPE_SZ, 4096) }, "F_SETPIPE_SZ")?;
                cmd.stdout(Stdio::from(w));
                reader = Some((r, n));
                if let Fault::Told(_, signal) = fault {
                    unsafe {
                        cmd.pre_exec(move || {
                            let mut set: libc::sigset_t = std::mem::zeroed();
                            libc::sigemptyset(&mut set);
                            libc::sigaddset(&mut set, signal);
                            libc::sigprocmask(libc::SIG_UNBLOCK, &set, std::ptr::null_mut());
                            libc::signal(signal, libc::SIG_DFL);
                            // (no core files)
                            libc::setrlimit(libc::RLIMIT_CORE, &libc::rlimit { rlim_cur: 0, rlim_max: 0 });
                            Ok(())
                        });
                    }
                }
            }
            Fault::DeviceFull | Fault::MessagesFull => {
                let f = std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| Fail::Harness(format!("/dev/full: {}", e)))?;
                if messages {
                    cmd.stderr(Stdio::from(f));
                } else {
                    cmd.stdout(Stdio::from(f));
                }
            }
        }
        if messages {
            cmd.stdout(Stdio::from(dup(&self.out)?));
        }
        let mut child = spawn_retry(&mut cmd)?;
        drop(cmd); // our copy of the pipe's writing end
        let pid = child.id() as i32;
        let seconds = match fault {
            // many times what the unchanged program needs for so much
            Fault::ReaderLeaves(n) | Fault::Told(n, _) => CPU_SECONDS + (n >> 17),
            _ => CPU_SECONDS,
        };
        set_limit(pid, libc::RLIMIT_CPU as u32, seconds, seconds + 2);
        set_limit(pid, libc::RLIMIT_AS as u32, AS_LIMIT, AS_LIMIT);
        let mut delivered = Vec::new();
        if let Some((r, n)) = reader {
            let mut buf = [0u8; 4096];
            while (delivered.len() as u64) < n {
                if let Some(status) = wait_readable(r.as_raw_fd(), &mut child)? {
                    return Ok(Out { status, out: delivered, err: Vec::new() });
                }
                let want = ((n - delivered.len() as u64) as usize).min(buf.len());
                let got = unsafe { libc::read(r.as_raw_fd(), buf.as_mut_ptr().cast(), want) };
                if got < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                    continue;
                }
                if got <= 0 {
                    break;
                }
                delivered.extend_from_slice(&buf[..got as usize]);
            }
            if let Fault::Told(_, signal) = fault {
                // (it is a child of ours that has not been waited for: the number is still its own)
                unsafe { libc::kill(pid, signal) };
                let mut rest = 0usize;
                loop {
                    if let Some(status) = wait_readable(r.as_raw_fd(), &mut child)? {
                        return Ok(Out { status, out: delivered, err: Vec::new() });
                    }
                    let got = unsafe { libc::read(r.as_raw_fd(), buf.as_mut_ptr().cast(), buf.len()) };
                    if got < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                        continue;
                    }
                    // what the pipe holds, and more than what the program may hold back
                    if got <= 0 || rest > 1 << 20 {
                        break;
                    }
                    rest += got as usize;
                    delivered.extend_from_slice(&buf[..got as usize]);
                }
                if rest > 1 << 20 {
                    let _ = child.kill();
                    let _ = child.wait();
                    return violation(format!("signal {} does not end it: {} more bytes were written", signal, rest));
                }
            }
        }
        let status = wait_child(&mut child);
        if messages || matches!(fault, Fault::SizeLimit(_)) {
            delivered = drain(self.out.as_raw_fd())?;
        }
        Ok(Out { status: status?, out: delivered, err: Vec::new() })
    }
}

fn surround(cmd: &mut Command, around: &Around) -> R<()> {
    for (k, v) in &around.vars {
        // (the replacement character stands for a byte that is not UTF-8)
        let v = v.split('\u{fffd}').map(str::as_bytes).collect::<Vec<_>>().join(&0xFFu8);
        cmd.env(k, std::ffi::OsString::from_vec(v));
    }
    if around.dir == "gone" {
        let dir = std::ffi::CString::new(format!("/tmp/ripverif-gone-{}-{:?}", std::process::id(), std::thread::current().id())).unwrap();
        unsafe {
            cmd.pre_exec(move || {
                if libc::mkdir(dir.as_ptr(), 0o700) == 0 {
                    libc::chdir(dir.as_ptr());
                    libc::rmdir(dir.as_ptr());
                }
                Ok(())
            });
        }
    } else {
        cmd.current_dir(&around.dir);
    }
    if !around.name.is_empty() {
        cmd.arg0(&around.name);
    }
    if !around.input.is_empty() {
        // (fits into the pipe)
        let (r, w) = pipe()?;
        std::fs::File::from(w).write_all(around.input.as_bytes()).map_err(|e| Fail::Harness(format!("standard input: {}", e)))?;
        cmd.stdin(Stdio::from(r));
    }
    Ok(())
}

fn spawn_retry(cmd: &mut Command) -> R<Child> {
    let mut last = None;
    for i in 0..20 {
        match cmd.spawn() {
            Ok(c) => return Ok(c),
            Err(e) if matches!(e.raw_os_error(), Some(libc::EAGAIN) | Some(libc::ENOMEM) | Some(libc::ETXTBSY)) => {
                last = Some(e);
                std::thread::sleep(std::time::Duration::from_millis(20 << i.min(5)));
            }
            Err(e) => return Err(Fail::Harness(format!("cannot start the program: {}", e))),
        }
    }
    Err(Fail::Harness(format!("cannot start the program: {:?}", last)))
}

/// A command line the way one would type it.
pub fn show_cmdline<S: AsRef<[u8]>>(args: &[S]) -> String {
    let mut s = String::from("ripcalc");
    for a in args {
        s.push(' ');
        let a = a.as_ref();
        if !a.is_empty() && a.iter().all(|b| b.is_ascii_alphanumeric() || b"./:-_+=,".contains(b)) {
            s.push_str(std::str::from_utf8(a).unwrap());
        } else {
            s.push_str("$'");
            for &b in a {
                match b {
                    b'\'' => s.push_str("\\'"),
                    b'\\' => s.push_str("\\\\"),
                    0x20..=0x7e => s.push(b as char),
                    _ => s.push_str(&format!("\\x{:02x}", b)),
                }
            }
            s.push('\'');
        }
        if s.len() > 4000 {
            s.push_str(&format!(" ... ({} arguments)", args.len()));
            break;
        }
    }
    s
}
