//! Running the command in a scratch directory.

use std::io::Write;
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::OnceLock;

pub fn bin() -> String {
    std::env::var("HV_BIN").expect("HARNESS: HV_BIN")
}

/// An unprivileged user, if there is one that can run the command. Only then permissions mean something.
pub fn user() -> Option<u32> {
    static U: OnceLock<Option<u32>> = OnceLock::new();
    *U.get_or_init(|| {
        let uid = 65534;
        let d = tempfile::tempdir().ok()?;
        own(d.path(), uid);
        let ok = unsafe { libc::geteuid() } == 0
            && Command::new(bin())
                .arg("--version")
                .uid(uid)
                .gid(uid)
                .current_dir(d.path())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status()
                .is_ok_and(|s| s.success());
        ok.then_some(uid)
    })
}

pub fn own(p: &Path, uid: u32) {
    let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
    unsafe { libc::lchown(c.as_ptr(), uid, uid) };
}

pub struct Out {
    pub code: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
}

/// Runs the command with nothing of the real user's configuration. `home` is where HOME points.
pub fn run(
    cwd: &Path,
    home: &Path,
    args: &[String],
    stdin: Option<&[u8]>,
    uid: Option<u32>,
    xdg: Option<&Path>,
) -> Out {
    exec(Path::new(&bin()), cwd, home, args, stdin, uid, xdg, None)
}

/// The stand-in for the system-wide configuration.
pub fn shim() -> Option<String> {
    std::env::var("HV_SHIM").ok()
}

/// Runs a program. `etc` is the file it sees as the system-wide configuration.
#[allow(clippy::too_many_arguments)]
pub fn exec(
    prog: &Path,
    cwd: &Path,
    home: &Path,
    args: &[String],
    stdin: Option<&[u8]>,
    uid: Option<u32>,
    xdg: Option<&Path>,
    etc: Option<&Path>,
) -> Out {
    let mut c = Command::new(prog);
    c.args(args)
        .current_dir(cwd)
        .env_clear()
        .env("HOME", home)
        .env("PATH", "/usr/bin:/bin");
    c.env(
        "XDG_CONFIG_HOME",
        xdg.map(|p| p.to_path_buf()).unwrap_or(home.join(".config")),
    )
    .env("RAYON_NUM_THREADS", "4");
    if let (Some(e), Some(s)) = (etc, shim()) {
        c.env("LD_PRELOAD", s).env("HV_ETC", e);
    }
    if let Some(u) = uid {
        c.uid(u).gid(u);
    }
    c.stdin(if stdin.is_some() {
        Stdio::piped()
    } else {
        Stdio::null()
    })
    .stdout(Stdio::piped())
    .stderr(Stdio::piped());
    let mut p = c.spawn().expect("HARNESS: the command does not start");
    let w = stdin.map(|i| {
        let i = i.to_vec();
        let mut s = p.stdin.take().unwrap();
        std::thread::spawn(move || {
            let _ = s.write_all(&i);
        })
    });
    let o = p.wait_with_output().expect("HARNESS: output");
    if let Some(w) = w {
        let _ = w.join();
    }
    Out {
        code: o.status.code(),
        stdout: o.stdout,
        stderr: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}
