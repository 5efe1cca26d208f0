//! Stand-ins for code formatters: `hv fake DIR BEHAVIOUR`, run by the code under test.

use std::io::{Read, Write};

/// What a formatter does.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fake {
    Identity,
    Upper,
    Lines,
    Nothing,
    Fences,
    BlankLines,
    NoNewline,
    Unicode,
    /// Writes much before it reads.
    Flood,
    /// Reads a byte at a time, answering each.
    Dribble,
    /// Much on standard error, and success.
    NoisyOk,
    /// Does not read its input.
    Deaf,
    /// Reads only a part of it.
    Partial,
    /// Formats, then fails.
    LateFail,
    EarlyFail,
    /// Much on standard error, then fails.
    NoisyFail,
    /// Ends with a signal.
    Signal,
    Binary,
    /// Valid, except for the last bytes.
    BinaryTail,
    Missing,
    NotExecutable,
    Directory,
    /// Does not end, having read and written everything.
    Hang,
    /// Does not end, does not read.
    HangDeaf,
    /// Does not end, and goes on writing.
    HangFlood,
    /// Does not end, but closes its output.
    HangClosed,
}

use Fake::*;

pub const GOOD: &[Fake] = &[
    Identity, Upper, Lines, Nothing, Fences, BlankLines, NoNewline, Unicode, Flood, Dribble,
    NoisyOk, Deaf, Partial,
];
pub const BAD: &[Fake] = &[
    LateFail,
    EarlyFail,
    NoisyFail,
    Signal,
    Binary,
    BinaryTail,
    Missing,
    NotExecutable,
    Directory,
];
pub const HANG: &[Fake] = &[Hang, HangDeaf, HangFlood, HangClosed];

pub fn by_name(name: &str) -> Fake {
    *GOOD
        .iter()
        .chain(BAD)
        .chain(HANG)
        .find(|f| format!("{f:?}") == name)
        .expect("HARNESS: no such fake")
}

fn upper(code: &str) -> String {
    code.chars().map(|c| c.to_ascii_uppercase()).collect()
}

/// The output, if the formatter succeeds.
pub fn output(f: Fake, code: &str) -> Option<String> {
    Some(match f {
        Identity | NoisyOk | Dribble => code.to_string(),
        Upper => upper(code),
        Lines => code.lines().map(|l| format!("  {l}\n")).collect(),
        Nothing => String::new(),
        Fences => format!("~~~~~~\n{}```\n    ~~~~\n", upper(code)),
        BlankLines => format!("\n\n{}\n\n\n", code.trim_end_matches('\n')),
        NoNewline => format!("{}end", upper(code)),
        Unicode => format!("漢字 é\u{301} \u{2028}\n{code}"),
        Flood => format!("{}{}", "0123456789 abcdef\n".repeat(9000), code),
        Deaf => "deaf\n".into(),
        Partial => "partial\n".into(),
        _ => return None,
    })
}

/// The formatter itself.
pub fn main(dir: &str, name: &str) -> ! {
    let f = by_name(name);
    let mut stdin = std::io::stdin().lock();
    let mut stdout = std::io::stdout().lock();
    let mut code = Vec::new();
    let mut end = 0;
    match f {
        Deaf | EarlyFail | HangDeaf | HangFlood => {}
        Flood => {
            let _ = stdout.write_all("0123456789 abcdef\n".repeat(9000).as_bytes());
            let _ = stdout.flush();
            let _ = stdin.read_to_end(&mut code);
            let _ = stdout.write_all(&code);
        }
        Partial => {
            let mut b = [0; 3];
            let n = stdin.read(&mut b).unwrap_or(0);
            code.extend(&b[..n]);
        }
        Dribble => {
            let mut b = [0; 997];
            while let Ok(n) = stdin.read(&mut b)
                && n > 0
            {
                code.extend(&b[..n]);
                let _ = stdout.write_all(&b[..n]);
                let _ = stdout.flush();
            }
        }
        _ => {
            let _ = stdin.read_to_end(&mut code);
        }
    }
    // what it was given
    let id = std::process::id();
    let path = std::path::Path::new(dir).join(format!("{name}-{id}"));
    let _ = std::fs::write(&path, &code);
    let text = String::from_utf8_lossy(&code).into_owned();
    match f {
        Flood | Dribble => {}
        NoisyOk => {
            let _ = std::io::stderr().write_all(&vec![b'e'; 300_000]);
            let _ = stdout.write_all(&code);
        }
        NoisyFail => {
            let _ = std::io::stderr().write_all(&vec![b'e'; 300_000]);
            end = 2;
        }
        LateFail => {
            let _ = stdout.write_all(upper(&text).as_bytes());
            end = 3;
        }
        EarlyFail => end = 1,
        Signal => {
            let _ = stdout.write_all(upper(&text).as_bytes());
            let _ = stdout.flush();
            unsafe { libc::kill(libc::getpid(), libc::SIGKILL) };
        }
        Binary => {
            let _ = stdout.write_all(b"\xff\xfe\x00");
        }
        BinaryTail => {
            let _ = stdout.write_all(upper(&text).as_bytes());
            let _ = stdout.write_all(b"\xe6\xbc");
        }
        Hang | HangClosed => {
            let _ = stdout.write_all(upper(&text).as_bytes());
            let _ = stdout.flush();
            if f == HangClosed {
                unsafe { libc::close(1) };
            }
            std::thread::sleep(std::time::Duration::from_secs(100));
        }
        HangDeaf => std::thread::sleep(std::time::Duration::from_secs(100)),
        HangFlood => {
            let start = std::time::Instant::now();
            while start.elapsed().as_secs() < 100 {
                if stdout.write_all(&[b'x'; 4096]).is_err() {
                    break;
                }
            }
        }
        _ => {
            let _ = stdout.write_all(output(f, &text).unwrap_or_default().as_bytes());
        }
    }
    let _ = stdout.flush();
    std::process::exit(end)
}
