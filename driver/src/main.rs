//! Evaluates expressions of the public API of clarith, one per line of standard input.
//!
//! expressions (prefix form)
//!   r NUM DEN                  Number::ratio
//!   u SIGN NUM DEN             Number::ratio_u (SIGN 1 positive, 0 negative)
//!   h NX N DX D X              Number::homographic
//!   c A B C D E F G H X Y      Number::combine
//!   k X                        X passed through Number::consume and rebuilt with homographic
//!   p N X                      X with its first N symbols extracted (the kind and primer are dropped)
//!
//! commands
//!   show MAX X                 kind, primer and up to MAX symbols; `.` marks the end
//!   cmp X Y                    Number::compare
//!   con MAX X                  Number::consume, with up to MAX symbols of the rest
//!   pair MAX K X Y             like show X, but K symbols are read from Y in between, then Y is dropped
//!   nest MAX N NX N DX D X     N nested homographics with the same coefficients around X
//!
//! A panic is reported as `! MESSAGE @ FILE:LINE:COL`, after whatever was obtained before it.

use clarith::protocol::{Primer, Reduction, Special};
use clarith::{Clog, Number};
use std::cell::RefCell;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::os::unix::io::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static MESSAGE: RefCell<String> = RefCell::new(String::new());
}

type Tokens<'a> = std::str::SplitAsciiWhitespace<'a>;

fn int(t: &mut Tokens) -> isize {
    t.next().unwrap().parse().unwrap()
}

fn uint(t: &mut Tokens) -> usize {
    t.next().unwrap().parse().unwrap()
}

fn expr(t: &mut Tokens) -> Number {
    match t.next().unwrap() {
        "r" => {
            let (n, d) = (int(t), int(t));
            Number::ratio(n, d)
        }
        "u" => {
            let (s, n, d) = (int(t) == 1, uint(t), uint(t));
            Number::ratio_u(s, n, d)
        }
        "h" => {
            let (nx, n, dx, d) = (int(t), int(t), int(t), int(t));
            let x = expr(t);
            Number::homographic(x, nx, n, dx, d)
        }
        "c" => {
            let k: Vec<isize> = (0..8).map(|_| int(t)).collect();
            let x = expr(t);
            let y = expr(t);
            Number::combine(x, y, k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7])
        }
        "k" => {
            let (y, nx, n, dx, d) = Number::consume(expr(t));
            Number::homographic(y.unwrap_or_else(|| Number::ratio(1, 2)), nx, n, dx, d)
        }
        "p" => {
            let n = int(t);
            match expr(t) {
                Number::Special(s) => Number::Special(s),
                Number::Other(_, mut c) => {
                    for _ in 0..n {
                        c.egest();
                    }
                    Number::Other(None, c)
                }
            }
        }
        o => {
            eprintln!("bad expression {}", o);
            std::process::exit(3);
        }
    }
}

fn special(s: &Special) -> &'static str {
    match s {
        Special::NegOne => "N",
        Special::Zero => "Z",
        Special::PosOne => "P",
    }
}

fn primer(p: &Option<Primer>) -> &'static str {
    match p {
        None => "-",
        Some(Primer::Turn) => "T",
        Some(Primer::Reflect) => "R",
        Some(Primer::Ground) => "G",
    }
}

fn stream(c: &mut Clog, max: isize, out: &mut String) {
    for _ in 0..max {
        match c.egest() {
            Some(Reduction::Amplify) => out.push('A'),
            Some(Reduction::Uncover) => out.push('U'),
            None => {
                out.push('.');
                // the end must be repeatable
                for _ in 0..2 {
                    match c.egest() {
                        Some(Reduction::Amplify) => out.push('A'),
                        Some(Reduction::Uncover) => out.push('U'),
                        None => {}
                    }
                }
                return;
            }
        }
    }
    out.push('+');
}

fn number(x: Number, max: isize, out: &mut String) {
    match x {
        Number::Special(s) => {
            out.push_str("S ");
            out.push_str(special(&s));
        }
        Number::Other(p, mut c) => {
            out.push_str("O ");
            out.push_str(primer(&p));
            out.push(' ');
            stream(&mut c, max, out);
        }
    }
}

fn command(line: &str, out: &mut String) {
    let mut t = line.split_ascii_whitespace();
    match t.next() {
        Some("show") => {
            let max = int(&mut t);
            number(expr(&mut t), max, out);
        }
        Some("cmp") => {
            let x = expr(&mut t);
            let y = expr(&mut t);
            out.push_str(match Number::compare(x, y) {
                std::cmp::Ordering::Less => "<",
                std::cmp::Ordering::Equal => "=",
                std::cmp::Ordering::Greater => ">",
            });
        }
        Some("con") => {
            let max = int(&mut t);
            let (y, nx, n, dx, d) = Number::consume(expr(&mut t));
            out.push_str(&format!("{} {} {} {} ", nx, n, dx, d));
            match y {
                None => out.push_str("none"),
                Some(y) => number(y, max, out),
            }
        }
        Some("pair") => {
            let max = int(&mut t);
            let k = int(&mut t);
            let x = expr(&mut t);
            let y = expr(&mut t);
            if let Number::Other(_, mut c) = y {
                for _ in 0..k {
                    c.egest();
                }
                match x {
                    Number::Other(p, mut cx) => {
                        out.push_str("O ");
                        out.push_str(primer(&p));
                        out.push(' ');
                        let mut other = Some(c);
                        for i in 0..max {
                            if i == 3 {
                                other = None;
                            }
                            match cx.egest() {
                                Some(Reduction::Amplify) => out.push('A'),
                                Some(Reduction::Uncover) => out.push('U'),
                                None => {
                                    out.push('.');
                                    return;
                                }
                            }
                            if let Some(o) = &mut other {
                                o.egest();
                            }
                        }
                        out.push('+');
                    }
                    s => number(s, max, out),
                }
            } else {
                drop(y);
                number(x, max, out);
            }
        }
        Some("nest") => {
            let max = int(&mut t);
            let k = int(&mut t);
            let (nx, n, dx, d) = (int(&mut t), int(&mut t), int(&mut t), int(&mut t));
            let mut x = expr(&mut t);
            for _ in 0..k {
                x = Number::homographic(x, nx, n, dx, d);
            }
            number(x, max, out);
        }
        _ => {
            eprintln!("bad command");
            std::process::exit(3);
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let l = info.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        MESSAGE.with(|c| *c.borrow_mut() = format!("{} @ {}", m.replace('\n', " "), l));
    }));
    // results go to a descriptor of their own, so that anything the library prints can be told apart
    let fd: i32 = std::env::args().nth(1).map(|a| a.parse().unwrap()).unwrap_or(1);
    let mut w = BufWriter::new(unsafe { File::from_raw_fd(fd) });
    let work = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let input = BufReader::new(std::io::stdin());
        for line in input.lines() {
            let line = line.unwrap();
            if line == "flush" {
                w.flush().unwrap();
                continue;
            }
            let mut out = String::new();
            let r = catch_unwind(AssertUnwindSafe(|| command(&line, &mut out)));
            if r.is_err() {
                out.push_str(" ! ");
                MESSAGE.with(|c| out.push_str(&c.borrow()));
            }
            writeln!(w, "{}", out).unwrap();
        }
        w.flush().unwrap();
    });
    work.unwrap().join().unwrap();
}
