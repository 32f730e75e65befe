//! Scenario generator. Every choice comes from the run's seed. A first fault-free execution
//! teaches it where commands, replies and message content begin and end, so that faults and
//! cancellations can be aimed at (and around) those places.
use crate::rng::Rng;
use crate::scenario::*;
use crate::server::{gen_lines, gen_text, has_keyword};
use crate::world::{OpKind, World};

/// Permille unless noted.
#[derive(Clone, Debug)]
pub struct Knobs {
    pub ops_max: u64,
    pub sessions_max: u64,
    /// Permille of scenarios with many sessions.
    pub p_crowd: u32,
    pub p_multi: u32,
    pub p_pipe_adv: u32,
    pub p_pipe_on: u32,
    pub p_refuse: u32,
    pub p_refuse_data: u32,
    pub p_refuse_auth: u32,
    pub p_custom_ok: u32,
    pub p_fault_run: u32,
    pub p_cancel: u32,
    pub p_link_fault: u32,
    pub p_act_fault: u32,
    pub p_malformed: u32,
    pub p_extra: u32,
    pub p_slow: u32,
    pub p_weird: u32,
    pub p_greet_neg: u32,
    pub p_login: u32,
    pub p_tls: u32,
    pub p_quit: u32,
    pub p_many: u32,
    pub p_huge_env: u32,
    pub p_hostile: u32,
    pub p_hostile_hello: u32,
    pub p_reader: u32,
    pub p_reader_fail: u32,
    pub p_big: u32,
    pub p_dotty: u32,
    pub p_hold: u32,
    pub p_small_cap: u32,
    pub p_dribble: u32,
    pub p_nogreet: u32,
    pub p_odd_challenge: u32,
    pub p_decoy: u32,
    pub p_utf8: u32,
    /// Of the big bodies.
    pub p_mib: u64,
}

impl Knobs {
    pub fn for_property(p: &str) -> Knobs {
        let mut k = Knobs {
            ops_max: 4,
            sessions_max: 3,
            p_crowd: 0,
            p_multi: 60,
            p_pipe_adv: 600,
            p_pipe_on: 850,
            p_refuse: 350,
            p_refuse_data: 250,
            p_refuse_auth: 200,
            p_custom_ok: 200,
            p_fault_run: 500,
            p_cancel: 500,
            p_link_fault: 350,
            p_act_fault: 250,
            p_malformed: 150,
            p_extra: 60,
            p_slow: 200,
            p_weird: 60,
            p_greet_neg: 40,
            p_login: 150,
            p_tls: 60,
            p_quit: 100,
            p_many: 60,
            p_huge_env: 15,
            p_hostile: 40,
            p_hostile_hello: 20,
            p_reader: 300,
            p_reader_fail: 150,
            p_big: 100,
            p_dotty: 500,
            p_hold: 60,
            p_small_cap: 150,
            p_dribble: 250,
            p_nogreet: 100,
            p_odd_challenge: 250,
            p_decoy: 300,
            p_utf8: 400,
            p_mib: 5,
        };
        match p {
            "C01" => {
                k.p_weird = 200;
                k.p_cancel = 600;
                k.p_refuse_data = 350;
                k.p_fault_run = 600;
            }
            "C02" => {
                k.p_mib = 20;
                k.p_big = 300;
                k.p_dotty = 850;
                k.p_refuse = 120;
                k.p_fault_run = 300;
                k.p_login = 20;
                k.p_dribble = 400;
            }
            "C03" => {
                k.p_fault_run = 650;
                k.p_many = 150;
                k.p_refuse = 450;
            }
            "C04" => {
                k.p_many = 200;
                k.p_hostile = 80;
                k.ops_max = 5;
                k.p_refuse = 400;
                k.p_multi = 150;
            }
            "C05" => {
                k.p_refuse = 550;
                k.p_refuse_auth = 400;
                k.p_login = 250;
                k.p_many = 120;
                k.p_fault_run = 350;
                k.p_greet_neg = 100;
                k.p_quit = 200;
                k.p_weird = 150;
            }
            "C06" => {
                k.p_custom_ok = 600;
                k.p_refuse = 400;
                k.p_malformed = 450;
                k.p_extra = 200;
                k.p_dribble = 500;
                k.p_act_fault = 500;
                k.p_big = 20;
            }
            "C07" => {
                k.p_fault_run = 950;
                k.p_cancel = 800;
                k.ops_max = 5;
                k.p_malformed = 250;
                k.p_login = 220;
            }
            "C08" => {
                k.p_multi = 200;
                k.p_decoy = 700;
                k.p_tls = 350;
                k.p_fault_run = 100;
                k.p_big = 10;
                k.p_utf8 = 600;
                k.p_login = 250;
                k.p_hold = 150;
            }
            "C09" => {
                k.p_hold = 250;
                k.p_many = 200;
                k.p_huge_env = 60;
                k.p_weird = 200;
                k.p_fault_run = 300;
                k.p_login = 200;
                k.p_big = 50;
                k.p_refuse = 450;
            }
            "C10" => {
                k.p_multi = 200;
                k.p_login = 800;
                k.p_odd_challenge = 450;
                k.p_weird = 300;
                k.p_refuse_auth = 300;
                k.p_fault_run = 300;
                k.p_decoy = 500;
                k.p_big = 10;
                k.p_tls = 150;
            }
            "C11" => {
                k.p_multi = 200;
                k.p_tls = 900;
                k.p_extra = 350;
                k.p_weird = 200;
                k.p_fault_run = 350;
                k.p_login = 250;
                k.p_decoy = 500;
                k.p_big = 10;
            }
            "C12" => {
                k.p_small_cap = 350;
                k.p_many = 150;
                k.p_huge_env = 120;
                k.p_fault_run = 600;
                k.p_link_fault = 600;
                k.p_malformed = 300;
                k.p_big = 200;
                k.p_login = 200;
            }
            "C13" => {
                k.p_greet_neg = 400;
                k.ops_max = 2;
                k.p_hostile_hello = 150;
                k.p_nogreet = 250;
                k.p_tls = 200;
                k.p_big = 0;
                k.p_fault_run = 400;
            }
            "C14" => {
                k.p_multi = 1000;
                k.sessions_max = 4;
                k.p_crowd = 60;
                k.p_tls = 150;
                k.p_login = 250;
                k.p_fault_run = 350;
            }
            "C15" => {
                k.p_hostile = 350;
                k.p_hostile_hello = 150;
                k.p_login = 350;
                k.p_dotty = 700;
                k.p_fault_run = 250;
            }
            "C16" => {
                k.p_refuse = 800;
                k.p_refuse_data = 450;
                k.p_refuse_auth = 500;
                k.ops_max = 6;
                k.p_fault_run = 120;
                k.p_hostile = 0;
                k.p_hostile_hello = 0;
                k.p_login = 250;
                k.p_reader_fail = 20;
                k.p_weird = 20;
            }
            "C17" => {
                k.p_mib = 25;
                k.p_reader = 850;
                k.p_reader_fail = 250;
                k.p_big = 200;
                k.p_login = 10;
                k.p_fault_run = 350;
            }
            _ => {}
        }
        k
    }
}

// ---- strings ---------------------------------------------------------------------------------

const ATEXT: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-/=?^_`{|}~.";

fn word(r: &mut Rng, set: &[u8], lo: u64, hi: u64) -> String {
    let n = r.range(lo, hi);
    (0..n).map(|_| *r.pick(set) as char).collect()
}

pub fn address(r: &mut Rng) -> String {
    let local = match r.below(12) {
        0..=5 => word(r, b"abcdefghijklmnopqrstuvwxyz0123456789.", 1, 10),
        6..=8 => word(r, ATEXT, 1, 20),
        9 => match r.below(4) {
            0 => format!(".{}..", word(r, b"ab.", 1, 6)),
            1 => format!("@relay.example,@{}.example:user", word(r, b"abc", 1, 4)),
            2 => word(r, b"abcdefghijKLMNOP0123456789._", 200, 900),
            _ => format!("\"{}\"", word(r, b"abc,;:@()[]\\.", 1, 8)),
        },
        10 => word(r, b"abcdefghij0123456789-", 40, 64),
        _ => format!("{}+{}={}", word(r, b"abc", 1, 4), word(r, b"xyz", 1, 4), word(r, b"0123", 1, 4)),
    };
    let dom = match r.below(8) {
        0 => "localhost".to_string(),
        1 => format!("[{}.{}.1.2]", r.below(256), r.below(256)),
        2 => format!("[IPv6:2001:db8::{:x}]", r.below(65536)),
        3 => format!("{}.{}", word(r, b"abcdefghijklmnopqrstuvwxyz0123456789-", 40, 60), word(r, b"abcdefgh", 20, 60)),
        4 => format!("{}.{}", word(r, b"ABCdefXYZ0-", 1, 10), r.pick(&["ORG", "Example", "CO.uk", "XN--P1AI"])),
        _ => format!("{}.{}", word(r, b"abcdefghijklmnopqrstuvwxyz0123456789-", 1, 10), r.pick(&["org", "example", "co.uk", "xn--p1ai", "org."])),
    };
    match r.below(80) {
        0 | 1 => return local,
        2 => return format!("mailto:{}@{}", local, dom),
        3 => return format!("{}%40{}@{}", word(r, b"abc", 1, 5), dom, dom),
        4 => return format!("{}@{}", r.pick(&["a%20b", "a!b", "SMTP:a", "MAILER-DAEMON", "Postmaster", "a&amp;b", "a,b", "a;b", "\"a@b\"", "a\\@b", "=?utf-8?q?a?=", "..", "'a'"]), dom),
        5 => return format!("{}@{}(comment)", local, dom),
        6 => return r.pick(&["postmaster", "@", "a@", "@b", "a@b@c", "a@[]", ",", "\"\"@x", ".", "-"]).to_string(),
        _ => {}
    }
    format!("{}@{}", local, dom)
}

/// What preparing or normalising strings would change or remove.
const ODD_CHARS: &[&str] = &[
    "\u{ad}", "\u{a0}", "\u{2003}", "\u{200b}", "\u{200d}", "\u{2060}", "\u{feff}", "\u{3000}", "\u{1680}", "\u{180e}", "\u{85}", "\u{2028}",
    "e\u{301}", "\u{e9}", "\u{212b}", "\u{ff21}", "\u{fb01}", "\u{130}", "\u{131}", "\u{1e9e}", "\u{ba}", "\u{2122}", "\u{202e}", "\u{fffd}",
    "\u{10ffff}", "\u{1f600}", "\u{1f1e9}\u{1f1ea}", "\u{34f}", "\u{fe0f}", "\u{7f}", "\u{8}", "\u{1b}", "\u{1}", "\\n", "\\", "&amp;", "+", "%", "''",
];

const PAYLOADS: &[&str] = &[
    "\r\nRCPT TO:<evil@example.org>",
    ">\r\nRCPT TO:<evil@example.org",
    "\nDATA",
    "\rQUIT",
    "\r\n.\r\n",
    "> BODY=7BIT",
    "> NOTIFY=NEVER",
    " SMTPUTF8",
    "\0",
    "\t",
    " ",
    "<",
    ">",
    "\u{7f}",
    "\u{1}",
    "\u{b}",
    "\u{c}",
    "\u{85}",
    "\u{2028}",
    "\u{a0}",
    "é",
    "\u{10a}\u{10d}",
    "漢字",
    "\u{1b}[2J",
    "\r\nAUTH PLAIN AAAA",
];

fn hostile(r: &mut Rng, base: &str) -> String {
    let p = r.pick(PAYLOADS);
    if r.below(3) == 0 {
        // Inside one of the constructs of the address grammar.
        let q = if r.below(4) == 0 { r.pick(PAYLOADS) } else { "" };
        return match r.below(9) {
            0 => format!("\"{}\"@example.org", p),
            1 => format!("\"a{}b\"@example.org", p),
            2 => format!("\"a\\{}\"@example.org", p),
            3 => format!("a@[192.0.2.1{}]", p),
            4 => format!("a({})@example.org", p),
            5 => format!("@hop.example{}:a@example.org", p),
            6 => format!("Name <a@example.org{}>", p),
            7 => format!("a@example.org{}{}", p, q),
            _ => format!("{}{}a@example.org", p, q),
        };
    }
    let at = r.below(base.len() as u64 + 1) as usize;
    let at = (0..=at).rev().find(|&i| base.is_char_boundary(i)).unwrap_or(0);
    format!("{}{}{}", &base[..at], p, &base[at..])
}

pub fn is_ordinary_address(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| (33..127).contains(&b) && b != b'<' && b != b'>')
}

fn random_case(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 | 1 => s.to_string(),
        2 => s.to_lowercase(),
        _ => s
            .chars()
            .map(|c| if r.below(2) == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() })
            .collect(),
    }
}

// ---- message content -------------------------------------------------------------------------

fn soup(r: &mut Rng, n: usize) -> Vec<u8> {
    let set: &[u8] = match r.below(5) {
        0 => b".\r\n",
        1 => b".\r\na",
        2 => b".\r\n a\x00\xff",
        3 => b".\n",
        _ => b"\r\n\r\n.ab",
    };
    let mut v = vec![];
    while v.len() < n {
        match r.below(6) {
            0 => v.extend_from_slice(b"\r\n."),
            1 => v.extend_from_slice(b"\r\n.\r\n"),
            _ => v.push(*r.pick(set)),
        }
    }
    v.truncate(n);
    v
}

const TEMPLATES: &[&[u8]] = &[
    b"",
    b".",
    b"..",
    b".\r\n",
    b"\r\n",
    b"\r\n.\r\n",
    b"\r\n.",
    b"\n.\n",
    b"\n.\r\n",
    b"\r.\r",
    b"\r\r\n.\r\n",
    b"\r\r\n.",
    b"\r\n\r\n.\r\n.\r\n",
    b"a\r",
    b"a\n",
    b"a\r\n",
    b"a\r\r\n",
    b"a\r\n\r",
    b".a",
    b"..\r\n.\r\n",
    b".\n.\r\n",
    b"\r",
    b"\n",
    b"\r\r",
    b"\n\r\n.\n\r.\r\n",
    b"Subject: x\r\n\r\nbody\r\n",
    b"Subject: x\r\n\r\nbody\r\n.\r\nQUIT\r\n",
    b"Subject: x\r\n\r\nbody\r\n.\r\nMAIL FROM:<evil@x>\r\nRCPT TO:<evil@y>\r\nDATA\r\nevil\r\n.\r\n",
    b"Subject: x\r\n\r\nbody\n.\nMAIL FROM:<evil@x>\n",
    b".\r\nMAIL FROM:<evil@x>\r\n",
    b"\r\r\n.\r\nMAIL FROM:<evil@x>\r\nRCPT TO:<evil@y>\r\nDATA\r\n",
    b"From: a@b\r\n.leading dot\r\n..two\r\n...three\r\n",
    b"no newline at end",
    b"\xff\xfe\x00\x01\r\n",
    b"QUIT\r\nRSET\r\n",
    b"a\r\n.b\r\n\r.\r\n",
];

/// What ordinary mail is made of and well-meaning code likes to touch.
const IDIOMS: &[&[u8]] = &[
    b"\xef\xbb\xbf",
    b"From a@b Thu Jan  1 00:00:00 1970\r\n",
    b">From here\r\n",
    b"Bcc: <hidden@example.org>\r\n",
    b"bcc: hidden@example.org,\r\n\tother@example.org\r\n",
    b"Return-Path: <x@y>\r\n",
    b"Content-Length: 3\r\n",
    b"Message-ID: <1@x>\r\nDate: Thu, 1 Jan 1970 00:00:00 +0000\r\n",
    b"trailing blanks   \r\n",
    b"trailing tab\t\r\n",
    b"   \r\n",
    b"\x1a",
    b"\x00",
    b"\x7f\x80\x85\xa0\r\n",
    b"=\r\n=2E\r\n=3D",
    b"\xe2\x80\xa8\xe2\x80\xa9",
    b"\x0b\x0c\r\n",
    b"\r\n\r\n",
    b"\n\n",
    b"\r\n\r\n\r\n\r\n",
    b"--\r\n",
    b"-- \r\nsignature\r\n",
    b"--b\r\n\r\n--b--\r\n",
    b"250 ok\r\n354 go\r\n",
    b"data\r\n",
    b"BDAT 5 LAST\r\n",
    b"{\"a\": \"b\"}",
    b"caf\xc3\xa9 \xf0\x9f\x98\x80 \xc3\r\n",
    b"..\r\n",
    b".\r\n",
    b"...",
    b"MIME-Version: 1.0\r\nContent-Type: text/plain; charset=utf-8\r\nContent-Transfer-Encoding: 8bit\r\n\r\n",
    b"Content-Transfer-Encoding: quoted-printable\r\n\r\na=20b=\r\nc\r\n",
    b"Subject: =?utf-8?q?caf=C3=A9?=\r\n =?utf-8?b?w6k=?=\r\n",
    b"Received: from x by y; Thu, 1 Jan 1970 00:00:00 +0000\r\n",
    b"Resent-Bcc: hidden@example.org\r\n",
    b"Delivered-To: x@y\r\nX-Empty:\r\nX-Folded: a\r\n b\r\n",
    b"\xc2\xad\xc2\x85\xe2\x80\x8b\xef\xbb\xbf",
    b"\x1b[0m\x08\x07",
    b"\t\ttabs\t\r\n",
    b"\xff\xf9\xff\xff",
    b"- -----BEGIN PGP MESSAGE-----\r\n",
    b"RCPT TO:<x@y>\r\nRSET\r\n",
    b"e\xcc\x81 \xe2\x84\xab \xef\xac\x81\r\n",
    b"~{tilde~}\r\n",
    b"%0d%0a.%0d%0a",
];

fn idioms(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..r.range(1, 8) {
        match r.below(8) {
            0 => {
                // A line longer than RFC 5321 allows.
                let n = *r.pick(&[72u64, 76, 78, 254, 510, 512, 996, 998, 999, 1000, 1001, 2000, 5000]) + r.below(3);
                let c = *r.pick(b"w. \xe9");
                v.extend(std::iter::repeat(c).take(n as usize));
                if r.below(3) != 0 {
                    v.extend_from_slice(b"\r\n");
                }
            }
            1 => v.extend_from_slice(b"text\r\n"),
            _ => v.extend_from_slice(r.pick(IDIOMS)),
        }
    }
    v
}

fn big(r: &mut Rng, mib: u64) -> Vec<u8> {
    let edge = match r.below(1000) {
        n if n < mib => *r.pick(&[1usize << 20, 1 << 20, 2 << 20]),
        n if n < 90 => *r.pick(&[1usize << 17, 100_000, 1 << 18]),
        _ => *r.pick(&[512usize, 998, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536]),
    };
    let n = (edge + r.below(40) as usize).saturating_sub(20);
    let mut v: Vec<u8> = Vec::with_capacity(n + 70000);
    match r.below(4) {
        0 => v.resize(n, b'x'),
        1 => {
            while v.len() < n {
                let l = r.range(0, 90) as usize;
                v.resize(v.len() + l, b'y');
                v.extend_from_slice(b"\r\n");
            }
            v.truncate(n);
        }
        2 => v = soup(r, n),
        _ => {
            while v.len() < n {
                v.extend_from_slice(b"line of text\r\n.dot line\r\n");
            }
            v.truncate(n);
        }
    }
    // Terminator look-alikes across the boundary.
    let pat: &[u8] = r.pick(&[&b"\r\n.\r\n"[..], b"\r\n.", b"\r\n", b"\r\n..\r\n", b"\r\r\n.\r\nMAIL FROM:<evil@x>\r\n"]);
    let at = (edge.saturating_sub(r.below(pat.len() as u64 + 2) as usize)).min(v.len());
    let end = (at + pat.len()).min(v.len());
    v.splice(at..end, pat.iter().copied());
    match r.below(4) {
        0 => v.extend_from_slice(b"\r\n"),
        1 => v.extend_from_slice(b"\r"),
        2 => {
            let extra = soup(r, 30);
            v.extend(extra);
            v.extend(std::iter::repeat(b'z').take(r.below(9000) as usize));
        }
        _ => {}
    }
    v
}

/// Of the size of an ordinary message, with everything in it.
fn medium(r: &mut Rng) -> Vec<u8> {
    let n = r.range(200, 6000) as usize;
    let mut v = vec![];
    while v.len() < n {
        match r.below(5) {
            0 => {
                let m = r.range(1, 60) as usize;
                v.extend(soup(r, m));
            }
            1 => v.extend(idioms(r)),
            2 => v.extend_from_slice(r.pick(TEMPLATES)),
            3 => {
                // Transfer encodings.
                for _ in 0..r.range(1, 8) {
                    v.extend(std::iter::repeat(b'A' + r.below(26) as u8).take(76));
                    v.extend_from_slice(b"\r\n");
                }
            }
            _ => {
                // A long line, an unbroken run of one byte.
                let b = *r.pick(b"x .\r\n\0=\xff");
                let m = *r.pick(&[78usize, 255, 256, 510, 512, 998, 1000, 1001]);
                v.extend(std::iter::repeat(b).take(m));
                v.extend_from_slice(r.pick(&[&b"\r\n"[..], b"\r\n.\r\n", b"\n", b""]));
            }
        }
    }
    if r.below(3) == 0 {
        v.truncate(n);
    }
    v
}

fn body(r: &mut Rng, k: &Knobs, big_ok: bool) -> Vec<u8> {
    if big_ok && r.permille(k.p_big) {
        return big(r, k.p_mib);
    }
    if r.below(30) == 0 {
        return medium(r);
    }
    if r.permille(k.p_dotty) {
        let base = match r.below(3) {
            0 => r.pick(TEMPLATES).to_vec(),
            1 => {
                let n = r.range(0, 40) as usize;
                soup(r, n)
            }
            _ => {
                let mut v = r.pick(TEMPLATES).to_vec();
                let n = r.range(0, 12) as usize;
                v.extend(soup(r, n));
                v.extend_from_slice(r.pick(TEMPLATES));
                v
            }
        };
        return base;
    }
    if r.below(3) == 0 {
        return idioms(r);
    }
    let mut v = format!("Subject: {}\r\n\r\n", r.below(1 << 40)).into_bytes();
    for _ in 0..r.below(6) {
        let n = r.range(0, 60);
        for _ in 0..n {
            v.push(32 + r.below(95) as u8);
        }
        v.extend_from_slice(b"\r\n");
    }
    if r.below(3) == 0 {
        v.truncate(v.len() - 2);
    }
    v
}

// ---- server ----------------------------------------------------------------------------------

/// Something that is almost this keyword.
fn near(r: &mut Rng, word: &str) -> String {
    let n = word.len() as u64;
    let at = r.below(n) as usize;
    match r.below(9) {
        0 => format!("{}{}", r.pick(&["X-", "X", "NO-", "NO", "-", "*", "(", "250-", "=", "A"]), word),
        1 => format!("{}{}", word, r.pick(&["-X", "X", "=", "=1", ":", ",", ";", ".", ")", "/1", "-PLUS", "2"])),
        2 => {
            let other = *r.pick(&["PIPELINING", "8BITMIME", "SMTPUTF8", "PLAIN", "LOGIN"]);
            format!("{}{}{}", word, r.pick(&[",", ";", "/", "="]), other)
        }
        3 => format!("{}{}", &word[..at], &word[at + 1..]),
        4 => format!("{}{}{}", &word[..at], r.pick(&["-", "_", "X", "0", "'"]), &word[at..]),
        // Letters whose upper case is an ASCII letter.
        5 if word.contains('S') => word.replacen('S', "\u{17f}", 1),
        5 | 6 if word.contains('I') => word.replacen('I', "\u{131}", 1),
        7 => word.chars().map(|c| char::from_u32(c as u32 + 0xfee0).unwrap_or(c)).collect(),
        _ => format!("{}{}", word, &word[at..]),
    }
}

fn ehlo_plan(r: &mut Rng, k: &Knobs) -> EhloPlan {
    let name_line = match r.below(10) {
        0 => "PIPELINING".to_string(),
        1 => "STARTTLS greets you".to_string(),
        2 => "AUTH PLAIN LOGIN XOAUTH2".to_string(),
        3 => "8BITMIME SMTPUTF8".to_string(),
        4 => "smtputf8".to_string(),
        _ => format!("mx{}.example.org Hello [192.0.2.{}]", r.below(100), r.below(256)),
    };
    let mut lines = vec![];
    if r.permille(k.p_pipe_adv) {
        lines.push(random_case(r, "PIPELINING"));
    }
    if r.below(2) == 0 {
        lines.push(random_case(r, "8BITMIME"));
    }
    if r.below(2) == 0 {
        lines.push(random_case(r, "SMTPUTF8"));
    }
    if r.permille(if k.p_tls > 300 { 750 } else { 400 }) {
        lines.push(random_case(r, "STARTTLS"));
    }
    if r.permille(700) {
        let mut m: Vec<String> = ["PLAIN", "LOGIN", "XOAUTH2"]
            .iter()
            .filter(|_| r.below(2) == 0)
            .map(|s| s.to_string())
            .collect();
        for d in ["CRAM-MD5", "PLAINX", "XLOGIN", "GSSAPI", "LOGIN2", "OAUTHBEARER"] {
            if r.below(5) == 0 {
                m.push(d.to_string());
            }
        }
        if r.below(5) == 0 {
            let d = *r.pick(&["PLAIN", "LOGIN", "XOAUTH2"]);
            m.push(near(r, d));
        }
        r.shuffle(&mut m);
        if !m.is_empty() {
            if m.len() > 1 && r.below(4) == 0 {
                let two = m.split_off(1);
                lines.push(format!("{} {}", random_case(r, "AUTH"), two.join(" ")));
            }
            lines.push(format!("{} {}", random_case(r, "AUTH"), m.join(" ")));
        }
    }
    if r.permille(k.p_decoy) {
        for d in [
            "XPIPELINING",
            "PIPELINING-EXT",
            "X PIPELINING",
            "X-8BITMIME",
            "8BITMIMES",
            "SIZE 8BITMIME",
            "BINARYMIME 8BITMIME SMTPUTF8",
            "SMTPUTF8X",
            "HELP STARTTLS",
            "XSTARTTLS",
            "STARTTLSX",
            "AUTH=PLAIN LOGIN",
            "XAUTH PLAIN LOGIN XOAUTH2",
            "X AUTH PLAIN LOGIN XOAUTH2",
            "AUTHS PLAIN",
            "AUTH",
            "AUTH=LOGIN",
            "AUTH=LOGIN PLAIN XOAUTH2",
            "AUTH=PLAIN",
            "AUTH: PLAIN LOGIN",
            "LOGIN PLAIN",
        ] {
            if r.below(8) == 0 {
                lines.push(d.to_string());
            }
        }
        for _ in 0..r.below(4) {
            let d = *r.pick(&["PIPELINING", "8BITMIME", "SMTPUTF8", "STARTTLS", "AUTH"]);
            let d = near(r, d);
            lines.push(if r.below(3) == 0 { format!("{} PLAIN LOGIN XOAUTH2", d) } else { d });
        }
    }
    for d in ["SIZE 10240000", "ENHANCEDSTATUSCODES", "DSN", "CHUNKING", "HELP", "VRFY", "ETRN"] {
        if r.below(4) == 0 {
            lines.push(random_case(r, d));
        }
    }
    match r.below(30) {
        0 => {
            for i in 0..r.range(10, 60) {
                lines.push(format!("X-VENDOR-{:x}{}", r.next() >> 40, if i % 3 == 0 { " PIPELINING 8BITMIME" } else { "" }));
            }
        }
        1 => lines.push(format!("X-LONG {}", word(r, b"abcdefgh =/", 300, 3000))),
        2 => lines.push(String::new()),
        3 | 4 if !lines.is_empty() => {
            // Recognised keywords may carry parameters or trailing blanks.
            let i = r.below(lines.len() as u64) as usize;
            lines[i].push_str(r.pick(&[" ", "  ", " X-PARAM", " 1 2 3"]));
        }
        5 if !lines.is_empty() => {
            let i = r.below(lines.len() as u64) as usize;
            let again = lines[i].clone();
            lines.push(again);
        }
        _ => {}
    }
    r.shuffle(&mut lines);
    if r.below(40) == 0 {
        lines.clear();
    }
    EhloPlan { name_line, lines }
}

fn negative_code(r: &mut Rng) -> u16 {
    match r.below(3) {
        0 => *r.pick(&[421u16, 450, 451, 452, 454, 459]),
        1 => *r.pick(&[500u16, 501, 503, 504, 530, 535, 550, 551, 552, 553, 554, 555]),
        _ => (r.range(4, 5) * 100 + r.below(6) * 10 + r.below(10)) as u16,
    }
}

/// A reply far beyond what servers usually send, just about the sizes of buffers and limits.
fn huge_reply(r: &mut Rng) -> Vec<String> {
    match r.below(3) {
        0 => {
            let n = *r.pick(&[64u64, 100, 128, 200, 255, 256, 257, 500, 512, 1000, 1024, 1500]) + r.below(4);
            (0..n).map(|i| if r.below(4) == 0 { format!("line {}", i) } else { String::new() }).collect()
        }
        1 => {
            let n = *r.pick(&[512usize, 998, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536]) + r.below(12) as usize - 8;
            vec!["w".repeat(n)]
        }
        _ => {
            // Many bytes in lines of ordinary length.
            let total = *r.pick(&[4096usize, 8192, 16384, 32768, 65536, 70_000]);
            let len = r.range(20, 500) as usize;
            (0..=total / (len + 6)).map(|i| format!("{} {}", i, "t".repeat(len))).collect()
        }
    }
}

fn reply_lines(r: &mut Rng) -> Vec<String> {
    let mut l = if r.below(250) == 0 { huge_reply(r) } else { gen_lines(r, "answer") };
    if r.below(8) != 0 {
        let t = format!("~{:x}", r.next());
        l[0].push_str(&t);
    }
    if r.below(10) == 0 {
        l.push(String::new());
    }
    if r.below(14) == 0 {
        l.insert(0, String::new());
    }
    l
}

fn reply_act(r: &mut Rng, code: u16) -> Act {
    Act::Reply {
        code,
        lines: reply_lines(r),
        bare: r.below(2) == 0,
        close: code == 421 && r.below(2) == 0,
    }
}

/// A reply that is well-formed but for one defect on one of its lines.
fn one_defect(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(3) {
        0 => 1,
        1 => 2,
        _ => r.range(2, 12),
    } as usize;
    let code = match r.below(4) {
        0 => 250,
        1 => *r.pick(&[220u16, 235, 334, 354, 421, 550]),
        _ => (r.range(2, 5) * 100 + r.below(6) * 10 + r.below(10)) as u16,
    };
    let bad = match r.below(3) {
        0 => 0,
        1 => n - 1,
        _ => r.below(n as u64) as usize,
    };
    let mut out = vec![];
    // The same bad code in every line.
    let mut uniform = None;
    if r.below(3) == 0 {
        let k = r.below(3) as usize;
        uniform = Some((k, if r.below(3) == 0 { *r.pick(b"xOlI /:;.-+ \t\0\x80") } else { *r.pick([&b"016789"[..], b"6789", b"xOlI"][k]) }));
    }
    for i in 0..n {
        let mut line = format!("{}{}", code, if i + 1 < n { '-' } else { ' ' }).into_bytes();
        line.extend_from_slice(r.pick(&["ok", "2.0.0 fine", "AUTH PLAIN LOGIN", "PIPELINING", "8BITMIME", "VXNlcm5hbWU6", "", "a b c"]).as_bytes());
        if let Some((k, b)) = uniform {
            line[k] = b;
        } else if i == bad {
            match r.below(if n > 1 { 6 } else { 5 }) {
                0 => {
                    let k = r.below(3) as usize;
                    line[k] = *r.pick(b"xOlI /:;.-+ \t\0\x80");
                }
                1 => line[0] = *r.pick(b"016789"),
                2 => line[1] = *r.pick(b"6789"),
                3 => {
                    line[3] = loop {
                        let b = if r.below(2) == 0 { *r.pick(b":_.\t,/=+") } else { r.below(256) as u8 };
                        if !b" -\r\n".contains(&b) {
                            break b;
                        }
                    }
                }
                4 => {
                    let bytes = *r.pick(&[&b"\xff"[..], b"\xc3", b"\xc0\xaf", b"\xed\xa0\x80", b"\xe2\x82", b"\xf5\x80\x80\x80", b"\x80", b"\xf0\x9f\x98"]);
                    let k = r.range(4, line.len() as u64) as usize;
                    for (j, b) in bytes.iter().enumerate() {
                        line.insert(k + j, *b);
                    }
                }
                _ => {
                    let k = r.below(3) as usize;
                    let digits: &[u8] = [&b"2345"[..], b"012345", b"0123456789"][k];
                    line[k] = loop {
                        let b = *r.pick(digits);
                        if b != line[k] {
                            break b;
                        }
                    }
                }
            }
        }
        out.extend_from_slice(&line);
        out.extend_from_slice(b"\r\n");
    }
    out
}

fn malformed(r: &mut Rng) -> Act {
    let close = r.below(3) == 0;
    if r.below(2) == 0 {
        return Act::Raw { bytes: one_defect(r), close };
    }
    let bytes: Vec<u8> = match r.below(24) {
        0 => b"2x0 ok\r\n".to_vec(),
        1 => b"199 ok\r\n".to_vec(),
        2 => b"600 ok\r\n".to_vec(),
        3 => b"25 ok\r\n".to_vec(),
        4 => b"2500 ok\r\n".to_vec(),
        5 => b"250_ok\r\n".to_vec(),
        6 => b"250\tok\r\n".to_vec(),
        7 => b"250-first\r\n251 second\r\n".to_vec(),
        8 => b"250-first\r\n550 second\r\n".to_vec(),
        9 => b"354-first\r\n250 second\r\n".to_vec(),
        10 => b"250 caf\xe9\r\n".to_vec(),
        11 => b"250 \xff\xfe\r\n".to_vec(),
        12 => b"hello\r\n".to_vec(),
        13 => b"\r\n".to_vec(),
        14 => b" 250 ok\r\n".to_vec(),
        15 => b"250-a\r\n250-b\r\n2x0 c\r\n".to_vec(),
        16 => b"550-a\r\n250 b\r\n".to_vec(),
        17 => b"290 ok\r\n".to_vec(),
        18 => b"2\xd9\xa50 ok\r\n".to_vec(),
        19 => b"250-a\r\n\r\n250 b\r\n".to_vec(),
        20 => b"250-a\r\n250_b\r\n".to_vec(),
        21 => b"+OK\r\n".to_vec(),
        22 => b"250-a\r\n250-b\r\n251-c\r\n250 d\r\n".to_vec(),
        _ => {
            let n = r.range(1, 200);
            let mut v: Vec<u8> = (0..n).map(|_| r.below(256) as u8).filter(|b| *b != b'\n').collect();
            if v.first().map(|b| b.is_ascii_digit()).unwrap_or(true) {
                v.insert(0, b'#');
            }
            v.extend_from_slice(b"\r\n");
            v
        }
    };
    Act::Raw { bytes, close }
}

fn cut_off(r: &mut Rng) -> Act {
    let bytes: &[u8] = r.pick(&[
        &b"250-first line only\r\n"[..],
        b"250 no end of line",
        b"250",
        b"250-",
        b"25",
        b"250 ok\r",
        b"250\r",
        b"250 ok\n",
        b"250-a\r\n250",
        b"250-a\r\n250 b",
        b"550 no end",
        b"550-more\r\n",
        b"354",
        b"354 go",
        b"\xc3",
        b"",
    ]);
    Act::Raw { bytes: bytes.to_vec(), close: true }
}

fn extra_bytes(r: &mut Rng) -> Vec<u8> {
    r.pick(&[
        &b"250 injected\r\n"[..],
        b"550 injected\r\n",
        b"250-PIPELINING\r\n250 AUTH PLAIN\r\n",
        b"2",
        b"garbage\r\n",
        b"\r\n",
        b"250 a\r\n250 b\r\n250 c\r\n354 d\r\n250 e\r\n",
    ])
    .to_vec()
}

fn challenges(r: &mut Rng, k: &Knobs) -> Vec<Challenge> {
    let user = r.pick(&["Username:", "User Name", "Username"]).to_string();
    let pass = r.pick(&["Password:", "Password"]).to_string();
    let mut v = vec![Challenge::Text(user.clone()), Challenge::Text(pass.clone())];
    if r.permille(k.p_odd_challenge) {
        match r.below(9) {
            0 => v.reverse(),
            1 => {
                v.truncate(1);
            }
            2 => {
                let n = r.range(3, 9);
                v = (0..n)
                    .map(|_| Challenge::Text(if r.below(2) == 0 { user.clone() } else { pass.clone() }))
                    .collect();
            }
            3 => {
                let n = r.range(9, 40);
                v = (0..n)
                    .map(|i| Challenge::Text(if i % 2 == 0 { user.clone() } else { pass.clone() }))
                    .collect();
            }
            4 => v.insert(r.below(3) as usize, Challenge::Text(r.pick(&["Realm:", "OTP", "Name", "x"]).to_string())),
            5 => v.insert(r.below(3) as usize, Challenge::Raw(r.pick(&["", "", "", "!!!!", "====", "a", "//79", "VXNlcm5hbWU6="]).to_string())),
            6 => v = vec![],
            7 => {
                let n = r.range(41, 200);
                v = (0..n).map(|_| Challenge::Text(user.clone())).collect();
            }
            _ => v.insert(
                r.below(3) as usize,
                Challenge::Text(r.pick(&["{\"status\":\"401\",\"schemes\":\"bearer\"}", "Username: again", "no user or word here", "Password for this user:", "password:", "username:", "PASSWORD", "Username", "User password"]).to_string()),
            ),
        }
    }
    v
}

fn hello(r: &mut Rng, k: &Knobs) -> Hello {
    if r.permille(k.p_hostile_hello) {
        let p = r.pick(&[
            "\r\nMAIL FROM:<evil@x>", "\nRSET", "\rRSET", "\0", "\u{7f}", "é", "\t", "\u{1}", "\u{85}", "\r\n",
        ]);
        return Hello::Domain(match r.below(3) {
            0 => format!("client.example{}", p),
            1 => format!("{}client.example", p),
            _ => format!("client{}.example", p),
        });
    }
    match r.below(7) {
        0 | 1 => Hello::Default,
        6 => Hello::Host(match r.below(4) {
            0 => None,
            1 => Some(vec![b'h', 0xff, 0xc3]),
            2 => Some(word(r, b"abcdefghijklmnopqrstuvwxyz-", 40, 63).into_bytes()),
            _ => Some(format!("host{}.Example.org", r.below(100)).into_bytes()),
        }),
        2 => Hello::V4([r.below(256) as u8, r.below(256) as u8, r.below(2) as u8, 1]),
        3 if r.below(2) == 0 => Hello::V6(match r.below(5) {
            0 => [0, 0, 0, 0, 0, 0xffff, 0xc0a8, r.below(65536) as u16],
            1 => [0, 0, 0, 0, 0, 0, 0, 1],
            2 => [0, 0, 0, 0, 0, 0, 0xc0a8, r.below(65536) as u16],
            3 => [0xfe80, 0, 0, 0, 0, 0, 0, r.below(65536) as u16],
            _ => [r.below(65536) as u16, r.below(65536) as u16, r.below(65536) as u16, r.below(65536) as u16, 1, 0, 0, 0],
        }),
        3 => Hello::V6([0x2001, 0xdb8, 0, 0, r.below(65536) as u16, 0, 0, r.below(65536) as u16]),
        4 => Hello::Domain(match r.below(8) {
            0 => format!("{}.example.org.", word(r, b"abcXYZ-", 1, 10)),
            1 => format!("{}.Example.ORG", word(r, b"ABCxyz_", 1, 10)),
            2 => word(r, b"abcdefghijklmnopqrstuvwxyz0123456789-.", 250, 1200),
            3 => format!("[192.0.2.{}]", r.below(256)),
            4 => format!("[IPv6:2001:db8::{:x}]", r.below(65536)),
            5 => format!("my {} name ", word(r, b"abc", 1, 5)),
            6 => r.pick(&["127.0.0.1", "::1", "host", "a", "-", "x\u{e4}.example", "[]", "*", "..", "localhost.localdomain", "", "", ".", "_", "localhost.", "0"]).to_string(),
            _ => "localhost".into(),
        }),
        _ => Hello::Domain(format!("{}.example.org", word(r, b"abcdefghijklmnopqrstuvwxyz0123456789-", 1, 30))),
    }
}

fn link(r: &mut Rng, k: &Knobs, pipelined: bool, big: bool) -> Link {
    let huge = usize::MAX >> 2;
    let mut l = Link {
        c2s_cap: 65536,
        s2c_cap: 65536,
        lat_min: 0,
        lat_jit: 0,
        seg_max: huge,
        wr_max: huge,
        rd_max: huge,
        wbuf: 0,
        wrap: 0,
        pend: 0,
        spurious: 0,
        sched_jit: 0,
    };
    match r.below(4) {
        0 => {}
        1 => {
            l.lat_min = r.range(100, 50_000);
            l.lat_jit = r.range(0, 20_000);
            l.seg_max = 1460;
        }
        _ => {
            l.lat_min = r.range(0, 200);
            l.lat_jit = r.range(0, 3000);
            l.seg_max = r.range(1, 3000) as usize;
            l.sched_jit = r.range(0, 400);
        }
    }
    if r.permille(k.p_dribble) {
        l.rd_max = r.range(1, 20) as usize;
        l.seg_max = r.range(1, 30) as usize;
        if big {
            l.wr_max = r.range(300, 5000) as usize;
            l.seg_max = r.range(200, 2000) as usize;
        } else {
            l.wr_max = r.range(1, 40) as usize;
        }
        l.pend = *r.pick(&[0, 50, 300]);
    } else if r.below(3) == 0 {
        l.wr_max = r.range(if big { 300 } else { 1 }, 5000) as usize;
        l.rd_max = r.range(1, 5000) as usize;
        l.pend = *r.pick(&[0, 0, 20, 200]);
    }
    match r.below(6) {
        0 | 1 => l.wbuf = *r.pick(&[16usize, 512, 1024, 4096, 8192, 65536]),
        2 | 3 => l.wrap = *r.pick(&[64usize, 512, 1024, 4096, 8192]),
        4 if r.below(3) == 0 => {
            l.wbuf = r.range(64, 9000) as usize;
            l.wrap = *r.pick(&[64usize, 512, 8192]);
        }
        _ => {}
    }
    if big && l.wbuf > 0 && l.wbuf < 512 {
        l.wbuf = 512;
    }
    if r.below(4) == 0 {
        l.spurious = *r.pick(&[50, 300]);
    }
    if r.permille(k.p_small_cap) && !pipelined {
        if big {
            l.c2s_cap = r.range(600, 5000) as usize;
        } else {
            l.c2s_cap = r.range(1, 600) as usize;
        }
        l.s2c_cap = r.range(if big { 64 } else { 1 }, 600) as usize;
    } else if r.below(2) == 0 {
        l.c2s_cap = *r.pick(&[4096usize, 4096, 4097, 8192, 16384]);
        l.s2c_cap = *r.pick(&[4096usize, 4096, 4097, 8192, 16384]);
    }
    l
}

pub fn mail_line_len(from: &Option<String>, e: &EhloPlan, utf8: bool) -> usize {
    let mut n = "MAIL FROM:<>\r\n".len() + from.as_ref().map(|s| s.len()).unwrap_or(0);
    if has_keyword(e, "8BITMIME") {
        n += " BODY=8BITMIME".len();
    }
    if utf8 && has_keyword(e, "SMTPUTF8") {
        n += " SMTPUTF8".len();
    }
    n
}

pub fn envelope_len(from: &Option<String>, to: &[String], e: &EhloPlan, utf8: bool) -> usize {
    mail_line_len(from, e, utf8) + to.iter().map(|t| t.len() + "RCPT TO:<>\r\n".len()).sum::<usize>() + "DATA\r\n".len()
}

fn recipients(r: &mut Rng, k: &Knobs, huge_ok: bool) -> Vec<String> {
    let n = if huge_ok && r.permille(k.p_huge_env) {
        if r.below(12) == 0 {
            r.range(400, 2500)
        } else {
            r.range(60, 400)
        }
    } else if r.permille(k.p_many) {
        r.range(8, 60)
    } else {
        *r.pick(&[1u64, 1, 1, 2, 2, 3, 4, 6])
    };
    // Many short ones make the longest group.
    let tiny = n > 20 && r.below(3) == 0;
    let mut v: Vec<String> = (0..n).map(|_| if tiny { word(r, b"abcdefghij", 1, 2) } else { address(r) }).collect();
    if v.len() > 1 && r.below(12) == 0 {
        let i = r.below(v.len() as u64) as usize;
        v[i] = v[0].clone();
    }
    v
}

fn session(r: &mut Rng, k: &Knobs, prop: &str) -> Session {
    let mut server = ServerPlan {
        greeting: !r.permille(k.p_nogreet),
        ehlo: vec![ehlo_plan(r, k)],
        strict_nested: r.permille(750),
        proc_min: 0,
        proc_jit: *r.pick(&[0u64, 0, 500, 20_000]),
        batch: r.below(5) == 0,
        hold_to_data: false,
        texts: r.next(),
        plain_texts: r.below(4) == 0,
        challenges: challenges(r, k),
        rules: vec![],
    };
    let client = Client { utf8: r.permille(k.p_utf8), pipelining: r.permille(k.p_pipe_on), hello: hello(r, k), style: r.next() as u32 };
    let with_tls = r.permille(k.p_tls);
    if with_tls {
        let mut after = ehlo_plan(r, k);
        if r.below(3) != 0 {
            after.name_line = server.ehlo[0].name_line.clone();
        }
        server.ehlo.push(after);
    }
    let pipelined = client.pipelining && server.ehlo.iter().any(|e| has_keyword(e, "PIPELINING"));
    let all_pipelined = client.pipelining && server.ehlo.iter().all(|e| has_keyword(e, "PIPELINING"));
    let any_big = r.permille(k.p_big.min(950) + 50) && k.p_big > 0;
    // Now and then a long-lived session, up to one that outlives every small counter.
    let n = match r.below(1000) {
        0 if !any_big => r.range(100, 140),
        1 | 2 if !any_big => r.range(258, 400),
        3..=9 if !any_big => r.range(10, 80),
        _ => r.range(1, k.ops_max),
    };
    let marathon = n >= 100;
    let smooth = marathon && r.below(3) != 0;
    let mut ops: Vec<Op> = vec![];
    let mut logins = 0;
    for _ in 0..n {
        let mut think = *r.pick(&[0u64, 0, 10, 5000, 200_000]);
        if r.below(40) == 0 {
            // An idle minute, five minutes, an hour, a day, a month.
            think = *r.pick(&[61_000_000u64, 301_000_000, 3_601_000_000, 86_401_000_000, 2_600_000_000_000]);
        }
        let what = if r.permille(if smooth { 10 } else { k.p_login }) {
            logins += 1;
            let mut ms = vec![Mech::Plain, Mech::Login, Mech::Xoauth2];
            r.shuffle(&mut ms);
            ms.truncate(r.below(4) as usize);
            let direct = r.below(4) == 0;
            if direct && ms.is_empty() {
                ms.push(Mech::Plain);
            }
            if logins == 1 && !direct && r.below(3) == 0 {
                ms = vec![Mech::Login];
            }
            let mut user = match r.below(6) {
                5 => r.pick(&["EXAMPLE\\User", "User@Example.ORG", " user ", "user@", "a%40b", "user\t", "user:name", "a=b,c", "apikey", "<user>", "\"user\""]).to_string(),
                0 => address(r),
                1 => word(r, b"abcdef0123456789", 1, 30),
                2 => "üser✉".to_string(),
                3 => String::new(),
                _ => format!("u{:x}", r.next()),
            };
            let mut pass = format!("pw{:016x}{}", r.next(), word(r, b" +=/\\\"'<>.%aZ09", 0, 12));
            match r.below(12) {
                0 => pass = String::new(),
                1 => pass.push_str("\r\nQUIT\r\n"),
                2 => pass.push('ß'),
                3 if r.below(4) == 0 => {
                    // Tokens of several kilobytes.
                    let n = *r.pick(&[1024u64, 2048, 3072, 4096, 8192, 12_288]) + r.below(8) - 4;
                    pass = word(r, b"abcdefgh", n, n);
                }
                3 => pass.push_str(&word(r, b"abcdefgh", 200, 900)),
                4 => pass.insert_str(0, r.pick(&["Bearer ", "bearer ", "Basic ", "{PLAIN}", " ", "\t", "=", "user=", "\u{feff}", "base64:", "\"", "$"])),
                5 => pass.push_str(r.pick(&[" ", "\t", "=", "==", "\n", "\"", "\u{feff}", "\u{a0}", "%20"])),
                6 => {
                    let at = r.below(pass.len() as u64 + 1) as usize;
                    pass.insert_str(at, r.pick(ODD_CHARS));
                }
                _ => {}
            }
            if r.below(12) == 0 {
                user.push_str(r.pick(ODD_CHARS));
                user.push_str(&word(r, b"abc", 0, 3));
            }
            if r.permille(k.p_hostile) {
                user = hostile(r, &user);
            }
            if user == pass {
                pass.push('1');
            }
            What::Login { user, pass, mechs: ms, direct }
        } else if r.permille(k.p_quit / 3) && !marathon {
            What::Quit
        } else {
            let from = if r.below(8) == 0 { None } else { Some(address(r)) };
            let mut to = recipients(r, k, !any_big);
            let mut from = from;
            if let (Some(f), 0) = (&from, r.below(12)) {
                // A copy to oneself.
                let i = r.below(to.len() as u64) as usize;
                to[i] = f.clone();
            }
            if r.permille(k.p_hostile) {
                if r.below(3) == 0 {
                    let f = from.clone().unwrap_or_default();
                    from = Some(hostile(r, &f));
                } else {
                    let i = r.below(to.len() as u64) as usize;
                    to[i] = hostile(r, &to[i].clone());
                }
            }
            if r.below(if k.p_hostile > 0 { 150 } else { 400 }) == 0 {
                to.clear();
            }
            let body = body(r, k, any_big);
            let source = if r.permille(k.p_reader) {
                Source::Reader {
                    seed: r.next(),
                    max: *r.pick(&[1usize, 2, 3, 7, 100, 1024, 8192, 1 << 20]).max(&(body.len() / 2000 + 1)),
                    pend: *r.pick(&[0, 0, 100, 500]),
                    fail_at: if !smooth && r.permille(k.p_reader_fail) { Some(r.below(body.len() as u64 + 2) as usize) } else { None },
                }
            } else {
                Source::Bytes
            };
            What::Send { from, to, body, source }
        };
        ops.push(Op { think_us: think, cancel: None, what });
    }
    if with_tls {
        let at = r.below(ops.len() as u64 + 1) as usize;
        ops.insert(at.min(if r.below(2) == 0 { 0 } else { at }), Op { think_us: 0, cancel: None, what: What::Starttls });
    }
    if r.permille(k.p_quit) {
        ops.push(Op { think_us: 0, cancel: None, what: What::Quit });
    }
    repeat(r, &mut ops);
    let big_body = ops.iter().any(|o| matches!(&o.what, What::Send { body, .. } if body.len() > 2000));
    let mut l = link(r, k, pipelined, big_body);
    // Hundreds of recipients with byte-sized segments only cost time.
    let rc: usize = ops.iter().map(|o| if let What::Send { to, .. } = &o.what { to.len() } else { 0 }).sum();
    if rc > 60 {
        l.seg_max = l.seg_max.max(64);
        l.wr_max = l.wr_max.max(64);
        l.rd_max = l.rd_max.max(64);
    }
    // A server that answers MAIL and RCPT only after DATA may be given a full 4 KiB envelope.
    if all_pipelined && r.permille(k.p_hold * 2) {
        server.hold_to_data = true;
        for o in ops.iter_mut() {
            if let What::Send { from, to, .. } = &mut o.what {
                let longest = server.ehlo.iter().map(|e| mail_line_len(from, e, client.utf8)).max().unwrap_or(0);
                let len = |to: &[String]| longest + to.iter().map(|t| t.len() + 12).sum::<usize>() + 6;
                while len(to) > 4096 && to.len() > 1 {
                    to.pop();
                }
                if r.below(3) == 0 && !to.is_empty() {
                    while len(to) + 12 + 80 < 4096 {
                        to.push(format!("{}@pad.example", word(r, b"abcdefghij", 10, 60)));
                    }
                    let room = 4096usize.saturating_sub(len(to));
                    let cut = r.pick(&[0usize, 0, 1, 7]);
                    if room > 12 + 2 + cut {
                        to.push("p".repeat(room - 12 - cut));
                    }
                }
            }
        }
    }
    // Envelopes whose size is just about that of a buffer.
    if pipelined && !server.hold_to_data && r.permille(30) {
        let i = r.below(ops.len() as u64) as usize;
        if let What::Send { from, to, .. } = &mut ops[i].what {
            let mail = r.pick(&server.ehlo).clone();
            let mail = mail_line_len(from, &mail, client.utf8);
            let size = *r.pick(&[4096usize, 4096, 4096, 512, 1000, 1024, 2048, 8192, 16384]) + 10 - r.below(24) as usize;
            let len = |to: &[String]| mail + to.iter().map(|t| t.len() + 12).sum::<usize>();
            let most = if r.below(2) == 0 { 60 } else { 200 };
            while len(to) > size.saturating_sub(20) && to.len() > 1 {
                to.pop();
            }
            while len(to) + 14 + most < size {
                to.push(format!("{}@fill.example", word(r, b"abcdefghij", 1, most as u64 - 30)));
            }
            let room = size.saturating_sub(len(to));
            if room > 14 {
                to.push("f".repeat(room - 12));
            }
            if to.len() > 60 {
                l.seg_max = l.seg_max.max(64);
                l.wr_max = l.wr_max.max(64);
                l.rd_max = l.rd_max.max(64);
            }
        }
    }
    let rc: usize = ops.iter().map(|o| if let What::Send { to, .. } = &o.what { to.len() } else { 0 }).sum();
    // Refusals and custom replies.
    let sends = ops.iter().filter(|o| matches!(o.what, What::Send { .. })).count() as u64;
    let rcpts = rc.max(1) as u64;
    let rules = &mut server.rules;
    if r.permille(k.p_greet_neg) {
        let on = if r.below(2) == 0 { Kind::Greet } else { Kind::Ehlo };
        let c = negative_code(r);
        rules.push(Rule { on, nth: 0, act: reply_act(r, c) });
    }
    if sends > 0 && r.permille(k.p_refuse) {
        for _ in 0..r.range(1, 3) {
            let (on, span) = match r.below(5) {
                0 => (Kind::Mail, sends),
                1 => (Kind::Eod, sends),
                2 => (Kind::Data, sends),
                _ => (Kind::Rcpt, rcpts),
            };
            let c = negative_code(r);
            let few = if r.below(2) == 0 { 3 } else { 1000 };
            let nth = r.below(span.min(few)) as u32;
            rules.push(Rule { on, nth, act: reply_act(r, c) });
        }
        if r.below(6) == 0 {
            // Every recipient of the first message is refused.
            let first = ops.iter().find_map(|o| if let What::Send { to, .. } = &o.what { Some(to.len()) } else { None });
            for i in 0..first.unwrap_or(0).min(40) {
                let c = negative_code(r);
                rules.push(Rule { on: Kind::Rcpt, nth: i as u32, act: reply_act(r, if c == 421 { 550 } else { c }) });
            }
        }
    }
    if sends > 0 && r.permille(k.p_refuse_data) {
        let on = if r.below(2) == 0 { Kind::Data } else { Kind::Eod };
        let c = negative_code(r);
        rules.push(Rule { on, nth: r.below(sends) as u32, act: reply_act(r, c) });
    }
    if logins > 0 && r.permille(k.p_refuse_auth) {
        let on = if r.below(3) == 0 { Kind::Sasl } else { Kind::Auth };
        let c = negative_code(r);
        rules.push(Rule { on, nth: r.below(3) as u32, act: reply_act(r, c) });
    }
    if with_tls && r.below(5) == 0 {
        let c = negative_code(r);
        rules.push(Rule { on: Kind::Starttls, nth: 0, act: reply_act(r, c) });
    }
    if r.below(12) == 0 {
        let c = negative_code(r);
        rules.push(Rule { on: Kind::Quit, nth: 0, act: reply_act(r, c) });
    }
    if r.permille(15) {
        let c = negative_code(r);
        rules.push(Rule { on: Kind::Rset, nth: 0, act: reply_act(r, c) });
    }
    if r.permille(k.p_custom_ok) {
        for _ in 0..r.range(1, 3) {
            let (on, code) = match r.below(10) {
                0 => (Kind::Greet, *r.pick(&[220u16, 200, 250, 259])),
                8 => (Kind::Rset, *r.pick(&[250u16, 200, 220])),
                9 => (Kind::Starttls, *r.pick(&[220u16, 250, 200])),
                1 => (Kind::Mail, *r.pick(&[250u16, 200, 251, 259])),
                2 | 3 => (Kind::Rcpt, *r.pick(&[250u16, 251, 252])),
                4 => (Kind::Data, *r.pick(&[354u16, 300, 359, 334])),
                5 => (Kind::Eod, *r.pick(&[250u16, 200, 211, 259])),
                6 => (Kind::Auth, *r.pick(&[235u16, 250])),
                _ => (Kind::Quit, *r.pick(&[221u16, 250, 200])),
            };
            // A reply to "AUTH LOGIN" ends the exchange early; that is a server's right.
            rules.push(Rule { on, nth: r.below(3) as u32, act: Act::Reply { code, lines: reply_lines(r), bare: r.below(2) == 0, close: false } });
        }
    }
    if r.permille(k.p_weird) {
        let (on, code) = match r.below(5) {
            0 | 1 => (Kind::Data, *r.pick(&[250u16, 200, 235, 252])),
            2 => (Kind::Eod, *r.pick(&[354u16, 334, 300])),
            3 => (if r.below(2) == 0 { Kind::Auth } else { Kind::Sasl }, *r.pick(&[354u16, 300, 335, 334, 334])),
            _ => (Kind::Starttls, *r.pick(&[354u16, 334, 320])),
        };
        let mut lines = reply_lines(r);
        if code == 334 && matches!(on, Kind::Auth | Kind::Sasl) {
            let first = r.pick(&["", "VXNlcm5hbWU6", "UGFzc3dvcmQ6", "e30=", "!", "UGFzc3dvcmQ= trailing words"]).to_string();
            lines = if r.below(5) == 0 { vec![first, "more".into()] } else { vec![first] };
        }
        rules.push(Rule { on, nth: r.below(2) as u32, act: Act::Reply { code, lines, bare: r.below(2) == 0, close: false } });
    }
    if smooth {
        rules.clear();
    }
    if r.permille(k.p_slow) {
        for _ in 0..r.range(1, 3) {
            let on = *r.pick(&[Kind::Greet, Kind::Ehlo, Kind::Mail, Kind::Rcpt, Kind::Data, Kind::Eod, Kind::Auth, Kind::Starttls]);
            rules.push(Rule { on, nth: r.below(3) as u32, act: Act::Delay(if r.below(6) == 0 { r.range(30_000_000, 4_000_000_000) } else { r.range(1000, 10_000_000) }) });
        }
    }
    if r.permille(k.p_extra) {
        let on = match prop {
            "C11" => Kind::Starttls,
            _ => *r.pick(&[Kind::Ehlo, Kind::Eod, Kind::Quit, Kind::Starttls, Kind::Starttls]),
        };
        rules.push(Rule { on, nth: 0, act: Act::Extra { bytes: extra_bytes(r) } });
        // The client need not read these before it goes on writing.
        l.s2c_cap = l.s2c_cap.max(4096);
    }
    Session {
        start_us: *r.pick(&[0u64, 0, 1000]),
        client,
        link: l,
        server,
        connect_cancel: None,
        ops,
        faults: vec![],
    }
}

/// Callers send the same thing again, or almost the same.
fn repeat(r: &mut Rng, ops: &mut [Op]) {
    for i in 1..ops.len() {
        if r.below(7) != 0 {
            continue;
        }
        let donor = ops[r.below(i as u64) as usize].what.clone();
        match (&mut ops[i].what, donor) {
            (What::Send { from, to, body, source }, What::Send { from: f, to: t, body: b, source: s }) => match r.below(7) {
                0 => (*from, *to, *body, *source) = (f, t, b, s),
                1 => (*from, *to) = (f, t),
                2 => (*body, *source) = (b, s),
                3 => (*from, *body, *source) = (f, b, s),
                4 => (*to, *body, *source) = (t, b, s),
                5 => {
                    // The same recipients in another order, or one less.
                    *to = t;
                    if to.len() > 1 && r.below(2) == 0 {
                        let at = r.below(to.len() as u64) as usize;
                        to.remove(at);
                    } else {
                        r.shuffle(to);
                    }
                }
                _ => {
                    // The sender of one message receives the next.
                    if let Some(f) = f {
                        to.insert(0, f);
                    }
                    if r.below(2) == 0 && !t.is_empty() {
                        *from = Some(t[0].clone());
                    }
                }
            },
            (What::Login { user, pass, mechs, direct }, What::Login { user: u, pass: p, mechs: m, direct: d }) => match r.below(4) {
                0 => (*user, *pass, *mechs, *direct) = (u, p, m, d),
                1 => *user = u,
                2 => *pass = p,
                _ => (*mechs, *direct) = (m, d),
            },
            _ => {}
        }
    }
}

pub struct Draft {
    pub sc: Scenario,
    pub wants_faults: bool,
    pub rng: Rng,
    pub knobs: Knobs,
}

/// Let later sessions resemble earlier ones: whatever might serve as a key for something kept
/// outside the session (server name, EHLO name, user, address, whole plan) is the same, while
/// something else differs.
fn relate(r: &mut Rng, k: &Knobs, ss: &mut [Session]) {
    for i in 1..ss.len() {
        if r.below(4) == 0 {
            continue;
        }
        let donor = ss[r.below(i as u64) as usize].clone();
        if r.below(2) == 0 {
            let texts = ss[i].server.texts;
            let greeting = ss[i].server.greeting;
            ss[i] = donor.clone();
            let s = &mut ss[i];
            s.server.texts = texts;
            match r.below(7) {
                0 => s.client.utf8 = !s.client.utf8,
                1 | 2 if !s.server.hold_to_data => {
                    if r.below(2) == 0 {
                        s.client.pipelining = !s.client.pipelining;
                    } else {
                        for e in s.server.ehlo.iter_mut() {
                            let name = e.name_line.clone();
                            *e = ehlo_plan(r, k);
                            e.name_line = name;
                        }
                    }
                    s.link.c2s_cap = s.link.c2s_cap.max(4096);
                    s.link.s2c_cap = s.link.s2c_cap.max(4096);
                }
                3 => s.server.rules.clear(),
                4 => s.server.greeting = greeting,
                _ => {
                    for o in s.ops.iter_mut() {
                        match &mut o.what {
                            What::Send { body, .. } => {
                                if let Some(b) = body.iter_mut().rev().find(|b| b.is_ascii_alphanumeric()) {
                                    *b = b'#';
                                }
                            }
                            What::Login { pass, .. } => *pass = format!("other{:016x}", r.next()),
                            _ => {}
                        }
                    }
                }
            }
            continue;
        }
        let s = &mut ss[i];
        if r.below(2) == 0 {
            for e in s.server.ehlo.iter_mut() {
                e.name_line = donor.server.ehlo[0].name_line.clone();
            }
        }
        if r.below(2) == 0 {
            s.client.hello = donor.client.hello.clone();
        }
        if r.below(2) == 0 {
            s.server.challenges = donor.server.challenges.clone();
        }
        let theirs = donor.ops.iter().find_map(|o| if let What::Login { user, .. } = &o.what { Some(user.clone()) } else { None });
        let mail = donor.ops.iter().find_map(|o| if let What::Send { from, to, .. } = &o.what { Some((from.clone(), to.clone())) } else { None });
        let (same_from, same_to) = (r.below(2) == 0, r.below(2) == 0 && !s.server.hold_to_data);
        for o in s.ops.iter_mut() {
            match (&mut o.what, &theirs, &mail) {
                (What::Login { user, pass, .. }, Some(t), _) if t != pass => *user = t.clone(),
                (What::Send { from, to, .. }, _, Some((f, t))) => {
                    if same_from && !s.server.hold_to_data {
                        *from = f.clone();
                    }
                    if same_to && t.len() < 8 {
                        *to = t.clone();
                    }
                }
                _ => {}
            }
        }
    }
}

fn crowd_size(r: &mut Rng, permille: u32) -> u64 {
    if !r.permille(permille) {
        return 0;
    }
    match r.below(100) {
        0 => r.range(120, 270),
        1..=6 => r.range(20, 70),
        _ => r.range(5, 12),
    }
}

/// Many sessions, most of which fare alike: whatever the process counts, limits or gives up
/// after a few of them must not matter to the others.
fn crowd(r: &mut Rng, k: &Knobs, prop: &str, n: u64) -> Vec<Session> {
    let mut k = k.clone();
    k.ops_max = 3;
    k.p_huge_env = 0;
    k.p_big = 0;
    let on = *r.pick(&[Kind::Greet, Kind::Ehlo, Kind::Mail, Kind::Rcpt, Kind::Data, Kind::Eod, Kind::Auth, Kind::Auth, Kind::Sasl, Kind::Starttls, Kind::Quit]);
    let wanted = |s: &Session| match on {
        Kind::Greet | Kind::Ehlo => true,
        Kind::Auth | Kind::Sasl => {
            has_keyword(&s.server.ehlo[0], "AUTH") && s.ops.iter().any(|o| matches!(&o.what, What::Login { mechs, .. } if !mechs.is_empty()))
        }
        Kind::Starttls => s.ops.iter().any(|o| matches!(o.what, What::Starttls)),
        Kind::Quit => s.ops.iter().any(|o| matches!(o.what, What::Quit)),
        _ => s.ops.iter().any(|o| matches!(o.what, What::Send { .. })),
    };
    let mut donor = session(r, &k, prop);
    for _ in 0..30 {
        if wanted(&donor) && donor.ops.len() < 20 {
            break;
        }
        donor = session(r, &k, prop);
    }
    donor.ops.truncate(20);
    let code = (r.range(4, 5) * 100 + r.below(6) * 10 + r.below(10)) as u16;
    let act = match r.below(8) {
        0..=3 => Some(reply_act(r, code)),
        4 => Some(Act::CloseNoReply),
        5 => Some(Act::ResetNoReply),
        6 => Some(malformed(r)),
        _ => None,
    };
    (0..n)
        .map(|i| {
            if n < 20 && r.below(4) == 0 {
                return session(r, &k, prop);
            }
            let mut s = donor.clone();
            s.server.texts = r.next();
            // The last ones fare well.
            if let (Some(act), true) = (&act, i + 1 < n && r.below(8) != 0) {
                s.server.rules.retain(|x| x.on != on);
                for nth in 0..4 {
                    s.server.rules.push(Rule { on, nth, act: act.clone() });
                }
            }
            s
        })
        .collect()
}

fn sessions_len(sc: &Scenario) -> usize {
    sc.sessions.iter().map(|s| s.ops.len()).max().unwrap_or(0)
}

pub fn draft(prop: &str, seed: u64) -> Draft {
    let mut r = Rng::new(seed, 1);
    let k = Knobs::for_property(prop);
    let n = if r.permille(k.p_multi) { r.range(2, k.sessions_max) } else { 1 };
    let large = if k.p_crowd > 0 { crowd_size(&mut r, k.p_crowd) } else { 0 };
    let mut sessions: Vec<Session> =
        if large > 0 { crowd(&mut r, &k, prop, large) } else { (0..n).map(|_| session(&mut r, &k, prop)).collect() };
    if n > 1 {
        if large == 0 && r.below(3) != 0 {
            relate(&mut r, &k, &mut sessions);
        }
        let apart = *r.pick(&[0u64, 0, 0, 300_000, 100_000_000]);
        for (i, s) in sessions.iter_mut().enumerate() {
            s.start_us = r.below(3000) + apart * i as u64;
        }
    }
    let sc = Scenario { seed: r.next(), logging: r.below(4) == 0, sessions };
    let marathon = sessions_len(&sc) >= 100;
    let wants_faults = r.permille(if marathon { k.p_fault_run / 3 } else { k.p_fault_run });
    Draft { sc, wants_faults, rng: r, knobs: k }
}

/// Aim faults using what the fault-free execution did.
pub fn place_faults(d: &mut Draft, dry: &World) {
    let r = &mut d.rng;
    let k = &d.knobs;
    for (sid, s) in d.sc.sessions.iter_mut().enumerate() {
        let ds = &dry.ss[sid];
        let mut any = false;
        // Server-side failures.
        if r.permille(k.p_act_fault) {
            any = true;
            let us = &ds.server.units;
            if !us.is_empty() {
                let pick = r.below(us.len() as u64) as usize;
                let on = us[pick].kind;
                let nth = us[..pick].iter().filter(|u| u.kind == on).count() as u32;
                let rl = us[pick].reply.as_ref().map(|p| p.end - p.start).unwrap_or(1);
                let act = if r.permille(k.p_malformed * 2) {
                    if r.below(3) == 0 {
                        cut_off(r)
                    } else {
                        malformed(r)
                    }
                } else {
                    match r.below(6) {
                        0 | 1 => Act::Truncate(r.below(rl) as usize),
                        2 => Act::CloseNoReply,
                        3 => Act::ResetNoReply,
                        4 => Act::Blackhole,
                        _ => Act::Delay(r.range(1_000_000, 100_000_000)),
                    }
                };
                let black = act == Act::Blackhole;
                s.server.rules.retain(|x| !(x.on == on && x.nth == nth));
                s.server.rules.push(Rule { on, nth, act });
                if black {
                    s.connect_cancel = Some(Cancel::Micros(r.range(30_000_000, 90_000_000)));
                    for o in s.ops.iter_mut() {
                        o.cancel = Some(Cancel::Micros(r.range(30_000_000, 90_000_000)));
                    }
                }
            }
        }
        if r.permille(k.p_cancel) {
            any = true;
            let n = if r.below(4) == 0 { 2 } else { 1 };
            for _ in 0..n {
                place_cancel(r, s, ds);
            }
        }
        if r.permille(k.p_link_fault) || !any {
            let n = if r.below(4) == 0 { 2 } else { 1 };
            for _ in 0..n {
                let f = link_fault(r, ds);
                s.faults.push(f);
            }
        }
    }
}

fn place_cancel(r: &mut Rng, s: &mut Session, ds: &crate::world::Sess) {
    let cands: Vec<usize> = (0..ds.ops.len()).filter(|&i| ds.ops[i].kind != OpKind::New2).collect();
    if cands.is_empty() {
        return;
    }
    let mut i = *r.pick(&cands);
    // What was interrupted before an upgrade matters to the upgrade.
    if let Some(t) = ds.ops.iter().position(|o| o.kind == OpKind::Starttls) {
        if t > 1 && r.below(3) == 0 {
            i = r.range(1, t as u64 - 1) as usize;
        }
    }
    if ds.ops[i].kind == OpKind::New && r.below(6) != 0 {
        i = *r.pick(&cands);
    }
    let o = &ds.ops[i];
    let dur = o.end_us - o.start_us;
    let c = match r.below(8) {
        0 => Cancel::Polls(r.below(o.polls as u64 + 2) as u32),
        1 => Cancel::Polls(r.below((o.polls as u64 + 1).min(4)) as u32),
        2 | 3 => Cancel::Micros(r.range(1, dur + dur / 4 + 2)),
        4 | 5 => {
            // At a command boundary or one byte around it.
            let mut b: Vec<u64> = ds
                .server
                .units
                .iter()
                .flat_map(|u| [u.start, u.end])
                .filter(|&x| x >= o.out_start && x <= o.out_end)
                .map(|x| x - o.out_start)
                .collect();
            b.push(o.out_end - o.out_start);
            b.push(r.below(o.out_end - o.out_start + 1));
            if r.below(3) == 0 {
                b.extend(ds.write_starts.iter().filter(|&&x| x >= o.out_start && x <= o.out_end).map(|x| x - o.out_start));
            }
            let x = *r.pick(&b);
            Cancel::Written((x + r.below(3)).saturating_sub(1))
        }
        _ => {
            let mut b: Vec<u64> = ds
                .server
                .units
                .iter()
                .filter_map(|u| u.reply.as_ref())
                .flat_map(|p| [p.start, p.end])
                .filter(|&x| x >= o.cons_start && x <= o.cons_end)
                .map(|x| x - o.cons_start)
                .collect();
            b.push(r.below(o.cons_end - o.cons_start + 1));
            if r.below(3) == 0 {
                let (from, to) = (o.cons_start as usize, (o.cons_end as usize).min(ds.raw_s2c.len()));
                b.extend((from..to.max(from)).filter(|&i| ds.raw_s2c[i] == b'\n').map(|i| (i + 1 - from) as u64));
            }
            let x = *r.pick(&b);
            Cancel::Consumed((x + r.below(3)).saturating_sub(1))
        }
    };
    if o.plan == usize::MAX {
        s.connect_cancel = Some(c);
    } else {
        s.ops[o.plan].cancel = Some(c);
    }
}

fn link_fault(r: &mut Rng, ds: &crate::world::Sess) -> Fault {
    let dir = if r.below(2) == 0 { Dir::C2S } else { Dir::S2C };
    let mut b: Vec<u64> = match dir {
        Dir::C2S => ds.server.units.iter().flat_map(|u| [u.start, u.end]).collect(),
        Dir::S2C => ds
            .server
            .units
            .iter()
            .filter_map(|u| u.reply.as_ref())
            .flat_map(|p| [p.start, p.end])
            .collect(),
    };
    let total = match dir {
        Dir::C2S => ds.c2s.written,
        Dir::S2C => ds.s2c.written,
    };
    if b.is_empty() || r.below(3) == 0 {
        b = vec![r.below(total + 1)];
    }
    let mut at = (*r.pick(&b) + r.below(3)).saturating_sub(1);
    if r.below(4) == 0 {
        // Where a call of write began, a line of the content starts with a dot, or a line of a
        // reply ends.
        let places: Vec<u64> = match dir {
            Dir::C2S if r.below(2) == 0 => ds.write_starts.clone(),
            Dir::C2S => ds.raw_c2s.windows(2).enumerate().filter(|(_, w)| w == b"\n.").map(|(i, _)| i as u64 + 1 + r.below(2)).collect(),
            Dir::S2C => ds.raw_s2c.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(i, _)| i as u64 + r.below(2)).collect(),
        };
        if !places.is_empty() {
            at = *r.pick(&places);
        }
    }
    let what = match dir {
        Dir::C2S => match r.below(9) {
            8 => FaultKind::Dead(if r.below(2) == 0 { 0 } else { r.below(10) as u8 }),
            0 | 1 => FaultKind::Reset,
            2 | 3 => FaultKind::ErrOnce(r.below(9) as u8),
            4 => FaultKind::WriteZero,
            5 => FaultKind::FlushErr,
            _ => FaultKind::Stall(r.range(1000, 60_000_000)),
        },
        Dir::S2C => match r.below(7) {
            6 => FaultKind::Dead(r.below(9) as u8),
            0 => FaultKind::Reset,
            1 | 2 => FaultKind::Eof,
            3 | 4 => FaultKind::ErrOnce(r.below(9) as u8),
            _ => FaultKind::Stall(r.range(1000, 60_000_000)),
        },
    };
    Fault { dir, at, what }
}

#[allow(dead_code)]
pub fn text(r: &mut Rng) -> String {
    gen_text(r, "t")
}
